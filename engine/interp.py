"""Abstract interpreter over the exported, type-resolved program.

Works on whole functions with symbolic sizes: straight-line code by value
flow, branches by guarded merges, loops by scalar evolution and array layer
summaries (loops.py).  Nothing of the library is executed."""
import json, os, re
from values import *
from loops import Loops


class NoFun(Exception):
    pass


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.funs, self.types, self.recs, self.vars, self.files = (
            d['funs'], d['types'], d['recs'], d['vars'], d['files'])
        self.varv = {v['name']: v for v in self.vars}
        for i, f in enumerate(self.funs):
            f['id'] = i
        self._rn = {}
        self._sl = None

    def staticlocals(self):
        """(function, declaration) of the local variables with static storage"""
        if self._sl is None:
            self._sl = []

            def walk(i, x):
                if isinstance(x, list):
                    for y in x:
                        walk(i, y)
                elif isinstance(x, dict):
                    if x.get('k') == 'decl':
                        for d in x['d']:
                            if d.get('static') and self.types[d['type']]['k'] not in ('ref', 'rref'):
                                self._sl.append((i, d))
                    for k, y in x.items():
                        if isinstance(y, (list, dict)):
                            walk(i, y)
            for i, f in enumerate(self.funs):
                if f.get('rec') is not None and self.recs[f['rec']]['short'] == 'Logger':
                    continue
                if f.get('body') is not None:
                    walk(i, f['body'])
        return self._sl

    def tname(self, t):
        return self.types[t]['s'] if t is not None and t >= 0 else '?'

    def ty(self, t):
        return self.types[t]

    def strip(self, t):
        """type with references removed"""
        while self.types[t]['k'] in ('ref', 'rref'):
            t = self.types[t]['to']
        return t

    def recname(self, r):
        x = self.recs[r]
        n = x['short']
        ta = []
        for a in x['targs']:
            if 'i' in a:
                ta.append(a['i'])
            elif 't' in a:
                ta.append(self.shortty(a['t']))
        return n + ('<%s>' % ','.join(ta) if ta else '')

    def shortty(self, t):
        x = self.types[t]
        if x['k'] == 'rec':
            r = self.recs[x['rec']]
            if r['short'] in ('vector', 'basic_string'):
                a = r['targs'][0]
                return '%s<%s>' % (r['short'], self.shortty(a['t']))
            return self.recname(x['rec'])
        if x['k'] in ('ref', 'rref'):
            return self.shortty(x['to']) + '&'
        if x['k'] == 'ptr':
            return self.shortty(x['to']) + '*'
        s = x['s'].replace('const ', '').replace(' const', '')
        return {'unsigned long': 'size_t', 'unsigned int': 'uint'}.get(s, s)

    def find(self, short, rec=None, params=None, nparams=None, cst=None, targs=None,
             many=False):
        out = []
        for f in self.funs:
            if f.get('short') != short or not f.get('lib') or f.get('body') is None:
                continue
            if rec is not None:
                if f.get('rec') is None or self.recname(f['rec']) != rec:
                    continue
            elif f.get('rec') is not None and rec is None and not many:
                pass
            ps = [self.shortty(p['type']) for p in f['params']]
            if params is not None and ps != list(params):
                continue
            if nparams is not None and len(ps) != nparams:
                continue
            if cst is not None and bool(f.get('cst')) != cst:
                continue
            out.append(f)
        if many:
            return out
        if len(out) != 1:
            raise NoFun('%d candidates for %s::%s%s' % (len(out), rec, short, params or ''))
        return out[0]

    def loc(self, x):
        l = x.get('l') if isinstance(x, dict) else None
        if not l:
            return '?'
        f = self.files[l[0]]
        m = re.search(r'bezman/(src/.*)', f)
        return '%s:%d' % (m.group(1) if m else f, l[1])


class Frame:
    def __init__(self, fun, this):
        self.fun = fun
        self.this = this
        self.env = {}
        self.returns = []
        self.throws = []
        self.loops = []
        self.pcbase = 0


class LoopCtx:
    def __init__(self):
        self.breaks = []
        self.conts = []
        self.pcbase = 0


def grows(v):
    """not affine in plain quantities"""
    for m, c in v.t.items():
        n = 0
        for a, e in m:
            if a.k != 'sym' and not (a.k == 'fn' and a.name in ('wrap', 'min', 'max')):
                return a.k != 'fn' or a.name == 'binom'
            n += e if isinstance(e, int) else 9
        if n > 1:
            return True
    return False


BORN = []               # interpreters of the running case, in order of creation
AGED = None             # static storage left by earlier calls, per interpreter
OPERANDS = []           # spline operands of the running case: (bench, kit, reference, getters)
RESULTS = []            # spline results read by the running case: (interpreter, kit, reference, value)
REUSED = None           # operands as the earlier calls left them
SIZES = []              # integer symbols of the running case, in order of creation
NSIZE = 0               # how many of them this run of the case has asked for


def begin(again=False):
    """a case starts (again: once more, over the same sizes)"""
    global AGED, REUSED, NSIZE
    AGED = REUSED = None
    NSIZE = 0
    del BORN[:], OPERANDS[:], RESULTS[:]
    if not again:
        del SIZES[:]


def size(name, lo, hi):
    global NSIZE
    if NSIZE < len(SIZES) and (SIZES[NSIZE].name, SIZES[NSIZE].lo, SIZES[NSIZE].hi) == (name, lo, hi):
        x = SIZES[NSIZE]
    else:
        x = S.Sym(name, 'int', lo, hi)
        del SIZES[NSIZE:]
        SIZES.append(x)
    NSIZE += 1
    return x


def harvest():
    """static storage after the calls of the case, over other inputs; None when nothing is kept"""
    out = []
    for it in BORN:
        d = {}
        memo = {}
        for k in it.statics:
            v = it.st.get(k)
            if v is None or isinstance(v, Opq):
                continue
            ls = dleaves(v)
            if it.statics[k] is v or not any(all_atoms(x) for x in ls) and repr(it.statics[k]) == repr(v):
                continue
            d[k] = tmap(lambda x: earlier(x, memo), v)
        out.append(d)
    return out if any(out) else None


class Interp(Loops):
    history = True

    def __init__(self, prog, hooks=None):
        self.p = prog
        self.statics = {}               # first value of each variable with static storage
        self.aged = {}
        if self.history:
            if AGED is not None and len(BORN) < len(AGED):
                self.aged = AGED[len(BORN)]
            BORN.append(self)
        self.hooks = hooks or []
        self.st = {}
        self.cty = {}
        self.ncell = itertools.count(1)
        self.frames = []
        self.pc = []
        self.record = True
        self.lenient = False
        self.obs = []
        self.events = []
        self.notes = []
        self.depth = 0
        self.hookcache = {}
        self.analysed = set()
        self.curloc = '?'
        self.pending_env = None
        self.raw = False
        self.dead = False
        self.loopstat = {'summarised': 0, 'unrolled': 0}
        self.budget = None
        self.views = []
        self.entered = []
        self.rounding = True
        self.indices = True          # record index obligations
        self.force = False
        self.looping = 0
        self.prepared = False
        self.inductive = None        # rule for loops that repeat one contract

    # ------------------------------------------------------------- store ---
    def new(self, v, t, name=''):
        c = '%s#%d' % (name, next(self.ncell))
        self.st[c] = v
        self.cty[c] = t
        return Ref(c)

    def elemty(self, t):
        x = self.p.types[t]
        if x['k'] == 'carr':
            return x['to']
        if x['k'] == 'rec':
            r = self.p.recs[x['rec']]
            if r['short'] in ('array', 'vector', 'basic_string'):
                return r['targs'][0]['t']
            if r['bases']:
                return self.elemty(r['bases'][0])
        return None

    def step(self, v, s, st=None):
        if s[0] == 'f':
            if isinstance(v, Obj):
                if s[1] not in v.f:
                    raise Unsup('field ' + s[1])
                return v.f[s[1]]
        elif s[0] == 'b':
            if isinstance(v, Obj):
                return v.f[s]
        elif s[0] == 'a':
            if isinstance(v, Obj) and ('b', 0) in v.f:
                v = v.f[('b', 0)]
            if isinstance(v, ArrV):
                i = s[1].as_int()
                if i is not None:
                    if 0 <= i < len(v.e):
                        return v.e[i]
                    return self.outofrange(v)
                if not v.e:
                    raise Unsup('empty array')
                if len(v.e) > 8 and all(isinstance(x, P) and x.as_int() is not None for x in v.e):
                    return fn('lut', (tuple(x.as_int() for x in v.e), s[1]), 'int')
                r = v.e[-1]
                for j in range(len(v.e) - 2, -1, -1):
                    r = tmerge(simp(eq0(s[1] - j)), v.e[j], r)
                return r
            if isinstance(v, VecV):
                if v.c.base[0] == 'list' and not v.c.layers and s[1].as_int() is not None \
                        and not 0 <= s[1].as_int() < len(v.c.base[1]):
                    return self.outofrange(v)
                try:
                    return cread(v.c, s[1])
                except Unsup as e:
                    return self.havoc_elem(v, str(e))
        raise Unsup("path step %r on %s" % (s, type(v).__name__))

    def havoc_elem(self, v, why):
        t = self.zero(v.ety)
        return tmap(lambda x: UNK(why, leaf_sort(x)) if isinstance(x, P)
                    else Cond('opq', 'unk', (UNK(why),)), t)

    def outofrange(self, v):
        if isinstance(v, ArrV) and v.e:
            t = v.e[0]
        elif isinstance(v, VecV):
            t = self.zero(v.ety)
        else:
            raise Unsup('out of range')
        return tmap(lambda x: UNK('out of range', leaf_sort(x)) if isinstance(x, P)
                    else Cond('opq', 'unk', (UNK(),)), t)

    def upd(self, v, path, new):
        if not path:
            return new
        s = path[0]
        if s[0] in ('f', 'b'):
            k = s[1] if s[0] == 'f' else s
            if not isinstance(v, Obj):
                raise Unsup('update of %s' % type(v).__name__)
            f = dict(v.f)
            f[k] = self.upd(v.f[k] if len(path) > 1 else None, path[1:], new)
            return Obj(v.rec, f)
        if s[0] == 'a':
            if isinstance(v, Obj) and ('b', 0) in v.f:
                f = dict(v.f)
                f[('b', 0)] = self.upd(f[('b', 0)], path, new)
                return Obj(v.rec, f)
            i = s[1].as_int()
            if isinstance(v, ArrV):
                if i is not None:
                    if not 0 <= i < len(v.e):
                        return v
                    e = list(v.e)
                    e[i] = self.upd(e[i], path[1:], new)
                    return ArrV(e)
                e = []
                for j, x in enumerate(v.e):
                    c = simp(eq0(s[1] - j))
                    if c.k == 'false':
                        e.append(x)
                    else:
                        e.append(tmerge(c, self.upd(x, path[1:], new), x))
                return ArrV(e)
            if isinstance(v, VecV):
                if v.c.base[0] == 'list' and not v.c.layers and i is not None \
                        and not 0 <= i < len(v.c.base[1]):
                    return v
                old = self.step(v, s) if len(path) > 1 else None
                nv = self.upd(old, path[1:], new)
                return VecV(v.ln, cwrite(v.c, s[1], nv), v.ety)
        raise Unsup('update step %r on %s' % (s, type(v).__name__))

    def load(self, ref, loc=None):
        v = self.st.get(ref.cell)
        if v is None:
            raise Unsup('dead cell ' + str(ref.cell))
        for s in ref.path:
            v = self.step(v, s)
        return v

    def store(self, ref, val):
        v = self.st.get(ref.cell)
        if v is None and ref.path:
            raise Unsup('store to dead cell')
        self.st[ref.cell] = self.upd(v, ref.path, val)

    def typeat(self, cell, path):
        t = self.p.strip(self.cty[cell])
        for s in path:
            x = self.p.types[t]
            if s[0] == 'f':
                r = self.p.recs[x['rec']]
                for fl in r['fields']:
                    if fl['name'] == s[1]:
                        t = fl['type']
                        break
                else:
                    return None
            elif s[0] == 'b':
                t = self.p.recs[x['rec']]['bases'][s[1]]
            elif s[0] == 'a':
                t = self.elemty(t)
            if t is None:
                return None
            t = self.p.strip(t)
        return t

    def sortof(self, t):
        if t is None:
            return None
        k = self.p.types[self.p.strip(t)]['k']
        return {'int': 'int', 'uint': 'int', 'enum': 'int', 'float': 'real',
                'bool': 'bool'}.get(k)

    def zero(self, t, unk=False):
        """value-initialised value of a type"""
        x = self.p.types[t]
        k = x['k']
        if k in ('int', 'uint', 'enum'):
            return UNK('uninitialised', 'int') if unk else S.ZERO
        if k == 'float':
            return UNK('uninitialised') if unk else S.ZERO
        if k == 'bool':
            return Cond('opq', 'unk', (UNK('uninitialised'),)) if unk else S.FALSE
        if k == 'carr':
            return ArrV([self.zero(x['to'], unk)] * x['n'])
        if k == 'ptr':
            return Ptr(None)
        if k == 'rec':
            r = self.p.recs[x['rec']]
            sh = r['short']
            if sh == 'array' and not r['lib']:
                n = int(r['targs'][1]['i'])
                if n > 600:
                    raise Unsup('large array')
                return ArrV([self.zero(r['targs'][0]['t'], unk)] * n)
            if sh == 'vector':
                return VecV(0, c_list([]), r['targs'][0]['t'])
            if sh == 'basic_string':
                return VecV(0, c_list([]), r['targs'][0]['t'])
            if r['lib']:
                f = {}
                for i, b in enumerate(r['bases']):
                    f[('b', i)] = self.zero(b, unk)
                for fl in r['fields']:
                    if fl.get('init') is not None:
                        f[fl['name']] = self.rv(self.ev(fl['init']))
                    else:
                        f[fl['name']] = self.zero(fl['type'], unk)
                return Obj(x['rec'], f)
            return Opq(sh if sh in self.FOBJ else r['name'])
        return Opq(x['s'])

    # -------------------------------------------------------------- calls ---
    def hook(self, fun):
        i = fun['id']
        if i in self.hookcache:
            return self.hookcache[i]
        h = None
        for pred, hd in self.hooks:
            if pred(self.p, fun):
                h = hd
                break
        self.hookcache[i] = h
        return h

    def guard_here(self):
        return c_and(*self.pc)

    def ob(self, kind, cond, loc, what=''):
        """obligation: cond must hold here"""
        if not self.record:
            return
        c = simp(cond)
        self.obs.append({'kind': kind, 'cond': cond, 'ok': c.k == 'true',
                         'facts': [] if c.k == 'true' else list(CTX.facts), 'loc': loc, 'what': what,
                         'fun': self.frames[-1].fun['name'] if self.frames else '?'})

    def call(self, fun, this, args, loc='?'):
        """args: list of Ref for reference parameters, values otherwise"""
        penv, self.pending_env = self.pending_env, None
        raw, self.raw = self.raw, False
        try:
            return self.call2(fun, this, args, loc, penv)
        finally:
            self.raw = raw

    def call2(self, fun, this, args, loc, penv):
        if not self.prepared:
            self.prepare()
        h = self.hook(fun)
        if h is not None:
            r = h(self, fun, this, args, loc)
            if r is not NotImplemented:
                return r
        if fun.get('body') is None:
            raise Unsup('no body: ' + fun['name'])
        if len(self.frames) > 40:
            raise Unsup('recursion')
        if self.budget is not None:
            self.budget -= 1
            if self.budget < 0:
                raise Unsup('budget')
        if sum(1 for f in self.frames if f.fun is fun) > 6:
            raise Unsup('recursive call of ' + fun['name'])
        self.analysed.add(fun['id'])
        if fun['id'] not in self.entered:
            self.entered.append(fun['id'])
        self.analysed.add(fun['id'])
        fr = Frame(fun, this)
        fr.pcbase = len(self.pc)
        if penv:
            fr.env.update(penv)
        for p, a in zip(fun['params'], args):
            k = self.p.types[p['type']]['k']
            if k in ('ref', 'rref'):
                if not isinstance(a, Ref):
                    a = self.new(a, self.p.strip(p['type']), p['name'] or 'arg')
                fr.env[p['id']] = a
            else:
                fr.env[p['id']] = self.new(self.rv(a), p['type'], p['name'] or 'arg')
        self.frames.append(fr)
        m, npc = CTX.mark(), len(self.pc)
        try:
            if fun.get('ctor'):
                self.ctor_inits(fun, this)
            alive = self.exec(fun['body'])
            rt = self.p.types[fun['ret']]
            outs = list(fr.returns)
            if alive:
                outs.append((c_and(*self.pc[npc:]), None, self.st))
            if not outs:
                self.dead = True
                val = None
            else:
                g, val, st = outs[-1]
                for g2, v2, st2 in reversed(outs[:-1]):
                    if v2 is not None and val is not None:
                        if isinstance(v2, Ref) and isinstance(val, Ref):
                            if v2 != val:
                                raise Unsup('merge of references')
                        else:
                            val = tmerge(g2, v2, val)
                    elif val is None:
                        val = v2
                    if st2 is not st:
                        st = self.merge_stores(g2, st2, st)
                self.st = st
                self.dead = False
        finally:
            self.frames.pop()
            CTX.reset(m)
            pre = self.pc[:npc]
            del self.pc[npc:]
        if not self.frames:
            self.thrown = list(fr.throws)       # conditions under which the outermost call throws
        # frame facts: not thrown
        for g in fr.throws:
            if self.frames:
                self.frames[-1].throws.append(c_and(*(pre[self.fstart():] + [g])))
            n = c_not(g)
            if n.k != 'true' and not has_unk(g):
                CTX.push(n)
        if self.dead:
            raise DeadCode()
        return val

    def merge_stores(self, c, a, b):
        if a is b:
            return a
        out = {}
        for k in a:
            if k in b:
                x, y = a[k], b[k]
                if x is y:
                    out[k] = x
                else:
                    try:
                        out[k] = tmerge(c, x, y)
                    except Unsup:
                        out[k] = Opq('merge')
            else:
                out[k] = a[k]
        for k in b:
            if k not in a:
                out[k] = b[k]
        return out

    def ctor_inits(self, fun, this):
        rec = self.p.recs[fun['rec']]
        done = set()
        for i in fun.get('inits', []):
            if i.get('deleg'):
                v = self.rv(self.ev(i['e']))
                self.store(this, v)
                return
            if 'field' in i:
                t = [f['type'] for f in rec['fields'] if f['name'] == i['field']][0]
                self.store(this.sub(('f', i['field'])), self.init_val(i['e'], t))
                done.add(i['field'])
            else:
                bi = rec['bases'].index(i['base'])
                self.store(this.sub(('b', bi)), self.init_val(i['e'], i['base']))

    def bound(self, e, t):
        """initialiser of a reference: a list of one element binds to the element"""
        while e['k'] == 'ilist' and len(e['a']) == 1:
            a = e['a'][0]
            x, y = self.p.types[self.p.strip(t)], a.get('t') is not None and self.p.types[self.p.strip(a['t'])]
            if x['k'] == 'carr' or x['k'] == 'rec' and not (y and y['k'] == 'rec' and y['rec'] == x['rec']):
                break
            e = a
        return self.ev(e)

    def init_val(self, e, t):
        """value initialising an object of type t"""
        if e is None:
            return self.zero(t, True)
        x = self.p.types[t]
        if x['k'] in ('ref', 'rref'):
            return self.bound(e, t)
        if e['k'] == 'ilist':
            return self.ilist(e, t)
        return self.rv(self.ev(e))

    def ilist(self, e, t):
        t = self.p.strip(t)
        x = self.p.types[t]
        if x['k'] == 'carr':
            xs = [self.init_val(a, x['to']) for a in e['a']]
            if len(xs) < x['n']:
                fill = self.init_val(e['fill'], x['to']) if e.get('fill') else self.zero(x['to'])
                xs += [fill] * (x['n'] - len(xs))
            return ArrV(xs[:x['n']])
        if x['k'] == 'rec':
            r = self.p.recs[x['rec']]
            if len(e['a']) == 1 and e['a'][0].get('t') is not None:
                at = self.p.types[self.p.strip(e['a'][0]['t'])]
                if at['k'] == 'rec' and at['rec'] == x['rec']:
                    return self.init_val(e['a'][0], t)
            if r['short'] == 'array' and not r['lib']:
                n = int(r['targs'][1]['i'])
                if not e['a']:
                    return self.zero(t)
                if len(e['a']) == 1:
                    a = e['a'][0]
                    at = a.get('t')
                    if at is not None and self.p.types[self.p.strip(at)]['k'] == 'carr':
                        v = self.init_val(a, self.p.strip(at))
                        if isinstance(v, ArrV):
                            return v
                v = ArrV([self.init_val(a, r['targs'][0]['t']) for a in e['a']])
                if len(v.e) == n:
                    return v
            elif r['lib']:
                f = {}
                names = [('b', i) for i in range(len(r['bases']))] + [q['name'] for q in r['fields']]
                tys = list(r['bases']) + [q['type'] for q in r['fields']]
                for j, (nm, ty) in enumerate(zip(names, tys)):
                    f[nm] = self.init_val(e['a'][j], ty) if j < len(e['a']) else self.zero(ty)
                return Obj(x['rec'], f)
            elif r['short'] in self.FOBJ:
                return Opq(r['short'])
        if x['k'] in ('int', 'uint', 'float', 'bool', 'enum', 'ptr'):
            return self.init_val(e['a'][0], t) if e['a'] else self.zero(t)
        raise Unsup('initialiser list for ' + x['s'])

    # ---------------------------------------------------------- statements ---
    def exec(self, s):
        """True if control can continue"""
        if s is None:
            return True
        if 'l' in s:
            self.curloc = s
        k = s['k']
        try:
            return getattr(self, 'x_' + k)(s)
        except DeadCode:
            return False

    def x_block(self, s):
        for x in s['b']:
            if not self.exec(x):
                return False
        return True

    def x_expr(self, s):
        self.ev(s['e'])
        return True

    def x_decl(self, s):
        fr = self.frames[-1]
        for d in s['d']:
            t = d['type']
            x = self.p.types[t]
            if d.get('decomp'):
                raise Unsup('structured binding')
            if d.get('static') and x['k'] not in ('ref', 'rref'):
                key = 'static:%d' % d['id']
                if key not in self.st:
                    if self.looping:
                        raise Unsup('static local in a loop')
                    v = self.aged[key] if key in self.aged else self.rv(self.init_val(d.get('init'), t))
                    self.st[key] = v
                    self.cty[key] = t
                    self.statics[key] = v
                fr.env[d['id']] = Ref(key)
                continue
            if x['k'] in ('ref', 'rref'):
                r = self.bound(d['init'], t)
                if not isinstance(r, Ref):
                    r = self.new(r, self.p.strip(t), d['name'])
                fr.env[d['id']] = r
            else:
                v = self.init_val(d.get('init'), t)
                fr.env[d['id']] = self.new(self.rv(v), t, d['name'])
        return True

    def x_return(self, s):
        fr = self.frames[-1]
        v = None
        if s.get('e') is not None:
            rt = self.p.types[fr.fun['ret']]
            if rt['k'] in ('ref', 'rref'):
                v = self.bound(s['e'], fr.fun['ret'])
            else:
                v = self.init_val(s['e'], fr.fun['ret'])
                v = self.rv(v)
        fr.returns.append((c_and(*self.pc[self.fstart():]), v, self.st))
        return False

    def fstart(self):
        return self.frames[-1].pcbase if self.frames else 0

    def branch(self, c, f1, f2):
        """execute f1 under c, f2 under not c and merge; f: () -> alive"""
        base = self.st
        m, n = CTX.mark(), len(self.pc)
        self.st = dict(base)
        CTX.push(c)
        self.pc.append(c)
        try:
            a1 = f1()
        except DeadCode:
            a1 = False
        s1 = self.st
        extra1 = self.pc[n + 1:]
        CTX.reset(m)
        del self.pc[n:]
        nc = c_not(c)
        self.st = dict(base)
        CTX.push(nc)
        self.pc.append(nc)
        try:
            a2 = f2()
        except DeadCode:
            a2 = False
        s2 = self.st
        extra2 = self.pc[n + 1:]
        CTX.reset(m)
        del self.pc[n:]
        if a1 and a2:
            self.st = self.merge_stores(c, s1, s2)
            if extra1 or extra2:
                g = c_or(c_and(c, *extra1), c_and(nc, *extra2))
                self.pc.append(g)
                CTX.push(g)
            return True
        if a1:
            self.st = s1
            for x in [c] + extra1:
                CTX.push(x)
                self.pc.append(x)
            return True
        if a2:
            self.st = s2
            for x in [nc] + extra2:
                CTX.push(x)
                self.pc.append(x)
            return True
        return False

    def x_if(self, s):
        if s.get('init') is not None:
            self.exec(s['init'])
        if s.get('cv') is not None:
            self.exec(s['cv'])
        c = simp(self.cond(s['c']))
        if c.k == 'true':
            return self.exec(s['t'])
        if c.k == 'false':
            return self.exec(s.get('e'))
        return self.branch(c, lambda: self.exec(s['t']), lambda: self.exec(s.get('e')))

    def x_for(self, s):
        if s.get('init') is not None:
            if not self.exec(s['init']):
                return False
        return self.loop(s, s.get('c'), s['b'], s.get('inc'))

    def x_while(self, s):
        return self.loop(s, s['c'], s['b'], None)

    def x_do(self, s):
        if not self.body_once(s['b'], None):
            return False
        return self.loop(s, s['c'], s['b'], None)

    def x_rangefor(self, s):
        r = self.ev(s['range'])
        if not isinstance(r, Ref):
            r = self.new(r, self.p.strip(s['range']['t']), 'range')
        v = self.load(r)
        if isinstance(v, Obj) and ('b', 0) in v.f:
            v = v.f[('b', 0)]
            r = r.sub(('b', 0))
        if isinstance(v, ArrV):
            n = P.of(len(v.e))
        elif isinstance(v, VecV):
            n = v.ln
        else:
            raise Unsup('range for over %s' % type(v).__name__)
        cnt = self.new(S.ZERO, self.size_t(), 'range_i')
        var = s['var']

        def setup():
            i = self.load(cnt)
            e = r.sub(('a', i))
            if self.p.types[var['type']]['k'] in ('ref', 'rref'):
                self.frames[-1].env[var['id']] = e
            else:
                self.frames[-1].env[var['id']] = self.new(self.load(e), var['type'], var['name'])
        return self.loop(s, lambda: gt0(n - self.load(cnt)), s['b'],
                         lambda: self.store(cnt, self.load(cnt) + 1), setup)

    def size_t(self):
        for names in (('unsigned long',), ('unsigned int', 'long', 'int')):
            for i, t in enumerate(self.p.types):
                if t.get('s') in names:
                    return i
        raise Unsup('no size type')

    def x_break(self, s):
        self.frames[-1].loops[-1].breaks.append(
            (c_and(*self.pc[self.frames[-1].loops[-1].pcbase:]), self.st))
        return False

    def x_continue(self, s):
        self.frames[-1].loops[-1].conts.append(
            (c_and(*self.pc[self.frames[-1].loops[-1].pcbase:]), self.st))
        return False

    def x_switch(self, s):
        v = self.rv(self.ev(s['c']))
        body = s['b']['b'] if s['b'] and s['b']['k'] == 'block' else [s['b']]
        # only switches whose cases end in break/return are modelled
        groups = []
        for x in body:
            labels = []
            while x['k'] in ('case', 'default'):
                labels.append(self.rv(self.ev(x['v'])) if x['k'] == 'case' else None)
                x = x['b']
                if x is None:
                    break
            if labels:
                groups.append((labels, [x] if x else []))
            else:
                groups[-1][1].append(x)
        out, dflt = [], None
        for n, (labels, ss) in enumerate(groups):
            if not ss and n + 1 < len(groups):
                groups[n + 1][0].extend(labels)
                continue
            while len(ss) == 1 and ss[0] and ss[0]['k'] == 'block':
                ss = ss[0]['b']
            end = ss[-1] if ss else None
            if end is not None and end['k'] == 'break':
                ss = ss[:-1]
            elif n + 1 < len(groups) and not self.leaves(end):
                raise Unsup('switch falls through')
            if any(self.breaks_inside(x) for x in ss):
                raise Unsup('break inside a case')
            if None in labels:
                dflt = ss
                labels = [x for x in labels if x is not None]
                if labels:
                    out.append((labels, ss))
            else:
                out.append((labels, ss))

        def run(n):
            if n == len(out):
                return self.exec({'k': 'block', 'b': dflt or []})
            c = simp(c_or(*[eq0(c2p(v) - c2p(x)) for x in out[n][0]]))
            if c.k == 'true':
                return self.exec({'k': 'block', 'b': out[n][1]})
            if c.k == 'false':
                return run(n + 1)
            return self.branch(c, lambda: self.exec({'k': 'block', 'b': out[n][1]}), lambda: run(n + 1))
        return run(0)

    def leaves(self, s):
        while s and s['k'] == 'block' and s['b']:
            s = s['b'][-1]
        if not s:
            return False
        if s['k'] == 'expr':
            e = s['e']
            while e and e['k'] in ('cast', 'temp'):
                e = e['e']
            return bool(e) and e['k'] == 'throw'
        return s['k'] in ('return', 'break', 'continue', 'throw')

    def breaks_inside(self, s):
        if isinstance(s, list):
            return any(self.breaks_inside(x) for x in s)
        if not isinstance(s, dict):
            return False
        if s.get('k') == 'break':
            return True
        if s.get('k') in ('for', 'while', 'do', 'rangefor', 'switch', 'lambda'):
            return False
        return any(self.breaks_inside(x) for x in s.values() if isinstance(x, (dict, list)))

    def x_try(self, s):
        raise Unsup('try')

    def x_unk(self, s):
        raise Unsup('statement ' + s.get('cls', '?'))

    # --------------------------------------------------------- expressions ---
    def rv(self, v):
        return self.load(v) if isinstance(v, Ref) else v

    def cond(self, e):
        v = self.rv(self.ev(e))
        if isinstance(v, P):
            return p2c(v)
        if isinstance(v, Cond):
            return v
        raise Unsup('condition %s' % type(v).__name__)

    def num(self, e):
        v = self.rv(self.ev(e))
        return c2p(v) if isinstance(v, Cond) else v

    def ev(self, e):
        if e is None:
            return None
        if 'l' in e:
            self.curloc = e
        return getattr(self, 'e_' + e['k'])(e)

    def e_int(self, e):
        return P.of(int(e['v']))

    def e_bool(self, e):
        return S.TRUE if e['v'] else S.FALSE

    def e_float(self, e):
        return P.of(Fraction(e['v'].replace('E+', 'E')))

    def e_str(self, e):
        return StrLit(e['v'])

    def e_nullptr(self, e):
        return Ptr(None)

    def e_zero(self, e):
        return self.zero(self.p.strip(e['t']))

    def e_var(self, e):
        for fr in (self.frames[-1],):
            if e['id'] in fr.env:
                return fr.env[e['id']]
        if e.get('global'):
            key = 'global:' + e['name']
            if key not in self.st:
                v = self.p.varv.get(e['name'])
                if v is not None and isinstance(v.get('value'), list):
                    def conv(x):
                        if isinstance(x, list):
                            if len(x) == 1 and isinstance(x[0], list):
                                return conv(x[0])
                            return ArrV([conv(y) for y in x])
                        return P.of(Fraction(x))
                    self.st[key] = conv(v['value'])
                elif v is not None and v.get('value') is not None:
                    self.st[key] = P.of(Fraction(v['value']))
                elif v is not None and v.get('init') is not None and self.history:
                    self.static(key, v)
                else:
                    self.st[key] = Opq('global ' + e['name'])
                self.cty[key] = e['t']
            return Ref(key)
        raise Unsup('unbound variable ' + e['name'])

    def static(self, key, v):
        if key in self.aged:
            self.st[key] = self.aged[key]
        else:
            if self.looping:
                raise Unsup('static variable in a loop')
            self.st[key] = self.rv(self.init_val(v['init'], v['type']))
        self.cty[key] = v['type']
        self.statics[key] = self.st[key]

    def prepare(self):
        """variables with static storage exist before the first call"""
        self.prepared = True
        if not self.history:
            return
        for v in self.p.vars:
            if v.get('init') is not None and not v.get('const') and 'global:' + v['name'] not in self.st:
                try:
                    self.static('global:' + v['name'], v)
                except Unsup:
                    pass
        for i, d in self.p.staticlocals():
            key = 'static:%d' % d['id']
            if key in self.st:
                continue
            if key in self.aged:
                self.st[key] = self.aged[key]
            else:
                fr = Frame(self.p.funs[i], None)
                self.frames.append(fr)
                try:
                    self.st[key] = self.rv(self.init_val(d.get('init'), d['type']))
                except Exception:
                    self.st.pop(key, None)
                    continue
                finally:
                    self.frames.pop()
            self.cty[key] = d['type']
            self.statics[key] = self.st[key]

    def e_this(self, e):
        return Ptr(self.frames[-1].this)

    def deref(self, v, e=None):
        v = self.rv(v)
        if isinstance(v, Ptr):
            if v.ref is None:
                raise Unsup('null dereference')
            return v.ref
        if isinstance(v, IterV):
            if v.val is not None and isinstance(self.load(v.ref), VecV):
                return self.new(v.val, self.load(v.ref).ety, 'extreme')
            if e is not None:
                self.bounds(v.ref, v.idx, e)
            return v.ref.sub(('a', v.idx))
        raise Unsup('dereference of %s' % type(v).__name__)

    def e_member(self, e):
        b = self.ev(e['b'])
        if e.get('arrow'):
            b = self.deref(b, e)
        if isinstance(b, Ref):
            return b.sub(('f', e['m']))
        return self.step(b, ('f', e['m']))

    def e_load(self, e):
        return self.rv(self.ev(e['e']))

    def e_temp(self, e):
        v = self.ev(e['e'])
        if isinstance(v, Ref):
            return v
        return self.new(v, e['t'], 'tmp')

    def e_basecast(self, e):
        return self.ev(e['e'])

    def e_ilist(self, e):
        return self.ilist(e, e['t'])

    def e_stdil(self, e):
        v = self.ev(e['e'])
        return v

    def e_comma(self, e):
        self.ev(e['a'])
        return self.ev(e['b'])

    def e_funref(self, e):
        return Opq('function')

    def e_throw(self, e):
        self.raised('throw', e)
        raise DeadCode()

    def raised(self, kind, e, tt=None):
        g = c_and(*self.pc[self.fstart():])
        if self.frames:
            self.frames[-1].throws.append(g)
        if self.record:
            self.events.append({'kind': kind, 'guard': self.guard_here(), 'loc': self.p.loc(e),
                                'fun': self.frames[-1].fun['name'] if self.frames else '?'})

    def e_unk(self, e):
        raise Unsup('expression ' + e.get('cls', '?'))

    def e_index(self, e):
        b = self.rv_ptr(self.ev(e['a']))
        i = self.num(e['b'])
        if isinstance(b, IterV):
            r = b.ref.sub(('a', b.idx + i))
            self.bounds(b.ref, b.idx + i, e)
            return r
        if isinstance(b, Ref):
            self.bounds(b, i, e)
            return b.sub(('a', i))
        raise Unsup('subscript of %s' % type(b).__name__)

    def rv_ptr(self, v):
        if isinstance(v, Ref):
            x = self.load(v)
            if isinstance(x, (IterV, Ptr)):
                return x
        return v

    def bounds(self, ref, idx, e):
        if not self.record or not (self.indices or self.force):
            return
        v = self.load(ref)
        if isinstance(v, Obj) and ('b', 0) in v.f:
            v = v.f[('b', 0)]
        if isinstance(v, ArrV):
            n = P.of(len(v.e))
        elif isinstance(v, VecV):
            n = v.ln
        else:
            return
        self.ob('bounds', c_and(ge0(idx), ge0(n - 1 - idx)), self.p.loc(e),
                'index %r of size %r' % (idx, n))

    def e_lambda(self, e):
        env = {}
        fr = self.frames[-1]
        this = None
        for c in e['caps']:
            if c.get('this'):
                this = fr.this if c['byref'] else self.new(self.load(fr.this), self.cty[fr.this.cell])
                continue
            if 'init' in c:
                v = self.ev(c['init'])
                env[c['id']] = v if (c['byref'] and isinstance(v, Ref)) else self.new(
                    self.rv(v), c['init']['t'], 'cap')
                continue
            if c['id'] not in fr.env:
                # captured but never materialised (constant)
                continue
            r = fr.env[c['id']]
            if not c['byref']:
                r = self.new(self.load(r), self.typeat(r.cell, r.path), 'cap')
            env[c['id']] = r
        return Clo(e.get('f'), e.get('specs'), env, this)

    # -- operators
    def e_un(self, e):
        op = e['op']
        if op in ('++', '--'):
            r = self.ev(e['e'])
            v = self.load(r)
            d = 1 if op == '++' else -1
            nv = IterV(v.ref, v.idx + d) if isinstance(v, IterV) else c2p(v) + d
            self.store(r, nv)
            return v if e.get('post') else r
        if op == '*':
            return self.deref(self.ev(e['e']), e)
        if op == '&':
            r = self.ev(e['e'])
            if not isinstance(r, Ref):
                raise Unsup('address of value')
            if r.path and r.path[-1][0] == 'a':
                return IterV(Ref(r.cell, r.path[:-1]), r.path[-1][1])
            return Ptr(r)
        v = self.rv(self.ev(e['e']))
        if op == '!':
            return c_not(p2c(v) if isinstance(v, P) else v)
        if op == '-':
            return -c2p(v)
        if op == '+':
            return c2p(v)
        if op == '~':
            return -c2p(v) - 1
        raise Unsup('unary ' + op)

    def isuns(self, t):
        return self.p.types[self.p.strip(t)]['k'] == 'uint'

    def bits(self, t):
        return self.p.types[self.p.strip(t)].get('bits', 64)

    def nn(self, v, t):
        """unsigned operand: account for wrap-around where it is not excluded"""
        if not self.isuns(t) or self.lenient:
            return v
        c = v.const()
        if c is not None:
            if c < 0:
                return v + (1 << self.bits(t))
            return v
        if not is_int(v) or prove_ge0(v):
            return v
        a = v.atom()
        if a is not None and a.k == 'fn' and a.name in ('wrap', 'unk', 'entry'):
            return v
        if any(x.k == 'fn' and x.name in ('unk',) for x in v.atoms()):
            return v
        return P.of(Fn('wrap', (v, P.of(self.bits(t))), 'int'))

    def e_bin(self, e):
        op = e['op']
        if op in ('&&', '||'):
            a = self.cond(e['a'])
            if not self.raw:
                a = simp(a)
            if op == '&&' and a.k == 'false':
                return a
            if op == '||' and a.k == 'true':
                return a
            g = a if op == '&&' else c_not(a)
            m, n = CTX.mark(), len(self.pc)
            st0 = self.st
            self.st = dict(st0)
            CTX.push(g)
            self.pc.append(g)
            try:
                b = self.cond(e['b'])
            finally:
                CTX.reset(m)
                del self.pc[n:]
            if a.k not in ('true', 'false'):
                changed = any(self.st[k] is not st0[k] for k in st0)
                if changed:
                    self.st = self.merge_stores(g, self.st, st0)
            return c_and(a, b) if op == '&&' else c_or(a, b)
        x, y = self.rv(self.ev(e['a'])), self.rv(self.ev(e['b']))
        return self.binop(op, x, y, e['t'], e['a'].get('t'), e['b'].get('t'), e)

    def binop(self, op, x, y, t, ta, tb, e):
        if isinstance(x, IterV) or isinstance(y, IterV):
            return self.iterop(op, x, y)
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            if op in ('==', '!=') and isinstance(x, Ptr) and isinstance(y, Ptr):
                r = S.TRUE if x == y else S.FALSE
                return r if op == '==' else c_not(r)
            raise Unsup('pointer operation')
        if op in ('==', '!=') and isinstance(x, Cond) and isinstance(y, Cond):
            r = c_or(c_and(x, y), c_and(c_not(x), c_not(y)))
            return r if op == '==' else c_not(r)
        x, y = c2p(x), c2p(y)
        if not isinstance(x, P) or not isinstance(y, P):
            raise Unsup('operator %s on %s,%s' % (op, type(x).__name__, type(y).__name__))
        if op == '+':
            return x + y
        if op == '-':
            return x - y
        if op == '*':
            return x * y
        isint = self.sortof(t) in ('int', 'bool')
        if op == '/':
            if isint:
                x, y = self.nn(x, ta), self.nn(y, tb)
                self.ob('divzero', c_not(eq0(y)), self.p.loc(e), 'integer division')
                if y == S.ZERO:
                    return UNK('division by zero', 'int')
                return idiv(x, y)
            c = y.const()
            if c is not None and c == 0:
                return fn('divzero', (x,))
            if c is None and self.record:
                self.obs.append({'kind': 'rdiv', 'cond': c_not(eq0(y)), 'ok': False, 'facts': list(CTX.facts),
                                 'div': y, 'loc': self.p.loc(e), 'what': 'division',
                                 'fun': self.frames[-1].fun['name'] if self.frames else '?'})
            return x * power(y, P.of(-1))
        if op == '%':
            x, y = self.nn(x, ta), self.nn(y, tb)
            self.ob('divzero', c_not(eq0(y)), self.p.loc(e), 'integer remainder')
            if y == S.ZERO:
                return UNK('division by zero', 'int')
            return imod(x, y)
        if op in ('<', '<=', '>', '>=', '==', '!='):
            x, y = self.nn(x, ta), self.nn(y, tb)
            both = self.sortof(ta) == 'int' and self.sortof(tb) == 'int'
            if op in ('>', '<'):
                d = x - y if op == '>' else y - x
                if both:
                    return self.ge(d - 1)
                return gt0(d)
            if op in ('>=', '<='):
                d = x - y if op == '>=' else y - x
                return self.ge(d)
            r = eq0(x - y)
            return r if op == '==' else c_not(r)
        if op == '<<':
            n = y.as_int()
            return x * (1 << n) if n is not None else x * power(P.of(2), y)
        if op == '>>':
            n = y.as_int()
            x = self.nn(x, ta)
            return idiv(x, P.of(1 << n)) if n is not None else fn('shr', (x, y), 'int')
        if op in ('&', '|', '^'):
            a, b = x.as_int(), y.as_int()
            if a is not None and b is not None:
                return P.of({'&': a & b, '|': a | b, '^': a ^ b}[op])
            if op == '&':
                if b is None:
                    x, y, a, b = y, x, b, a
                if b is not None and b >= 0 and (b & (b + 1)) == 0 and prove_ge0(x):
                    return imod(x, P.of(b + 1))
                return fn('band', (x, y), 'int')
            return fn('bor' if op == '|' else 'bxor', (x, y), 'int')
        raise Unsup('operator ' + op)

    def ge(self, d):
        return ge0(d)

    def iterop(self, op, x, y):
        if isinstance(x, IterV) and isinstance(y, IterV):
            if x.ref != y.ref:
                raise Unsup('iterators of different containers')
            d = x.idx - y.idx
            if op == '-':
                return d
            return {'==': lambda: eq0(d), '!=': lambda: c_not(eq0(d)),
                    '<': lambda: ge0(-d - 1), '>': lambda: ge0(d - 1),
                    '<=': lambda: ge0(-d), '>=': lambda: ge0(d)}[op]()
        if op == '+':
            if isinstance(x, IterV):
                return IterV(x.ref, x.idx + y)
            return IterV(y.ref, y.idx + x)
        if op == '-' and isinstance(x, IterV):
            return IterV(x.ref, x.idx - y)
        raise Unsup('iterator operation')

    def e_assign(self, e):
        # right operand first (C++17)
        v = self.rv(self.ev(e['b']))
        r = self.ev(e['a'])
        if not isinstance(r, Ref):
            raise Unsup('assignment to value')
        t = e['a'].get('t')
        if self.sortof(t) == 'bool' and isinstance(v, P):
            v = p2c(v)
        self.store(r, v)
        return r

    def rounded(self, v, tf, tt):
        """conversion that can lose digits of the value; only where the check asks for it"""
        if not self.rounding or self.sortof(tt) != 'real':
            return v
        bt, bf = self.bits(tt), self.bits(tf)
        if self.sortof(tf) == 'int':
            lose = bf > {32: 24, 64: 53}.get(bt, 64)
            if lose and is_int(v) and v.const() is None:
                if self.record and bt == 32 and grows(v):
                    self.ob('wide', self.ge((1 << 24) - v), self.here(), 'value kept in single precision')
                return v
        else:
            lose = bf > bt
        return fn('round', (v, {32: 24}.get(bt, 53))) if lose and v.const() is None else v

    def e_cassign(self, e):
        y = self.rv(self.ev(e['b']))
        r = self.ev(e['a'])
        x = self.load(r)
        v = self.binop(e['op'], x, y, e['ct'], e['a'].get('t'), e['b'].get('t'), e)
        t = e['a'].get('t')
        if self.sortof(t) == 'int' and self.sortof(e['ct']) == 'real':
            v = fn('trunc', (v,), 'int')
        if self.sortof(t) == 'bool' and isinstance(v, P):
            v = p2c(v)
        if isinstance(v, P):
            v = self.rounded(v, e['ct'], t)
        self.store(r, v)
        return r

    def e_cond(self, e):
        c = simp(self.cond(e['c']))
        if c.k == 'true':
            return self.ev(e['a'])
        if c.k == 'false':
            return self.ev(e['b'])
        box = {}

        def side(k):
            def f():
                v = self.ev(e[k])
                if isinstance(v, Ref):
                    box[k + 'r'] = v
                    v = self.rv(v)
                box[k] = v
                return True
            return f
        isassert = self.is_assert(e['b'])
        if isassert:
            self.ob('assert', c, self.p.loc(e), 'assertion')
        self.branch(c, side('a'), side('b'))
        if 'a' in box and 'b' in box:
            if box.get('ar') is not None and box.get('ar') == box.get('br'):
                return box['ar']
            a, b = box['a'], box['b']
            if a is None or b is None:
                return None
            return tmerge(c, a, b)
        if 'a' in box:
            return box.get('ar', box['a'])
        if 'b' in box:
            return box.get('br', box['b'])
        raise DeadCode()

    def is_assert(self, e):
        while e and e['k'] == 'cast':
            e = e['e']
        return bool(e) and e['k'] == 'call' and e.get('name') == '__assert_fail'

    def e_cast(self, e):
        ck = e['ck']
        v = self.ev(e['e'])
        if ck == 'ToVoid':
            return None
        if ck == 'ArrayToPointerDecay':
            if isinstance(v, StrLit):
                return v
            if isinstance(v, Ref):
                return IterV(v, 0)
            return IterV(self.new(v, e['e']['t'], 'arr'), 0)
        if ck == 'NullToPointer':
            return Ptr(None)
        if e.get('reinterpret') or ck == 'BitCast':
            return self.bitcast(e, v)
        v = self.rv(v)
        if ck in ('IntegralToBoolean', 'FloatingToBoolean'):
            return p2c(v)
        if ck == 'PointerToBoolean':
            if isinstance(v, Ptr):
                return S.FALSE if v.ref is None else S.TRUE
            return S.TRUE
        if ck == 'IntegralToFloating':
            v = c2p(v)
            self.fits(v, e['e']['t'])
            return self.rounded(self.nn(v, e['e']['t']), e['e']['t'], e['t'])
        if ck == 'IntegralCast':
            v = c2p(v)
            self.fits(v, e['e']['t'])
            if self.isuns(e['e']['t']) and self.bits(e['t']) > self.bits(e['e']['t']):
                # widening an unsigned value: wrap-around becomes visible
                v = self.nn(v, e['e']['t'])
            return self.narrow(v, e['e']['t'], e['t'])
        if ck == 'BooleanToSignedIntegral':
            return -c2p(v)
        if ck == 'FloatingToIntegral':
            if is_int(v):
                return v
            return fn('trunc', (v,), 'int')
        if ck == 'FloatingCast':
            if isinstance(v, P) and self.rounding and self.bits(e['e']['t']) < self.bits(e['t']) == 64 \
                    and v.const() is None:
                if not is_int(v):
                    return fn('round', (v, 24)) if v.atom() is None or v.atom().k not in ('sym', 'arr') else v
                if self.record:
                    self.ob('wide', self.ge((1 << 24) - v), self.here(), 'value kept in single precision')
            return self.rounded(v, e['e']['t'], e['t']) if isinstance(v, P) else v
        if ck in ('NoOp', 'DerivedToBase'):
            return v
        raise Unsup('cast ' + ck)

    def here(self):
        return self.p.loc(self.curloc) if isinstance(self.curloc, dict) else '?'

    def fits(self, v, t):
        """obligation: the value kept in an 8 or 16 bit integer is representable there"""
        b = self.bits(t)
        if self.sortof(t) != 'int' or not self.record or v.const() is not None:
            return
        if b in (8, 16):
            lo, hi = (0, (1 << b) - 1) if self.isuns(t) else (-(1 << b - 1), (1 << b - 1) - 1)
            self.ob('narrow', c_and(self.ge(v - lo), self.ge(hi - v)), self.here(),
                    'value %s kept in %d bits' % (('unsigned', 'signed')[not self.isuns(t)], b))
        elif b in (32, 64) and grows(v):
            # products and binomials: large values at moderate sizes
            self.ob('wide', self.ge((1 << (b - (not self.isuns(t)))) - 1 - v), self.here(),
                    'value %s kept in %d bits' % (('unsigned', 'signed')[not self.isuns(t)], b))

    def narrow(self, v, tf, tt):
        """integral conversion; conversions to 8 bit are modelled exactly"""
        b = self.bits(tt)
        if self.bits(tf) > b:
            self.fits(v, tt)
        if b == 8 and self.sortof(tt) == 'int' and self.bits(tf) >= 8:
            c = v.as_int()
            if self.isuns(tt):
                if c is not None:
                    return P.of(c % 256)
                if prove_ge0(v) and prove_ge0(255 - v):
                    return v
                if prove_ge0(v):
                    return imod(v, P.of(256))
                return P.of(Fn('wrap', (v, P.of(8)), 'int'))
            if c is not None:
                return P.of((c + 128) % 256 - 128)
            if prove_ge0(v + 128) and prove_ge0(127 - v):
                return v
            return P.of(Fn('swrap', (v, P.of(8)), 'int'))
        return v

    def sizeof(self, t):
        x = self.p.types[self.p.strip(t)]
        if x['k'] in ('int', 'uint', 'float', 'bool', 'enum') and x.get('bits', 8) % 8 == 0:
            return max(x.get('bits', 8), 8) // 8
        if x['k'] == 'carr':
            return x['n'] * self.sizeof(x['to'])
        raise Unsup('object representation of ' + x['s'])

    def bitcast(self, e, v):
        """an array looked at as its bytes: byte j of an array of k-byte values is byte
        j mod k of value j div k; writing through the view makes the array opaque"""
        v = self.rv(v)
        to = self.p.types[e['t']]
        if to['k'] != 'ptr' or self.bits(to['to']) != 8 or not isinstance(v, IterV) \
                or self.sortof(to['to']) != 'int':
            raise Unsup('reinterpreted memory')
        src = self.load(v.ref)
        if not isinstance(src, VecV):
            raise Unsup('reinterpreted memory')
        k = self.sizeof(src.ety)
        bt = self.p.strip(to['to'])
        q = Sym('q', 'int', S.ZERO, None)
        uid = len(self.views) + 1
        val = cread(src.c, idiv(P.of(q), P.of(k)))
        if not isinstance(val, P):
            raise Unsup('reinterpreted memory')
        b = fn('byte', (val, imod(P.of(q), P.of(k))), 'int')
        if not self.isuns(bt):
            b = b - ite(ge0(b - 128), P.of(256), S.ZERO)
        r = self.new(VecV(src.ln * k, Cnt(('lam', q, b)), bt), self.cty[v.ref.cell], 'bytes')
        const = self.p.types[to['to']].get('const')
        self.views.append(dict(cell=r.cell, of=v.ref, k=k, n=src.ln, const=const))
        if not const:
            z = Sym('q', 'int', S.ZERO, None)
            self.store(v.ref, VecV(src.ln, Cnt(('lam', z, fn('bytesof', (uid, P.of(z)),
                                                            leaf_sort(val)))), src.ety))
        return IterV(r, v.idx * k)

    # --------------------------------------------------------------- calls ---
    def args(self, e, ptypes):
        out = []
        for i, a in enumerate(e['a']):
            v = self.ev(a)
            pt = ptypes[i] if ptypes and i < len(ptypes) else None
            if pt is not None and self.p.types[pt]['k'] not in ('ref', 'rref'):
                v = self.rv(v)
            out.append(v)
        return out

    def e_call(self, e):
        if e.get('f') is not None:
            fun = self.p.funs[e['f']]
            this = None
            if e.get('obj') is not None:
                o = self.ev(e['obj'])
                if fun.get('lambda'):
                    args = self.args(e, e.get('pt'))
                    c = self.rv(o)
                    if not isinstance(c, Clo):
                        raise Unsup('call of unknown closure')
                    self.pending_env = c.env
                    return self.call(fun, c.this, args, self.p.loc(e))
                if e.get('arrow'):
                    o = self.deref(o)
                if not isinstance(o, Ref):
                    o = self.new(o, self.p.strip(e['obj']['t']), 'obj')
                this = o
            if e.get('op') == '=' and fun.get('assign') and e['a']:
                # right operand first
                pass
            args = self.args(e, e.get('pt'))
            if fun.get('assign') and fun.get('defaulted'):
                self.store(this, self.rv(args[0]))
                return this
            if fun.get('dtor'):
                return None
            return self.call(fun, this, args, self.p.loc(e))
        return self.stdcall(e)

    def e_ctor(self, e):
        rec = self.p.recs[e['rec']]
        t = self.p.strip(e['t'])
        if e.get('copy') and (e.get('defaulted') or not rec['lib']):
            return self.rv(self.ev(e['a'][0]))
        if rec['lib'] and e.get('f') is not None:
            fun = self.p.funs[e['f']]
            h = self.hook(fun)
            if fun.get('body') is None and h is None:
                if fun.get('defaulted') or fun.get('implicit') or e.get('def'):
                    return self.zero(t, not e.get('zero') and not e.get('list'))
                raise Unsup('constructor without body ' + fun['name'])
            r = self.new(self.zero(t, True), t, 'new')
            args = self.args(e, e.get('pt'))
            self.call(fun, r, args, self.p.loc(e))
            v = self.load(r)
            return v
        if rec['lib']:
            return self.zero(t)
        return self.stdctor(e, rec, t)

    def stdctor(self, e, rec, t):
        sh = rec['short']
        a = e['a']
        if sh == 'array':
            return self.zero(t, not e.get('zero') and not e.get('list'))
        if sh == 'vector':
            ety = rec['targs'][0]['t']
            a = [x for x in a if not (x['k'] in ('ctor', 'temp') and self.isalloc(x))]
            if not a:
                return self.zero(t)
            if e.get('il') or a[0]['k'] == 'stdil':
                v = self.rv(self.ev(a[0]))
                if isinstance(v, IterV):
                    v = self.load(v.ref)
                if isinstance(v, ArrV):
                    return VecV(len(v.e), c_list(v.e), ety)
                raise Unsup('initializer list')
            v = self.rv(self.ev(a[0]))
            if isinstance(v, P):
                if len(a) == 1:
                    return cresize(self.zero(t), v, self.zero(ety))
                w = self.rv(self.ev(a[1]))
                return cresize(self.zero(t), v, w)
            if isinstance(v, IterV):
                w = self.rv(self.ev(a[1]))
                return self.range_vec(v, w, ety)
            if isinstance(v, VecV):
                return v
            raise Unsup('vector constructor')
        if sh == 'basic_string':
            return self.strctor(e, t)
        if sh in ('allocator', 'runtime_error', 'basic_ofstream', 'initializer_list', 'locale'):
            for x in a:
                try:
                    self.ev(x)
                except Unsup:
                    pass
            return Opq(sh)
        return Opq(sh)

    def range_vec(self, a, b, ety):
        c = self.load(a.ref)
        n = b.idx - a.idx
        if isinstance(c, ArrV):
            i, j = a.idx.as_int(), b.idx.as_int()
            return VecV(n, c_list(c.e[i:j]), ety)
        q = Sym('q', 'int', 0, None)
        return VecV(n, Cnt(('lam', q, cread(c.c, P.of(q) + a.idx))), ety)

    def emplaced(self, ety, a):
        """an element constructed from the arguments; None when they are an element"""
        t = self.p.types[self.p.strip(ety)]
        if t['k'] != 'rec' or not self.p.recs[t['rec']]['lib']:
            return None
        def bare(ty):
            return self.p.shortty(self.p.strip(ty)).replace('const ', '')
        given = [bare(x['t']) for x in a]
        if given == [bare(ety)]:
            return None
        fs = [f for f in self.p.funs if f.get('ctor') and f.get('rec') == t['rec'] and f.get('body') is not None
              and [bare(q['type']) for q in f['params']] == given]
        if len(fs) != 1:
            raise Unsup('emplace_back')
        r = self.new(self.zero(self.p.strip(ety), True), self.p.strip(ety), 'new')
        self.call(fs[0], r, self.args(dict(a=a), [q['type'] for q in fs[0]['params']]))
        return self.load(r)

    def isalloc(self, x):
        t = x.get('t')
        if t is None:
            return False
        t = self.p.types[self.p.strip(t)]
        return t['k'] == 'rec' and self.p.recs[t['rec']]['short'] == 'allocator'

    def strctor(self, e, t):
        for x in e['a']:
            if not self.isalloc(x):
                v = self.ev(x)
                if isinstance(v, StrLit):
                    return StrV()
                v = self.rv(v)
                if isinstance(v, VecV):
                    return v
                return StrV()
        return self.zero(t)

    def arrval(self, v):
        if isinstance(v, Obj) and ('b', 0) in v.f:
            return v.f[('b', 0)]
        return v

    def stdcall(self, e):
        nm = e.get('name') or ''
        sh = e.get('short') or ''
        if e.get('fn') is not None:
            f = self.rv(self.ev(e['fn']))
            if isinstance(f, Clo):
                args = self.args(e, None)
                self.pending_env = f.env
                return self.call(self.p.funs[f.f], f.this, args, self.p.loc(e))
            raise Unsup('indirect call')
        if nm == '__assert_fail':
            self.raised('assert', e)
            raise DeadCode()
        if nm in ('abort', 'std::abort', 'exit', 'std::exit', 'std::terminate'):
            self.raised('abort', e)
            raise DeadCode()
        rec = self.p.recs[e['rec']] if e.get('rec') is not None else None
        if rec is not None and e.get('obj') is not None:
            rs = rec['short']
            o = self.ev(e['obj'])
            if e.get('arrow'):
                o = self.deref(o)
            m = getattr(self, 'm_' + rs, None)
            if m is not None:
                return m(e, sh, o)
            if rs in ('basic_ostream', 'basic_ofstream', 'basic_ios', 'basic_ostringstream'):
                for a in e['a']:
                    self.ev(a)
                return o
            raise Unsup('method ' + nm)
        h = getattr(self, 's_' + sh, None) if sh.isidentifier() else None
        if h is not None and (nm.startswith('std::') or '::' not in nm):
            return h(e)
        if e.get('op'):
            return self.stdop(e)
        raise Unsup('call of ' + nm)

    def stdop(self, e):
        op = e['op']
        a = [self.ev(x) for x in e['a']]
        if op in ('<<', '>>'):
            return a[0]
        v = [self.rv(x) for x in a]
        if any(isinstance(x, (StrV, StrLit)) for x in v):
            if op == '+':
                return StrV()
            raise Unsup('string operation')
        if len(v) == 2 and (isinstance(v[0], IterV) or isinstance(v[1], IterV)):
            return self.iterop(op, v[0], v[1])
        if op in ('==', '!='):
            r = self.equal(self.arrval(v[0]), self.arrval(v[1]))
            return r if op == '==' else c_not(r)
        if op == '+' and any(isinstance(x, VecV) for x in v):
            return StrV()
        raise Unsup('operator %s' % op)

    def equal(self, a, b):
        if isinstance(a, (P, Cond)) and isinstance(b, (P, Cond)):
            if isinstance(a, Cond) or isinstance(b, Cond):
                a, b = p2c(a), p2c(b)
                return c_or(c_and(a, b), c_and(c_not(a), c_not(b)))
            return simp(eq0(a - b))
        if isinstance(a, ArrV):
            return c_and(*[self.equal(x, y) for x, y in zip(a.e, b.e)])
        if isinstance(a, Obj) and isinstance(b, Obj):
            return c_and(*[self.equal(a.f[k], b.f[k]) for k in a.f])
        if isinstance(a, VecV):
            n = simp(eq0(a.ln - b.ln))
            if n.k == 'false':
                return n
            q = Sym('q', 'int', 0, a.ln - 1)
            xs = tleaves(cread(a.c, P.of(q)))
            ys = tleaves(cread(b.c, P.of(q)))
            bad = c_or(*[c_not(self.equal(x, y)) for x, y in zip(xs, ys)])
            if bad.k == 'false':
                return n
            cnt = Sum(q, S.ZERO, a.ln - 1, ite(bad, S.ONE, S.ZERO))
            return c_and(n, eq0(cnt))
        raise Unsup('comparison')

    # -- std containers
    def size_of(self, v):
        v = self.arrval(v)
        if isinstance(v, ArrV):
            return P.of(len(v.e))
        if isinstance(v, VecV):
            return v.ln
        raise Unsup('size of %s' % type(v).__name__)

    def m_array(self, e, sh, o):
        return self.m_vector(e, sh, o)

    def m_basic_string(self, e, sh, o):
        v = self.rv(o)
        if isinstance(v, (StrV, StrLit, Opq)):
            for a in e['a']:
                self.ev(a)
            if sh in ('operator+=', 'append', 'push_back', 'pop_back', 'operator=', 'clear'):
                return o
            if sh in ('size', 'length'):
                return UNK('text length', 'int')
            raise Unsup('string method ' + sh)
        if sh in ('operator+=', 'append'):
            x = self.rv(self.ev(e['a'][0]))
            if isinstance(x, P):
                self.store(o, VecV(v.ln + 1, self.cpush(v, x), v.ety))
            else:
                self.store(o, StrV())
            return o
        if sh == 'length':
            sh = 'size'
        return self.m_vector(e, sh, o)

    def cpush(self, v, x):
        i = v.ln.as_int()
        if v.c.base[0] == 'list' and not v.c.layers and i == len(v.c.base[1]) and i < 64:
            return c_list(v.c.base[1] + (x,))
        c = v.c
        if c.base[0] == 'list' and not c.base[1]:
            c = Cnt(('const', self.zero(v.ety)), c.layers)
        return cwrite(c, v.ln, x)

    def m_vector(self, e, sh, o):
        a = e['a']
        if sh in ('operator[]', 'at'):
            i = self.num(a[0])
            if isinstance(o, Ref):
                self.bounds(o, i, e)
                return o.sub(('a', i))
            return self.step(self.arrval(o), ('a', i))
        if sh in ('size',):
            return self.size_of(self.rv(o))
        if sh == 'empty':
            return simp(eq0(self.size_of(self.rv(o))))
        if sh in ('begin', 'cbegin', 'data'):
            if not isinstance(o, Ref):
                o = self.new(o, self.p.strip(e['obj']['t']), 'tmp')
            return IterV(o, 0)
        if sh in ('end', 'cend'):
            if not isinstance(o, Ref):
                o = self.new(o, self.p.strip(e['obj']['t']), 'tmp')
            return IterV(o, self.size_of(self.load(o)))
        if sh in ('front', 'back'):
            n = self.size_of(self.rv(o))
            i = S.ZERO if sh == 'front' else n - 1
            if isinstance(o, Ref):
                self.bounds(o, i, e)
                return o.sub(('a', i))
            return self.step(self.arrval(o), ('a', i))
        if sh in ('reserve', 'shrink_to_fit', 'capacity'):
            for x in a:
                self.ev(x)
            return None
        if sh == 'operator=':
            v = self.rv(self.ev(a[0]))
            if isinstance(v, IterV):
                v = self.load(v.ref)
            if isinstance(v, ArrV) and isinstance(self.load(o), VecV):
                v = VecV(len(v.e), c_list(v.e), self.load(o).ety)
            self.store(o, v)
            return o
        if sh in ('push_back', 'emplace_back'):
            v = self.load(o)
            x = self.emplaced(v.ety, a) if sh == 'emplace_back' else None
            if x is None:
                if len(a) != 1:
                    raise Unsup('emplace_back')
                x = self.rv(self.ev(a[0]))
            v = self.load(o)
            self.store(o, VecV(v.ln + 1, self.cpush(v, x), v.ety))
            return o.sub(('a', v.ln))
        if sh == 'pop_back':
            v = self.load(o)
            self.store(o, VecV(v.ln - 1, v.c, v.ety))
            return None
        if sh == 'clear':
            v = self.load(o)
            self.store(o, VecV(0, c_list([]), v.ety))
            return None
        if sh == 'swap' and len(a) == 1:
            q = self.ev(a[0])
            if not isinstance(q, Ref):
                raise Unsup('container method swap')
            v, w = self.load(o), self.load(q)
            self.store(o, w)
            self.store(q, v)
            return None
        if sh == 'resize':
            n = self.num(a[0])
            v = self.load(o)
            fill = self.rv(self.ev(a[1])) if len(a) > 1 else self.zero(v.ety)
            self.store(o, cresize(v, n, fill))
            return None
        if sh == 'assign' and len(a) == 2:
            n = self.rv(self.ev(a[0]))
            w = self.rv(self.ev(a[1]))
            v = self.load(o)
            if isinstance(n, P):
                self.store(o, cresize(VecV(0, c_list([]), v.ety), n, w))
            else:
                self.store(o, self.range_vec(n, w, v.ety))
            return None
        if sh == 'fill':
            w = self.rv(self.ev(a[0]))
            v = self.arrval(self.load(o))
            if isinstance(v, ArrV):
                self.store(o if not isinstance(self.load(o), Obj) else o.sub(('b', 0)),
                           ArrV([w] * len(v.e)))
                return None
        raise Unsup('container method ' + sh)

    def m_initializer_list(self, e, sh, o):
        v = self.rv(o)
        if isinstance(v, ArrV):
            if sh == 'size':
                return P.of(len(v.e))
            if not isinstance(o, Ref):
                o = self.new(v, self.p.strip(e['obj']['t']), 'il')
            if sh == 'begin':
                return IterV(o, 0)
            if sh == 'end':
                return IterV(o, len(v.e))
        raise Unsup('initializer_list ' + sh)

    def m___normal_iterator(self, e, sh, o):
        v = self.rv(o)
        if sh == 'operator*':
            return self.deref(v)
        if sh == 'operator->':
            return v
        if sh in ('operator++', 'operator--'):
            nv = IterV(v.ref, v.idx + (1 if sh == 'operator++' else -1))
            self.store(o, nv)
            return v if e['a'] else o
        if sh in ('operator+', 'operator-'):
            return self.iterop(sh[-1], v, self.num(e['a'][0]))
        if sh in ('operator+=', 'operator-='):
            self.store(o, self.iterop(sh[-2], v, self.num(e['a'][0])))
            return o
        if sh == 'operator[]':
            return v.ref.sub(('a', v.idx + self.num(e['a'][0])))
        raise Unsup('iterator ' + sh)

    # -- std functions
    def s_max(self, e):
        a, b = self.num(e['a'][0]), self.num(e['a'][1])
        t = e['a'][0].get('t')
        if isinstance(a, P) and isinstance(b, P):
            return fmax(self.nn(a, t), self.nn(b, t))
        raise Unsup('max')

    def s_min(self, e):
        a, b = self.num(e['a'][0]), self.num(e['a'][1])
        t = e['a'][0].get('t')
        if isinstance(a, P) and isinstance(b, P):
            return fmin(self.nn(a, t), self.nn(b, t))
        raise Unsup('min')

    def s_to_string(self, e):
        for a in e['a']:
            self.ev(a)
        return StrV()

    def s_move(self, e):
        return self.ev(e['a'][0])

    s_forward = s_move

    def s_swap(self, e):
        a, b = self.ev(e['a'][0]), self.ev(e['a'][1])
        x, y = self.load(a), self.load(b)
        self.store(a, y)
        self.store(b, x)

    def math(self, name, e):
        return fn(name, (self.num(e['a'][0]),))

    def s_sin(self, e): return self.math('sin', e)
    def s_cos(self, e): return self.math('cos', e)
    def s_tan(self, e): return self.math('tan', e)
    def s_exp(self, e): return self.math('exp', e)
    def s_atan(self, e): return self.math('atan', e)
    def s_asin(self, e): return self.math('asin', e)
    def s_acos(self, e): return self.math('acos', e)
    def s_log(self, e): return self.math('log', e)
    def s_log10(self, e): return self.math('log10', e)
    def s_abs(self, e): return self.math('abs', e)
    def s_fabs(self, e): return self.math('abs', e)
    def s_sqrt(self, e): return self.math('sqrt', e)

    def s_pow(self, e):
        x, y = self.num(e['a'][0]), self.num(e['a'][1])
        n = y.const()
        if n is not None and n.denominator == 1 and abs(n) < 20:
            return power(x, P.of(int(n)))
        if is_int(y) and self.sortof(e['a'][1].get('t')) == 'int':
            return power(x, y)
        return fn('rpow', (x, y))

    FOBJ = {'plus': '+', 'minus': '-', 'multiplies': '*', 'negate': 'neg', 'equal_to': '==',
            'not_equal_to': '!=', 'less': '<', 'greater': '>', 'less_equal': '<=',
            'greater_equal': '>=', 'logical_and': 'and', 'logical_or': 'or',
            'logical_not': 'not'}

    def spec(self, f, args):
        """instance of a generic closure: by the types of its reference arguments"""
        if f.f is not None:
            return f.f
        fs = f.specs or []
        if len(fs) > 1:
            ts = [self.p.strip(self.typeat(a.cell, a.path)) if isinstance(a, Ref) else None
                  for a in args]
            fs = [g for g in fs if len(self.p.funs[g]['params']) == len(args) and all(
                t is None or self.p.strip(q['type']) == t
                for t, q in zip(ts, self.p.funs[g]['params']))]
        if len(fs) != 1:
            raise Unsup('generic closure with %d instances' % len(fs))
        return fs[0]

    def apply(self, f, args, e):
        """call of a closure or of a function object of the standard library"""
        if isinstance(f, Clo):
            self.pending_env = f.env
            return self.rv(self.call(self.p.funs[self.spec(f, args)], f.this, args, self.p.loc(e)))
        if isinstance(f, Opq) and f.why in self.FOBJ:
            op = self.FOBJ[f.why]
            v = [self.rv(self.load(x) if isinstance(x, Ref) else x) for x in args]
            if op == '==':
                return self.equal(*v)
            if op == '!=':
                return c_not(self.equal(*v))
            if op in ('and', 'or', 'not'):
                v = [p2c(x) for x in v]
                return c_not(v[0]) if op == 'not' else (c_and if op == 'and' else c_or)(*v)
            if not all(isinstance(x, P) for x in v):
                return self.libop(op, v, args, e)
            if op == '+':
                return v[0] + v[1]
            if op == '-':
                return v[0] - v[1]
            if op == '*':
                return v[0] * v[1]
            if op == 'neg':
                return -v[0]
            d = v[0] - v[1]
            return {'<': lambda: gt0(-d), '>': lambda: gt0(d), '<=': lambda: ge0(-d),
                    '>=': lambda: ge0(d)}[op]()
        raise Unsup('function object')

    def libop(self, op, v, args, e):
        """operator of a class of the library behind a function object"""
        if isinstance(v[0], Obj):
            fs = [f for f in self.p.funs
                  if f.get('short') == 'operator' + ('-' if op == 'neg' else op) and f.get('lib')
                  and f.get('rec') == v[0].rec and len(f['params']) == len(v) - 1
                  and (len(v) == 1 or self.isobj(f['params'][0]['type'], v[1]))]
            if len(fs) == 1:
                this = args[0] if isinstance(args[0], Ref) else self.new(v[0], None, 'fo')
                return self.rv(self.call(fs[0], this, args[1:], self.p.loc(e)))
        raise Unsup('function object on values of class type')

    def isobj(self, t, v):
        x = self.p.types[self.p.strip(t)]
        return isinstance(v, Obj) and x['k'] == 'rec' and x["rec"] == v.rec

    def sweep(self, e, n, f):
        """for (i = 0; i < n; i++) f(i), summarised unless n is a small literal"""
        k = n.as_int()
        if k is not None and k <= 64:
            for i in range(k):
                f(P.of(i))
            return
        cnt = self.new(S.ZERO, self.size_t(), 'alg_i')

        def body():
            f(self.load(cnt))
            return True
        self.loop(e, lambda: gt0(n - self.load(cnt)), body,
                  lambda: self.store(cnt, self.load(cnt) + 1))

    def at(self, it, i):
        return it.ref.sub(('a', it.idx + i))

    def at_pred(self, e, pred):
        """truth of a predicate at position q, free of effects, as a function of q"""
        def num(q):
            c = pred(q)
            return ite(p2c(c), S.ONE, S.ZERO)
        return num

    def counted(self, e, n, pred):
        """number of positions 0 <= i < n with pred(i)"""
        acc = self.new(S.ZERO, self.size_t(), 'alg_n')
        num = self.at_pred(e, pred)
        self.sweep(e, n, lambda i: self.store(acc, self.load(acc) + num(i)))
        return self.load(acc)

    def first(self, e, n, pred, total=None):
        """first position with pred, n if there is none: the number of positions that have
        none at or before them"""
        num = self.at_pred(e, pred)
        k = n.as_int()
        if k is not None and k <= 16:
            r = n
            for i in reversed(range(k)):
                r = ite(p2c(pred(P.of(i))), P.of(i), r)
            return r
        q, r = Sym('q', 'int', S.ZERO, n - 1), Sym('r', 'int', S.ZERO, None)
        upto = Sum(q, S.ZERO, P.of(r), num(P.of(q)))
        return Sum(r, S.ZERO, n - 1, ite(eq0(upto), S.ONE, S.ZERO))

    def stdargs(self, e):
        return [self.rv(self.ev(x)) for x in e['a']]

    def s_all_of(self, e):
        b, en, f = self.stdargs(e)
        return simp(eq0(self.counted(e, en.idx - b.idx, lambda i: c_not(
            p2c(self.apply(f, [self.at(b, i)], e))))))

    def s_any_of(self, e):
        return c_not(self.s_none_of(e))

    def s_none_of(self, e):
        b, en, f = self.stdargs(e)
        return simp(eq0(self.counted(e, en.idx - b.idx,
                                     lambda i: self.apply(f, [self.at(b, i)], e))))

    def s_count_if(self, e):
        b, en, f = self.stdargs(e)
        return self.counted(e, en.idx - b.idx, lambda i: self.apply(f, [self.at(b, i)], e))

    def s_count(self, e):
        b, en, v = self.stdargs(e)
        return self.counted(e, en.idx - b.idx, lambda i: self.equal(
            self.arrval(self.load(self.at(b, i))), self.arrval(v)))

    def s_find_if(self, e):
        b, en, f = self.stdargs(e)
        return IterV(b.ref, b.idx + self.first(
            e, en.idx - b.idx, lambda i: self.apply(f, [self.at(b, i)], e)))

    def s_find_if_not(self, e):
        b, en, f = self.stdargs(e)
        return IterV(b.ref, b.idx + self.first(
            e, en.idx - b.idx, lambda i: c_not(p2c(self.apply(f, [self.at(b, i)], e)))))

    def s_find(self, e):
        b, en, v = self.stdargs(e)
        return IterV(b.ref, b.idx + self.first(e, en.idx - b.idx, lambda i: self.equal(
            self.arrval(self.load(self.at(b, i))), self.arrval(v))))

    def s_adjacent_find(self, e):
        a = self.stdargs(e)
        b, en = a[:2]
        n = en.idx - b.idx

        def pred(i):
            x, y = self.at(b, i), self.at(b, i + 1)
            if len(a) == 3:
                return self.apply(a[2], [x, y], e)
            return self.equal(self.arrval(self.load(x)), self.arrval(self.load(y)))
        r = self.first(e, n - 1, pred)
        return IterV(b.ref, b.idx + ite(eq0(n - 1 - r), n, r))

    def s_equal(self, e):
        a = self.stdargs(e)
        b, en, d = a[:3]
        n = en.idx - b.idx
        c = S.TRUE
        rest = a[3:]
        if rest and isinstance(rest[0], IterV):
            c = simp(eq0(rest[0].idx - d.idx - n))
            rest = rest[1:]
            if c.k == 'false':
                return c

        def pred(i):
            x, y = self.at(b, i), self.at(d, i)
            if rest:
                return c_not(p2c(self.apply(rest[0], [x, y], e)))
            return c_not(self.equal(self.arrval(self.load(x)), self.arrval(self.load(y))))
        if c.k == 'true':
            return simp(eq0(self.counted(e, n, pred)))
        q = Sym('q', 'int', S.ZERO, n - 1)
        return c_and(c, eq0(Sum(q, S.ZERO, n - 1, self.at_pred(e, pred)(P.of(q)))))

    def extreme(self, e, sign):
        a = self.stdargs(e)
        b, en = a[:2]
        n = en.idx - b.idx

        def val(i):
            v = self.load(self.at(b, i))
            if not isinstance(v, P):
                raise Unsup('extreme element of class type')
            return v
        if len(a) == 3:
            f = a[2]
            if not isinstance(f, Clo):
                raise Unsup('extreme element with function object')
            less = lambda i, j: p2c(self.apply(f, [self.at(b, i), self.at(b, j)], e))
            better = (lambda i, j: less(j, i)) if sign > 0 else less
        else:
            better = lambda i, j: gt0((val(i) - val(j)) * sign)
        k = n.as_int()
        if k is not None and k <= 16:
            best = S.ZERO
            for i in range(1, k):
                best = ite(better(P.of(i), best), P.of(i), best)
            return IterV(b.ref, b.idx + best)
        # the first position no other one is better than
        q, r, s = (Sym('q', 'int', S.ZERO, n - 1), Sym('r', 'int', S.ZERO, n - 1),
                   Sym('s', 'int', S.ZERO, n - 1))
        beaten = lambda t: eq0(Sum(q, S.ZERO, n - 1, ite(
            better(P.of(q), P.of(t)), S.ONE, S.ZERO)))
        upto = Sum(s, S.ZERO, P.of(r), ite(beaten(s), S.ONE, S.ZERO))
        val = None
        if len(a) == 2:
            val = self.new(val0 := self.load(self.at(b, S.ZERO)), self.sumty(b), 'ext')
            if isinstance(val0, P):
                pick = fmax if sign > 0 else fmin
                self.sweep(e, n - 1, lambda i: self.store(val, pick(
                    self.load(val), self.load(self.at(b, i + 1)))))
            val = self.load(val)
        return IterV(b.ref, b.idx + Sum(r, S.ZERO, n - 1, ite(eq0(upto), S.ONE, S.ZERO)), val)

    def s_max_element(self, e):
        return self.extreme(e, 1)

    def s_min_element(self, e):
        return self.extreme(e, -1)

    def s_clamp(self, e):
        a = [self.num(x) for x in e['a']]
        if len(a) != 3:
            raise Unsup('clamp with comparison')
        v, lo, hi = a
        return ite(gt0(lo - v), lo, ite(gt0(v - hi), hi, v))

    def s_fill_n(self, e):
        b, n, w = self.stdargs(e)
        self.sweep(e, n, lambda i: self.store(self.at(b, i), w))
        return IterV(b.ref, b.idx + n)

    def s_copy_n(self, e):
        b, n, d = self.stdargs(e)
        self.sweep(e, n, lambda i: self.store(self.at(d, i), self.load(self.at(b, i))))
        return IterV(d.ref, d.idx + n)

    def s_generate(self, e):
        b, en, f = self.stdargs(e)
        self.sweep(e, en.idx - b.idx, lambda i: self.store(self.at(b, i), self.apply(f, [], e)))

    def s_partial_sum(self, e):
        a = self.stdargs(e)
        b, en, d = a[:3]
        n = en.idx - b.idx
        acc = self.new(S.ZERO, self.sumty(b), 'ps')

        def f(i):
            x = self.load(self.at(b, i))
            if not isinstance(x, P):
                raise Unsup('partial sum of class type')
            if len(a) == 4:
                raise Unsup('partial sum with operation')
            self.store(acc, self.load(acc) + x)
            self.store(self.at(d, i), self.load(acc))
        self.sweep(e, n, f)
        return IterV(d.ref, d.idx + n)

    def sumty(self, it):
        c = self.load(it.ref)
        return c.ety if isinstance(c, VecV) else self.size_t()

    def s_exchange(self, e):
        o = self.ev(e['a'][0])
        v = self.load(o)
        self.store(o, self.rv(self.ev(e['a'][1])))
        return v

    def s_advance(self, e):
        o = self.ev(e['a'][0])
        v = self.load(o)
        self.store(o, IterV(v.ref, v.idx + self.num(e['a'][1])))

    def s_prev(self, e):
        a = self.stdargs(e)
        return IterV(a[0].ref, a[0].idx - (a[1] if len(a) > 1 else 1))

    s_cbegin = lambda self, e: self.s_begin(e)
    s_cend = lambda self, e: self.s_end(e)

    def s_empty(self, e):
        return simp(eq0(self.size_of(self.rv(self.ev(e['a'][0])))))

    def s_accumulate(self, e):
        a = [self.rv(self.ev(x)) for x in e['a']]
        b, en, init = a[:3]
        c = self.arrval(self.load(b.ref))
        i, j = b.idx.as_int(), en.idx.as_int()
        if isinstance(c, VecV) and len(a) == 3:
            q = Sym('q', 'int', b.idx, en.idx - 1)
            x = cread(c.c, P.of(q))
            if isinstance(x, P) and isinstance(init, P):
                return init + Sum(q, b.idx, en.idx - 1, x)
            raise Unsup('accumulate')
        if isinstance(c, ArrV) and i is not None and j is not None:
            for k in range(i, j):
                if len(a) == 4:
                    init = self.apply(a[3], [init, b.ref.sub(('a', P.of(k)))], e)
                else:
                    init = c2p(init) + c2p(c.e[k])
            return init
        if len(a) == 4 and isinstance(c, VecV):
            t = self.p.strip(e['a'][2].get('t'))
            acc = self.new(init, t, 'acc')
            self.sweep(e, en.idx - b.idx, lambda i: self.store(acc, self.apply(
                a[3], [self.load(acc), self.at(b, i)], e)))
            return self.load(acc)
        raise Unsup('accumulate')

    def s_for_each(self, e):
        b, en, f = self.stdargs(e)
        self.sweep(e, en.idx - b.idx, lambda i: self.apply(f, [self.at(b, i)], e))
        return f

    def s_for_each_n(self, e):
        b, n, f = self.stdargs(e)
        self.sweep(e, n, lambda i: self.apply(f, [self.at(b, i)], e))
        return IterV(b.ref, b.idx + n)

    def s_is_sorted(self, e):
        a = [self.rv(self.ev(x)) for x in e['a']]
        b, en = a[:2]
        n = en.idx - b.idx

        def less(i, j):
            if len(a) == 3:
                return p2c(self.apply(a[2], [self.at(b, i), self.at(b, j)], e))
            x, y = self.load(self.at(b, i)), self.load(self.at(b, j))
            if not isinstance(x, P) or not isinstance(y, P):
                raise Unsup('is_sorted of class type')
            return gt0(y - x)
        k = n.as_int()
        if k is not None and k <= 16:
            return c_and(*[c_not(less(P.of(i), P.of(i - 1))) for i in range(1, k)])
        q = Sym('q', 'int', S.ONE, n - 1)
        return eq0(Sum(q, S.ONE, n - 1, ite(less(P.of(q), P.of(q) - 1), S.ONE, S.ZERO)))

    def s_fill(self, e):
        a = [self.rv(self.ev(x)) for x in e['a']]
        b, en, w = a
        c = self.load(b.ref)
        ac = self.arrval(c)
        i, j = b.idx.as_int(), en.idx.as_int()
        if isinstance(ac, ArrV):
            if i is None or j is None:
                raise Unsup('fill')
            self.store(b.ref if ac is c else b.ref.sub(('b', 0)),
                       ArrV([w if i <= k < j else x for k, x in enumerate(ac.e)]))
            return
        q = Sym('q', 'int', b.idx, en.idx - 1)
        self.store(b.ref, VecV(c.ln, Cnt(c.c.base, c.c.layers + (
            Layer((q,), P.of(q), S.TRUE, w),)), c.ety))

    def s_iota(self, e):
        a = [self.rv(self.ev(x)) for x in e['a']]
        b, en, w = a
        c = self.load(b.ref)
        if not isinstance(c, VecV):
            raise Unsup('iota')
        q = Sym('q', 'int', b.idx, en.idx - 1)
        self.store(b.ref, VecV(c.ln, Cnt(c.c.base, c.c.layers + (
            Layer((q,), P.of(q), S.TRUE, w + P.of(q) - b.idx),)), c.ety))

    def s_copy(self, e):
        a = [self.rv(self.ev(x)) for x in e['a']]
        b, en, d = a
        src = self.arrval(self.load(b.ref))
        dst = self.load(d.ref)
        if isinstance(dst, VecV) and isinstance(src, (VecV, ArrV)):
            q = Sym('q', 'int', b.idx, en.idx - 1)
            val = self.step(src, ('a', P.of(q)))
            self.store(d.ref, VecV(dst.ln, Cnt(dst.c.base, dst.c.layers + (
                Layer((q,), P.of(q) - b.idx + d.idx, S.TRUE, val),)), dst.ety))
            return IterV(d.ref, d.idx + en.idx - b.idx)
        ad = self.arrval(dst)
        i, j, k = b.idx.as_int(), en.idx.as_int(), d.idx.as_int()
        if isinstance(ad, ArrV) and isinstance(src, ArrV) and None not in (i, j, k):
            xs = list(ad.e)
            xs[k:k + j - i] = src.e[i:j]
            self.store(d.ref if ad is dst else d.ref.sub(('b', 0)), ArrV(xs))
            return IterV(d.ref, d.idx + j - i)
        raise Unsup('copy')

    def s_transform(self, e):
        a = [self.rv(self.ev(x)) for x in e['a']]
        if len(a) == 4:
            b, en, d, f = a
            srcs = [b]
        elif len(a) == 5:
            b, en, b2, d, f = a
            srcs = [b, b2]
        else:
            raise Unsup('transform')
        n = en.idx - b.idx
        self.sweep(e, n, lambda i: self.store(self.at(d, i), self.apply(
            f, [self.at(s, i) for s in srcs], e)))
        return IterV(d.ref, d.idx + n)

    def s_inner_product(self, e):
        a = [self.rv(self.ev(x)) for x in e['a']]
        b, en, b2, init = a[:4]
        if len(a) not in (4, 6):
            raise Unsup('inner_product')
        t = self.p.strip(e['a'][3].get('t'))
        acc = self.new(init, t, 'acc')

        def f(i):
            x, y = self.at(b, i), self.at(b2, i)
            if len(a) == 6:
                v = self.apply(a[4], [self.load(acc), self.apply(a[5], [x, y], e)], e)
            else:
                x, y, z = self.load(x), self.load(y), self.load(acc)
                if not all(isinstance(w, P) for w in (x, y, z)):
                    raise Unsup('inner_product of class type')
                v = z + x * y
            self.store(acc, v)
        self.sweep(e, en.idx - b.idx, f)
        return self.load(acc)

    def s_distance(self, e):
        a = [self.rv(self.ev(x)) for x in e['a']]
        return a[1].idx - a[0].idx

    def s_begin(self, e):
        r = self.ev(e['a'][0])
        return IterV(r, 0)

    def s_end(self, e):
        r = self.ev(e['a'][0])
        return IterV(r, self.size_of(self.load(r)))

    s_cbegin, s_cend = s_begin, s_end

    def s_size(self, e):
        return self.size_of(self.rv(self.ev(e['a'][0])))

    def s_next(self, e):
        a = [self.rv(self.ev(x)) for x in e['a']]
        return IterV(a[0].ref, a[0].idx + (a[1] if len(a) > 1 else 1))


class StrLit:
    def __init__(self, s):
        self.s = s

    def __eq__(self, o):
        return isinstance(o, StrLit) and self.s == o.s

    __hash__ = None


class DeadCode(Exception):
    """control does not come back"""


import loops
loops.DeadCode = DeadCode
loops.LoopCtx = LoopCtx
