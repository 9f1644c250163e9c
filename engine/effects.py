"""Interprocedural effect and escape analysis over the exported, fully instantiated
program: which objects a function may write and which objects its result refers to.

Objects are named by their root: the object of the member function ('this'), a
parameter ('p', i), a variable with static storage ('g', name) or a local one.
A root stands for everything stored inside the object, a pointer or iterator for
the roots it may point into (flow-insensitive).  Function summaries are computed
to a fixpoint over the call graph; lambdas belong to the function they stand in."""
import re

PTR = ('__normal_iterator', 'reverse_iterator', 'move_iterator', 'span', 'reference_wrapper', 'shared_ptr',
       'unique_ptr', '_Bit_iterator', '_Bit_reference', 'back_insert_iterator', 'weak_ptr', 'string_view')
ACCESS = {'begin', 'end', 'rbegin', 'rend', 'operator[]', 'at', 'front', 'back', 'data', 'find', 'get', 'operator*',
          'operator->', 'lower_bound', 'upper_bound', 'base', 'value', 'first', 'second'}
MUTATING = {'copy', 'copy_n', 'copy_if', 'copy_backward', 'transform', 'fill', 'fill_n', 'iota', 'generate',
            'generate_n', 'partial_sum', 'adjacent_difference', 'sort', 'stable_sort', 'swap_ranges', 'reverse',
            'rotate', 'move', 'move_backward', 'replace', 'remove', 'unique', 'iter_swap', 'exclusive_scan',
            'inclusive_scan', 'memcpy', 'memmove', 'memset', '__builtin_memcpy', 'nth_element', 'partial_sort', 'swap'}
PASS = {'forward', 'move', 'get', 'begin', 'end', 'cbegin', 'cend', 'as_const', 'addressof', '__addressof', 'data',
        'min', 'max', 'next', 'prev', 'ref', 'cref', 'clamp', 'find', 'find_if', 'min_element', 'max_element',
        'lower_bound', 'upper_bound', 'advance', 'distance', 'launder'}
FRESH = frozenset()


class Summary:
    def __init__(self):
        self.writes = {}      # root -> (location, how)
        self.ret = set()

    def state(self):
        return frozenset(self.writes), frozenset(self.ret)


class Effects:
    def __init__(self, prog, skip=()):
        self.p = prog
        self.skip = set(skip)           # record names whose functions count as without effect
        self.sum = {}
        self.ref, self.pts = {}, {}
        self.vars = {}
        self.globals = {}
        self.unknown = []
        self.nwrites = 0
        self.calls = {}
        self.funs = [f for f in prog.funs if f.get('body') is not None and not f.get('lambda')
                     and not self.skipped(f)]
        for f in self.funs:
            self.sum[f['id']] = Summary()
        self.nested = set()
        for rnd in range(12):
            before = {i: s.state() for i, s in self.sum.items()}
            marks = self.mark()
            self.nwrites = 0
            for f in self.funs:
                self.function(f)
            if before == {i: s.state() for i, s in self.sum.items()} and marks == self.mark():
                break
        self.rounds = rnd + 1

    def mark(self):
        return sum(map(len, self.ref.values())), sum(map(len, self.pts.values()))

    def skipped(self, f):
        return f.get('rec') is not None and self.p.recs[f['rec']]['short'] in self.skip

    # ---------------------------------------------------------------- types --
    def ty(self, t):
        return self.p.types[t] if t is not None and t >= 0 else {'k': 'void'}

    def isref(self, t):
        return self.ty(t)['k'] in ('ref', 'rref')

    def ptrlike(self, t):
        x = self.ty(t)
        while x['k'] in ('ref', 'rref'):
            x = self.ty(x['to'])
        if x['k'] == 'ptr':
            return True
        return x['k'] == 'rec' and self.p.recs[x['rec']]['short'] in PTR

    def const_target(self, t):
        """the object a reference, pointer or iterator type gives access to is const"""
        x = self.ty(t)
        if x['k'] in ('ref', 'rref', 'ptr'):
            return bool(self.ty(x['to']).get('const'))
        s = x.get('s', '')
        if x['k'] == 'rec' and self.p.recs[x['rec']]['short'] in PTR:
            return re.search(r'(iterator|span|_wrapper|_ptr)<const ', s) is not None or 'string_view' in s
        return True

    # ------------------------------------------------------------ functions --
    def function(self, f):
        self.f = f
        self.s = self.sum[f['id']]
        self.this = frozenset([('this',)])
        for i, q in enumerate(f['params']):
            self.vars[q['id']] = q['type']
            if self.isref(q['type']):
                self.ref[q['id']] = {('p', i)}
                self.pts.setdefault(q['id'], set()).add(('p', i))
            elif self.ptrlike(q['type']):
                self.pts.setdefault(q['id'], set()).add(('p', i))
        for ini in f.get('inits') or []:
            if ini.get('e'):
                self.both(ini['e'])
        self.stmt(f['body'])

    def at(self, e):
        return self.p.loc(e) if e.get('l') else self.p.loc(self.f)

    def write(self, roots, e, how):
        self.nwrites += 1
        for r in roots:
            if r[0] in ('this', 'p', 'g') and r not in self.s.writes:
                self.s.writes[r] = (self.at(e), how, self.f['name'])

    def lambda_body(self, g):
        """body of a lambda as part of the current function"""
        if g in self.nested and g in getattr(self, 'open', ()):
            return
        self.open = getattr(self, 'open', set()) | {g}
        f = self.p.funs[g]
        for q in f['params']:
            self.vars[q['id']] = q['type']
            self.ref.setdefault(q['id'], set())
            self.pts.setdefault(q['id'], set())
        if f.get('body') is not None:
            self.inlam = getattr(self, 'inlam', []) + [g]
            self.stmt(f['body'])
            self.inlam = self.inlam[:-1]
        self.open = self.open - {g}

    # ----------------------------------------------------------- statements --
    def stmt(self, s):
        if s is None:
            return
        k = s['k']
        if k in ('block',):
            for x in s['b']:
                self.stmt(x)
        elif k == 'decl':
            for d in s['d']:
                self.decl(d)
        elif k == 'rangefor':
            r = self.both(s['range']) if s.get('range') else FRESH
            v = s['var']
            self.vars[v['id']] = v['type']
            if self.isref(v['type']):
                self.ref.setdefault(v['id'], set()).update(r)
            self.pts.setdefault(v['id'], set()).update(r if self.ptrlike(v['type']) else ())
            self.stmt(s['b'])
        elif k == 'return':
            if s.get('e') is not None:
                rt = self.f['ret']
                lam = getattr(self, 'inlam', [])
                if lam:
                    self.both(s['e'])
                elif self.isref(rt):
                    self.s.ret |= {r for r in self.L(s['e']) if r[0] != 'loc'}
                elif self.ptrlike(rt):
                    self.s.ret |= {r for r in self.V(s['e']) if r[0] != 'loc'}
                else:
                    self.both(s['e'])
        elif k == 'expr':
            self.both(s['e'])
        else:
            for key in ('init', 'cv', 'b', 't', 'e'):
                x = s.get(key)
                if isinstance(x, dict) and 'k' in x:
                    self.any(x)
            for key in ('c', 'inc', 'v'):
                if isinstance(s.get(key), dict):
                    self.both(s[key])
            for x in s.get('h') or []:
                self.stmt(x)

    STM = {'block', 'decl', 'if', 'for', 'while', 'do', 'rangefor', 'return', 'break', 'continue', 'switch', 'case',
           'default', 'try', 'expr'}

    def any(self, x):
        self.stmt(x) if x['k'] in self.STM else self.both(x)

    def decl(self, d):
        self.vars[d['id']] = d['type']
        e = d.get('init')
        if d.get('static'):
            self.globals[d['id']] = d
            if e is not None:
                self.both(e)
            return
        if self.isref(d['type']):
            self.ref.setdefault(d['id'], set()).update(self.L(e) if e else ())
        if self.ptrlike(d['type']):
            self.pts.setdefault(d['id'], set()).update(self.V(e) if e else ())
        elif e is not None and not self.isref(d['type']):
            self.both(e)

    # ---------------------------------------------------------- expressions --
    def both(self, e):
        """effects of evaluating e; roots it designates or points to"""
        return self.L(e) | self.V(e) if e.get('k') in ('var',) else self.L(e)

    def target(self, roots):
        """what a pointer or iterator stored in roots points to"""
        out = set()
        for r in roots:
            if r[0] == 'loc':
                out |= self.pts.get(r[1], set())
            else:
                out.add(r)
        return frozenset(out)

    def L(self, e):
        """roots of the object an lvalue designates (a pointer or iterator value: what it points to)"""
        k = e['k']
        if k == 'var':
            i = e['id']
            if e.get('global') and not e.get('tls'):
                return frozenset([('g', e['name'], i)])
            if i in self.ref and self.isref(self.vars.get(i, -1)):
                return frozenset(self.ref[i])
            return frozenset([('loc', i)])
        if k == 'this':
            return self.this
        if k == 'member':
            b = self.V(e['b']) if e.get('arrow') else self.L(e['b'])
            return b
        if k == 'index':
            self.L(e['b'])
            return self.V(e['a'])
        if k == 'un':
            if e['op'] == '*':
                return self.V(e['e'])
            if e['op'] in ('++', '--'):
                r = self.L(e['e'])
                self.write(r, e, e['op'])
                return r
            self.L(e['e'])
            return self.L(e['e']) if e['op'] == '&' else FRESH
        if k in ('assign', 'cassign'):
            a = self.L(e['a'])
            v = self.V(e['b'])
            self.write(a, e, 'assignment')
            for r in a:
                if r[0] == 'loc' and self.ptrlike(self.vars.get(r[1], -1)):
                    self.pts.setdefault(r[1], set()).update(v)
            return a
        if k == 'cond':
            self.L(e['c'])
            return self.L(e['a']) | self.L(e['b'])
        if k == 'comma':
            self.L(e['a'])
            return self.L(e['b'])
        if k in ('temp', 'basecast', 'stdil'):
            return self.L(e['e'])
        if k == 'cast':
            return self.L(e['e'])
        if k == 'load':
            return self.V(e)
        if k == 'call':
            return self.call(e)
        if k == 'ctor':
            return self.ctor(e)
        if k == 'lambda':
            for g in [e['f']] if e.get('f') is not None else e.get('specs') or []:
                self.lambda_body(g)
            for c in e.get('caps') or []:
                if c.get('init'):
                    self.L(c['init'])
            return FRESH
        if k == 'bin':
            return (self.V(e['a']) | self.V(e['b'])) if self.ptrlike(e.get('t', -1)) else \
                (self.L(e['a']), self.L(e['b']), FRESH)[2]
        if k == 'ilist':
            out = frozenset()
            for a in e['a']:
                out |= self.L(a)
            return out if len(e['a']) == 1 else FRESH
        if k == 'throw':
            if e.get('e'):
                self.L(e['e'])
            return FRESH
        if k == 'unk':
            for a in e.get('kids') or []:
                if isinstance(a, dict):
                    self.L(a)
            if e.get('cls') != 'SourceLocExpr':
                self.unknown.append((self.at(e), e.get('cls')))
        return FRESH

    def V(self, e):
        """what the pointer or iterator value of e points to"""
        k = e['k']
        if k == 'this':
            return self.this
        if k == 'load':
            return self.target(self.L(e['e']))
        if k == 'var':
            return self.target(self.L(e))
        if k in ('temp', 'basecast', 'stdil'):
            return self.V(e['e'])
        if k == 'cast':
            return self.L(e['e']) if e.get('ck') == 'ArrayToPointerDecay' else self.V(e['e'])
        if k == 'member':
            return self.target(self.L(e))
        if k == 'un' and e['op'] == '&':
            return self.L(e['e'])
        if k == 'un' and e['op'] in ('++', '--'):
            return self.target(self.L(e))
        if k == 'cond':
            self.L(e['c'])
            return self.V(e['a']) | self.V(e['b'])
        if k == 'ilist' and len(e['a']) == 1:
            return self.V(e['a'][0])
        return self.target(self.L(e))

    def arg(self, a, t):
        """roots an argument gives access to"""
        if t is not None and self.isref(t):
            return self.L(a)
        if t is not None and self.ptrlike(t):
            return self.V(a)
        self.L(a)
        return FRESH

    def ctor(self, e):
        pt = e.get('pt') or []
        rs = [self.arg(a, pt[i] if i < len(pt) else None) for i, a in enumerate(e['a'])]
        if e.get('f') is not None and e['f'] in self.sum:
            self.apply(self.sum[e['f']], FRESH, rs, e)
        t = e.get('t', -1)
        if self.ptrlike(t):
            out = frozenset()
            for i, a in enumerate(e['a']):
                x = rs[i] if rs[i] else self.L(a)
                out |= self.target(x)
            return out
        return FRESH

    def apply(self, s, obj, rs, e):
        self.calls.setdefault(self.f['id'], set()).add(id(s))
        for r, (loc, how, fn) in list(s.writes.items()):
            if r[0] == 'g':
                self.write([r], e, how)
                if self.s.writes.get(r, (None,))[0] == self.at(e):
                    self.s.writes[r] = (loc, how, fn)
                continue
            roots = obj if r[0] == 'this' else rs[r[1]] if r[1] < len(rs) else FRESH
            for x in roots:
                if x[0] in ('this', 'p', 'g') and x not in self.s.writes:
                    self.s.writes[x] = (loc if x[0] == 'g' else self.at(e), 'call of ' + fn, fn)
        out = set()
        for r in s.ret:
            out |= set(obj if r[0] == 'this' else rs[r[1]] if r[0] == 'p' and r[1] < len(rs) else
                       [r] if r[0] == 'g' else ())
        return frozenset(out)

    def call(self, e):
        pt = e.get('pt') or []
        obj = FRESH
        if e.get('obj') is not None:
            obj = self.V(e['obj']) if e.get('arrow') else self.L(e['obj'])
        if e.get('fn') is not None:
            self.L(e['fn'])
        rs = [self.arg(a, pt[i] if i < len(pt) else None) for i, a in enumerate(e['a'])]
        g = e.get('f')
        if g is not None:
            fun = self.p.funs[g]
            if fun.get('lambda'):
                for q, r in zip(fun['params'], rs):
                    self.ref.setdefault(q['id'], set()).update(r)
                    self.pts.setdefault(q['id'], set()).update(r)
                return frozenset().union(*rs, obj) if self.isref(fun['ret']) or self.ptrlike(fun['ret']) else FRESH
            if g in self.sum:
                return self.apply(self.sum[g], obj, rs, e)
            if self.skipped(fun):
                return FRESH
            # no body: defaulted operators write their object
            if e.get('obj') is not None and e.get('cst') is False and not e.get('static'):
                self.write(obj, e, 'call of ' + fun['name'])
                return obj
            return FRESH
        return self.std(e, obj, rs, pt)

    def std(self, e, obj, rs, pt):
        sh = e.get('short') or ''
        t = e.get('t', -1)
        refers = e.get('lv') or self.isref(t) or self.ptrlike(t)
        if e.get('obj') is not None and e.get('rec') is not None:
            rec = self.p.recs[e['rec']]['short']
            if rec in PTR:
                tgt = self.target(obj)
                if sh in ('operator++', 'operator--', 'operator+=', 'operator-=', 'operator='):
                    self.write(obj, e, sh)
                    if sh == 'operator=':
                        for r in obj:
                            if r[0] == 'loc':
                                for x in rs:
                                    self.pts.setdefault(r[1], set()).update(self.target(x))
                        if rec == 'back_insert_iterator':
                            self.write(tgt, e, sh)
                    return obj
                return tgt
            if e.get('cst') is False and sh not in ACCESS and not e.get('static'):
                self.write(obj, e, '%s::%s' % (rec, sh))
            return obj if refers else FRESH
        lams = [a for a in e['a'] if self.lam(a) is not None]
        ptr = [i for i, q in enumerate(pt) if self.ptrlike(q) or self.ptrlike(e['a'][i].get('t', -1) if i < len(e['a']) else -1)]
        acc = frozenset()
        for i in ptr:
            if i < len(rs):
                acc |= self.target(rs[i]) | rs[i] if rs[i] else self.V(e['a'][i])
        for a in lams:
            f = self.p.funs[self.lam(a)]
            for q in f['params']:
                self.ref.setdefault(q['id'], set()).update(acc)
                self.pts.setdefault(q['id'], set()).update(acc)
        if not (sh in PASS and not (sh == 'move' and len(e['a']) > 1)):
            for i, (r, q) in enumerate(zip(rs, pt)):
                if self.ty(q)['k'] == 'ref' and not self.const_target(q) and not self.ptrlike(q):
                    self.write(r, e, 'std call ' + sh)
                elif sh in MUTATING and i in ptr and not self.const_target(
                        q if not self.isref(q) else self.ty(q)['to']):
                    self.write(self.target(r) if r else self.V(e['a'][i]), e, 'std call ' + sh)
        if refers:
            out = frozenset()
            for r in rs:
                out |= r
            return out | acc
        return FRESH

    def lam(self, a):
        while a['k'] in ('temp', 'ctor', 'load', 'basecast', 'cast'):
            if a['k'] == 'ctor':
                if len(a['a']) != 1:
                    return None
                a = a['a'][0]
            else:
                a = a['e']
        if a['k'] == 'lambda':
            return a.get('f')
        if a['k'] == 'var':
            x = self.ty(a.get('t', -1))
            if x['k'] == 'rec' and self.p.recs[x['rec']].get('lambda'):
                for f in self.p.funs:
                    if f.get('lambda') and f.get('rec') == x['rec'] and f.get('short') == 'operator()':
                        return f['id']
        return None
