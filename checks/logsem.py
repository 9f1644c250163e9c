"""Abstract semantics of streams and texts for the logger: every write, open, close
and flush is an effect with its path condition; a file stream carries a typestate."""
from kern import *
from interp import StrLit, DeadCode

NEVER, OPEN, CLOSED = 0, 1, 2
OSTREAMS = ('basic_ostream', 'basic_ofstream', 'basic_ios', 'basic_ostringstream', 'basic_fstream',
            'basic_stringstream')


class TextV(StrV):
    """text, with the condition under which each tracked part is contained"""

    def __init__(self, parts=None):
        self.parts = dict(parts or {})

    def __eq__(self, o):
        return isinstance(o, TextV) and self.parts == o.parts

    __hash__ = None

    def tmerge(self, c, b):
        b = text(b)
        return TextV({k: c_or(c_and(c, self.parts.get(k, S.FALSE)), c_and(c_not(c), b.parts.get(k, S.FALSE)))
                      for k in set(self.parts) | set(b.parts)})

    def plus(self, o):
        o = text(o)
        return TextV({k: c_or(self.parts.get(k, S.FALSE), o.parts.get(k, S.FALSE))
                      for k in set(self.parts) | set(o.parts)})


def text(v):
    return v if isinstance(v, TextV) else TextV()


class LogInterp(Interp):
    """file stream value: [typestate, unflushed output]"""
    history = False

    def isfile(self, v):
        return isinstance(v, ArrV) and len(v.e) == 3 and isinstance(v.e[2], FileId)

    def zero(self, t, unk=False):
        x = self.p.types[self.p.strip(t)]
        if x['k'] == 'rec':
            sh = self.p.recs[x['rec']]['short']
            if sh in ('basic_ofstream', 'basic_fstream'):
                return ArrV([S.ZERO, S.FALSE, FileId()])
            if sh == 'initializer_list':
                return ArrV([])
            if sh in ('basic_ostringstream', 'basic_stringstream', 'basic_string', 'basic_string_view'):
                return TextV()
        return super().zero(t, unk)

    def effect(self, kind, sink, e, **kw):
        if self.record:
            self.events.append(dict(kind=kind, sink=sink, guard=self.guard_here(), loc=self.p.loc(e),
                                    fun=self.frames[-1].fun['name'] if self.frames else '?', **kw))

    def sink(self, r):
        if isinstance(r, Ref):
            if not r.path:
                return r.cell
            return r.cell + ''.join('.%s' % s[1] for s in r.path)
        return '?'

    def x_decl(self, s):
        ds = [d for d in s['d'] if d.get('static')]
        if not ds:
            return super().x_decl(s)
        for d in s['d']:
            key = 'global:' + d['name']
            if key not in self.st:
                self.st[key] = self.init_val(d.get('init'), d['type'])
                self.cty[key] = d['type']
            self.frames[-1].env[d['id']] = Ref(key)
        return True

    def output(self, r, x, e):
        v = self.rv(r) if isinstance(r, Ref) else r
        if isinstance(v, TextV):
            if isinstance(r, Ref):
                self.store(r, v.plus(x))
            return
        st = v.e[0] if self.isfile(v) else None
        parts = text(x).parts
        self.effect('write', self.sink(r), e, parts=parts, state=st)
        if self.isfile(v):
            self.store(r, ArrV([v.e[0], S.TRUE, v.e[2]]))

    def flushed(self, r):
        v = self.rv(r)
        if self.isfile(v):
            self.store(r, ArrV([v.e[0], S.FALSE, v.e[2]]))

    def stdop(self, e):
        op = e['op']
        if op == '<<':
            r = self.ev(e['a'][0])
            x = self.ev(e['a'][1])
            self.put(r, x, e['a'][1], e)
            return r
        a = [self.ev(x) for x in e['a']]
        v = [self.rv(x) for x in a]
        if op == '+' and any(isinstance(x, (TextV, StrLit)) for x in v):
            return text(v[0]).plus(v[1])
        if op == '!' and self.isfile(v[0]):
            return c_not(eq0(v[0].e[0] - OPEN))
        return super().stdop(e)

    def put(self, r, x, src, e):
        y = src
        while y and y['k'] in ('cast', 'temp', 'load'):
            y = y['e']
        if y and y['k'] == 'funref':
            if (y.get('short') or '') in ('endl', 'flush'):
                self.flushed(r)
            return
        self.output(r, self.rv(x), e)

    def stdcall(self, e):
        rec = self.p.recs[e['rec']] if e.get('rec') is not None else None
        sh = e.get('short') or ''
        nm = e.get('name') or ''
        if rec is not None and e.get('obj') is not None and rec['short'] in OSTREAMS:
            o = self.ev(e['obj'])
            if e.get('arrow'):
                o = self.deref(o)
            return self.stream(e, sh, o)
        if sh in ('setw', 'setprecision', 'setfill', 'time', 'localtime', 'gmtime', 'localtime_r', 'now', 'to_time_t'):
            for a in e['a']:
                self.ev(a)
            return Opq(sh)
        if sh in ('asctime', 'ctime', 'put_time', 'strftime'):
            for a in e['a']:
                self.ev(a)
            return TextV({'time': S.TRUE})
        return super().stdcall(e)

    def stream(self, e, sh, o):
        v = self.rv(o) if isinstance(o, Ref) else o
        if sh == 'operator<<':
            self.put(o, self.ev(e['a'][0]), e['a'][0], e)
            return o
        if sh in ('write', 'put'):
            self.output(o, self.rv(self.ev(e['a'][0])), e)
            return o
        if sh == 'str' and isinstance(v, TextV):
            return v
        if sh == 'flush':
            if isinstance(o, Ref):
                self.flushed(o)
            return o
        if self.isfile(v):
            st = v.e[0]
            if sh in ('is_open', 'good', 'operator bool'):
                return simp(eq0(st - OPEN))
            if sh in ('fail', 'bad', 'operator!'):
                return simp(c_not(eq0(st - OPEN)))
            if sh == 'open':
                a = [self.rv(self.ev(x)) for x in e['a'] if x['k'] != 'defarg']
                name = a[0].s if isinstance(a[0], StrLit) else None
                if name is None and isinstance(a[0], TextV):
                    name = getattr(a[0], 'lit', None)
                mode = a[1].as_int() if len(a) > 1 and isinstance(a[1], P) else (16 if len(a) < 2 else None)
                self.effect('open', self.sink(o), e, name=name, mode=mode, state=st)
                self.store(o, ArrV([P.of(OPEN), S.FALSE, v.e[2]]))
                return None
            if sh == 'close':
                self.effect('close', self.sink(o), e, state=st)
                self.store(o, ArrV([ite(eq0(st - OPEN), P.of(CLOSED), st), S.FALSE, v.e[2]]))
                return None
        if sh in ('setf', 'unsetf', 'width', 'precision', 'fill', 'clear', 'imbue'):
            for a in e['a']:
                self.ev(a)
            return Opq(sh)
        raise Unsup('stream method ' + sh)

    def stdctor(self, e, rec, t):
        sh = rec['short']
        if sh in ('basic_ofstream', 'basic_fstream'):
            a = [x for x in e['a'] if x['k'] != 'defarg']
            if a:
                r = self.new(self.zero(t), t, 'stream')
                self.stream(dict(e, a=a), 'open', r)
                return self.load(r)
            return self.zero(t)
        if sh in ('basic_ostringstream', 'basic_stringstream'):
            for x in e['a']:
                self.ev(x)
            return TextV()
        if sh == 'initializer_list' and not e['a']:
            return ArrV([])
        if sh == 'basic_string_view':
            return self.strctor(e, t)
        return super().stdctor(e, rec, t)

    def strctor(self, e, t):
        for x in e['a']:
            if not self.isalloc(x):
                v = self.rv(self.ev(x))
                if isinstance(v, TextV):
                    return v
                r = TextV()
                if isinstance(v, StrLit):
                    r.lit = v.s
                return r
        return TextV()

    def m_basic_string(self, e, sh, o):
        v = self.rv(o)
        if not isinstance(v, (TextV, StrLit)):
            return super().m_basic_string(e, sh, o)
        a = [self.rv(self.ev(x)) for x in e['a']]
        if sh in ('operator+=', 'append', 'push_back', 'insert'):
            r = text(v)
            for x in a:
                r = r.plus(x)
            self.store(o, r)
            return o
        if sh in ('operator=', 'assign'):
            self.store(o, text(a[0]))
            return o
        if sh == 'clear':
            self.store(o, TextV())
            return None
        if sh in ('c_str', 'data', 'substr'):
            return v
        if sh in ('pop_back', 'erase', 'reserve', 'resize', 'shrink_to_fit'):
            return None
        if sh in ('size', 'length'):
            return UNK('text length', 'int')
        if sh == 'empty':
            return Cond('opq', 'unk', (UNK('text'),))
        raise Unsup('string method ' + sh)

    def e_throw(self, e):
        x = e.get('e')
        parts = {}
        seen = [x]
        while seen:
            y = seen.pop()
            if not isinstance(y, dict):
                continue
            if y.get('k') == 'ctor' and self.p.recs[y['rec']]['short'] != 'allocator':
                for z in y['a']:
                    try:
                        parts.update(text(self.rv(self.ev(z))).parts)
                    except (Unsup, DeadCode):
                        seen.append(z)
                continue
            for z in (y.get('e'),):
                seen.append(z)
        tt = e.get('tt')
        ty = self.p.shortty(self.p.strip(tt)) if tt is not None else None
        files = {k: v for k, v in self.streams().items()}
        n = len(self.events)
        self.raised('throw', e)
        for ev in self.events[n:]:
            ev.update(type=ty, parts=parts, files=files)
        raise DeadCode()

    def streams(self):
        out = {}

        def walk(v, name):
            if self.isfile(v):
                out[name] = v
            elif isinstance(v, Obj):
                for k, x in v.f.items():
                    walk(x, '%s.%s' % (name, k if isinstance(k, str) else 'base'))
        for c, v in self.st.items():
            if c.startswith('global:'):
                walk(v, c)
        return out


class FileId:
    def __eq__(self, o):
        return isinstance(o, FileId)

    __hash__ = None

    def __repr__(self):
        return 'file'

    def tmerge(self, c, b):
        return self
