"""Value-flow analysis of the Base64 codec: the bytes of the input stay symbolic, the
grouping loops are summarised over a symbolic length, and every character (byte) of
the result is compared with the 6-bit regrouping of RFC 4648."""
from kern import *

TECHNIQUE = 'value-flow analysis with a byte-level memory model, loop summarisation, interval obligations on indices'
NOTE = ('Bytes of an array of k-byte values: byte j belongs to value j div k (trivially copyable element types, the '
        'same machine encodes and decodes). Length arithmetic does not overflow.')
ALPHABET = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'
CHARS = tuple(map(ord, ALPHABET))
TYPES = {'uchar': ('unsigned char', 1, 1), 'short': ('short', 2, 1), 'int': ('int', 4, 1), 'float': ('float', 4, 1),
         'double': ('double', 8, 1), 'size_t': ('size_t', 8, 1), 'Point<1,double>': ('Point<1,double>', 8, 1),
         'Point<2,double>': ('Point<2,double>', 8, 2), 'Point<3,double>': ('Point<3,double>', 8, 3),
         'Point<2,float>': ('Point<2,float>', 4, 2), 'Point<4,double>': ('Point<4,double>', 8, 4)}
EQ = P.of(ord('='))


def lut(i):
    i = P.of(i)
    return P.of(CHARS[i.as_int()]) if i.as_int() is not None else fn('lut', (CHARS, i), 'int')


def lib(b, name):
    """the library function the probe's wrapper ends in, for reporting"""
    return [g for g in b.p.find(name, many=True) if g.get('rec') is not None
            and b.p.recs[g['rec']]['short'].startswith('Base64')][0]


def encode(c, ty):
    b = Bench(c, 'base64')
    it = b.it
    short_, k, dim = TYPES[ty]
    f = b.p.find('enc', rec='Codec<%s>' % short_)
    w = lib(b, 'Encode')
    n = b.size('n', 0)
    vt = b.p.strip(f['params'][0]['type'])
    ety = b.p.recs[b.p.types[vt]['rec']]['targs'][0]['t']
    vec = symbolic_points(it, ety, 'v', P.of(n))
    if ty == 'uchar':
        q = Sym('q', 'int', 0, None)
        vec = VecV(P.of(n), Cnt(('lam', q, fn('byte', ('v', P.of(q)), 'int'))), ety)
    v = it.new(vec, vt, 'v')
    b.start()
    r = it.rv(b.call(f, None, [v]))
    con = 'Encode<%s>' % ty
    nb = k * dim * P.of(n)
    b.equal('length of the text', con, w, r.ln, 4 * idiv(nb + 2, P.of(3)), sizemax=9)
    g = Sym('g', 'int', 0, idiv(nb + 2, P.of(3)) - 1)

    def byte(j):
        if ty == 'uchar':
            return ite(ge0(nb - 1 - j), fn('byte', ('v', j), 'int'), S.ZERO)
        e = idiv(j, P.of(k))
        comp = imod(e, P.of(dim))
        idx = idiv(e, P.of(dim))
        x = fn('arr', ('v', dim - 1, idx))
        for d in range(dim - 2, -1, -1):
            x = ite(eq0(comp - d), fn('arr', ('v', d, idx)), x)
        return ite(ge0(nb - 1 - j), fn('byte', (x, imod(j, P.of(k))), 'int'), S.ZERO)
    G = P.of(g)
    a0, a1, a2 = (byte(3 * G + i) for i in range(3))
    four, sixteen, sf = P.of(4), P.of(16), P.of(64)
    want = [lut(idiv(a0, four)), lut(imod(a0, four) * 16 + idiv(a1, sixteen)),
            ite(ge0(nb - 2 - 3 * G), lut(imod(a1, sixteen) * 4 + idiv(a2, sf)), EQ),
            ite(ge0(nb - 3 - 3 * G), lut(imod(a2, sf)), EQ)]
    for i in range(4):
        b.equal('characters of a group (RFC 4648)', '%s character %d of each group' % (con, i), w,
                at(r, 4 * G + i)[0], want[i], sizemax=7, tries=150)
    b.clean('no error on any input', con, w)
    obligations(b, con, 'every access is inside its buffer')


def decode(c, ty):
    b = Bench(c, 'base64')
    it = b.it
    short_, k, dim = TYPES[ty]
    f = b.p.find('dec', rec='Codec<%s>' % short_)
    w = lib(b, 'Decode')
    con = 'Decode<%s>' % ty
    # the text of n entries
    n = b.size('n', 0)
    nb = k * dim * P.of(n)
    groups = idiv(nb + 2, P.of(3))
    pad = 3 * groups - nb
    st = b.p.strip(f['params'][0]['type'])
    q = Sym('q', 'int', 0, None)

    def six(j):
        return fn('six', ('s', P.of(j)), 'int')
    chars = ite(ge0(4 * groups - pad - 1 - P.of(q)), lut(six(P.of(q))), EQ)
    s = it.new(VecV(4 * groups, Cnt(('lam', q, chars)), b.typeof('char')), st, 's')
    b.start()
    r = it.rv(b.call(f, None, [s]))
    b.equal('number of entries', con, w, r.ln, P.of(n), sizemax=9)
    b.clean('a well-formed text is accepted', con, w)
    views = [x for x in it.views if not x['const']]
    if ty == 'uchar' and not views:
        buf = r        # the entries are the bytes
    elif len(views) != 1:
        c.add('bytes of the entries', con, b.where(w), 'undecided', '%d byte views' % len(views))
        return
    else:
        z = Sym('z', 'int', 0, P.of(n) - 1)
        ls = at(r, z)
        for d, l in enumerate(ls):
            b.equal('the entries are the decoded bytes in order', '%s component %d' % (con, d), w, l,
                    fn('bytesof', (1, P.of(z) * dim + d), leaf_sort(l)))
        buf = it.st[views[0]['cell']]
    j = Sym('j', 'int', 0, nb - 1)
    J = P.of(j)
    g, o = idiv(J, P.of(3)), imod(J, P.of(3))
    s0, s1, s2, s3 = (six(4 * g + i) for i in range(4))
    four, sixteen = P.of(4), P.of(16)
    b0, b1, b2 = s0 * 4 + idiv(s1, sixteen), imod(s1, sixteen) * 16 + idiv(s2, four), imod(s2, four) * 64 + s3
    b.equal('bytes of the entries (RFC 4648)', con, w, at(buf, j)[0],
            ite(eq0(o), b0, ite(eq0(o - 1), b1, b2)), sizemax=7, tries=150)
    obligations(b, con, 'every access is inside its buffer')


def anytext(c, ty):
    """arbitrary text: nothing outside the buffers is touched"""
    b = Bench(c, 'base64')
    it = b.it
    short_, k, dim = TYPES[ty]
    f = b.p.find('dec', rec='Codec<%s>' % short_)
    st = b.p.strip(f['params'][0]['type'])
    q = Sym('q', 'int', 0, None)
    n = b.size('n', 0)
    s = it.new(VecV(P.of(n), Cnt(('lam', q, fn('char', ('s', P.of(q)), 'int'))), b.typeof('char')), st, 's')
    b.start()
    b.call(f, None, [s])
    obligations(b, 'Decode<%s> of any text' % ty, 'every access is inside its buffer',
                ints=False)       # what is stored for a malformed text is not specified


def cases(ctx):
    out = []
    for t in TYPES:
        out.append(('Encode ' + t, lambda c, t=t: encode(c, t)))
        out.append(('Decode ' + t, lambda c, t=t: decode(c, t)))
        out.append(('Decode any ' + t, lambda c, t=t: anytext(c, t)))
    return out
