"""Bits <-> symbol indices <-> levels: element-summary relations."""
from fractions import Fraction
import numpy as np
from sa import universe as U, poly as P, npm
from sa.dom import *
from sa.poly import Poly
from sa.eqv import Alphabet
from sa.frame import ok, viol, und
from .rel import symbolic, short, Want, C, arr_of

FLAGS = ('bit_order_inv', 'inv_msb', 'inv_lsb', 'pn_inv')
BITS = Alphabet(x=(0, 1))


def flags(I, b, names=FLAGS):
    """enumerated truth values; -> (keyword arguments, python values)"""
    kw, py = {}, {}
    for n in names:
        v = bool(I.choose(2, info=('option', n)))
        I.tags[n] = v
        py[n] = v
        kw[n] = b.const(n, v)
    return kw, py


def pack(elem, k, f):
    """documented conversion: the first bit of a group is the least significant one; flags apply in order"""
    def g(idx):
        bits = [elem((idx[0] * k + j,)) for j in range(k)]
        if k > 1:
            if f['bit_order_inv']:
                bits = bits[::-1]
            if f['inv_msb']:
                bits[-1] = 1 - bits[-1]
            if f['inv_lsb']:
                bits[0] = 1 - bits[0]
        if f['pn_inv']:
            bits = [1 - x for x in bits]
        r = C(0)
        for j, x in enumerate(bits):
            r = r + x * (1 << j)
        return r
    return g


def bits_of(I, M):
    return M.bit_length() - 1


def b2s(I, item):
    M, part = item
    k = bits_of(I, M)
    B2 = 'CommDspy.tx.bin2symbol'
    S2 = 'CommDspy.rx.symbol2bin'
    nm = '%s %d symbols' % (part, M)

    def x_of(p, v):
        return arr_of(p, v)

    def words(I, b, x, xe, nsym):
        kw, f = flags(I, b)
        y = U.call(I, B2, x, b.const('num_of_symbols', M), **kw)
        return [('symbols', y, Want((nsym,), pack(xe, k, f)))]

    def back(I, b, x, nsym):
        kw, f = flags(I, b)
        y = U.call(I, B2, x, b.const('num_of_symbols', M), **kw)
        z = U.call(I, S2, y, b.const('num_of_symbols', M), **kw)
        xa = I.heap[x.x].elem
        return [('bits', z, Want((nsym * k,), xa if len(I.heap[x.x].shape) == 1 else flat(I.heap[x.x])))]

    def forth(I, b, s):
        kw, f = flags(I, b)
        z = U.call(I, S2, s, b.const('num_of_symbols', M), **kw)
        y = U.call(I, B2, z, b.const('num_of_symbols', M), **kw)
        o = I.heap[s.x]
        n = C(1)
        for d in o.shape:
            n = n * d
        return [('symbols', y, Want((n,), flat(o)))]
    recs = []
    if part == 'conversion':
        for r in range(k):
            def mk(I, b, i, n, r=r):
                x = b.vec('x', n * k + r, 'int', 0, 1)
                return words(I, b, x, I.heap[x.x].elem, n)
            recs += symbolic(I, 'bits-to-symbols', nm + ' trailing bits %d' % r, mk, BITS, maxp=64, sizes=(1, 3, 5, 9))

        def mks(I, b, sh):
            x = b.arr('x', sh, 'int', 0, 1)
            tot = 1
            for d in sh:
                tot *= d
            return words(I, b, x, flat(I.heap[x.x]), C(tot // k))
        recs += short(I, 'bits-to-symbols', nm, mks, BITS, lambda n, t: [('x', n)], [(k,), (2, k), (2 * k + k - 1,), (k, 3)], maxp=64, sample=300)
    elif part == 'bits round trip':
        for r in range(k):
            def mk(I, b, i, n, r=r):
                return back(I, b, b.vec('x', n * k + r, 'int', 0, 1), n)
            recs += symbolic(I, 'round-trip', nm + ' trailing bits %d' % r, mk, BITS, period=k, maxp=64, sizes=(1, 3, 5, 9))

        def mks(I, b, sh):
            tot = 1
            for d in sh:
                tot *= d
            return back(I, b, b.arr('x', sh, 'int', 0, 1), C(tot // k))
        recs += short(I, 'round-trip', nm, mks, BITS, lambda n, t: [('x', n)], [(k,), (2, k), (2 * k,), (k, 3)], maxp=64, sample=300)
    else:
        dom = Alphabet(x=tuple(range(M)))
        recs += symbolic(I, 'round-trip', nm, lambda I, b, i, n: forth(I, b, b.vec('x', n, 'int', 0, M - 1)), dom, maxp=64, sizes=(2, 3, 5, 9, 12))
        recs += short(I, 'round-trip', nm, lambda I, b, sh: forth(I, b, b.arr('x', sh, 'int', 0, M - 1)), dom, lambda n, t: [('x', n)], [(1,), (2,), (1, 2), (2, 2), (2, 1, 2)], maxp=64, sample=300)
    return recs


def flat(o):
    """element function of the row-major flattening of an array"""
    if len(o.shape) == 1:
        return o.elem
    dims = list(o.shape)

    def g(idx):
        r, out = idx[0], []
        for d in reversed(dims[1:]):
            c, k = r.cint(), d.cint()
            if c is None or k is None:
                return None
            out.append(C(c % k))
            r = C(c // k)
        return o.elem(tuple([r] + out[::-1]))
    return g


def wide(I, item):
    """large alphabets: constant words, every flag combination"""
    M = item
    k = bits_of(I, M)
    vals = sorted({0, 1, M - 1, M // 2, M // 2 - 1, M * 5 // 7, M // 3})
    bits = np.array([(v >> j) & 1 for v in vals for j in range(k)])

    def build(I, b, i, n):
        kw, f = flags(I, b)
        x = b.carr('x', bits)
        xe = I.heap[x.x].elem
        y = U.call(I, 'CommDspy.tx.bin2symbol', x, b.const('num_of_symbols', M), **kw)
        z = U.call(I, 'CommDspy.rx.symbol2bin', y, b.const('num_of_symbols', M), **kw)
        t = U.call(I, 'CommDspy.rx.symbol2bin', b.carr('s', np.array(vals)), b.const('num_of_symbols', M), **kw)
        u = U.call(I, 'CommDspy.tx.bin2symbol', t, b.const('num_of_symbols', M), **kw)
        return [('symbols', y, Want((len(vals),), pack(xe, k, f))), ('bits', z, Want((len(bits),), xe)), ('symbols again', u, Want((len(vals),), lambda idx: C(vals[idx[0].cint()])))]
    return symbolic(I, 'round-trip', 'both ways, %d symbols' % M, build, BITS, maxp=64)


def c08(ctx):
    ctx.rule('bits-to-symbols', 'bin2symbol packs groups of log2(M) bits, first bit least significant, flags applied in the order bit order, msb, lsb, p-n; incomplete trailing bits are dropped: element summary compared with that definition')
    ctx.rule('round-trip', 'symbol2bin and bin2symbol with equal flags undo each other in both directions: element summary of the composition compared with the input')
    ctx.pmap(b2s, [(M, p) for M in [2, 4, 8, 16] + ctx.deep(32) for p in ('conversion', 'bits round trip', 'symbols round trip')])
    ctx.pmap(wide, [32, 64, 256, 512, 2 ** 12] + ctx.deep(128, 1024, 2 ** 16, 2 ** 20))


# -- levels ------------------------------------------------------------------------------------------------------
LEVELS = {'NRZ': (-1, 1), 'OOK': (0, 1), 'PAM3': (-1, 0, 1), 'PAM4': (-3, -1, 1, 3)}


def level_elem(cn, fs, pn, src):
    """documented level of the symbol index src(idx)"""
    lv = LEVELS[cn]
    sc = Fraction(sum(v * v for v in lv), len(lv))

    def g(idx):
        s = src(idx)
        r = C(0)
        c = s.cint()
        if c is not None:
            r = C(lv[c])
        else:
            r = npm_tab(lv, s)
        if fs:
            r = r * P.psqrt(C(1 / sc))
        return -r if pn else r
    return g


def npm_tab(vals, p):
    return Poly.atom(('f', 'tab', tuple(Fraction(v) for v in vals), p))


def levels(I, item):
    cn = item
    M = len(LEVELS[cn])
    dom = Alphabet(x=tuple(range(M)), levels=(-1, 2))
    recs = []

    def lv(I, b, n):
        kw, f = flags(I, b, ('full_scale',))
        return [('levels', U.call(I, 'CommDspy.get_levels', b.enum('constellation', 'ConstellationEnum', [cn]), **kw),
                 Want((M,), level_elem(cn, f['full_scale'], False, lambda idx: idx[0])))]
    recs += short(I, 'level-table', 'get_levels ' + cn, lv, dom, lambda n, t: [], [0])

    def con(b):
        return b.enum('constellation', 'ConstellationEnum', [cn])

    def fwd(I, b, x):
        kw, f = flags(I, b, ('full_scale', 'pn_inv'))
        o = I.heap[x.x]
        y = U.call(I, 'CommDspy.tx.mapping', x, con(b), **kw)
        return [('mapped', y, Want(o.shape, level_elem(cn, f['full_scale'], f['pn_inv'], o.elem)))]

    def rt(I, b, x):
        kw, f = flags(I, b, ('full_scale', 'pn_inv'))
        y = U.call(I, 'CommDspy.tx.mapping', x, con(b), **kw)
        return [('demapped', U.call(I, 'CommDspy.rx.demapping', y, con(b), **kw), x)]

    def cust(I, b, x):
        kw, f = flags(I, b, ('full_scale', 'pn_inv'))
        L = b.arr('levels', (M,))
        o, la = I.heap[x.x], I.heap[L.x]
        le = la.elem

        def want(idx):
            s = o.elem(idx)
            r = npm.select(la, le, [s])
            return -r if f['pn_inv'] else r
        y = U.call(I, 'CommDspy.tx.mapping', x, con(b), levels=L, **kw)
        return [('mapped', y, Want(o.shape, want))]
    for rule, nm, fn in (('mapping', 'mapping', fwd), ('demapping', 'demapping of mapped symbols', rt), ('mapping', 'mapping with custom levels', cust)):
        recs += symbolic(I, rule, '%s %s' % (nm, cn), lambda I, b, i, n, fn=fn: fn(I, b, b.vec('x', n, 'int', 0, M - 1)), dom, sizes=(2, 3, 5, 9, 12))
        if fn is not cust:
            recs += short(I, rule, '%s %s' % (nm, cn), lambda I, b, sh, fn=fn: fn(I, b, b.arr('x', sh, 'int', 0, M - 1)), dom, lambda n, t: [('x', n)], [(1,), (3,), (2, 2), (1, 2, 1)])
    # a level vector of the wrong size must be refused
    for d in (-1, 1):
        ps = I.explore(lambda I: U.call(I, 'CommDspy.tx.mapping', U.B(I).vec('x', None, 'int', 0, M - 1), con(U.B(I)), levels=U.B(I).arr('levels', (M + d,))), max_paths=32)
        for p in ps:
            if p.kind == 'return':
                recs.append(viol('mapping', 'wrong number of levels %s' % cn, None, 'mapping accepts %d levels for %s' % (M + d, cn)))
            else:
                recs.append(ok('mapping', '%d levels for %s are refused' % (M + d, cn)))
    return recs


def c09(ctx):
    ctx.rule('level-table', 'get_levels returns the documented levels, scaled to unit mean power on request')
    ctx.rule('mapping', 'mapping selects the documented (or the given) level of every index, negated under pn_inv')
    ctx.rule('demapping', 'demapping(mapping(x)) is x for every constellation and flag combination')
    ctx.pmap(levels, list(LEVELS))
