"""C15: decisions - slicer and quantiser."""
from fractions import Fraction
import numpy as np
from sa import universe as U, eqv
from sa.poly import Poly
from sa.eqv import Alphabet
from sa.frame import ok, viol
from .rel import Want, symbolic, short, C


def nearest(x, *lv):
    return min(lv, key=lambda l: (abs(x - l), 0))


def nearest_elem(src, lv, name):
    lv = [C(v) if not isinstance(v, Poly) else v for v in lv]
    return lambda idx: eqv.spec('nearest', nearest, src(idx), *lv)


def grid(lo, hi, step):
    k, r = Fraction(lo), []
    while k <= hi:
        r.append(k)
        k += Fraction(step)
    return tuple(r)


DEF = (-3, -1, 1, 3)
CUSTOM = (Fraction(-5, 2), Fraction(-1, 4), Fraction(1, 2), 4)


def cells(lv):
    """one representative of every cell cut by the levels and their midpoints, and the cut points"""
    lv = sorted(Fraction(v) for v in lv)
    cut = sorted(set(lv) | {(a + b) / 2 for a in lv for b in lv})
    out = [cut[0] - 1, cut[0] - 7]
    for a, b in zip(cut, cut[1:]):
        out += [a, (a + b) / 2]
    return tuple(out + [cut[-1], cut[-1] + 1, cut[-1] + 9])


def slicing(I, item):
    recs = []
    kind = item
    if kind == 'own':
        # levels supplied by the caller, any ordering of values
        dom = Alphabet(x=grid(-4, 4, Fraction(1, 2)), levels=(-2, 0, Fraction(1, 2), 3))

        def own(I, b, x):
            L = b.arr('levels', (3,))
            le = I.heap[L.x].elem
            o = I.heap[x.x]
            y = U.call(I, 'CommDspy.rx.slicer', x, L)
            return [('sliced', y, Want(o.shape, nearest_elem(o.elem, [le((C(j),)) for j in range(3)], 'own')))]
        recs += symbolic(I, 'nearest-level', 'slicer with given levels', lambda I, b, i, n: own(I, b, b.vec('x', n)), dom, sizes=(1, 2, 3, 5, 9))
        recs += symbolic(I, 'nearest-level', 'slicer of a matrix with given levels', lambda I, b, i, n: own(I, b, b.arr('x', (n, C(2)))), dom)
        return recs
    lv = DEF if kind == 'default' else CUSTOM
    dom = Alphabet(x=cells(lv))

    def fwd(I, b, x, src, shape):
        a = [] if kind == 'default' else [b.carr("levels", [float(v) for v in lv])]
        return [('sliced', U.call(I, 'CommDspy.rx.slicer', x, *a), Want(shape, nearest_elem(src, lv, 'lv')))]

    def arr(I, b, x):
        o = I.heap[x.x]
        return fwd(I, b, x, o.elem, o.shape)
    nm = 'slicer with %s levels' % kind
    recs += symbolic(I, 'nearest-level', nm, lambda I, b, i, n: arr(I, b, b.vec('x', n)), dom, sizes=(1, 2, 3, 5, 9))
    recs += symbolic(I, 'nearest-level', nm + ' (matrix)', lambda I, b, i, n: arr(I, b, b.arr('x', (n, C(3)))), dom)
    recs += short(I, 'nearest-level', nm, lambda I, b, sh: arr(I, b, b.arr('x', sh)), dom, lambda n, t: [('x', n)], [(1,), (2,), (1, 2), (2, 1)])

    def lst(I, b, n):
        x = b.lst('x', n)
        its = [v.p for v in I.heap[x.x].items]
        return fwd(I, b, x, lambda idx: its[idx[0].cint()], (n,))
    recs += short(I, 'nearest-level', nm + ' (list)', lst, dom, lambda n, t: [('x', (n,))], [1, 2])
    return recs


def qlevels(bits, frac, typ):
    n = list(range(2 ** bits))
    if typ == 's':
        n = [v - 2 ** (bits - 1) for v in n]
    elif typ == 'ss':
        n = [v - 2 ** (bits - 1) for v in n[1:]]
    return [Fraction(v) / (Fraction(2) ** frac) for v in n]


def quantising(I, item):
    typ, bits, frac, default = item
    lv = qlevels(bits, frac, typ)
    cs = cells(lv)
    if len(cs) > 600:                   # long grids: both ends, the middle and a spread of cells
        h = len(cs) // 2
        cs = cs[:40] + cs[h - 40:h + 40] + cs[-40:] + cs[41:-40:len(cs) // 60 | 1]
    dom = Alphabet(x=tuple(cs))

    def fwd(I, b, x):
        o = I.heap[x.x]
        kw = {}
        if not (default and frac == 0):
            kw['frac_bits'] = b.const("frac_bits", frac)
        if not default:
            kw['fix_point_type'] = b.const("fix_point_type", typ)
        return [('quantised', U.call(I, 'CommDspy.rx.quantize', x, b.const("total_bits", bits), **kw), Want(o.shape, nearest_elem(o.elem, lv, 'q')))]
    nm = 'quantize %d bits, %d fractional, %s' % (bits, frac, 'default type' if default else typ)
    recs = symbolic(I, 'quantiser-grid', nm, lambda I, b, i, n: fwd(I, b, b.vec('x', n)), dom, sizes=(1, 2, 7))
    recs += symbolic(I, 'quantiser-grid', nm + ' (matrix)', lambda I, b, i, n: fwd(I, b, b.arr('x', (n, C(2)))), dom)
    return recs


def fine(I, item):
    """many bits: constant samples around both ends, the middle and the rounding boundaries of the grid"""
    typ, bits, frac = item
    lv = qlevels(bits, frac, typ)
    st, h = lv[1] - lv[0], len(lv) // 2
    xs = [lv[0] - 3 * st, lv[-1] + 5 * st, lv[h], lv[h] + st / 4, lv[h // 2] - st / 4, lv[-1] - st * 3 / 4, lv[h + h // 3] + st * 5 / 8, lv[-2], lv[len(lv) // 7] + st / 8, Fraction(0), lv[h - 1] + st * 7 / 8]

    def build(I, b, i, n):
        y = U.call(I, 'CommDspy.rx.quantize', b.carr('x', np.array([float(v) for v in xs])), b.const('total_bits', bits), frac_bits=b.const('frac_bits', frac), fix_point_type=b.const('fix_point_type', typ))
        return [('quantised', y, Want((len(xs),), lambda idx: C(min(lv, key=lambda q: abs(q - xs[idx[0].cint()])))))]
    return symbolic(I, 'quantiser-grid', 'quantize %d bits, %d fractional, %s, constant samples' % (bits, frac, typ), build, Alphabet(x=(0, 1)))


def c15(ctx):
    ctx.rule('nearest-level', 'every slicer output is the level nearest to the input sample (the first of equally near ones), in the shape of the input: element summary compared with that definition on every cell cut by the levels and their midpoints')
    ctx.rule('quantiser-grid', 'every quantiser output is the nearest number representable in the given fixed-point format, values beyond the range going to the nearer end')
    ctx.pmap(fine, [(t, b, f) for t in ('u', 's', 'ss') for b, f in ((9, 0), (9, 9), (10, 4), (12, 0), (12, -2)) + (((11, 11), (12, 15)) if ctx.tier == 'thorough' else ())])
    ctx.pmap(slicing, ['default', 'custom', 'own'])
    ctx.pmap(quantising, [(t, b, f, False) for t in ('u', 's', 'ss') for b, f in ((1, 0), (2, 0), (3, 1), (2, -1), (4, 4), (3, -2), (3, 5), (5, 2), (6, 3), (6, 0), (8, 7), (7, 0)) + (((7, 3), (8, 0), (8, 8), (7, -3), (4, 1), (4, 2), (5, -1), (5, 7)) if ctx.tier == 'thorough' else ())] + [('u', 3, 0, True), ('u', 2, 1, True)])
