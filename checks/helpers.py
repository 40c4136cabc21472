"""C20: sample-rate and bit-vector helpers."""
from fractions import Fraction
import numpy as np
from sa import universe as U, eqv, poly as P
from sa.eqv import Points, Alphabet
from sa.poly import Poly
from sa.dom import num
from sa.npm import csplit
from .rel import Want, symbolic, short, C
from .filters import elems, vec_want

A = 'CommDspy.'


def split(k, r):
    """k = r*q + s -> (q, s) or None"""
    for s in range(r):
        t = k - s
        if all(v.denominator == 1 and int(v) % r == 0 for v in t.m.values()):
            return t * Fraction(1, r), s
    return None


def rate(I, item):
    fn, r, nt = item

    def build(I, b, i, n):
        x = b.vec('x', n, nt)
        e = I.heap[x.x].elem
        y = U.call(I, A + fn, x, b.const('rate', r))

        def w(idx):
            qs = split(idx[0], r)
            if qs is None:
                return None
            return e((qs[0],)) if fn == 'zoh' or qs[1] == 0 else C(0)
        return [('result', y, Want((n * r,), w))]
    return symbolic(I, 'resampling', '%s by %d (%s)' % item, build, Points(rows=8), period=r, sizes=(1, 2, 3, 5, 8, 13))


def buf(I, item):
    n, L, ov, dl, clip, nt = item
    N = n + dl
    st = L - ov
    starts = [k for k in range(0, N + L, st) if k < N - max(ov, 0)]
    if clip:
        starts = [k for k in starts if k + L <= N]

    def build(I, b, i, m):
        x = b.arr('x', (n,), nt)
        ex = elems(I, x, n)
        kw = {}
        if ov:
            kw['overlap'] = b.const('overlap', ov)
        if dl:
            kw['delay'] = b.const('delay', dl)
        if clip:
            kw['clip'] = b.const('clip', True)
        y = U.call(I, A + 'buffer', x, b.const('length', L), **kw)

        def w(idx):
            k = starts[idx[0].cint()] + idx[1].cint() - dl
            return ex[k] if 0 <= k < n else C(0)
        return [('frames', y, Want((len(starts), L), w))]
    return symbolic(I, 'framing', 'buffer of %d samples, length %d, overlap %d, delay %d, clip %s (%s)' % item, build, Points(rows=6), maxp=40)


def bits(I, item):
    kind, k = item
    recs = []
    if kind == 'perm':
        def build(I, b, i, n):
            y = U.call(I, A + 'get_bin_perm', b.const('k', k))
            return [('words', y, Want((2 ** k, k), lambda idx: C((idx[0].cint() >> (k - 1 - idx[1].cint())) & 1)))]
        return symbolic(I, 'bit-vectors', 'get_bin_perm(%d)' % k, build, Points(rows=2))
    if kind == 'bin2uint':
        def build(I, b, i, n):
            x = b.arr('x', (n, C(k)), 'int', 0, 1)
            e = I.heap[x.x].elem
            y = U.call(I, A + 'bin2uint', x)

            def w(idx):
                t = C(0)
                for j in range(k):
                    t = t + e((idx[0], C(j))) * (1 << (k - 1 - j))
                return t
            return [('numbers', y, Want((n,), w))]
        recs += symbolic(I, 'bit-vectors', 'bin2uint, %d bits' % k, build, Alphabet(x=(0, 1)), sizes=(1, 2, 5))

        def cube(I, b, i, n):
            x = b.arr('x', (n, C(2), C(k)), 'int', 0, 1)
            e = I.heap[x.x].elem
            y = U.call(I, A + 'bin2uint', x)

            def w(idx):
                t = C(0)
                for j in range(k):
                    t = t + e((idx[0], idx[1], C(j))) * (1 << (k - 1 - j))
                return t
            return [('numbers', y, Want((n, C(2)), w))]
        return recs + symbolic(I, 'bit-vectors', 'bin2uint of a cube, %d bits' % k, cube, Alphabet(x=(0, 1)))

    # uint2bin and the round trip
    dom = Alphabet(x=tuple(range(2 ** k)))

    def bitw(e):
        return lambda idx: eqv.spec('bit', lambda v, j, m: (int(v) >> (int(m) - 1 - int(j))) & 1, e(tuple(idx[:-1])), idx[-1], C(k))

    def fwd(I, b, x):
        o = I.heap[x.x]
        y = U.call(I, A + 'uint2bin', x, b.const('n_bits', k))
        z = U.call(I, A + 'bin2uint', y)
        return [('bits', y, Want(tuple(o.shape) + (C(k),), bitw(o.elem))), ('round trip', z, Want(o.shape, o.elem))]
    recs += symbolic(I, 'bit-vectors', 'uint2bin, %d bits' % k, lambda I, b, i, n: fwd(I, b, b.vec('x', n, 'int', 0, 2 ** k - 1)), dom)
    for sh in ((1,), (2,), (1, 2), (2, 2), (2, 1), (1, 1), (2, 1, 2)):
        recs += symbolic(I, 'bit-vectors', 'uint2bin of shape %s, %d bits' % (sh, k), lambda I, b, i, n: fwd(I, b, b.arr('x', sh, 'int', 0, 2 ** k - 1)), dom)
    return recs


def ham(I, item):
    l, M = item

    def build(I, b, i, n):
        p, cb = b.arr('p', (n, C(l)), 'int', 0, 1), b.arr('c', (M, l), 'int', 0, 1)
        pe, ce = I.heap[p.x].elem, I.heap[cb.x].elem
        d, k = U.parts(I, U.call(I, A + 'hamming', p, cb), 2)
        dist = lambda j, q: eqv.spec('hamming %d' % l, lambda *v: sum(1 for a, c in zip(v[:l], v[l:]) if a != c), *([pe((q, C(t))) for t in range(l)] + [ce((C(j), C(t))) for t in range(l)]))
        return [('distances', d, Want((C(M), n), lambda idx: dist(idx[0].cint(), idx[1]))),
                ('nearest', k, Want((n,), lambda idx: eqv.spec('argmin %d' % M, lambda *v: v.index(min(v)), *[dist(j, idx[0]) for j in range(M)])))]

    def idxs(wa):
        i = P.Poly.sym('i')
        if len(wa.shape) == 2:
            return [(C(j), q) for j in range(M) for q in (C(0), C(1), i, wa.shape[1] - 1)]
        return [(q,) for q in (C(0), C(1), i, wa.shape[0] - 1)]
    return symbolic(I, 'bit-vectors', 'hamming, words of %d bits, %d code words' % item, build, Alphabet(p=(0, 1), c=(0, 1)), idxs=idxs)


def wide(I, item):
    """long words: constant inputs, so that the widths of the weights and sums are followed exactly"""
    kind, k = item
    r = np.random.RandomState(k)

    def build(I, b, i, n):
        if kind == 'hamming':
            cb = r.randint(0, 2, (3, k))
            p = np.concatenate([1 - cb[:1], cb[1:2], 1 - cb[2:], r.randint(0, 2, (1, k))])
            d, j = U.parts(I, U.call(I, A + 'hamming', b.carr('p', p), b.carr('c', cb)), 2)
            w = (cb[:, None, :] != p[None]).sum(axis=2)
            return [('distances', d, Want(w.shape, lambda idx: C(int(w[tuple(t.cint() for t in idx)])))),
                    ('nearest', j, Want((len(p),), lambda idx: C(int(w[:, idx[0].cint()].argmin()))))]
        vals = [0, 1, 2 ** k - 1, 2 ** (k - 1), 2 ** (k - 1) - 1, int(r.randint(0, 2 ** 31)) % 2 ** k]
        m = np.array([[(v >> (k - 1 - j)) & 1 for j in range(k)] for v in vals])
        y = U.call(I, A + 'bin2uint', b.carr('x', m))
        z = U.call(I, A + 'uint2bin', b.carr('u', np.array(vals)), b.const('n_bits', k))
        return [('numbers', y, Want((len(vals),), lambda idx: C(vals[idx[0].cint()]))),
                ('bits', z, Want(m.shape, lambda idx: C(int(m[idx[0].cint(), idx[1].cint()]))))]
    return symbolic(I, 'bit-vectors', '%s, words of %d bits' % item, build, Points(rows=1))


def powers(I, item):
    n, nt = item

    def build(I, b, i, m):
        x = b.arr('x', (n,), nt) if nt != 'complex' else b.cplx('x', (n,))
        e = elems(I, x, n) if nt != 'complex' else [Poly.atom(('e', 'x' + k, C(j))) for k in ('.re', '.im') for j in range(n)]
        s = C(0)
        for q in e:
            s = s + q * q
        s = s * Fraction(1, n)
        out = []
        for f, w in (('power', s), ('rms', P.psqrt(s))):
            v = U.call(I, A + f, x)
            if nt == 'complex' and v.k == 'num' and v.nt == 'complex':
                q = csplit(v.p)
                if q is not None:
                    out.append(('imaginary part of ' + f, num(q[1], 'float'), Want((), lambda idx: C(0))))
                v = num(q[0], 'float') if q is not None else None
            out.append((f, v, Want((), lambda idx, w=w: w)))
        return out
    return symbolic(I, 'power', 'power and rms of %d samples (%s)' % item, build, Points(rows=8))


def c20(ctx):
    ctx.rule('resampling', 'upsample puts rate-1 zeros after each sample, zoh repeats each sample: element summary for every length')
    ctx.rule('framing', 'buffer: frame r starts at r*(length-overlap) of the delayed signal, zero-padded; frames that add no new sample are absent, an incomplete last frame is absent when clip is set')
    ctx.rule('bit-vectors', 'get_bin_perm, bin2uint, uint2bin and hamming: most significant bit first, mutually inverse, Hamming distance and first nearest word')
    ctx.rule('power', 'power is the mean square, rms its root')
    ctx.pmap(rate, [(f, r, nt) for f in ('upsample', 'zoh') for r in [1, 2, 3, 4, 5, 8, 16, 32] + ctx.deep(6, 7, 10, 12, 25, 64) for nt in ('float', 'int')])
    its = []
    for n in [1, 2, 3, 4, 5, 6, 7, 8, 11] + ctx.deep(9, 10, 12, 15, 20):
        for L, ov in ((1, 0), (2, 0), (3, 0), (2, 1), (3, 1), (3, 2), (4, 2), (2, -1), (3, -2), (5, 2), (5, 4), (6, 3), (4, -3), (1, -2)):
            for dl in (0, 1, 2):
                if n + dl > max(ov, 0):
                    its += [(n, L, ov, dl, c, 'float') for c in (False, True)]
    its += [(n, L, ov, dl, c, 'float') for n, L, ov, dl in ((64, 16, 5, 0), (50, 8, 0, 3), (33, 8, 7, 0), (40, 10, -6, 2), (64, 1, 0, 0), (20, 32, 4, 0), (150, 60, 20, 0), (300, 5, 0, 0), (140, 100, 99, 7)) for c in (False, True)]
    ctx.pmap(buf, its + [(5, 2, 1, 1, False, 'int')])
    ctx.pmap(bits, [('perm', k) for k in [1, 2, 3, 4, 5, 8, 10] + ctx.deep(6, 7, 9)] + [(f, k) for f in ('bin2uint', 'uint2bin') for k in [1, 2, 3, 4, 6, 8] + ctx.deep(5, 7, 10)])
    ctx.pmap(wide, [('numbers', k) for k in [7, 9, 12, 15, 16, 17, 20, 31, 33] + ctx.deep(40, 52)] + [('hamming', k) for k in [40, 130, 300] + ctx.deep(1000)])
    ctx.pmap(ham, [(2, 2), (3, 2), (2, 4), (4, 2), (3, 3)] + ctx.deep((2, 3), (5, 2), (4, 3)))
    ctx.pmap(powers, [(n, t) for n in [1, 2, 3, 5, 9, 17] + ctx.deep(4, 6, 7, 8, 33) for t in ('float', 'int', 'complex')])
