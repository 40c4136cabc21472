"""Line codes, block and convolutional codes, symbol conversion: element-summary relations."""
from sa import universe as U
from sa.dom import *
from sa.poly import Poly
from fractions import Fraction
import numpy as np
from sa import poly as P, npm
from sa.eqv import Alphabet
from sa.frame import ok, viol, und
from .rel import symbolic, short, Want, C, arr_of, el

BITS = (0, 1)
LV = {'NRZ': 2, 'OOK': 2, 'PAM3': 3, 'PAM4': 4}
CODES = [
    ('gray', 'coding_gray', 'decoding_gray', ('NRZ', 'OOK', 'PAM4'), 1),
    ('differential', 'coding_differential', 'decoding_differential', ('NRZ', 'OOK', 'PAM3', 'PAM4'), 1),
    ('manchester', 'coding_manchester', 'decoding_manchester', None, 2),
    ('bipolar', 'coding_bipolar', 'decoding_bipolar', None, 1),
    ('mlt3', 'coding_mlt3', 'decoding_mlt3', None, 1),
    ('differential manchester', 'coding_differential_manchester', 'decoding_differential_manchester', None, 2),
]


def con(b, name):
    return b.enum('constellation', 'ConstellationEnum', [name])


def roundtrip(I, item):
    name, enc, dec, cons, rate = [c for c in CODES if c[0] == item[0]][0]
    cn = item[1]
    L = LV[cn] if cn else 2
    dom = Alphabet(x=tuple(range(L)))
    nm = name + (' ' + cn if cn else '')

    def go(I, b, x):
        a = [con(b, cn)] if cn else []
        y = U.call(I, 'CommDspy.tx.' + enc, x, *a)
        return [('decoded', U.call(I, 'CommDspy.rx.' + dec, y, *a), x)]

    def mk(I, b, i, n):
        return go(I, b, b.vec('x', n, 'int', 0, L - 1))

    def mks(I, b, n):
        return go(I, b, b.arr('x', n if isinstance(n, tuple) else (n,), 'int', 0, L - 1))
    lens = (1, 2, 3, 4, (2, 2)) if L > 2 else (1, 2, 3, 6, (2, 2), (2, 3))
    recs = symbolic(I, 'round-trip', nm, mk, dom, sizes=(5, 7, 10))
    recs += short(I, 'round-trip', nm, mks, dom, lambda n, t: [('x', n if isinstance(n, tuple) else (n,))], lens)
    return recs


def long_pattern(kind, L, n):
    if kind == 'top':
        return np.full(n, L - 1)
    return np.random.RandomState(n).randint(0, L, n)


def longwords(I, item):
    """long constant patterns: accumulators and counters are followed to their end"""
    what, cname, cn, kind, n = item
    name, enc, dec, cons, rate = [c for c in CODES if c[0] == cname][0]
    L = LV[cn] if cn else 2
    nm = '%s%s, %d symbols (%s)' % (name, ' ' + cn if cn else '', n, kind)

    def build(I, b, i, _):
        a = [con(b, cn)] if cn else []
        x = b.carr('x', long_pattern(kind, L, n))
        y = U.call(I, 'CommDspy.tx.' + enc, x, *a)
        if what == 'round-trip':
            return [('decoded', U.call(I, 'CommDspy.rx.' + dec, y, *a), x)]
        return word_specs(name, cn, I, x, y)
    return symbolic(I, what, nm, build, Alphabet(x=tuple(range(L))))


def long_items(ctx, what):
    return [(what, c[0], cn, kind, n) for c in CODES for cn in (c[3] or (None,)) for kind in ('top', 'mixed') for n in [400] + ctx.deep(3000)]


def c10(ctx):
    ctx.rule('round-trip', 'for every line code the element summary of decode(encode(x)) equals x at boundary indices and at a generic index, and on every word of short lengths')
    ctx.pmap(roundtrip, [(c[0], cn) for c in CODES for cn in (c[3] or (None,))])
    ctx.pmap(longwords, long_items(ctx, 'round-trip'))


# -- documented words ------------------------------------------------------------------------------------------------
def acc(o):
    """running sum of the elements of a 1-D array"""
    return npm.prefix_elem(o.elem, True)


def tab(vals, p):
    return P.tab(tuple(Fraction(v) for v in vals), p)


def word_specs(name, cn, I, x, y):
    """-> [(label, got, want)] for input array x and encoded array y (1-D)"""
    o = I.heap[x.x]
    e = o.elem
    n = o.shape[0]
    L = LV[cn] if cn else 2
    ya = arr_of(I, y)
    if name == 'gray':
        t = [k ^ (k >> 1) for k in range(L)]
        return [('gray', y, Want((n,), lambda idx: tab(t, e(idx))))]
    if name == 'differential':
        s = acc(o)
        return [('differential', y, Want((n,), lambda idx: P.pmod(s(idx), C(L))))]
    if name == 'manchester':
        def g(idx):
            k, r = P.pfdiv(idx[0], C(2)), P.pmod(idx[0], C(2))
            b = e((k,))
            return b + r - 2 * b * r
        return [('manchester', y, Want((n * 2,), g))]
    if name == 'bipolar':
        s = acc(o)
        return [('bipolar', y, Want((n,), lambda idx: 1 + e(idx) * tab([1, -1], P.pmod(s(idx), C(2)))))]
    if name == 'mlt3':
        s = acc(o)
        return [('mlt3', y, Want((n,), lambda idx: tab([0, 1, 2, 1], P.pmod(s(idx), C(4)))))]
    if ya is None:
        return [('encoded', y, None)]
    # differential Manchester: a transition at every symbol boundary, one in the middle exactly for a 0
    out = [('length', Want((), lambda i: ya.shape[0]), Want((), lambda i: n * 2))] if ya.shape and ya.shape[0] is not None else []

    def z(k):
        return ya.elem((k,)) if ya.elem else None

    def mid(idx):
        a, c = z(idx[0] * 2), z(idx[0] * 2 + 1)
        return None if a is None or c is None else a + c - 2 * a * c

    def edge(idx):
        a, c = z(idx[0] * 2 + 1), z(idx[0] * 2 + 2)
        return None if a is None or c is None else a + c - 2 * a * c

    def binary(idx):
        a = z(idx[0])
        return None if a is None else a * a - a
    return out + [('mid-symbol transition', Want((n,), mid), Want((n,), lambda idx: 1 - e(idx))),
                  ('boundary transition', Want((n - 1,), edge), Want((n - 1,), lambda idx: C(1))),
                  ('binary', Want((n,), binary), Want((n,), lambda idx: C(0)))]


def words(I, item):
    name, enc, dec, cons, rate = [c for c in CODES if c[0] == item[0]][0]
    cn = item[1]
    L = LV[cn] if cn else 2
    dom = Alphabet(x=tuple(range(L)))
    nm = enc + (' ' + cn if cn else '')

    def go(I, b, x):
        a = [con(b, cn)] if cn else []
        return word_specs(name, cn, I, x, U.call(I, 'CommDspy.tx.' + enc, x, *a))

    def flat(I, b, sh):
        """a matrix is encoded as its row-major flattening"""
        a = [con(b, cn)] if cn else []
        x = b.arr('x', sh, 'int', 0, L - 1)
        y = U.call(I, 'CommDspy.tx.' + enc, x, *a)
        return [('shape', y, Want(tuple(sh[:-1]) + (sh[-1] * rate,), lambda idx: el(arr_of(I, y), idx)))]
    lens = (1, 2, 3, 4) if L > 2 else (1, 2, 3, 5)
    recs = symbolic(I, 'code-word', nm, lambda I, b, i, n: go(I, b, b.vec('x', n, 'int', 0, L - 1)), dom, sizes=(5, 7, 10))
    recs += short(I, 'code-word', nm, lambda I, b, n: go(I, b, b.arr('x', (n,), 'int', 0, L - 1)), dom, lambda n, t: [('x', (n,))], lens)
    recs += short(I, 'shape', nm, flat, dom, lambda n, t: [('x', n)], [(2, 2), (1, 2, 2)])
    return recs


def detect(I, item):
    """impossible Manchester pairs decode to 0.5; repeated bipolar marks decode to half of the mark"""
    recs = []
    if item == 'manchester':
        dom = Alphabet(x=(0, 1))

        def go(I, b, x, n):
            e = I.heap[x.x].elem
            y = U.call(I, 'CommDspy.rx.decoding_manchester', x)
            return [('decoded', y, Want((n,), lambda idx: (e((idx[0] * 2,)) - e((idx[0] * 2 + 1,)) + 1) * Fraction(1, 2)))]
        recs += symbolic(I, 'error-mark', 'decoding_manchester', lambda I, b, i, n: go(I, b, b.vec('x', n * 2, 'int', 0, 1), n), dom, sizes=(1, 2, 5, 9))
        recs += short(I, 'error-mark', 'decoding_manchester', lambda I, b, n: go(I, b, b.arr('x', (2 * n,), 'int', 0, 1), n), dom, lambda n, t: [('x', (2 * n,))], (1, 2, 3))
        return recs
    dom = Alphabet(x=(0, 1, 2))

    def spec(word):
        out = [abs(w - 1) for w in word]
        last = None
        for k, w in enumerate(word):
            if w != 1:
                if last is not None and word[last] == w:
                    out[k] = out[last] = Fraction(w - 1, 2)
                last = k
        return out
    from itertools import product
    for n in (1, 2, 3, 4):
        for sh in [(n,)] + ([(2, 2)] if n == 4 else []):
            table = {}
            for w in product((0, 1, 2), repeat=n):
                table[w] = spec(w)

            def nest(k, pre=()):
                return table[pre][k] if len(pre) == n else tuple(nest(k, pre + (v,)) for v in (0, 1, 2))

            def go(I, b, _):
                x = b.arr('x', sh, 'int', 0, 2)
                o = I.heap[x.x]
                from .symbols import flat
                f = flat(o)
                xs = [f((C(j),)) for j in range(n)]

                def w(idx):
                    k = idx[0].cint() if len(sh) == 1 else idx[0].cint() * sh[1] + idx[1].cint()
                    return Poly.atom(('f', 'tab', nest(k)) + tuple(xs))
                return [('decoded', U.call(I, 'CommDspy.rx.decoding_bipolar', x, num(True)), Want(sh, w))]
            recs += short(I, 'error-mark', 'decoding_bipolar with error detection', go, dom, lambda n_, t: [('x', sh)], [n], maxp=400)
    return recs


def gray_table(I, M):
    def go(I, b, n):
        return [('gray numbering', U.call(I, 'CommDspy.auxiliary.get_gray_level_vec', b.const('level_num', M)), Want((M,), lambda idx: C(idx[0].cint() ^ (idx[0].cint() >> 1))))]
    return short(I, 'code-word', 'get_gray_level_vec(%d)' % M, go, Alphabet(), lambda n, t: [], [M])


def _w(I, it):
    return {'w': words, 'd': detect, 'g': gray_table, 'l': longwords}[it[0]](I, it[1])


def c11(ctx):
    ctx.rule('code-word', 'the element summary of every encoder equals the defining recurrence of the code (running sums for the differential codes) at boundary and generic indices')
    ctx.rule('shape', 'the encoded array has the shape of the input, with the last axis doubled for the two Manchester codes')
    ctx.rule('error-mark', 'decoders mark impossible words as documented')
    ctx.pmap(_w, [('w', (c[0], cn)) for c in CODES for cn in (c[3] or (None,))] + [('d', 'manchester'), ('d', 'bipolar')] + [('g', M) for M in (2, 4, 8, 16, 32, 64)] + [('l', it) for it in long_items(ctx, 'code-word')])
