"""Linear block codes and convolutional codes over GF(2)."""
from fractions import Fraction
from itertools import product
import numpy as np
from sa import universe as U, poly as P, eqv, spec as S
from sa.dom import *
from sa.poly import Poly
from sa.eqv import Alphabet, spec
from sa.frame import ok, viol, und
from .rel import symbolic, short, Want, C, arr_of, el, unroll

BIT = Alphabet(x=(0, 1))
BLOCK = {
    'parity (3,2)': [[1, 0, 1], [0, 1, 1]],
    'repetition (3,1)': [[1, 1, 1]],
    '(5,3)': [[1, 0, 0, 1, 1], [0, 1, 0, 1, 0], [0, 0, 1, 0, 1]],
    'Hamming (7,4)': [[1, 0, 0, 0, 1, 1, 0], [0, 1, 0, 0, 1, 0, 1], [0, 0, 1, 0, 0, 1, 1], [0, 0, 0, 1, 1, 1, 1]],
}
# name -> (matrices per input, feedback per input or None, use_feedback or None)
CONV = {
    '1 in 2 out, memory 2': ({0: [[1, 1, 1], [1, 0, 1]]}, None, None),
    '1 in 2 out, memory 2, systematic': ({0: [[1, 0, 0], [1, 1, 1]]}, None, None),
    '1 in 3 out, memory 1': ({0: [[1, 1], [1, 0], [0, 1]]}, None, None),
    '2 in 3 out': ({0: [[1, 0], [0, 0], [1, 1]], 1: [[0, 0, 0], [1, 0, 0], [0, 0, 1]]}, None, None),
    'recursive systematic': ({0: [[1, 0], [0, 1]]}, {0: [1, 1]}, [[0, 1]]),
    'recursive systematic, memory 3': ({0: [[1, 0, 0, 0], [1, 1, 0, 1]]}, {0: [1, 0, 1, 1]}, [[0, 1]]),
    'recursive systematic, memory 2': ({0: [[1, 0, 0], [1, 0, 1]]}, {0: [1, 1, 1]}, [[0, 1]]),
}


def dots(xs, col):
    t = C(0)
    for x, g in zip(xs, col):
        if g:
            t = t + x
    return P.pmod(t, C(2))


# -- block codes -----------------------------------------------------------------------------------------------------
def block_words(I, name):
    G = BLOCK[name]
    k, n = len(G), len(G[0])

    def want(e, L):
        def g(idx):
            m, j = P.pfdiv(idx[0], C(n)), P.pmod(idx[0], C(n))
            jc = j.cint()
            if jc is None:
                return None
            xs = []
            for i in range(k):
                q = m * k + i
                c = P.pcmp('<', q, L)
                xs.append(C(0) if c.cval() == 0 else P.pite(c, e((q,)), C(0)))
            return dots(xs, [G[i][jc] for i in range(k)])
        return g
    recs = []
    for r in range(k):
        def mk(I, b, i, m, r=r):
            x = b.vec('x', m * k + r, 'int', 0, 1)
            y = U.call(I, 'CommDspy.tx.coding_linear', x, b.carr('G', G))
            return [('encoded', y, Want(((m + (1 if r else 0)) * n,), want(I.heap[x.x].elem, m * k + r)))]
        recs += symbolic(I, 'block-encode', '%s, %d bits over' % (name, r), mk, BIT, period=n, sizes=(1, 2, 3, 5, 9))

    def mks(I, b, L):
        x = b.arr('x', (L,), 'int', 0, 1)
        y = U.call(I, 'CommDspy.tx.coding_linear', x, b.carr('G', G))
        return [('encoded', y, Want((-(-L // k) * n,), want(I.heap[x.x].elem, C(L))))]
    return recs + short(I, 'block-encode', name, mks, BIT, lambda L, t: [('x', (L,))], [1, k, k + 1, 2 * k])


def block_decode(I, name):
    G = BLOCK[name]
    k, n = len(G), len(G[0])
    book = {u: tuple(sum(a * g for a, g in zip(u, col)) % 2 for col in zip(*G)) for u in product((0, 1), repeat=k)}

    def dist(*v):
        u, w = tuple(int(t) for t in v[:k]), v[k:]
        if u not in book:
            return -1
        return sum(a != c for a, c in zip(book[u], w))

    def best(*w):
        return min(sum(a != c for a, c in zip(c_, w)) for c_ in book.values())

    def perr(*w):
        d = [sum(a != c for a, c in zip(c_, w)) for c_ in book.values()]
        return Fraction(1, d.count(min(d))) if min(d) else 0

    def build(I, b, L):
        ep = L[1]
        nb = L[0] // n
        x = b.arr('x', (L[0],), 'int', 0, 1)
        xe = I.heap[x.x].elem
        r = U.call(I, 'CommDspy.rx.decoding_linear', x, b.carr('G', G), num(ep))
        dec, pe = U.parts(I, r, 2) if ep else (r, None)
        o = arr_of(I, dec)
        res = [('decoded', dec, Want((nb * k,), lambda idx: el(o, idx)))]
        for m in range(nb):
            w = [xe((C(m * n + j),)) for j in range(n)]

            def got(idx, m=m, w=w):
                u = [el(o, (C(m * k + j),)) for j in range(k)] if o is not None else [None]
                return None if any(q is None for q in u) else spec('dist ' + name, dist, *(u + w))
            res.append(('distance of block %d' % m, Want((), got), Want((), lambda idx, w=w: spec('best ' + name, best, *w))))
        if ep:
            ws = [[xe((C(m * n + j),)) for j in range(n)] for m in range(nb)]
            res.append(('error probability', pe, Want((nb,), lambda idx: spec('perr ' + name, perr, *ws[idx[0].cint()]))))
        return res
    cases = [(n, False), (n, True), (n + 1, False)] + ([(2 * n, False), (2 * n, True), (2 * n + n - 1, True)] if n < 6 else [])
    return short(I, 'block-decode', name, build, BIT, lambda L, t: [('x', (L[0],))], cases, maxp=400, cap=1 << 15) + short(I, 'block-decode', name + ', many blocks', build, BIT, lambda L, t: [('x', (L[0],))], [(6 * n if n < 4 else 3 * n, True)], maxp=400, sample=200)


# -- convolutional codes --------------------------------------------------------------------------------------------------
def conv_args(b, name):
    G, fb, uf = CONV[name]
    kw = {'G': b.dct('G', {i: b.carr('G', m) for i, m in G.items()})}
    if fb is not None:
        kw['feedback'] = b.dct('feedback', {i: b.carr('feedback', v) for i, v in fb.items()})
        kw['use_feedback'] = b.carr('use_feedback', uf)
    return kw


def shape_of(name):
    G = CONV[name][0]
    return len(G), len(G[0])


def step(name, state, u):
    """one input chunk through the encoder registers: -> (outputs, next state); works on ints and on Polys"""
    G, fb, uf = CONV[name]
    n_in, n_out = shape_of(name)
    isp = any(isinstance(t, Poly) for t in u) or any(isinstance(t, Poly) for s in state for t in s)
    red = (lambda t: P.pmod(t if isinstance(t, Poly) else C(t), C(2))) if isp else (lambda t: t % 2)
    out = [0] * n_out
    nxt = []
    for i in range(n_in):
        mem = state[i]
        v = u[i]
        if fb and i in fb:
            for m, f in zip(mem, fb[i][1:]):
                if f:
                    v = v + m
            v = red(v)
        reg = [v] + list(mem)
        for j in range(n_out):
            if fb and i in fb and not uf[i][j]:
                out[j] = out[j] + u[i] * G[i][j][0]
                continue
            for r, g in zip(reg, G[i][j]):
                if g:
                    out[j] = out[j] + r
        nxt.append(tuple(reg[:len(mem)]))
    return [red(t) for t in out], tuple(nxt)


def zero(name):
    return tuple((0,) * (len(m[0]) - 1) for m in CONV[name][0].values())


def conv_words(I, name):
    n_in, n_out = shape_of(name)
    recs = []

    def build(I, b, L):
        x = b.arr('x', (L,), 'int', 0, 1)
        xe = I.heap[x.x].elem
        y = U.call(I, 'CommDspy.tx.coding_conv', x, **conv_args(b, name))
        xs = [xe((C(j),)) for j in range(L)] + [C(0)] * (-L % n_in)
        st = tuple(tuple(C(0) for _ in s) for s in zero(name))
        ws = []
        for t in range(0, len(xs), n_in):
            o, st = step(name, st, xs[t:t + n_in])
            ws += o
        return [('encoded', y, Want((len(ws),), lambda idx: ws[idx[0].cint()]))]
    recs += short(I, 'conv-encode', name, build, BIT, lambda L, t: [('x', (L,))], [n_in, n_in + 1, 2 * n_in, 3 * n_in, 5 * n_in + n_in - 1])
    G, fb, _ = CONV[name]
    if fb:
        return recs
    for r in range(n_in):
        def mk(I, b, i, m, r=r):
            L = m * n_in + r
            x = b.vec('x', L, 'int', 0, 1)
            xe = I.heap[x.x].elem
            y = U.call(I, 'CommDspy.tx.coding_conv', x, **conv_args(b, name))

            def g(idx):
                t, j = P.pfdiv(idx[0], C(n_out)), P.pmod(idx[0], C(n_out)).cint()
                if j is None:
                    return None
                s = C(0)
                for i_, mats in G.items():
                    for d, h in enumerate(mats[j]):
                        if not h:
                            continue
                        q = (t - d) * n_in + i_
                        c1, c2 = P.pcmp('>=', t - d, C(0)), P.pcmp('<', q, L)
                        c = c1 * c2
                        if c.cval() == 0:
                            continue
                        s = s + P.pite(c, xe((q,)), C(0))
                return P.pmod(s, C(2))
            return [('encoded', y, Want(((m + (1 if r else 0)) * n_out,), g))]
        recs += symbolic(I, 'conv-encode', '%s, %d bits over' % (name, r), mk, BIT, period=n_out, sizes=(1, 2, 3, 5, 9))
    return recs


def paths_of(name, T):
    """all (inputs, end state, word) of T chunks from every start state"""
    n_in, n_out = shape_of(name)
    out = []
    for s0 in product(*[list(product((0, 1), repeat=len(s))) for s in zero(name)]):
        for u in product((0, 1), repeat=n_in * T):
            st, w = s0, []
            for t in range(T):
                o, st = step(name, st, list(u[t * n_in:(t + 1) * n_in]))
                w += o
            bits = [c for s in st for c in s]
            out.append((u, int(''.join(map(str, bits)) or '0', 2), tuple(w)))
    return out


def conv_decode(I, item):
    name, T, algo = item[:3]
    blocks = item[3] if len(item) > 3 else 1
    n_in, n_out = shape_of(name)
    ps = paths_of(name, T)
    by = {}
    for u, s, w in ps:
        by.setdefault(u, []).append((s, w))
    tb = n_out * T
    ham = lambda a, c: sum(p != q for p, q in zip(a, c))

    def dist(*v):
        u = tuple(int(t) for t in v[:n_in * T])
        return min(ham(w, v[n_in * T:]) for _, w in by[u]) if u in by else -1

    def best(*v):
        return min(ham(w, v) for _, _, w in ps)

    def ends(v):
        d = best(*v)
        return {s for _, s, w in ps if ham(w, v) == d}

    def endok(s, *v):
        return int(int(s) in ends(v))

    def perr_v(*v):
        e = ends(v)
        return Fraction(1, len(e)) if len(e) > 1 else 0

    def perr_m(*v):
        d = best(*v)
        return Fraction(1, sum(1 for _, _, w in ps if ham(w, v) == d)) if d else 0

    def build(I, b, case):
        L, ep = case
        nb = L // tb
        x = b.arr('x', (L,), 'int', 0, 1)
        xe = I.heap[x.x].elem
        r = U.call(I, 'CommDspy.rx.decoding_conv_' + algo, x, tb_len=num(tb), error_prob=num(ep), **conv_args(b, name))
        if algo == 'ml':
            dec, pe = U.parts(I, r, 2) if ep else (r, None)
            last = None
        else:
            q = U.parts(I, r, 3 if ep else 2)
            dec, last, pe = q[0], q[1], q[2] if ep else None
        o = arr_of(I, dec)
        k = n_in * T
        res = [('decoded', dec, Want((nb * k,), lambda idx: el(o, idx)))]
        ws = [[xe((C(m * tb + j),)) for j in range(tb)] for m in range(nb)]
        for m in range(nb):
            def got(idx, m=m):
                u = [el(o, (C(m * k + j),)) for j in range(k)] if o is not None else [None]
                return None if any(q is None for q in u) else spec('cd %s' % (item,), dist, *(u + ws[m]))
            res.append(('distance of block %d' % m, Want((), got), Want((), lambda idx, m=m: spec('cb %s' % (item,), best, *ws[m]))))
        if last is not None and nb:
            la = arr_of(I, last)
            res.append(('final state', Want((), lambda idx: None if la is None or el(la, ()) is None else spec('ce %s' % (item,), endok, el(la, ()), *ws[-1])), Want((), lambda idx: C(1))))
        if ep:
            res.append(('error probability', pe, Want((nb,), lambda idx: spec('cp %s' % (item,), perr_v if algo == 'viterbi' else perr_m, *ws[idx[0].cint()]))))
        return res
    cases = [(tb, True), (tb + 1, False)] if blocks == 1 else [(blocks * tb + tb - 1, True)]
    return short(I, 'conv-decode', '%s %s, %d steps%s' % (algo, name, T, '' if blocks == 1 else ', %d blocks' % blocks), build, BIT, lambda L, t: [('x', (L[0],))], cases, maxp=400, sample=60)


def block_wide(I, item):
    """long code words and many blocks: constant words, distances and counters followed exactly"""
    k, n, nb = item
    r = np.random.RandomState(k * 1000 + n)
    G = np.concatenate([np.eye(k, dtype=int), r.randint(0, 2, (k, n - k))], axis=1)
    book = np.array(list(product((0, 1), repeat=k))).dot(G) % 2
    u = r.randint(0, 2, nb * k - 1 if k > 1 else nb)
    v = np.concatenate([u, [0] * (nb * k - len(u))]).reshape(-1, k)
    rx = np.array([1 - book[0] if j % 4 == 3 else v[j].dot(G) % 2 if j % 2 else r.randint(0, 2, n) for j in range(nb)])
    d = (book[None] != rx[:, None]).sum(axis=2)

    def build(I, b, i, _):
        y = U.call(I, 'CommDspy.tx.coding_linear', b.carr('x', u), b.carr('G', G))
        dec, pe = U.parts(I, U.call(I, 'CommDspy.rx.decoding_linear', b.carr('y', np.concatenate([rx.reshape(-1), [1] * (n - 1)])), b.carr('G', G), num(True)), 2)
        o = arr_of(I, dec)

        def got(idx):
            m = idx[0].cint()
            w = [el(o, (C(m * k + j),)) for j in range(k)] if o is not None else [None]
            if any(q is None or q.cint() is None for q in w):
                return None
            w = [q.cint() for q in w]
            return C(int((np.array(w).dot(G) % 2 != rx[m]).sum())) if set(w) <= {0, 1} else C(-1)
        wy = (v.dot(G) % 2).reshape(-1)
        wp = [Fraction(1, int((q == q.min()).sum())) if q.min() else 0 for q in d]
        return [('encoded', y, Want((nb * n,), lambda idx: C(int(wy[idx[0].cint()])))), ('decoded', dec, Want((nb * k,), lambda idx: el(o, idx))),
                ('distance', Want((nb,), got), Want((nb,), lambda idx: C(int(d[idx[0].cint()].min())))), ('error probability', pe, Want((nb,), lambda idx: C(wp[idx[0].cint()])))]
    return symbolic(I, 'block-decode', '(%d,%d) code, %d constant blocks' % (n, k, nb), build, BIT)


def conv_wide(I, item):
    """long trace-back blocks of constant words against dynamic programming over the shift register"""
    name, T, nb = item
    n_in, n_out = shape_of(name)
    r = np.random.RandomState(T)
    states = list(product(*[list(product((0, 1), repeat=len(s))) for s in zero(name)]))
    trans = {s: {u: step(name, s, list(u)) for u in product((0, 1), repeat=n_in)} for s in states}
    code = lambda st: int(''.join(str(c) for s in st for c in s) or '0', 2)
    rx = r.randint(0, 2, nb * n_out * T)
    u = r.randint(0, 2, T * n_in)
    st, wy = zero(name), []
    for t in range(T):
        o, st = step(name, st, list(u[t * n_in:(t + 1) * n_in]))
        wy += o
    if nb:
        rx[:len(wy)] = [c ^ (1 if j % 17 == 5 else 0) for j, c in enumerate(wy)]

    def follow(w, inputs=None):
        best = {s: 0 for s in states}
        for t in range(T):
            nxt = {}
            for s, d in best.items():
                for q, (o, s2) in trans[s].items():
                    if inputs is None or q == inputs[t]:
                        e = d + sum(int(a) != int(c) for a, c in zip(o, w[t * n_out:(t + 1) * n_out]))
                        s2 = tuple(tuple(c) for c in s2)
                        nxt[s2] = min(e, nxt.get(s2, e))
            best = nxt
        return best
    blocks = [list(rx[m * n_out * T:(m + 1) * n_out * T]) for m in range(nb)]
    ends = [follow(w) for w in blocks]

    def build(I, b, i, _):
        y = U.call(I, 'CommDspy.tx.coding_conv', b.carr('x', u), **conv_args(b, name))
        if not nb:
            return [('encoded', y, Want((len(wy),), lambda idx: C(int(wy[idx[0].cint()]))))]
        dec, last, pe = U.parts(I, U.call(I, 'CommDspy.rx.decoding_conv_viterbi', b.carr('y', rx), tb_len=num(n_out * T), error_prob=num(True), **conv_args(b, name)), 3)
        o, la = arr_of(I, dec), arr_of(I, last)

        def got(idx):
            m = idx[0].cint()
            w = [el(o, (C(m * n_in * T + j),)) for j in range(n_in * T)] if o is not None else [None]
            if any(q is None or q.cint() is None for q in w):
                return None
            w = [q.cint() for q in w]
            return C(min(follow(blocks[m], [tuple(w[t * n_in:(t + 1) * n_in]) for t in range(T)]).values())) if set(w) <= {0, 1} else C(-1)
        mins = [min(e.values()) for e in ends]
        wp = [sum(1 for c in e.values() if c == g) for e, g in zip(ends, mins)]

        def final(idx):
            q = el(la, ()) if la is not None else None
            return None if q is None or q.cint() is None else C(int(q.cint() in {code(s) for s, c in ends[-1].items() if c == mins[-1]}))
        return [('encoded', y, Want((len(wy),), lambda idx: C(int(wy[idx[0].cint()])))), ('decoded', dec, Want((nb * n_in * T,), lambda idx: el(o, idx))),
                ('distance', Want((nb,), got), Want((nb,), lambda idx: C(mins[idx[0].cint()]))), ('final state', Want((), final), Want((), lambda idx: C(1))),
                ('error probability', pe, Want((nb,), lambda idx: C(Fraction(1, wp[idx[0].cint()]) if wp[idx[0].cint()] > 1 else 0)))]
    with unroll(1000):
        return symbolic(I, 'conv-decode' if nb else 'conv-encode', '%s, %d constant blocks of %d steps' % (name, nb, T), build, BIT)


def _b(I, it):
    return {'w': block_words, 'd': block_decode, 'c': block_wide}[it[0]](I, it[1])


def _c(I, it):
    return {'w': conv_words, 'd': conv_decode, 'c': conv_wide}[it[0]](I, it[1])


def c13(ctx):
    ctx.rule('block-encode', 'the element summary of coding_linear equals block times generating matrix over GF(2), the last block padded with zeros, for every length')
    ctx.rule('block-decode', 'for every received block the word chosen by decoding_linear has the minimum Hamming distance of the code book and the reported probability is 0 for code words and 1/(number of nearest code words) otherwise')
    ctx.pmap(_b, [(k, n) for n in BLOCK for k in 'wd'] + [('c', it) for it in [(2, 300, 5), (1, 140, 4), (8, 14, 5), (9, 20, 4), (3, 5, 150), (1, 3, 300)] + ctx.deep((10, 16, 4), (3, 600, 4), (5, 9, 70))])


def c14(ctx):
    ctx.rule('conv-encode', 'the element summary of coding_conv equals the shift-register encoder (with feedback where given) from the zero state, inputs served in turn, missing last inputs zero')
    ctx.rule('conv-decode', 'for every received block the decoders return an input word whose encoding from some start state has the minimum Hamming distance, a best final state and the documented probability')
    items = [('w', n) for n in CONV]
    for n in CONV:
        n_in, n_out = shape_of(n)
        T = 3 if n_in * n_out < 4 else 2
        items += [('d', (n, t, k)) for t in [T] + ctx.deep(T - 1, T + 1) for k in ('viterbi', 'ml')]
        items += [('d', (n, 2 if n_out < 3 else 1, k, 2)) for k in ('viterbi', 'ml')] + ([('d', (n, 1, k, 3)) for k in ('viterbi', 'ml')] if n_out < 3 else [])
    items += [('d', ('recursive systematic', 4, 'viterbi', 3)), ('d', ('1 in 2 out, memory 2', 4, 'viterbi', 2)), ('d', ('recursive systematic', 5, 'viterbi', 1)), ('d', ('1 in 2 out, memory 2', 3, 'ml', 3)), ('d', ('recursive systematic', 6, 'viterbi', 1))]
    items += [('c', it) for it in [(n, 30, 2) for n in CONV] + [(n, 400, 0) for n in CONV] + [('1 in 3 out, memory 1', 150, 1)] + ctx.deep(('1 in 2 out, memory 2', 300, 1), ('recursive systematic', 300, 1))]
    ctx.pmap(_c, items)
