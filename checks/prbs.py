"""Pseudo-random bit sources and their checkers."""
from itertools import product
from sa import universe as U, poly as P
from sa.dom import *
from sa.poly import Poly
from sa.spec import B
from sa.eqv import Alphabet, Points
from sa import eqv
from sa.frame import ok, viol, und
from .rel import Want, C, arr_of, short, symbolic, el
from . import rel

POLYS = {'PRBS7': (6, 7), 'PRBS9': (5, 9), 'PRBS11': (9, 11), 'PRBS13': (1, 2, 12, 13), 'PRBS15': (14, 15), 'PRBS31': (28, 31)}
SMALL = [(1, 1), (1, 0, 1), (0, 1, 1), (1, 0, 0, 1), (0, 0, 1, 1)]          # all maximal-length of degree 2..4
BIT = Alphabet(init_seed=(0, 1), x=(0, 1), f=(0, 1))


def factors(n):
    out, d = set(), 2
    while d * d <= n:
        while n % d == 0:
            out.add(d)
            n //= d
        d += 1
    if n > 1:
        out.add(n)
    return out


def primitive(taps):
    """is 1 + sum x^k (k in taps) a primitive polynomial over GF(2)"""
    d = max(taps)
    f = 1
    for k in taps:
        f ^= 1 << k

    def mul(a, b):
        r = 0
        while b:
            if b & 1:
                r ^= a
            b >>= 1
            a <<= 1
            if a >> d & 1:
                a ^= f
        return r

    def pw(e):
        r, a = 1, 2
        while e:
            if e & 1:
                r = mul(r, a)
            a = mul(a, a)
            e >>= 1
        return r
    n = (1 << d) - 1
    return pw(n) == 1 and all(pw(n // q) != 1 for q in factors(n))


def polynomial(I, name):
    recs = []
    ps = I.explore(lambda I: U.call(I, 'CommDspy.get_polynomial', B(I).enum('prbs_type', 'PrbsEnum', [name])), max_paths=8)
    for p in ps:
        if p.kind != 'return':
            if p.kind == 'raise':
                recs.append(viol('polynomial', name, p.exc.where, 'get_polynomial(%s) raises %s' % (name, p.exc.exc)))
            continue
        a = arr_of(p, p.val)
        n = a.shape[0].cint() if a is not None and a.shape and len(a.shape) == 1 and a.shape[0] is not None else None
        es = [el(a, (C(j),)) for j in range(n)] if n is not None else [None]
        if any(e is None or e.cint() is None for e in es):
            recs.append(und('polynomial', name, 'coefficients are not constant'))
            continue
        cs = [e.cint() for e in es]
        taps = tuple(k + 1 for k, c in enumerate(cs) if c)
        bad = None
        if set(cs) - {0, 1}:
            bad = 'has non-binary coefficients %s' % cs
        elif len(cs) != int(name[4:]):
            bad = 'has degree %d' % len(cs)
        elif not taps or taps[-1] != len(cs):
            bad = 'has a zero leading coefficient'
        elif not primitive(taps):
            bad = 'with taps %s is not primitive, so the sequence is shorter than 2^%d-1' % (taps, len(cs))
        elif taps != POLYS[name]:
            bad = 'has taps %s; the standard polynomial has %s' % (taps, POLYS[name])
        recs.append(viol('polynomial', name, None, 'get_polynomial(%s) %s' % (name, bad)) if bad else ok('polynomial', '%s: taps %s, primitive, standard' % (name, taps)))
    return recs


def lfsr(cs, state, n):
    """specification: bits and final state of the shift register, as element summaries"""
    state, out = list(state), []
    for _ in range(n):
        t = C(0)
        for c, s in zip(cs, state):
            if c:
                t = t + s
        bit = P.pmod(t, C(2))
        out.append(bit)
        state = [bit] + state[:-1]
    return out, state


def lw(xs):
    return Want((len(xs),), lambda idx: xs[idx[0].cint()])


def gen(I, item):
    cs, parts = item
    d = len(cs)
    per = (1 << d) - 1
    nm = 'polynomial %s' % (cs,) if d < 9 else 'degree %d' % d

    def build(I, b, n):
        ns = n if isinstance(n, tuple) else (n,)
        seed = b.arr('init_seed', (d,), 'int', 0, 1)
        se = I.heap[seed.x].elem
        poly = b.carr('poly_coeff', list(cs))
        outs, st = [], seed
        got = []
        for k in ns:
            r = U.call(I, 'CommDspy.tx.prbs_gen', poly, st, b.const('output_length', k))
            bits, st = U.parts(I, r, 2)
            got.append((bits, k))
        want, _ = lfsr(cs, [se((C(j),)) for j in range(d)], sum(ns))
        _, wst = lfsr(cs, [se((C(j),)) for j in range(d)], sum(ns))
        res, off = [], 0
        for j, (bits, k) in enumerate(got):
            res.append(('chunk %d' % (j + 1), bits, lw(want[off:off + k])))
            off += k
        res.append(('seed', st, lw(wst)))
        return res
    with rel.unroll(600):
        return exact(I, 'generator', nm, build, parts, lambda: [('init_seed', (d,))])


def exact(I, rule, nm, build, cases, inputs):
    """normal-form comparison first, truth table over the inputs when that does not settle it"""
    recs, nok = [], 0
    for n in cases:
        paths = I.explore(lambda I: build(I, B(I), n), max_paths=64)
        done = I.last_complete
        for p in paths:
            if p.kind == 'abort' or 'speculative' in p.tags:
                continue
            if p.kind == 'raise' or p.facts or p.opaque:
                done = False
                break
            for lab, got, want in p.val:
                ga, wa = arr_of(p, got), arr_of(p, want)
                if ga is None or wa is None or rel.cmp_shape(ga, wa) is not True:
                    done = False
                    break
                for j in product(*[range(x.cint()) for x in wa.shape]):
                    idx = tuple(C(t) for t in j)
                    if el(ga, idx) != el(wa, idx) or el(wa, idx) is None:
                        done = False
                        break
                    nok += 1
        if not done:
            recs += short(I, rule, '%s %s' % (nm, n), build, BIT, lambda n, t: inputs(), [n], cap=1 << 14)
    if nok:
        recs.append(ok(rule, '%s: %d bits have the specified normal form (lengths %s)' % (nm, nok, list(cases)[:12]), nok))
    return recs


def iterator(I, item):
    cs = item
    d = len(cs)
    N = 2 * d + 3

    def build(I, b, n):
        seed = b.arr('init_seed', (d,), 'int', 0, 1)
        se = I.heap[seed.x].elem
        it = U.call(I, 'CommDspy.tx.PrbsIterator', b.carr('poly_coeff', list(cs)), seed)
        it = U.meth(I, it, '__iter__')
        s0 = [se((C(j),)) for j in range(d)]
        res = []
        for k in range(N):
            v = U.meth(I, it, '__next__')
            bits, st = lfsr(cs, s0, k + 1)
            _, pst = lfsr(cs, s0, k)
            res.append(('bit %d' % k, v, Want((), lambda idx, q=bits[-1]: q)))
            res.append(('seed after %d' % k, U.meth(I, it, 'get_seed'), lw(st)))
            res.append(('previous seed after %d' % k, U.meth(I, it, 'get_prev_seed'), lw(pst)))
        return res
    return exact(I, 'iterator', 'PrbsIterator %s' % (cs,), build, [N], lambda: [('init_seed', (d,))])


def coeffs(name):
    n = int(name[4:])
    return tuple(1 if k + 1 in POLYS[name] else 0 for k in range(n))


def _item(I, it):
    return {'poly': polynomial, 'gen': gen, 'iter': iterator}[it[0]](I, it[1])


def c07(ctx):
    ctx.rule('polynomial', 'get_polynomial yields constant binary coefficients of the standard primitive polynomial of the named degree')
    ctx.rule('generator', 'bits and returned seed of prbs_generator, over one call and over consecutive calls fed with the returned seed, equal the shift-register recurrence with a symbolic seed (lengths around the degree and the period)')
    ctx.rule('iterator', 'bits, seed and previous seed of PrbsIterator equal the same recurrence')
    items = [('poly', n) for n in POLYS]
    for cs in SMALL:
        d, per = len(cs), 2 ** len(cs) - 1
        ls = sorted(set(range(0, 2 * per + 3)) if d < 4 else {0, 1, d - 1, d, d + 1, per - 1, per, per + 1, per + d, 2 * per, 2 * per + 1})
        items.append(('gen', (cs, ls)))
        items.append(('gen', (cs, [(a, d + 2) for a in ls if a] + [(1, 1, 1, d + 2), (per, per, 2)])))
        items.append(('iter', cs))
    for n in POLYS:
        d = int(n[4:])
        items.append(('gen', (coeffs(n), [1, d - 1, d, d + 1, d + 9])))
        items += ctx.deep(('gen', (coeffs(n), [0, 2, 3, d + 2, 2 * d - 1, 2 * d, 2 * d + 1, 3 * d])), ('gen', (coeffs(n), [(1, 1, 1, 1, 1), (d + 1, d + 1), (2 * d, 1, d), (1, 2 * d)])), ('iter', coeffs(n)))
        items.append(('gen', (coeffs(n), [(3, 4), (d, 5), (d + 2, d), (d - 1, 3, 2)])))
    items += [('gen', (coeffs('PRBS7'), [126, 127, 128, 254, 255, (127, 127, 9), (100, 200)])), ('gen', (coeffs('PRBS9'), [64, 100, 128, 512])), ('gen', (coeffs('PRBS13'), [64, 100, 128])), ('gen', (coeffs('PRBS31'), [150, (70, 70)]))]
    items += [('gen', ((1, 1), [100, 3000])), ('gen', ((0, 1, 1), [150, (200, 50)]))]
    ctx.pmap(_item, items + [('iter', coeffs('PRBS7')), ('iter', coeffs('PRBS13'))])


# -- checkers ----------------------------------------------------------------------------------------------------------
def csum(xs):
    t = C(0)
    for x in xs:
        t = t + x
    return t


def xor(a, c):
    return P.pmod(a + c, C(2))


def economy(I, item):
    """a stream whose first bits are right: the reported errors are exactly the flipped bits"""
    cs = coeffs('PRBS7')
    d, n, first = 7, item[0], item[1]

    def build(I, b, th):
        x = b.arr('x', (d,), 'int', 0, 1)
        f = b.arr('f', (n,), 'int', 0, 1)
        xe, fe = I.heap[x.x].elem, I.heap[f.x].elem
        head = [xe((C(j),)) for j in range(d)]
        tail, _ = lfsr(cs, head[::-1], n - d)
        flips = [C(0)] * first + [fe((C(j),)) for j in range(first, n)]
        xs = [xor(a, c) for a, c in zip(head + tail, flips)]
        data = b.arr('data', (n,), 'int', 0, 1)
        I.heap[data.x] = I.heap[data.x].rep(elem=lambda idx: xs[idx[0].cint()] if idx[0].cint() is not None and 0 <= idx[0].cint() < n else None)
        r = U.call(I, 'CommDspy.rx.prbs_checker_econ', b.enum('prbs_type', 'PrbsEnum', ['PRBS7']), data, b.const('loss_th', th))
        lost, good, err = U.parts(I, r, 3)
        ne = csum(flips)
        if th > n - first:      # the lock is kept, so the first alignment is the answer
            return [('lost lock', lost, Want((), lambda i: C(0))), ('correct bits', good, Want((), lambda i: C(n) - ne)), ('error bits', err, Want((n,), lambda i: flips[i[0].cint()]))]
        return [('lost lock', lost, Want((), lambda i: P.pcmp('>=', ne, C(th))))]
    ins = lambda m, t: [('x', (d,)), ('f', (n,))]
    return sampled(I, 'checker', 'prbs_checker_econ', build, [n + 1] if first < n else [1, n + 1], d, n, first)


def sampled(I, rule, nm, build, ths, d, n, first):
    """truth table over the seed bits and the flips (unused flip positions are fixed)"""
    dom = Alphabet(x=(0, 1), f=(0, 1))
    recs = []
    for th in ths:
        class D(Alphabet):
            def of(self, a):
                if a[0] == 'e' and a[1] == 'f' and (a[2].cint() or 0) < first:
                    return (0,)
                return Alphabet.of(self, a)
        recs += short(I, rule, '%s, threshold %d, %d possible flips' % (nm, th, n - first), build, D(x=(0, 1), f=(0, 1)), lambda m, t: [('x', (d,)), ('f', (n,))], [th], cap=1 << 13, maxp=300)
    return recs


def reference(I, item):
    """locked checker: errors are the positions where the data differs from the (repeated) reference"""
    dom = Alphabet(data=(0, 1), ref=(0, 1))

    def build(I, b, i, n):
        data = b.vec('data', n, 'int', 0, 1)
        kw = {}
        if item == 'given':
            ref = b.arr('ref', (127,), 'int', 0, 1)
            re = I.heap[ref.x].elem
            kw['prbs_seq'] = ref
        else:
            seq, _ = lfsr(coeffs('PRBS7'), [C(1)] * 7, 127)
            vals = tuple(s.cint() for s in seq)
            re = lambda idx: P.tab(vals, idx[0])
        de = I.heap[data.x].elem
        r = U.call(I, 'CommDspy.rx.prbs_checker', b.enum('prbs_type', 'PrbsEnum', ['PRBS7']), data, num(True), loss_th=b.sym('loss_th', 1), **kw)
        lost, good, err = U.parts(I, r, 3)
        return [('error bits', err, Want((n,), lambda idx: xor(de(idx), re((P.pmod(idx[0], C(127)),)))))]
    return symbolic(I, 'checker', 'prbs_checker, reference ' + item, build, dom)


def counts(I, item):
    """counts and lock decision follow from the error bits (short data)"""
    n = 5
    dom = Alphabet(data=(0, 1))
    seq, _ = lfsr(coeffs('PRBS7'), [C(1)] * 7, n)

    def build(I, b, th):
        data = b.arr('data', (n,), 'int', 0, 1)
        de = I.heap[data.x].elem
        r = U.call(I, 'CommDspy.rx.prbs_checker', b.enum('prbs_type', 'PrbsEnum', ['PRBS7']), data, num(True), loss_th=b.const('loss_th', th))
        lost, good, err = U.parts(I, r, 3)
        fl = [xor(de((C(j),)), seq[j]) for j in range(n)]
        return [('error bits', err, lw(fl)), ('correct bits', good, Want((), lambda i: C(n) - csum(fl))), ('lost lock', lost, Want((), lambda i: P.pcmp('>=', csum(fl), C(th))))]
    return short(I, 'checker', 'prbs_checker', build, dom, lambda m, t: [('data', (n,))], [1, 2, 5, 6])


def relock(I, item):
    """any data: successive seeds are tried until one keeps the lock"""
    name, n, th = item
    d = int(name[4:])
    cs = coeffs(name)

    def run(w, s):
        st = [int(v) for v in w[s:s + d]][::-1]
        err = [0] * d
        for k in range(s + d, n):
            bit = sum(c * v for c, v in zip(cs, st)) % 2
            st = [bit] + st[:-1]
            err.append(int(bit != w[k]))
        return err

    def start(*w):
        for s in range(d):
            if sum(run(w, s)) < th:
                return s
        return d - 1

    def bad(*w):
        return sum(run(w, start(*w)))

    def at(s, j, *w):
        return run(w, int(s))[int(j)]

    def build(I, b, th):
        data = b.arr('x', (n,), 'int', 0, 1)
        xs = [I.heap[data.x].elem((C(j),)) for j in range(n)]
        r = U.call(I, 'CommDspy.rx.prbs_checker_econ', b.enum('prbs_type', 'PrbsEnum', [name]), data, b.const('loss_th', th))
        lost, good, err = U.parts(I, r, 3)
        ea = arr_of(I, err)
        m = ea.shape[0].cint() if ea is not None and ea.shape and len(ea.shape) == 1 and ea.shape[0] is not None else None
        sp = lambda k, f, *a: eqv.spec('%s %s' % (k, item), f, *(a + tuple(xs)))
        out = [('lost lock', lost, Want((), lambda i: P.pcmp('>=', sp('bad', bad), C(th)))), ('correct bits', good, Want((), lambda i: C(n) - sp('bad', bad)))]
        if m is None:
            return out + [('error bits', err, Want((None,), lambda i: None))]
        return out + [('dropped bits', Want((), lambda i: C(n - m)), Want((), lambda i: sp('start', start))), ('error bits', err, Want((m,), lambda i: sp('at', at, C(n - m), i[0])))]
    return short(I, 'checker', 'prbs_checker_econ of %d arbitrary bits, %s, threshold %d' % (n, name, th), build, Alphabet(x=(0, 1)), lambda m, t: [('x', (n,))], [th], cap=1 << 11, maxp=300, sample=400)


def unlocked(I, item):
    """checker that has to lock first: the reference is rotated as the lock says"""
    from .lock import hook_lock
    name, n, shift, given = item
    d = int(name[4:])
    per = 2 ** d - 1
    seq, _ = lfsr(coeffs(name), [C(1)] * d, per)
    vals = [s.cint() for s in seq]
    dom = Alphabet(data=(0, 1), ref=(0, 1))

    def build(I, b, i, _):
        seen = []
        I.hooks[('func', 'CommDspy.rx.lock_pattern.lock_pattern_to_signal_binary')] = hook_lock(shift, seen)
        data = b.arr('data', (n,), 'int', 0, 1)
        de = I.heap[data.x].elem
        kw = {}
        rf = [C(v) for v in vals]
        if given:
            ref = b.arr('ref', (per,), 'int', 0, 1)
            rf = [I.heap[ref.x].elem((C(j),)) for j in range(per)]
            kw['prbs_seq'] = ref
        r = U.call(I, 'CommDspy.rx.prbs_checker', b.enum('prbs_type', 'PrbsEnum', [name]), data, num(False), loss_th=b.const('loss_th', n // 2), **kw)
        I.hooks.clear()
        lost, good, err = U.parts(I, r, 3)
        fl = [xor(de((C(j),)), rf[(j + shift) % per]) for j in range(n)]
        out = [('error bits', err, lw(fl))]
        if n < 60:
            out += [('correct bits', good, Want((), lambda i: C(n) - csum(fl))), ('lost lock', lost, Want((), lambda i: P.pcmp('>=', csum(fl), C(n // 2))))]
        if seen:
            out.append(('signal that is locked to', seen[0][1], lw([de((C(j),)) for j in range(n)])))
        return out
    try:
        with rel.unroll(600):
            return symbolic(I, 'checker', 'prbs_checker locking %s to %d bits, rotation %d%s' % (name, n, shift, ', given reference' if given else ''), build, Points(rows=16, data=(0, 1), ref=(0, 1)))
    finally:
        I.hooks.clear()


def _chk(I, it):
    return {'eco': economy, 'ref': reference, 'cnt': counts, 're': relock, 'un': unlocked}[it[0]](I, it[1])


def c12(ctx):
    ctx.rule('checker', 'error positions, number of correct bits and lock decision reported by the checkers equal those of a bit-by-bit comparison with the shift-register sequence')
    ctx.pmap(_chk, [('eco', (12, 12)), ('eco', (16, 12)), ('eco', (14, 8))] + ctx.deep(('eco', (13, 10)), ('eco', (17, 13)), ('eco', (15, 9))) + [('ref', 'given'), ('ref', 'own'), ('cnt', 0)] + [('re', x) for x in (('PRBS7', 11, 1), ('PRBS7', 13, 2), ('PRBS7', 16, 3), ('PRBS9', 15, 2), ('PRBS7', 40, 12))]
             + [('un', x) for x in (('PRBS7', 20, 0, False), ('PRBS7', 20, 57, False), ('PRBS7', 127, 126, True), ('PRBS7', 130, 100, False), ('PRBS7', 300, 31, True), ('PRBS9', 30, 500, False))])
