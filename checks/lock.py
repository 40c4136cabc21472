"""C23: locking onto a known pattern, and the least-squares problems the PRBS-based estimators pose."""
from fractions import Fraction
import numpy as np
from sa import universe as U, eqv, poly as P
from sa.eqv import Alphabet, Points
from sa.dom import Arr, V, num, ref
from sa.poly import Poly
from sa.spec import B
from sa.frame import ok, viol, und
from .rel import Want, symbolic, short, arr_of, el, C
from .filters import elems, vec_want
from . import rel
from .prbs import POLYS
from .symbols import LEVELS
from .estimate import solves, sol, scal, restriction, recomputed

LOCKS = {'CommDspy.rx.lock_pattern_to_signal': False, 'CommDspy.rx.lock_pattern_to_signal_binary': True}


def corr(binary, L, m):
    """specification over concrete values v = pattern (L) + signal (m): correlations of the doubled pattern with the first min(L, m) samples"""
    w = min(L, m)

    def go(v):
        p, s = list(v[:L]) * 2, v[L:L + w]
        if binary:
            p, s = [2 * x - 1 for x in p], [2 * x - 1 for x in s]
        return [sum(p[k + j] * s[j] for j in range(w)) for k in range(2 * L - w + 1)]
    return go


def lock(I, item):
    fn, L, m = item
    binary = LOCKS[fn]
    al = (0, 1) if binary else ((-3, -1, 1, 3) if L + m <= 5 else (-1, 0, 2) if L + m <= 6 else (-1, 1))
    dom = Alphabet(p=al, s=al)
    co = corr(binary, L, m)
    nm = '%s of %d symbols on %d samples' % (fn.split('.')[-1], L, m)

    def build(I, b, n):
        p, s = b.arr('p', (L,), 'int'), b.arr('s', (m,), 'int')
        pe, se = elems(I, p, L), elems(I, s, m)
        r = U.parts(I, U.call(I, fn, p, s), 2)

        def rot(j):
            def f(*v):
                x = co(v)
                return v[:L][(x.index(max(x)) + j) % L]
            return f
        w = min(L, m)
        return [('aligned pattern', r[0], Want((L,), lambda idx: eqv.spec('%s rot %d' % (nm, idx[0].cint()), rot(idx[0].cint()), *(pe + se)))),
                ('correlations', r[1], Want((2 * L - w + 1,), lambda idx: eqv.spec('%s cor %d' % (nm, idx[0].cint()), lambda *v: co(v)[idx[0].cint()], *(pe + se))))]

    def exact(I, b, n):
        """a signal that starts with a rotation of the pattern"""
        k = n
        p = b.arr('p', (L,), 'int')
        pe = elems(I, p, L)
        s = I.alloc(Arr(shape=(C(m),), nt='int', elem=lambda idx: pe[(idx[0].cint() + k) % L]))
        r = U.parts(I, U.call(I, fn, p, s), 2)
        return [('pattern locked to its own rotation', r[0], Want((L,), lambda idx: pe[(idx[0].cint() + k) % L]))]
    recs = short(I, 'lock', nm, build, dom, lambda n, t: [('p', (L,)), ('s', (m,))], [0])
    if m >= L:
        d2 = Alphabet(p=(0, 1) if binary else (-3, -1, 1, 3) if L < 5 else (-2, 1, 3))
        recs += short(I, 'lock-rotation', nm, exact, d2, lambda n, t: [('p', (L,))], list(range(L)))
    return recs


def lock_long(I, item):
    """long patterns of constants: sums, lengths and widths are followed exactly"""
    fn, L, m, k, noisy = item
    binary = LOCKS[fn]
    r = np.random.RandomState(L + m)
    p = r.randint(0, 2, L) if binary else r.choice([-3, -1, 1, 3], L)
    s = np.resize(np.roll(p, -k), m)
    if noisy:
        s = np.where(r.rand(m) < 0.1, 1 - s, s) if binary else s + r.choice([-1, 0, 0, 1], m)
    c = corr(binary, L, m)([int(v) for v in p] + [int(v) for v in s])
    at = c.index(max(c))

    def build(I, b, i, n):
        x = U.parts(I, U.call(I, fn, b.carr('p', p), b.carr('s', s)), 2)
        return [('aligned pattern', x[0], Want((L,), lambda idx: C(int(p[(at + idx[0].cint()) % L])))),
                ('correlations', x[1], Want((len(c),), lambda idx: C(c[idx[0].cint()])))]
    return symbolic(I, 'lock', '%s, %d constant symbols on %d samples, offset %d%s' % (fn.split('.')[-1], L, m, k, ', disturbed' if noisy else ''), build, Points(rows=1))


def stream(prbs, cn, order, pre, gray, fs, post):
    """specification: one period of the mapped PRBS symbol stream (all-one seed), as exact values or (value, scaled) pairs"""
    taps, d = POLYS[prbs], max(POLYS[prbs])
    st, bits = [1] * d, []
    per = (1 << d) - 1
    for _ in range(2 * per):
        x = sum(st[k - 1] for k in taps) % 2
        bits.append(x)
        st = [x] + st[:-1]
    lv = LEVELS[cn]
    k = len(lv).bit_length() - 1
    out = []
    for j in range(0, len(bits), k):
        g = bits[j:j + k]
        if k > 1 and order:
            g = g[::-1]
        if pre:
            g = [1 - x for x in g]
        v = sum(x << q for q, x in enumerate(g))
        if gray:
            v = [a ^ (a >> 1) for a in range(len(lv))].index(v) if k > 1 else v
        out.append(lv[v] * (-1 if post else 1))
    sc = P.psqrt(C(1 / Fraction(sum(x * x for x in lv), len(lv)))) if fs else C(1)
    return [C(x) * sc for x in out[:per]]


def plain(p):
    """numbers are compared as numbers, whatever roots they are written with"""
    if p.cval() is not None:
        return round(float(p.cval()), 9)
    if not eqv.leaves(p) and not eqv.opaque_fn(p):
        return round(float(eqv.Prog([]).poly(p)([])), 9)
    return p


def rotation(got, want):
    """k with got[i] == want[(i + k) % len(want)] for all i, or None"""
    n = len(want)
    got, want = [plain(x) for x in got], [plain(x) for x in want]
    for k in range(n):
        if all(got[i] == want[(i + k) % n] for i in range(len(got))):
            return k
    return None


def values(I, v):
    o = arr_of(I, v)
    if o is None or o.shape is None or len(o.shape) != 1 or o.shape[0].cint() is None:
        return None
    r = [el(o, (C(j),)) for j in range(o.shape[0].cint())]
    return None if any(x is None for x in r) else r


class Bad(Exception):
    pass


def hook_lock(shift, seen):
    def h(I, fo, env, node):
        args = list(env.values())
        vs = values(I, args[0])
        seen.append((vs, args[1], I.where(node)))
        if vs is None:
            return None
        n = len(vs)
        aligned = [vs[(j + shift) % n] for j in range(n)]
        seen[-1] += (aligned,)
        a = I.alloc(Arr(shape=(C(n),), nt='float', elem=lambda idx: aligned[idx[0].cint()] if idx[0].cint() is not None else None), node)
        return V('tuple', x=(a, I.alloc(Arr(shape=(C(n + 1),), nt='float'), node)))
    return h


def run(I, fn, args, shift, cb, hooks=()):
    """explore fn with the lock replaced by its contract (a given rotation); cb(I, result, seen) -> list of complaints"""
    recs, seen = [], []

    def go(I):
        del seen[:]
        I.hooks[('func', 'CommDspy.rx.lock_pattern.lock_pattern_to_signal')] = hook_lock(shift, seen)
        for q, h in hooks:
            I.hooks[('func', q)] = h
        b = B(I)
        a, kw = args(I, b)
        return cb(I, U.call(I, fn, *a, **kw), seen)
    try:
        return I.explore(go, max_paths=24)
    finally:
        I.hooks.clear()


def pattern_ok(seen, opts, sig):
    """the pattern handed to the lock is the transmitted stream (any rotation); -> aligned period"""
    if len(seen) != 1 or len(seen[0]) < 4:
        return None, 'the reference pattern has no summary'
    vs, s, where, aligned = seen[0]
    want = stream(*opts)
    if rotation(vs, want) is None:
        raise Bad('the pattern that is locked is not the transmitted symbol stream of %s' % (opts,), where)
    n = len(want)
    if len(vs) % n:
        raise Bad('the pattern that is locked has %d symbols, not whole periods of %d' % (len(vs), n), where)
    return aligned[:n], None


def split(p):
    """p = (sum of signal elements) * rest -> ({index: coefficient}, rest monomial) or None"""
    co, rest = {}, None
    for k, v in p.m.items():
        e = [(a, x) for a, x in k if a[0] == 'e' and a[1] == 'sig']
        o = tuple((a, x) for a, x in k if not (a[0] == 'e' and a[1] == 'sig'))
        if len(e) != 1 or e[0][1] != 1 or (rest is not None and rest != o):
            return None
        rest = o
        co[e[0][0][2].cint()] = v
    return (co, rest) if co else None


def channel(I, item):
    prbs, cn, order, pre_inv, gray, fs, post_inv, post, pre, reps, extra, norm, shift = item
    opts = (prbs, cn, order, pre_inv, gray, fs, post_inv)
    L = (1 << max(POLYS[prbs])) - 1
    F = post + pre + 1
    N = L * reps + extra
    nm = 'channel_estimation_prbs %s %s, %d post, %d pre, %d samples%s' % (prbs, cn, post, pre, N, ', normalize' if norm else '')
    flags = dict(prbs_full_scale=fs, bit_order_inv=order, pn_inv_precoding=pre_inv, gray_coding=gray, pn_inv_postcoding=post_inv, normalize=norm)

    def args(I, b):
        kw = {k: b.const(k, True) for k, v in flags.items() if v}
        kw['channel_postcursor'], kw['channel_precursor'] = b.const('channel_postcursor', post), b.const('channel_precursor', pre)
        return [b.enum('prbs_type', 'PrbsEnum', [prbs]), b.arr('sig', (N,)), b.enum('constellation', 'ConstellationEnum', [cn])], kw

    def cb(I, r, seen):
        aligned, why = pattern_ok(seen, opts, None)
        if aligned is None:
            return why
        ev = solves(I)
        if len(ev) != 1:
            return '%d least-squares systems' % len(ev)
        where = ev[0][5]
        A, bb = arr_of(I, ev[0][2]), arr_of(I, ev[0][3])
        if A is None or bb is None or A.shape is None or bb.shape is None or len(A.shape) != 2 or len(bb.shape) not in (1, 2):
            return 'the system has no summary'
        R, Fc = A.shape[0].cint(), A.shape[1].cint()
        if R is None or Fc is None or bb.shape[0].cint() is None:
            return 'the system has no fixed size'
        if Fc != F:
            raise Bad('%d taps are estimated, not %d' % (Fc, F), where)
        if R != bb.shape[0].cint():
            raise Bad('%d rows for %d targets' % (R, bb.shape[0].cint()), where)
        if ev[0][1] != 'ols':
            raise Bad('the solver is %s' % ev[0][1], where)
        if restriction(ev[0][4]):
            raise Bad(restriction(ev[0][4]), where)
        qs, rest = [], None
        for r_ in range(R):
            p = el(bb, (C(r_),) + (C(0),) * (len(bb.shape) - 1))
            if p is None:
                return 'target %d has no summary' % r_
            sp = split(p)
            if sp is None:
                return 'target %d is not a multiple of a mean of samples' % r_
            co, o = sp
            if rest is None:
                rest = (o, next(iter(co.values())))
            if rest[0] != o:
                return 'targets have different factors'
            q = min(co) % L
            if sorted(co) != list(range(q, L * reps, L)) or set(co.values()) != {rest[1]}:
                raise Bad('target %d is not the mean of the samples of one phase of the period: samples %s' % (r_, sorted(co)[:4]), where)
            qs.append(q)
        if rest[1] <= 0:
            raise Bad('the target is inverted', where)
        if sorted(qs) != sorted(list(range(L)) * (R // L)) or R % L:
            raise Bad('the %d targets do not cover the %d phases of the period equally' % (R, L), where)
        lags, al = [], [plain(x) for x in aligned]
        for c in range(F):
            col = [el(A, (C(r_), C(c))) for r_ in range(R)]
            if any(x is None for x in col):
                return 'a matrix column has no summary'
            hit = [l for l in range(F) if all(plain(col[r_]) == al[(qs[r_] - post + l) % L] for r_ in range(R))]
            if not hit:
                raise Bad('column %d of the system is not the aligned pattern at one lag between -%d and %d' % (c, post, pre), where)
            lags.append(hit[0])
        if sorted(lags) != list(range(F)):
            raise Bad('the columns use the lags %s' % lags, where)
        x = [None] * F
        for c, l in enumerate(lags):
            x[F - 1 - l] = sol(0, c)
        g = eqv.spec('max', lambda *v: max(v), *x)
        rr = U.parts(I, r, 2)
        h = arr_of(I, rr[0])
        if h is None or h.shape is None:
            return 'the estimate has no summary'
        if [d.cint() for d in h.shape] != [F]:
            raise Bad('the estimate has shape %s' % (h.shape,), where)
        dom = Points(rows=12, ls0=tuple(Fraction(k, 16) for k in range(-50, 51, 3)))
        for j in range(F):
            want = eqv.spec('div', lambda u, *v: u / max(v) if max(v) != 0 else u, x[j], *x) if norm else x[j]
            e = eqv.equal(el(h, (C(j),)), want, dom)
            if e[0] == 'neq':
                raise Bad('tap %d of the estimate is not the solution for lag %d%s' % (j, j - pre, ' over the largest tap' if norm else ''), where)
            if e[0] != 'eq':
                return 'tap %d: %s' % (j, e[1])
        e = eqv.equal(scal(I, rr[1]).p, Poly.atom(('e', 'ls0.res', C(0))), dom)
        if e[0] == 'neq' and not recomputed(scal(I, rr[1]).p):
            raise Bad('the error is not the residual of the solution', where)
        return None if e[0] == 'eq' else 'residual: %s' % (e[1],)
    return outcome(I, 'channel-problem', nm, 'CommDspy.channel_estimation_prbs', args, shift, cb)


def outcome(I, rule, nm, fn, args, shift, cb, hooks=()):
    bad = []

    def cb2(I, r, seen):
        try:
            return ('ok', cb(I, r, seen))
        except Bad as e:
            return ('bad',) + e.args
    ps = run(I, fn, args, shift, cb2, hooks)
    if not ps or not I.last_complete:
        return [und(rule, nm, 'exploration incomplete')]
    recs = []
    for p in ps:
        if p.kind == 'raise':
            if not p.facts and not p.opaque:
                recs.append(viol(rule, nm + '|raise', p.exc.where, '%s: raises %s: %s' % (nm, p.exc.exc, p.exc.msg)))
            else:
                recs.append(und(rule, nm, 'raises %s under a condition' % p.exc.exc))
        elif p.kind != 'return':
            recs.append(und(rule, nm, 'path abandoned'))
        elif p.val[0] == 'bad':
            if p.opaque or any(isinstance(k, Poly) for k in p.facts):
                recs.append(und(rule, nm, p.val[1] + ' (under a condition)'))
            else:
                recs.append(viol(rule, '%s|%s' % (nm.split(',')[0], p.val[1][:40]), p.val[2], '%s: %s' % (nm, p.val[1])))
        elif p.val[1]:
            recs.append(und(rule, nm, p.val[1]))
        else:
            recs.append(ok(rule, nm))
    return recs


EQ = 'CommDspy.equalization_estimation.equalization_estimation'


def equaliser(I, item):
    prbs, cn, order, pre_inv, gray, fs, post_inv, post, pre, dfe, N, norm, reg, lam, shift = item
    opts = (prbs, cn, order, pre_inv, gray, fs, post_inv)
    L = (1 << max(POLYS[prbs])) - 1
    nm = 'equalization_estimation_prbs %s %s, %d post, %d pre, %d DFE, %d samples%s %s' % (prbs, cn, post, pre, dfe, N, ', normalize' if norm else '', reg)
    got = []

    def h(I, fo, env, node):
        got.append((dict(env), I.where(node)))
        return V('tuple', x=tuple(num(Poly.sym('out%d' % j)) for j in range(5)))

    def args(I, b):
        del got[:]
        kw = {k: b.const(k, True) for k, v in dict(prbs_full_scale=fs, bit_order_inv=order, pn_inv_precoding=pre_inv, pn_inv_postmapping=post_inv, normalize=norm).items() if v}
        if not gray:
            kw['gray_coded'] = b.const('gray_coded', False)
        kw.update(ffe_postcursor=b.const('ffe_postcursor', post), ffe_precursor=b.const('ffe_precursor', pre), dfe_taps=b.const('dfe_taps', dfe))
        if reg != 'None':
            kw.update(regularization=b.const('regularization', reg), reg_lambda=b.const('reg_lambda', lam))
        return [b.enum('prbs_type', 'PrbsEnum', [prbs]), b.arr('sig', (N,)), b.enum('constellation', 'ConstellationEnum', [cn])], kw

    def cb(I, r, seen):
        aligned, why = pattern_ok(seen, opts, None)
        if aligned is None:
            return why
        if len(got) != 1:
            return '%d equalisation problems' % len(got)
        env, where = got[0]
        for k, v in (('ffe_postcursor', post), ('ffe_precursor', pre), ('dfe_taps', dfe), ('reg_lambda', lam if reg != 'None' else 0)):
            p = env[k].p if env[k].k == 'num' else None
            if p is None or p.cval() is None:
                return '%s has no summary' % k
            if float(p.cval()) != float(v):
                raise Bad('%s is %s instead of %s' % (k, p, v), where)
        nv = I.truth_known(env['normalize'])
        if nv is None:
            return 'normalize has no summary'
        if nv != norm:
            raise Bad('normalize is %s' % nv, where)
        if env['regularization'].k != 'str' or env['regularization'].c != reg:
            raise Bad('regularization is %s' % env['regularization'].c, where)
        rf, sg = values(I, env['reference_signal']), values(I, env['signal'])
        if rf is None or sg is None:
            return 'the reference or the signal has no summary'
        reps = N // L
        n = L if reps else N
        if len(rf) != n or len(sg) != n:
            raise Bad('reference and signal have %d and %d samples instead of %d' % (len(rf), len(sg), n), where)
        for j in range(n):
            if plain(rf[j]) != plain(aligned[(post + j) % L]):
                raise Bad('reference sample %d is not the aligned pattern %d samples ahead' % (j, post), where)
            w = C(0)
            for t in range(max(reps, 1)):
                w = w + Poly.atom(('e', 'sig', C(t * L + j)))
            if sg[j] != w * Fraction(1, max(reps, 1)):
                raise Bad('signal sample %d is not the mean over the periods' % j, where)
        rr = U.parts(I, r, 5)
        for j in range(5):
            if rr[j].k == 'num' and rr[j].p is not None and rr[j].p != Poly.sym('out%d' % j):
                raise Bad('result %d is not that of the equalisation problem' % j, where)
        return None
    return outcome(I, 'equaliser-reference', nm, 'CommDspy.equalization_estimation_prbs', args, shift, cb, [(EQ, h)])


def _go(I, it):
    with rel.unroll(600):
        return _go1(I, it)


def _go1(I, it):
    return {'lock': lock, 'long': lock_long, 'ch': channel, 'eq': equaliser}[it[0]](I, it[1])


def c23(ctx):
    ctx.rule('lock', 'lock_pattern_to_signal(_binary) returns the pattern rotated to the first largest correlation of the doubled pattern with the start of the signal, and all the correlations: truth tables of the element summaries')
    ctx.rule('lock-rotation', 'a signal that starts with a rotation of the pattern gets exactly that rotation back')
    ctx.rule('channel-problem', 'channel_estimation_prbs: the locked pattern is the transmitted stream; every equation pairs the mean of one phase of the period with the aligned pattern at lags -pre..post, all phases equally often, up to a common positive factor; the estimate lists the solution by lag (over its largest tap when normalized)')
    ctx.rule('equaliser-reference', 'equalization_estimation_prbs hands the aligned pattern, postcursor samples ahead, and the period mean (or the signal when shorter than a period) with all options to equalization_estimation')
    its = [('lock', (f, L, m)) for f in LOCKS for L, m in ((1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 1), (3, 2), (3, 3), (3, 4), (4, 2), (4, 4), (4, 6), (5, 3), (5, 5), (5, 6))]
    fl = [(o, p, g, f, q) for o in (False, True) for p in (False, True) for g in (False, True) for f in (False, True) for q in (False, True)]
    for k, x in enumerate(fl):
        cn = 'PAM4'
        its.append(('ch', ('PRBS7', cn) + x + (1 + k % 4, k % 3, 1 + k % 2, (0, 5, 60)[k % 3], bool(k % 2), (0, 17, 126)[k % 3])))
        its.append(('eq', ('PRBS7', cn) + x + (k % 4, (k + 1) % 3, k % 3, (127, 300, 100, 64)[k % 4], bool(k % 2), ('None', 'ridge', 'lasso')[k % 3], 0.25, (0, 31, 126)[k % 3])))
    for cn in ('NRZ', 'OOK'):
        for k, x in enumerate(((False,) * 5, (False, True, False, True, False), (False, False, True, False, True), (False, True, True, True, True))):
            its.append(('ch', ('PRBS7', cn) + x + ((3, 0, 2, 5)[k], (0, 2, 1, 4)[k], 1 + k % 3, (0, 126, 9, 1)[k], bool(k % 2), (5, 0, 100, 126)[k])))
            if cn == 'NRZ':
                its.append(('eq', ('PRBS7', cn) + x + ((3, 0, 2, 5)[k], (0, 2, 1, 4)[k], k % 3, (127, 254, 90, 381)[k], bool(k % 2), 'None', 0, (5, 0, 100, 126)[k])))
    its.append(('eq', ('PRBS9', 'PAM4', True, False, True, False, False, 2, 1, 1, 600, False, 'None', 0, 300)))
    if ctx.tier == 'thorough':
        its += [('lock', (f, L, m)) for f in LOCKS for L, m in ((4, 1), (4, 3), (4, 5), (5, 1), (5, 2), (5, 4), (6, 3), (6, 6))]
        for k, x in enumerate(fl):
            for cn in ('PAM4', 'NRZ', 'OOK'):
                y = x if cn == 'PAM4' else (False,) + x[1:]
                its.append(('ch', ('PRBS7', cn) + y + (2 + k % 5, (k + 1) % 4, 1 + (k + 1) % 3, (3, 40, 100, 126)[k % 4], not k % 2, (1, 64, 90)[k % 3])))
    its += [('long', (f, L, m, k, z)) for f in LOCKS for L, m, k in ((127, 127, 100), (127, 500, 3), (127, 90, 126), (511, 300, 400), (40, 1000, 39)) for z in (False, True)]
    ctx.pmap(_go, its)
