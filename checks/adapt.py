"""C21: adaptation - LMS gradients and the timing step."""
import math
import numpy as np
from fractions import Fraction
from sa import universe as U, eqv
from sa.eqv import Points
from .rel import Want, symbolic, C
from .filters import elems
from . import rel

R = 'CommDspy.rx.'
LV = (-3, -1, 1, 3)
VALS = tuple(Fraction(k, 16) for k in range(-70, 71, 3))


def near(x, lv):
    return min(lv, key=lambda l: abs(x - l))


def gradients(e, y, r, fi, di):
    N = len(e)
    gf = []
    for i in fi:
        ns = [n for n in range(N) if 0 <= n - i < N]
        gf.append(0.5 * sum(float(e[n]) * float(y[n - i]) for n in ns) / len(ns))
    gd = []
    for j in di:
        ns = [n for n in range(N) if n - j >= 0]
        gd.append(-0.5 * sum(float(e[n]) * float(r[n - j]) for n in ns) / len(ns))
    return gf, gd


def reference(kind, N, fi, di, given, lv, sigma):
    def fn(which, k, *v):
        y, x = v[:N], v[N:2 * N]
        r = v[2 * N:3 * N] if given else [near(a, lv) for a in x]
        if kind == 'ddlms_grad':
            e = [a - b for a, b in zip(x, r)]
            loss = float(sum(a * a for a in e)) / N
        else:
            e, ls = [], 0.0
            for a in x:
                ex = [math.exp(-(float(a) - m) ** 2 / (2 * sigma ** 2)) for m in lv]
                f = sum(ex) / len(lv) / math.sqrt(2 * math.pi * sigma ** 2)
                e.append(sum((float(a) - m) / sigma ** 2 * q for m, q in zip(lv, ex)) / f)
                ls -= math.log(f)
            loss = ls / N
        gf, gd = gradients(e, y, r, fi, di)
        return (loss, gf, gd)[int(which)] if int(which) == 0 else (loss, gf, gd)[int(which)][int(k)]
    return fn


def lms(I, item):
    kind, N, fi, di, given, lv, sigma = item
    name = 'lms %s' % (item,)
    fn = reference(kind, N, fi, di, given, lv, sigma)
    dom = Points(rows=14, y=VALS, x=VALS, r=tuple(Fraction(v) for v in lv))

    def build(I, b, i, n):
        Y, X = b.arr('y', (N,)), b.arr('x', (N,))
        ps = elems(I, Y, N) + elems(I, X, N)
        kw = {}
        if fi:
            kw['ffe_tap_idx'] = b.carr('ffe_tap_idx', list(fi))
        if di:
            kw['dfe_tap_idx'] = b.carr('dfe_tap_idx', list(di))
        if given:
            r = b.arr('r', (N,))
            ps += elems(I, r, N)
            kw['reference_vec'] = r
        if kind == 'soft_ddlms_grad' and sigma != 1:
            kw['sigma'] = b.const('sigma', sigma)
        v = U.call(I, R + kind, Y, X, b.carr('levels', [float(q) for q in lv]), **kw)
        k = 1 + bool(fi) + bool(di)
        rs = U.parts(I, v, k) if k > 1 else [v]
        out = [('loss', rs[0], Want((), lambda idx: eqv.spec(name, fn, C(0), C(0), *ps)))]
        if fi:
            out.append(('FFE gradient', rs[1], Want((len(fi),), lambda idx: eqv.spec(name, fn, C(1), idx[0], *ps))))
        if di:
            out.append(('DFE gradient', rs[-1], Want((len(di),), lambda idx: eqv.spec(name, fn, C(2), idx[0], *ps))))
        return out
    return symbolic(I, 'gradient', '%s of %d samples, FFE taps %s, DFE taps %s%s, levels %s, sigma %s' % (kind, N, fi, di, ', given reference' if given else '', lv, sigma), build, dom)


def mm(I, item):
    N, w, tol = item
    name = 'mm %s' % (item,)
    vals = tuple(Fraction(k, 8) for k in range(-24, 25, 3))
    dom = Points(rows=60, s=vals, r=tuple(Fraction(v) for v in LV))
    pw, qw = w if w else (1, 1)
    tl = tol if tol is not None else 1e-3

    def fn(*v):
        s, r = v[:N], v[N:]
        pre = sum(a * b for a, b in zip(r[1:], s[:-1])) / (N - 1)
        post = sum(a * b for a, b in zip(r[:-1], s[1:])) / (N - 1)
        d = float(post * Fraction(qw) - pre * Fraction(pw))
        return 0 if abs(d) < tl else (1 if d > 0 else -1)

    def build(I, b, i, n):
        s, r = b.arr('s', (N,)), b.arr('r', (N,))
        ps = elems(I, s, N) + elems(I, r, N)
        kw = {}
        if w:
            kw = {'pre_weight': b.const('pre_weight', pw), 'post_weight': b.const('post_weight', qw)}
        if tol is not None:
            kw['tol'] = b.const('tol', tol)
        return [('step', U.call(I, R + 'mueller_muller_step', s, r, **kw), Want((), lambda idx: eqv.spec(name, fn, *ps)))]
    return symbolic(I, 'timing-step', 'mueller_muller_step of %d samples, weights %s, tolerance %s' % (N, (pw, qw), tl), build, dom)


def long_adapt(I, item):
    """long constant blocks"""
    kind, N, fi, di, given = item
    q = np.random.RandomState(N)
    lv = (-3, -1, 1, 3)
    y, x, r = (q.randint(-30, 31, N) / 8 for _ in range(3))
    r = np.array([float(near(v, lv)) for v in (r if given else x)])
    fn = reference(kind, N, fi, di, True, lv, 1) if kind != 'mueller_muller_step' else None
    if fn is None:      # late at first, then early (or the other way round)
        w = np.where(np.arange(N) < N // 2, 1, -2) * (1 if N % 2 else -1)
        y = r + w * np.concatenate([[0], r[:-1]]) / 2

    def build(I, b, i, n):
        if fn is None:
            d = sum(float(a) * float(c) for a, c in zip(y[1:], r[:-1])) - sum(float(a) * float(c) for a, c in zip(y[:-1], r[1:]))
            return [('step', U.call(I, R + kind, b.carr('s', list(y)), b.carr('r', list(r))), Want((), lambda idx: C((d / (N - 1) > 1e-3) - (d / (N - 1) < -1e-3))))]
        kw = {'ffe_tap_idx': b.carr('ffe_tap_idx', list(fi)), 'dfe_tap_idx': b.carr('dfe_tap_idx', list(di))}
        if given:
            kw['reference_vec'] = b.carr('ref', list(r))
        rs = U.parts(I, U.call(I, R + kind, b.carr('y', list(y)), b.carr('x', list(x)), b.carr('levels', [float(v) for v in lv]), **kw), 3)
        v = [fn(0, 0, *(list(y) + list(x) + list(r)))] + [[fn(w, k, *(list(y) + list(x) + list(r))) for k in range(m)] for w, m in ((1, len(fi)), (2, len(di)))]
        sp = lambda t: eqv.spec('long %s %s' % (item[:2], t), lambda: t)
        return [('loss', rs[0], Want((), lambda idx: sp(v[0]))), ('FFE gradient', rs[1], Want((len(fi),), lambda idx: sp(v[1][idx[0].cint()]))), ('DFE gradient', rs[2], Want((len(di),), lambda idx: sp(v[2][idx[0].cint()])))]
    with rel.unroll(3000):
        return symbolic(I, 'timing-step' if fn is None else 'gradient', '%s of %d constant samples%s' % (kind, N, ', given reference' if given else ''), build, Points(rows=1))


def c21(ctx):
    ctx.rule('gradient', 'loss and tap gradients of ddlms_grad and soft_ddlms_grad: element summaries (symbolic input, output and reference samples) compared with the documented formulas, averages taken over the samples for which the tapped sample exists')
    ctx.rule('timing-step', 'mueller_muller_step returns the sign of weighted post-cursor minus weighted pre-cursor correlation, 0 within the tolerance')
    its = []
    for k in ('ddlms_grad', 'soft_ddlms_grad'):
        for N, fi, di, g, lv, sg in ((4, (), (), False, LV, 1), (4, (0,), (), False, LV, 1), (4, (-1, 0, 1), (), True, LV, 1), (5, (-2, -1, 0, 2), (1, 2), False, LV, 1), (4, (), (1, 3), True, (-1, 1), 1),
                                     (5, (1, 0), (2, 1), True, (-1, 1), 1), (4, (0, 1), (1,), False, (-1, 0, 1), 1), (8, tuple(range(-4, 5)), (1, 2, 3, 4, 5), False, LV, 1),
                                     (7, (3, -3, 6, -6), (6, 3), True, (0, 1), 1), (2, (0, 1, -1), (1,), False, LV, 1), (40, (-10, -9, 0, 10, 20, -33), (1, 12, 30), True, (-1, 1), 1)):
            its.append((k, N, fi, di, g, lv, sg))
    its += [('soft_ddlms_grad', 4, (-1, 0, 1), (1,), False, LV, 0.5), ('soft_ddlms_grad', 3, (0,), (1, 2), True, (-1, 1), 2.0)]
    if ctx.tier == 'thorough':
        its += [(k, N, fi, di, g, lv, 1) for k in ('ddlms_grad', 'soft_ddlms_grad') for N in (3, 6, 10, 15) for fi in ((0, 1, 2), (-2, -1, 0), (2, -2)) for di in ((), (1,), (2, 1)) for g in (False, True) for lv in (LV, (-2, 0, 5))]
    ctx.pmap(lms, its)
    ctx.pmap(long_adapt, [('mueller_muller_step', n, (), (), True) for n in (300, 301, 600, 601, 2400, 2401)] + [(k, n, (-1, 0, 3), (1, 2), g) for k in ('ddlms_grad', 'soft_ddlms_grad') for n in (300, 1100) for g in (False, True)])
    ctx.pmap(mm, [(N, w, t) for N in [2, 3, 5, 9, 40] + ctx.deep(4, 6, 12, 20) for w in (None, (1, 2), (0.5, 1)) for t in (None, 0.5)])
