"""C30: the least-squares helpers - dispatch, minimiser, residual."""
from fractions import Fraction
from sa import universe as U, eqv, npm
from sa.eqv import Points
from sa.dom import Arr, num
from sa.poly import Poly
from sa.frame import ok, viol, und
from .rel import Want, symbolic, lazily, arr_of, el, C
from .filters import elems, vec_want
from .estimate import solves, sol, scal, restriction, solver_rows, recomputed

M = 'CommDspy.misc.least_squares.'


def problem(I, b, m, n):
    A, y = b.arr('a', (m, n)), b.arr('b', (m,))
    e = I.heap[A.x].elem
    return A, y, [[e((C(i), C(j))) for j in range(n)] for i in range(m)], elems(I, y, m)


def ssr(a, y, x, tag):
    m, n = len(a), len(x)
    f = lambda *v: sum((sum(v[i * n + j] * v[m * n + m + j] for j in range(n)) - v[m * n + i]) ** 2 for i in range(m))
    return eqv.spec('ssr %d %d %s' % (m, n, tag), f, *([q for r in a for q in r] + y + x))


def delivered(I, item):
    """the three solvers of the package, directly and through least_squares"""
    m, n, reg, lam, direct = item
    kind = {'None': 'ols', 'ridge': 'Ridge', 'lasso': 'Lasso'}[reg]

    def build(I, b, i, _):
        A, y, a, yy = problem(I, b, m, n)
        if direct:
            fn = {'None': 'ols', 'ridge': 'ridge_regression', 'lasso': 'lasso_regression'}[reg]
            r = U.call(I, M + fn, A, y, *([] if reg == 'None' else [b.const('reg_lambda', lam)]))
        else:
            kw = {} if reg == 'None' else {'regularization': b.const('regularization', reg), 'reg_lambda': b.const('reg_lambda', lam)}
            r = U.call(I, M + 'least_squares', A, y, **kw)
        x, s = U.parts(I, r, 2)
        ev = solves(I)
        if len(ev) != 1:
            return [('system', None, Want((), lambda idx: C(0)))]
        xs = [sol(0, j) for j in range(n)]
        out = [('system matrix', ev[0][2], Want((m, n), lambda idx: a[idx[0].cint()][idx[1].cint()])), ('target', ev[0][3], vec_want(yy))] + solver_rows(ev[0], kind, lam)
        out.append(('solution', x, vec_want(xs)))
        s = scal(I, s)
        out.append(('residual', s, Want((), lambda idx: Poly.atom(('e', 'ls0.res', C(0))) if kind == 'ols' and not recomputed(s.p) else ssr(a, yy, xs, 'd'))))
        return out
    return symbolic(I, 'solver', '%s %s on %d equations, %d unknowns, factor %s' % ('direct' if direct else 'least_squares', reg, m, n, lam), build, Points(rows=8))


def manual(I, item):
    """closed forms: solution of (A'A + factor) x = A'b"""
    kind, m, n, lam = item

    def best(i):
        def fn(*v):
            a = [v[k * n:(k + 1) * n] for k in range(m)]
            y = v[m * n:]
            g = [[sum(Fraction(a[k][p]) * Fraction(a[k][q]) for k in range(m)) + (Fraction(lam) if p == q else 0) for q in range(n)] for p in range(n)]
            s = npm.gauss(g, [[sum(Fraction(a[k][p]) * Fraction(y[k]) for k in range(m))] for p in range(n)])
            return float('nan') if s is None else s[i][0]
        return fn

    def build(I, b, i, _):
        A, y, a, yy = problem(I, b, m, n)
        r = U.call(I, M + kind, A, y, *([] if kind == 'ols_manual' else [b.const('reg_lambda', lam)]))
        x, s = U.parts(I, r, 2)
        ins = [q for r_ in a for q in r_] + yy
        xs = [eqv.spec('best %s %d' % (item, j), best(j), *ins) for j in range(n)]
        return [('solution', x, vec_want(xs)), ('residual', scal(I, s), Want((), lambda idx: ssr(a, yy, xs, str(item))))]
    return symbolic(I, 'closed-form', '%s on %d equations, %d unknowns, factor %s' % item, build, Points(rows=8))


def descent(I, item):
    """gradient descent: every step, the end, the residual of the returned point"""
    m, n, lam, steps, mu = item

    def build(I, b, i, _):
        A, y, a, yy = problem(I, b, m, n)
        kw = {'mu': b.const('mu', mu), 'max_steps': b.const('max_steps', steps), 'tol': b.const('tol', 0.0), 'return_path': b.const('return_path', True)}
        om, s, done, path = U.parts(I, U.call(I, M + 'lasso_regression_manual', A, y, b.const('reg_lambda', lam), **kw), 4)
        pa = arr_of(I, path)
        cols = [[el(pa, (C(j), C(k))) for j in range(n)] for k in range(steps)]
        out = [('path', path, Want((n, steps), lambda idx: el(pa, idx)))]
        ins = [q for r_ in a for q in r_] + yy

        def step(j):
            def fn(*v):
                aa = [v[k * n:(k + 1) * n] for k in range(m)]
                yv, w = v[m * n:m * n + m], v[m * n + m:]
                g = -sum(Fraction(aa[k][j]) * (Fraction(yv[k]) - sum(Fraction(p) * Fraction(q) for p, q in zip(aa[k], w))) for k in range(m)) / n
                z = round(w[j], 4)
                return Fraction(w[j]) - Fraction(mu) * (g + Fraction(lam) * ((z > 0) - (z < 0)))
            return fn
        for k in range(1, steps):
            if any(q is None for q in cols[k - 1]):
                out.append(('step %d' % k, None, Want((), lambda idx: C(0))))
                continue
            for j in range(n):
                out.append(('step %d of unknown %d' % (k, j), num(cols[k][j]), Want((), lambda idx, k=k, j=j: eqv.spec('gd %s %d' % (item, j), step(j), *(ins + cols[k - 1])))))
        out.append(('solution', om, vec_want(cols[-1])))
        out.append(('residual', scal(I, s), Want((), lambda idx: ssr(a, yy, cols[-1], str(item)))))
        return out
    return symbolic(I, 'descent', 'lasso_regression_manual on %d equations, %d unknowns, factor %s, %d steps, rate %s' % item, build, Points(rows=8))


def gd(A, y, lam, mu, tol, steps, w):
    """the documented descent: -> (points, whether it came to rest before the last allowed step)"""
    m, n = len(A), len(A[0])
    path = [list(w)]
    for k in range(1, steps):
        w = path[-1]
        g = [sum(A[r][j] * (sum(A[r][q] * w[q] for q in range(n)) - y[r]) for r in range(m)) / n for j in range(n)]
        z = [round(v, 4) for v in w]
        path.append([v - mu * (g[j] + lam * ((z[j] > 0) - (z[j] < 0))) for j, v in enumerate(w)])
        if all(abs(p - q) < tol for p, q in zip(path[-1], path[-2])):
            break
    return path, k != steps - 1


def rest(I, item):
    """where the descent stops, from a fixed start"""
    A, y, lam, mu, tol, steps = item
    start = [0.25, 0.75, 0.125, 0.5][:len(A[0])]
    want, over = gd(A, y, lam, mu, tol, steps, start)

    def build(I, b, i, _):
        I.draws = lambda n: start[:n]
        kw = {'mu': b.const('mu', mu), 'max_steps': b.const('max_steps', steps), 'tol': b.const('tol', tol)}
        a = [b.carr('A', A), b.carr('y', y), b.const('reg_lambda', lam)]
        om, s, done, path = U.parts(I, U.call(I, M + 'lasso_regression_manual', *a, return_path=b.const('return_path', True), **kw), 4)
        om2, s2 = U.parts(I, U.call(I, M + 'lasso_regression_manual', *a, **kw), 2)
        res = sum((sum(p * q for p, q in zip(r, want[-1])) - v) ** 2 for r, v in zip(A, y))
        last = vec_want([npm.pc(v) for v in want[-1]])
        return [('path', path, Want((len(start), len(want)), lambda idx: npm.pc(want[idx[1].cint()][idx[0].cint()]))), ('solution', om, last), ('solution without path', om2, last),
                ('residual', scal(I, s), Want((), lambda idx: npm.pc(res))), ('residual without path', scal(I, s2), Want((), lambda idx: npm.pc(res))),
                ('at rest', num(done.p, 'int') if done.k == 'num' else done, Want((), lambda idx: C(int(over))))]
    try:
        return symbolic(I, 'descent', 'lasso_regression_manual of %s, %s, factor %s, rate %s, tolerance %s, at most %d steps' % item, build, Points(rows=2))
    finally:
        I.draws = None


RESTS = [([[1.0, 0.0], [0.0, 0.001], [0.0, 0.002]], [3.0, 5.0, 10.0], 0.0, 0.5, 1e-3, 12), ([[2.0, 0.0], [0.0, 0.5]], [1.0, 1.0], 0.0, 0.5, 1e-2, 30), ([[1.0]], [0.5], 0.0, 0.5, 0.01, 20),
         ([[1.0, 0.5], [0.25, 1.0], [0.5, 0.5]], [1.0, -1.0, 0.5], 0.125, 0.25, 0.02, 25), ([[1.0, 0.0, 0.5], [0.0, 1.0, 0.25], [0.5, 0.0, 1.0], [1.0, 1.0, 1.0]], [0.5, 0.25, -0.5, 1.0], 0.0, 0.5, 0.05, 9)]


def _go(I, it):
    with lazily():
        return {'d': delivered, 'm': manual, 'g': descent, 's': rest}[it[0]](I, it[1])


def c30(ctx):
    ctx.rule('solver', 'least_squares hands the given system to the solver of the named regularisation with the given factor, without intercept, and returns its solution and sum of squared residuals')
    ctx.rule('closed-form', 'the manual ordinary and ridge solvers return the solution of the (regularised) normal equations and its sum of squared residuals')
    ctx.rule('descent', 'the manual lasso solver moves along the gradient of its loss by the given rate, keeps the path, and returns the last point with its sum of squared residuals')
    its = [('d', (m, n, reg, lam, dr)) for m, n in ((3, 1), (4, 2), (7, 3)) for reg, lam in (('None', 0), ('ridge', 0.5), ('ridge', 2), ('lasso', 0.25)) for dr in (False, True)]
    its += [('m', ('ols_manual', m, n, 0)) for m, n in ((3, 1), (4, 2), (3, 3), (5, 3))] + [('m', ('ridge_regression_manual', m, n, lam)) for m, n in ((3, 1), (4, 2), (2, 3)) for lam in (0.5, 3)]
    its += [('g', x) for x in ((3, 1, 0.5, 2, 0.125), (3, 2, 0.25, 2, 0.25), (4, 2, 0, 2, 0.5), (2, 1, 1.5, 3, 0.125))]
    its += [('s', x) for x in RESTS]
    ctx.pmap(_go, its)
