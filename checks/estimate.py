"""C22: least-squares equaliser and channel estimation - the problem that is solved and what is returned."""
import math
from fractions import Fraction
from sa import universe as U, eqv, poly as P
from sa.eqv import Points, Alphabet
from sa.dom import Arr, num
from sa.poly import Poly
from sa.frame import ok, viol, und
from .rel import Want, symbolic, lazily, arr_of, el, C
from .filters import elems, vec_want

VALS = tuple(Fraction(k, 16) for k in range(-50, 51, 3))


def solves(I):
    return [e for e in I.log if e[0] == 'solve']


def sol(k, j):
    return Poly.atom(('e', 'ls%d' % k, C(j)))


def scal(I, v):
    """first element of the residual array, or the scalar itself"""
    if v.k == 'num':
        return v
    o = I.heap.get(v.x) if v.k == 'ref' else None
    if isinstance(o, Arr) and o.elem is None:
        return num(None)
    if isinstance(o, Arr):
        p = o.elem((C(0),)) if o.shape != () else o.elem(())
        return num(p) if p is not None else num(None)
    return v


def recomputed(p):
    """the residual is computed from the solution instead of taken from the solver"""
    return p is not None and any(a[0] == 'e' and a[1] == 'ls0' for a in eqv.leaves(p))


class Kind:
    """solver identity as a comparable number"""
    names = ['ols', 'Ridge', 'Lasso']


def restriction(par):
    """what in the parameters keeps the solver from the plain minimum, or None"""
    def const(*names):
        for k in names:
            v = par.get(k)
            if v is not None and v.k == 'num' and v.p is not None:
                c = v.p.cval()
                return float(c) if c is not None else None
        return None
    if (const('rcond') or 0) > 1e-6:
        return 'singular values below %g of the largest are dropped' % const('rcond')
    if const('kw:positive'):
        return 'only non-negative solutions are admitted'
    if (const('kw:tol') or 0) > 1e-2:
        return 'the solver stops at tolerance %g' % const('kw:tol')
    if const('kw:max_iter') is not None and const('kw:max_iter') < 50:
        return 'the solver stops after %g iterations' % const('kw:max_iter')
    return None


def solver_rows(ev, kind, lam):
    """[(label, got, want)] describing which solver was used and its parameters"""
    _, k, a, b, par, where = ev
    out = [('solver', num(Kind.names.index(k) if k in Kind.names else 9), Want((), lambda idx: C(Kind.names.index(kind))))]
    rs = restriction(par)
    out.append((rs or 'solver restriction', num(1 if rs else 0), Want((), lambda idx: C(0))))
    if kind != 'ols':
        al = par.get('kw:alpha', par.get('arg:0'))
        out.append(('regularisation factor', al if al is not None else num(1), Want((), lambda idx: C(Fraction(lam)))))
        fi = par.get('kw:fit_intercept')
        out.append(('intercept', fi if fi is not None else num(1), Want((), lambda idx: C(0))))
    return out


def equaliser(I, item):
    N, post, pre, D, norm, reg, lam = item
    F = post + pre + 1
    M = N - D - F
    dom = Points(rows=10, sig=VALS, ref=VALS, ls0=VALS)
    kind = {'None': 'ols', 'ridge': 'Ridge', 'lasso': 'Lasso'}[reg] if lam > 0 else 'ols'

    def build(I, b, i, n):
        R, S = b.arr('ref', (N,)), b.arr('sig', (N,))
        er, es = elems(I, R, N), elems(I, S, N)
        kw = {'ffe_postcursor': b.const('ffe_postcursor', post), 'ffe_precursor': b.const('ffe_precursor', pre), 'dfe_taps': b.const('dfe_taps', D)}
        if norm:
            kw['normalize'] = b.const('normalize', True)
        if reg != 'None' or lam:
            kw['regularization'], kw['reg_lambda'] = b.const('regularization', reg), b.const('reg_lambda', lam)
        r = U.parts(I, U.call(I, 'CommDspy.equalization_estimation', R, S, **kw), 5)
        ev = solves(I)
        if len(ev) != 1:
            return [('system', None, Want((), lambda idx: C(0)))]
        A, bb = ev[0][2], ev[0][3]

        def aw(r_, c):
            return es[r_ + D + c] if c < F else -er[r_ + c - F]
        out = [('system matrix', A, Want((M, F + D), lambda idx: aw(idx[0].cint(), idx[1].cint()))),
               ('target', bb, Want((M,), lambda idx: er[D + idx[0].cint()]))]
        out += solver_rows(ev[0], kind, lam)
        x = [sol(0, j) for j in range(F + D)]
        g = Poly.atom(('f', 'max') + tuple(x[:F])) if F > 1 else x[0]
        gmax = eqv.spec('max', lambda *v: max(v), *x[:F])
        sc = (lambda q: eqv.spec('div', lambda u, *v: u / max(v) if max(v) != 0 else u, q, *x[:F])) if norm else (lambda q: q)
        out.append(('FFE', r[0], Want((F,), lambda idx: sc(x[F - 1 - idx[0].cint()]))))
        if D:
            out.append(('DFE', r[1], Want((D,), lambda idx: sc(x[F + D - 1 - idx[0].cint()]))))
        else:
            out.append(('no DFE', num(int(r[1].k == 'none')), Want((), lambda idx: C(1))))
        out.append(('gain', r[2], Want((), lambda idx: gmax if norm else C(1))))
        ys, es2 = [], []
        for q in range(M):
            t = C(0)
            for c in range(F + D):
                t = t + aw(q, c) * x[c]
            ys.append(t)
            es2.append(t - er[D + q])
        if kind == 'ols':
            rs = scal(I, r[3])
        if kind == 'ols' and not recomputed(rs.p):
            out.append(('residual', rs, Want((), lambda idx: Poly.atom(('e', 'ls0.res', C(0))))))
        else:
            out.append(('residual', scal(I, r[3]), Want((), lambda idx: eqv.spec('ssr', lambda *v: sum(a * a for a in v), *es2))))
        if N <= 40:
            out.append(('mse', r[4], Want((), lambda idx: eqv.spec('mse %d' % M, lambda *v: 10 * math.log10(float(sum(a * a for a in v[:M])) / float(sum(a * a for a in v[M:]))), *(es2 + ys)))))
        return out
    nm = 'equalization_estimation of %d samples, %d post, %d pre, %d DFE, normalize %s, %s %s' % item
    with lazily():
        return symbolic(I, 'equaliser-problem', nm, build, dom)


def c22(ctx):
    ctx.rule('equaliser-problem', 'equalization_estimation solves reference[n] = sum of FFE taps times signal window - sum of DFE taps times past reference, over rows inside the signal, with the requested solver; returned taps, gain, residual and mse are those of the solution: element summaries of the solver arguments and results')
    its = [(9, post, pre, D, nm, 'None', 0) for post, pre, D in ((1, 1, 0), (2, 0, 0), (0, 1, 1), (1, 1, 2), (2, 1, 1), (2, 0, 2), (0, 0, 2), (1, 0, 3), (0, 0, 0), (0, 0, 1)) for nm in (False, True)]
    its += [(16, post, pre, D, nm, 'None', 0) for post, pre, D in ((4, 2, 0), (3, 0, 4), (2, 3, 5), (0, 4, 1), (1, 1, 6)) for nm in (False, True)]
    its += [(8, 1, 1, D, nm, reg, lam) for D in (0, 1) for nm in (False, True) for reg in ('ridge', 'lasso') for lam in (0.25, 0)] + [(8, 1, 0, 1, False, 'None', 0.5)]
    its += [(64, 23, 4, 0, False, 'None', 0), (260, 1, 1, 2, False, 'None', 0), (64, 8, 3, 10, True, 'None', 0), (40, 0, 0, 16, False, 'None', 0)]
    its += ctx.deep(*[(N, post, pre, D, nm, reg, lam) for N in (12, 20) for post, pre, D in ((3, 3, 3), (5, 1, 0), (0, 3, 2), (1, 2, 1), (4, 0, 4)) for nm in (False, True) for reg, lam in (('None', 0), ('ridge', 0.5), ('lasso', 0.125))])
    ctx.pmap(equaliser, its)
