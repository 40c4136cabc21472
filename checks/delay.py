"""C19: fractional delay and digital oversampling."""
import math
from fractions import Fraction
from sa import universe as U, eqv
from sa.eqv import Points
from sa.poly import Poly
from .rel import Want, symbolic, C
from .shaping import sinc, rcos


def positions(n, forward):
    if n % 2 == 0:
        return list(range(-(n // 2), n // 2 + 1))
    return list(range(-(n // 2), n // 2 + 2)) if forward else list(range(-(n // 2) - 1, n // 2 + 1))


def lagrange(pos, m, a):
    r = C(1)
    for j in pos:
        if j != pos[m]:
            r = r * (a - j) * Fraction(1, pos[m] - j)
    return r


def coefs(I, item):
    kind, n, fw = item
    pos = positions(n, fw is not False)

    def build(I, b, i, m):
        a = b.sym('alpha', nt='float')
        kw = {} if fw is None else {'forward': b.const('forward', fw)}
        y = U.call(I, 'CommDspy.dig_delay_%s_coeffs' % kind, b.const('n', n), a, **kw)
        if kind == 'lagrange':
            w = lambda idx: lagrange(pos, idx[0].cint(), a.p)
        else:
            w = lambda idx: eqv.spec('sinc', lambda t: sinc(float(t)), a.p - pos[idx[0].cint()])
        return [('coefficients', y, Want((len(pos),), w))]
    return symbolic(I, 'delay-filter', 'dig_delay_%s_coeffs order %d%s' % (kind, n, '' if fw is None else ' forward=%s' % fw), build, Points(rows=20, alpha=tuple(Fraction(k, 16) for k in range(0, 17)) + (Fraction(1, 7), Fraction(2, 3))))


def over(I, item):
    method, osr, order, be = item
    pre, post = order // 2, order // 2 + order % 2
    pos = positions(order, True)

    def coef(m, r):
        al = Fraction(r, osr)
        if method == 'lagrange':
            return lagrange(pos, m, C(al)).cval()
        t = float(pos[m] - al)
        return Fraction(sinc(t) if method == 'sinc' else rcos(t, be))

    def build(I, b, i, n):
        x = b.vec('x', n)
        xe = I.heap[x.x].elem
        kw = {'beta': b.const('beta', be)} if method == 'rcos' else {}
        y, x2, x1 = U.parts(I, U.call(I, 'CommDspy.digital_oversample', x, b.const('osr', osr), b.const('order', order), b.const('method', method), **kw), 3)
        L = n - pre - post

        def want(idx):
            k = idx[0]
            for s in range(osr):
                t = k - s
                if all(v.denominator == 1 and int(v) % osr == 0 for v in t.m.values()):
                    q, r = t * Fraction(1, osr), s
                    break
            else:
                return None
            if r == 0:
                return xe((q + pre,))
            t = C(0)
            for m in range(len(pos)):
                t = t + xe((q + pre + pos[m],)) * coef(m, r)
            return t
        return [('signal', y, Want((L * osr,), want)), ('new time axis', x2, Want((L * osr,), lambda idx: idx[0] * Fraction(1, osr))),
                ('old time axis', x1, Want((L + 1,), lambda idx: idx[0]))]
    return symbolic(I, 'oversampling', 'digital_oversample %s osr %d order %d beta %s' % item, build, Points(rows=16), period=osr, sizes=(order + 1, order + 2, order + 5))


def c19(ctx):
    ctx.rule('delay-filter', 'delay filter taps are the Lagrange basis polynomials (or sinc values) at alpha around the documented zero-delay tap, with alpha symbolic')
    ctx.rule('oversampling', 'digital_oversample keeps the original samples at every osr-th place, interpolates in between with the delay filter of the method, trims as documented and returns the matching time axes; every length')
    ctx.pmap(coefs, [(k, n, f) for k in ('lagrange', 'sinc') for n in range(1, 21 if ctx.tier == 'thorough' else 13) for f in (None, True, False)])
    ctx.pmap(over, [(m, o, k, be) for m, be in (('lagrange', 0), ('sinc', 0), ('rcos', 0.5), ('rcos', 1.0), ('rcos', 0), ('rcos', 0.25), ('rcos', 0.3)) for o in [1, 2, 3, 4, 5, 8, 16] + ctx.deep(6, 7, 12) for k in [1, 2, 3, 4, 5, 6, 7, 9, 10, 12] + ctx.deep(8, 11, 13)] + [(m, o, 0, 0) for m in ('sinc', 'rcos') for o in (1, 2, 4)])
