"""C18: pulses and pulse shaping."""
import math
from fractions import Fraction
from sa import universe as U, eqv
from sa.eqv import Points, Alphabet
from .rel import Want, symbolic, short, C
from .filters import elems, tdf2, vec_want

P_ = 'CommDspy.channel.'


def sinc(t):
    return 1.0 if t == 0 else math.sin(math.pi * t) / (math.pi * t)


def rcos(t, be):
    x = 2 * be * t
    if abs(abs(x) - 1) < 1e-7:
        return math.pi / 4 * sinc(t)
    return sinc(t) * math.cos(math.pi * be * t) / (1 - x * x)


def rrc(t, be):
    if be == 0:
        return sinc(t)
    if abs(t) < 1e-9:
        return 1 + be * (4 / math.pi - 1)
    x = 4 * be * t
    if abs(abs(x) - 1) < 1e-7:
        u = math.pi / (4 * be)
        return be / math.sqrt(2) * ((1 + 2 / math.pi) * math.sin(u) + (1 - 2 / math.pi) * math.cos(u))
    return (math.sin(math.pi * t * (1 - be)) + x * math.cos(math.pi * t * (1 + be))) / (math.pi * t * (1 - x * x))


def pulse_value(kind, k, osr, span, be):
    """sample k of the pulse of 2*span*osr samples"""
    if kind == 'imp':
        return 1.0 if k == 0 else 0.0
    t = Fraction(k - osr * span, osr)
    if kind == 'rect':
        return 1.0 if -Fraction(1, 2) <= t < Fraction(1, 2) else 0.0
    t, be = float(t), float(be)
    return {'sinc': lambda: sinc(t), 'rcos': lambda: rcos(t, be), 'rrc': lambda: rrc(t, be)}[kind]()


BETAS = (0, Fraction(1, 1000), Fraction(1, 60), Fraction(1, 8), Fraction(1, 4), Fraction(3, 10), Fraction(1, 3), Fraction(1, 2), Fraction(3, 5), Fraction(3, 4), Fraction(99, 100), 1)


def pulses(I, item):
    kind, osr, span, be = item
    n = 2 * osr * span
    sym = be == 'any'
    name = 'pulse %s %d %d' % (kind, osr, span)

    def fn(k, *b):
        return pulse_value(kind, int(k), osr, span, b[0] if b else 0)

    def build(I, b, i, m):
        a = [b.const('osr', osr), b.const('span', span)]
        bp = ()
        if kind in ('rcos', 'rrc'):
            bv = b.sym('beta', nt='float') if sym else b.const('beta', be)
            a.append(bv)
            bp = (bv.p,)
        y = U.call(I, P_ + kind + '_pulse', *a)
        return [('pulse', y, Want((n,), lambda idx: eqv.spec(name, fn, idx[0], *bp)))]
    return symbolic(I, 'pulse', '%s_pulse, osr %d, span %d%s' % (kind, osr, span, ', any beta' if sym else ', beta %s' % be if kind in ('rcos', 'rrc') else ''),
                    build, Points(rows=20, beta=BETAS[1:] if kind == 'rrc' else BETAS), maxp=60)


def shape(I, item):
    kind, osr, span, be, mode = item
    L = 2 * osr * span
    pv = [pulse_value(kind, k, osr, span, be) for k in range(L)]
    dom = Points(rows=12)

    def kw(b):
        d = {'osr': b.const('osr', osr), 'span': b.const('span', span), 'pulse': b.const('pulse', kind)}
        if kind in ('rcos', 'rrc'):
            d['beta'] = b.const('beta', be)
        if mode == 'defaults':
            d = {}
        return d
    nm = 'pulse_shape %s osr %d span %d %s' % (kind, osr, span, mode)
    if mode in ('any length', 'defaults'):
        def build(I, b, i, n):
            x = b.vec('x', n)
            xe = I.heap[x.x].elem
            y, zo = U.parts(I, U.call(I, P_ + 'pulse_shape', x, **kw(b)), 2)

            def at(q):
                c = q.cint()
                return C(0) if c is not None and c < 0 else xe((q,))

            def want(idx):
                # idx = osr*q + r
                k = idx[0]
                if osr == 1:
                    q, r = k, 0
                else:
                    r = None
                    for s in range(osr):
                        t = (k - s)
                        if all(v.denominator == 1 and int(v) % osr == 0 for v in t.m.values()):
                            q, r = t * Fraction(1, osr), s
                            break
                    if r is None:
                        return None
                t = C(0)
                for m in range(2 * span):
                    t = t + at(q - m) * Fraction(pv[r + m * osr])
                return t

            def zw(idx):
                k = idx[0].cint()
                t = C(0)
                for j in range(k + 1, L):
                    d = j - k                  # distance back from the sample after the end
                    if d % osr == 0:
                        t = t + at(n - d // osr) * Fraction(pv[j])
                return t
            return [('signal', y, Want((n * osr,), want)), ('memory', zo, Want((L - 1,), zw))]
        return symbolic(I, 'shaping', nm, build, dom, period=osr, lo=max(6, 2 * span + 1), sizes=(1, 2, 3, 5, 8))

    def chunked(I, b, i, n):
        d = kw(b)
        z = [C(0)] * (L - 1)
        if mode == 'given memory':
            Z = b.arr('z', (L - 1,))
            z = elems(I, Z, L - 1)
            d['zi'] = Z
        out = []
        co = [C(Fraction(v)) for v in pv]
        for j, s in enumerate((2, 1, 3)):
            x = b.arr('x%d' % j, (s,))
            y, zo = U.parts(I, U.call(I, P_ + 'pulse_shape', x, **d), 2)
            up = []
            for q in elems(I, x, s):
                up += [q] + [C(0)] * (osr - 1)
            ys, z = tdf2(co, [C(1)], up, z)
            out += [('chunk %d' % j, y, vec_want(ys)), ('memory after chunk %d' % j, zo, vec_want(z))]
            d['zi'] = zo
        return out
    return symbolic(I, 'shaping', nm, chunked, dom)


def c18(ctx):
    ctx.rule('pulse', 'samples of the rectangular, sinc, raised-cosine and root-raised-cosine pulse at k/osr - span, singular points included: folded constants and summaries compared with the defining formulas')
    ctx.rule('shaping', 'pulse_shape without jitter: output and returned memory are the zero-stuffed signal convolved with the named pulse; the memory continues the signal in the next call')
    sizes = ((1, 1), (2, 1), (2, 3), (3, 2), (4, 2), (5, 1), (8, 2), (16, 1), (1, 4), (7, 3), (16, 8), (32, 2), (64, 1))
    its = [(k, o, s, 0) for k in ('rect', 'sinc') for o, s in sizes]
    its += [(k, o, s, be) for k in ('rcos', 'rrc') for o, s in sizes for be in (0.0, 0.25, 0.3, 0.5, 1.0)] + [('rcos', 7, 4, 0.14), ('rcos', 14, 2, 0.28), ('rrc', 10, 3, 0.1), ('rrc', 6, 4, 0.15)] + [(k, 3, 4, be) for k in ('rcos', 'rrc') for be in (0.001, 0.02, 0.98)]
    its += [(k, o, s, 'any') for k in ('rcos', 'rrc') for o, s in ((1, 2), (2, 1), (3, 1))]
    its += ctx.deep(*([(k, o, s, 0) for k in ('rect', 'sinc') for o in (1, 2, 3, 4, 6, 9, 12, 32) for s in (1, 2, 5, 8)] + [(k, o, s, be) for k in ('rcos', 'rrc') for o in (1, 2, 3, 4, 6, 9, 12) for s in (1, 2, 5) for be in (0.05, 0.1, 0.125, 0.2, 0.35, 0.6, 0.75, 0.9)]))
    ctx.pmap(pulses, its)
    sh = [('rect', 1, 1, 0, 'defaults')]
    for k in ('rect', 'sinc', 'rcos', 'rrc', 'imp'):
        for o, s in [(1, 1), (2, 1), (3, 2)] + ctx.deep((4, 1), (2, 3), (5, 2), (8, 1)):
            sh += [(k, o, s, 0.5, m) for m in ('any length', 'chunks', 'given memory')]
    sh += [(k, 1, 12, 0.5, m) for k in ('sinc', 'rcos') for m in ('any length', 'chunks')] + [(k, 16, 1, 0.5, 'chunks') for k in ('rect', 'rrc')]
    ctx.pmap(shape, sh)
