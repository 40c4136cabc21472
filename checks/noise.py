"""C24: additive noise and random jitter - what is added, with which spread, and where."""
import math
from fractions import Fraction
from itertools import product
from sa import universe as U, eqv, poly as P, npm
from sa.eqv import Points
from sa.dom import Arr, num
from sa.poly import Poly
from sa.spec import B
from sa.frame import ok, viol, und
from .rel import lazily, Want, symbolic, arr_of, el, C, cmp_shape
from .filters import elems, tdf2

VALS = tuple(Fraction(k, 16) for k in range(-50, 51, 3))
DB = tuple(Fraction(k, 2) for k in range(-21, 70, 7))
Z = Poly.atom(('s', 'z'))


def dev(p):
    """the random deviates in a summary"""
    return {a for a in p.all_atoms() if a[0] == 'e' and str(a[1]).startswith('normal')}


def power_std(*v):
    """specification: standard deviation of the noise for samples v[:-1] and an SNR of v[-1] dB"""
    xs, snr = [float(x) for x in v[:-1]], float(v[-1])
    n = len(xs)
    m = sum(xs) / n
    return math.sqrt((sum((x - m) ** 2 for x in xs) / (n - 1) + m * m) / 10 ** (snr / 10))


def noisy(got, clean, std, shape, dom, facts):
    """complaint / None / ('?', why): got[i] = clean[i] + std * (a deviate of its own)"""
    used = {}
    g = lambda idx: el(got, tuple(C(j) for j in idx))
    for idx in product(*[range(d) for d in shape]):
        p = g(idx)
        if p is None:
            return ('?', 'sample %s has no summary' % (idx,))
        ds = dev(p)
        if not ds:
            return 'sample %s receives no noise' % (idx,)
        if len(ds) > 1:
            return ('?', 'sample %s depends on several random deviates' % (idx,))
        d = next(iter(ds))
        if d in used:
            return 'samples %s and %s receive the same noise' % (used[d], idx)
        used[d] = idx
        r = eqv.equal(p.subs({d: Z}), clean(idx) + std * Z, dom, facts)
        if r[0] == 'neq':
            return 'sample %s is %s instead of %s when %s' % (idx, r[2], r[3], r[1])
        if r[0] != 'eq':
            return ('?', 'sample %s: %s' % (idx, r[1]))
    return None


def judge(I, rule, nm, build, dom):
    """build(I, b) -> [(label, got V, shape, clean(idx), std)]"""
    recs, n = [], 0
    for p in I.explore(lambda I: build(I, B(I)), max_paths=24):
        if 'speculative' in p.tags or p.kind == 'abort':
            continue
        if p.kind == 'raise':
            if not p.facts and not p.opaque:
                recs.append(viol(rule, nm + '|raise', p.exc.where, '%s: raises %s: %s' % (nm, p.exc.exc, p.exc.msg)))
            continue
        for lab, got, shape, clean, std in p.val:
            ga = arr_of(p, got)
            if ga is None or ga.shape is None:
                recs.append(und(rule, nm, 'no array summary'))
                continue
            s = cmp_shape(ga, Want(shape, None))
            if s is False and not p.facts and not p.opaque:
                recs.append(viol(rule, '%s|%s|shape' % (nm, lab), None, '%s: %s has shape %s instead of %s' % (nm, lab, ga.shape, shape)))
                continue
            if not s:
                recs.append(und(rule, nm, 'shape'))
                continue
            if std is None:                        # deterministic part
                why = None
                for idx in product(*[range(d) for d in shape]):
                    r = eqv.equal(el(ga, tuple(C(j) for j in idx)), clean(idx), dom, p.facts)
                    if r[0] == 'neq':
                        why = '%s[%s] is %s instead of %s when %s' % (lab, idx, r[2], r[3], r[1])
                        break
                    if r[0] != 'eq':
                        why = ('?', r[1])
            else:
                why = noisy(ga, clean, std, shape, dom, p.facts)
            if isinstance(why, str) and not p.opaque:
                recs.append(viol(rule, '%s|%s' % (nm, lab), None, '%s: %s %s' % (nm, lab, why)))
            elif why:
                recs.append(und(rule, nm, why[1] if isinstance(why, tuple) else why))
            else:
                n += 1
    if n:
        recs.append(ok(rule, '%s: %d results' % (nm, n), n))
    return recs


def awgn(I, item):
    shape, kind = item
    dom = Points(rows=16, x=VALS, snr=DB, z=VALS)
    nm = 'awgn of %s samples (%s)' % (shape, kind)

    def build(I, b):
        x = b.arr('x', shape, kind)
        xs = [Poly.atom(('e', 'x') + tuple(C(j) for j in idx)) for idx in product(*[range(d) for d in shape])]
        snr = b.num('snr') if hasattr(b, 'num') else num(Poly.sym('snr'), 'float')
        std = eqv.spec('noise std %d' % len(xs), power_std, *(xs + [snr.p]))
        o = I.heap[x.x]
        return [('output', U.call(I, 'CommDspy.channel.awgn', x, snr), shape, lambda idx: o.elem(tuple(C(j) for j in idx)), std)]
    return judge(I, 'noise', nm, build, dom)


def channel(I, item):
    nb, na, n, mem = item
    dom = Points(rows=16, x=VALS, snr=DB, z=VALS, m=VALS)
    nm = 'awgn_channel with noise, %d/%d taps, %d samples%s' % (nb, na, n, ', memory' if mem else '')
    cb, ca = [1.0, -0.5, 0.25, 0.75, -0.125][:nb], [1.0, 0.375, -0.125, 0.25, 0.0625][:na]

    def build(I, b):
        x = b.arr('x', (n,))
        xs = elems(I, x, n)
        k = max(nb, na) - 1
        z = [C(0)] * k
        kw = {}
        if mem:
            M = b.arr('m', (k,))
            z = elems(I, M, k)
            kw['zi'] = M
        snr = num(Poly.sym('snr'), 'float')
        y, zo = U.parts(I, U.call(I, 'CommDspy.channel.awgn_channel', x, b.carr('b', cb), b.carr('a', ca), snr=snr, **kw), 2)
        ys, zs = tdf2([C(Fraction(v)) for v in cb], [C(Fraction(v)) for v in ca], xs, z)
        std = eqv.spec('noise std %d' % n, power_std, *(ys + [snr.p]))
        return [('output', y, (n,), lambda idx: ys[idx[0]], std), ('memory', zo, (k,), lambda idx: zs[idx[0]], None)]
    return judge(I, 'noise', nm, build, dom)


def jitter(I, item):
    kind, osr, span, n = item
    nm = 'pulse_shape %s, osr %d, span %d, %d symbols, with jitter' % item
    recs = []
    dom = Points(rows=12, x=VALS, z=VALS)

    def go(I):
        b = B(I)
        x = b.arr('x', (n,))
        kw = dict(osr=b.const('osr', osr), span=b.const('span', span), pulse=b.const('pulse', kind))
        y0, z0 = U.parts(I, U.call(I, 'CommDspy.channel.pulse_shape', x, **kw), 2)
        y, z = U.parts(I, U.call(I, 'CommDspy.channel.pulse_shape', x, rj_sigma=b.const('rj_sigma', 0.125), **kw), 2)
        return y0, z0, y, z, [e for e in I.log if e[0] == 'interp']

    def check(p):
        y0, z0, y, z, ev = p.val
        a0, az0, a, az = (arr_of(p, v) for v in (y0, z0, y, z))
        if a0 is None or a is None or az is None or az0 is None:
            return ('?', 'no summary')
        if len(ev) != 1:
            return ('?', '%d interpolations' % len(ev))
        N = n * osr
        _, d, at, q, heap, where = ev[0]
        I2 = type('H', (), {'heap': heap})
        tx, ty = arr_of(I2, at.get('arg:0', at.get('kw:x'))), arr_of(I2, at.get('arg:1', at.get('kw:y')))
        kd = at.get('kw:kind', at.get('arg:2'))
        if tx is None or ty is None:
            return ('?', 'interpolation nodes have no summary')
        if kd is None or kd.c != 'cubic':
            return 'the interpolation is %s, not cubic' % (kd.c if kd is not None else 'linear')
        for nme, g, m in (('nodes', tx, N), ('node values', ty, N), ('query times', q, N), ('output', a, N)):
            s = cmp_shape(g, Want((m,), None))
            if s is False:
                return '%s have shape %s instead of (%d,)' % (nme, g.shape, m)
            if s is None:
                return ('?', 'shape of the %s' % nme)
        devs = {}
        for j in range(N):
            r = eqv.equal(el(tx, (C(j),)), C(Fraction(j, osr)), dom)
            if r[0] == 'neq':
                return 'node %d is at time %s instead of %s' % (j, r[2], r[3])
            r2 = eqv.equal(el(ty, (C(j),)), el(a0, (C(j),)), dom)
            if r2[0] == 'neq':
                return 'node value %d is not the waveform without jitter' % j
            t = el(q, (C(j),))
            if r[0] != 'eq' or r2[0] != 'eq' or t is None:
                return ('?', 'node or query %d has no summary' % j)
            ds = dev(t)
            if len(ds) != 1:
                return 'query time %d depends on %d random deviates' % (j, len(ds))
            dd = next(iter(ds))
            if devs.setdefault(j // osr, dd) != dd:
                return 'samples of one symbol are shifted differently'
            r = eqv.equal(t.subs({dd: Z}), C(Fraction(j, osr)) + Z * Fraction(1, 8), dom)
            if r[0] == 'neq':
                return 'query time %d is %s instead of %s when %s' % (j, r[2], r[3], r[1])
            if r[0] != 'eq':
                return ('?', 'query time %d: %s' % (j, r[1]))
            if el(a, (C(j),)) != Poly.atom(('e', 'interp0', C(j))):
                return 'output %d is not the interpolated value %d' % (j, j)
        if len(set(devs.values())) != n:
            return 'symbols share their jitter'
        for j in range(2 * osr * span - 1):
            r = eqv.equal(el(az, (C(j),)), el(az0, (C(j),)), dom)
            if r[0] == 'neq':
                return 'the returned memory depends on the jitter'
            if r[0] != 'eq':
                return ('?', 'memory: %s' % r[1])
        return None
    for p in I.explore(go, max_paths=24):
        if p.kind != 'return':
            if p.kind == 'raise' and not p.facts and not p.opaque:
                recs.append(viol('jitter', nm + '|raise', p.exc.where, '%s: raises %s: %s' % (nm, p.exc.exc, p.exc.msg)))
            continue
        w = check(p)
        if w is None:
            recs.append(ok('jitter', nm))
        elif isinstance(w, tuple) or p.opaque or any(isinstance(k, Poly) for k in p.facts):
            recs.append(und('jitter', nm, w[1] if isinstance(w, tuple) else w))
        else:
            recs.append(viol('jitter', '%s|%s' % (kind, w[:30]), None, '%s: %s' % (nm, w)))
    return recs


def _go(I, it):
    with lazily():
        return _go1(I, it)


def _go1(I, it):
    return {'awgn': awgn, 'ch': channel, 'rj': jitter}[it[0]](I, it[1])


def c24(ctx):
    ctx.rule('noise', 'awgn adds to every sample its own zero-mean normal deviate, all with the standard deviation that the estimated power and the SNR prescribe; awgn_channel adds it to the filter output and returns the noise-free memory: summaries with opaque deviates, compared at generic points')
    ctx.rule('jitter', 'pulse_shape with jitter evaluates the cubic interpolation of the clean waveform at the sample times shifted by one normal deviate per symbol, and returns the clean memory')
    its = [('awgn', x) for x in (((2,), 'float'), ((3,), 'float'), ((5,), 'float'), ((8,), 'float'), ((13,), 'float'), ((4,), 'int'), ((2, 2), 'float'), ((1, 3), 'float'), ((2, 2, 2), 'float'), ((40,), 'float'), ((30,), 'int'), ((5, 6), 'float'), ((150,), 'float'))]
    its += [('ch', x) for x in ((1, 1, 3, False), (3, 1, 4, False), (2, 2, 4, False), (3, 3, 5, True), (1, 3, 3, True), (3, 1, 2, True))]
    its += [('rj', x) for x in (('rect', 1, 1, 4), ('rect', 4, 1, 3), ('sinc', 2, 2, 4), ('rcos', 3, 1, 3), ('rrc', 2, 1, 5), ('imp', 4, 1, 2))]
    its += ctx.deep(*([('awgn', ((n,), t)) for n in (1, 4, 6, 7, 10, 20, 40) for t in ('float', 'int')] + [('awgn', (s, 'float')) for s in ((3, 2), (4, 1), (2, 3, 2), (1, 1, 4))] + [('ch', (nb, na, n, m)) for nb, na in ((1, 2), (4, 1), (3, 2), (5, 4)) for n in (2, 6) for m in (False, True)] + [('rj', (k, o, s, n)) for k in ('rect', 'sinc', 'rcos', 'rrc', 'imp') for o, s, n in ((1, 1, 3), (2, 1, 3), (3, 2, 6), (5, 1, 4))]))
    ctx.pmap(_go, its)
