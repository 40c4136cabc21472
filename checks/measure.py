"""C25: measurements - the eye diagram counts samples, the spectrum analyser hands the scaled signal and the documented settings to Welch's estimator."""
import math
from fractions import Fraction
from itertools import product
from sa import universe as U, eqv, poly as P
from sa.eqv import Points
from sa.dom import Arr, num
from sa.poly import Poly
from sa.spec import B
from sa.frame import ok, viol, und
from .rel import Want, symbolic, arr_of, el, C, cmp_shape
from .filters import elems
from sa.npm import csplit

VALS = tuple(Fraction(k, 8) for k in range(-20, 21))


def eye(I, item):
    osr_in, osr, n, q, fs, log = item
    nm = 'eye_diagram osr %d from %d, %d samples, %d bins, range %s%s' % (osr, osr_in, n, q, fs, ', log' if log else '')
    dom = Points(rows=40, x=VALS)

    def build(I, b, i, n_):
        x = b.arr('x', (n,))
        kw = dict(quantization=b.const('quantization', q)) if q != 256 else {}
        if fs != 1:
            kw['fs_value'] = b.const('fs_value', fs)
        if log:
            kw['logscale'] = b.const('logscale', True)
        e, amp = U.parts(I, U.call(I, 'CommDspy.eye_diagram', x, b.const('osr_in', osr_in), b.const('osr_diag', osr), **kw), 2)
        if osr_in < osr:
            up = U.parts(I, U.call(I, 'CommDspy.digital_oversample', x, osr=b.const('osr', osr // osr_in), order=b.const('order', osr_in), method=b.const('method', 'sinc')), 3)[0]
            o = arr_of(I, up)
            m = o.shape[0].cint() if o is not None and o.shape is not None else None
            xs = [el(o, (C(j),)) for j in range(m)] if m is not None else None
        else:
            xs = elems(I, x, n)
        if xs is None or any(v is None for v in xs):
            return [('histogram', None, Want((q, 2 * osr), lambda idx: None))]

        def count(row):
            def f(*v):
                c = 0
                w = Fraction(2 * fs) / q
                for s in v:
                    lo, hi = -fs + w * row, -fs + w * (row + 1)
                    c += lo <= s < hi or row == q - 1 and s == hi
                return math.log10(c + 0.1) if log else c
            return f

        def want(idx):
            r, c = idx[0].cint(), idx[1].cint() % osr
            return eqv.spec('%s %d' % (nm, r), count(r), *xs[c::osr])
        return [('histogram', e, Want((q, 2 * osr), want)), ('amplitude axis', amp, Want((q,), lambda idx: C(-Fraction(fs) + Fraction(2 * fs) * Fraction(idx[0].cint(), q - 1))))]
    return symbolic(I, 'eye', nm, build, dom)


MODES = ('dB', 'dBm', 'dBm/Hz', 'dBuv', 'dBuv/sqrt(Hz)', 'dBc', 'dBc/Hz', 'dBFs')


def factor(mode, fs, rbw, eff, r, obw, full, ms):
    """documented normalisation of the amplitude; ms = mean square of the signal"""
    if mode == 'dBm':
        return math.sqrt(1000 / r * rbw / eff)
    if mode == 'dBm/Hz':
        return math.sqrt(1000 / r / eff)
    if mode == 'dBuv':
        return math.sqrt(rbw / eff) * 1e6
    if mode == 'dBuv/sqrt(Hz)':
        return math.sqrt(1 / eff) * 1e6
    if mode == 'dBc':
        return math.sqrt((obw or rbw) / eff / ms)
    if mode == 'dBc/Hz':
        return math.sqrt(1 / eff / ms)
    if mode == 'dBFs':
        return math.sqrt((obw or rbw) / eff) / full
    return 1.0


def psa(I, item):
    mode, obw, rbw, side, extra, n, fs = item
    ex = dict(extra)
    cplx, rows = ex.pop('complex', False), ex.pop('rows', None)
    nm = 'psa %s, obw %s, rbw %s, %s, %s%s%s' % (mode, obw, rbw, side, ex, ', complex signal' if cplx else '', ', matrix of %d rows' % rows if rows else '')
    m = 'dBc' if obw is not None else mode
    rb = rbw if rbw is not None else max(fs / 1000, 2 * fs / n / 10)
    eff = fs / 2 if side == 'DSB' else fs
    wn = int(1.9 * math.ceil(fs / rb))
    dom = Points(rows=12, x=VALS)
    recs = []

    def go(I):
        b = B(I)
        x = b.cplx('x', (n,)) if cplx else b.arr('x', (n,) if rows is None else (rows, n // rows))
        kw = {k: b.const(k, v) for k, v in ex.items()}
        if mode != 'dB':
            kw['mode'] = b.const('mode', mode)
        if obw is not None:
            kw['obw'] = b.const('obw', obw)
        if rbw is not None:
            kw['rbw'] = b.const('rbw', rbw)
        if side != 'DSB':
            kw['sb_mode'] = b.const('sb_mode', side)
        r = U.call(I, 'CommDspy.psa.psa', x, b.const('fs', fs), **kw)
        xs = [Poly.atom(('e', 'x.re', C(j))) for j in range(n)] + [Poly.atom(('e', 'x.im', C(j))) for j in range(n)] if cplx else elems(I, x, n) if rows is None else \
            [el(arr_of(I, x), (C(j), C(k))) for j in range(rows) for k in range(n // rows)]
        return U.parts(I, r, 2), xs, [e for e in I.log if e[0] == 'welch']

    def check(p):
        (fx, px), xs, ev = p.val
        if len(ev) != 1:
            return ('?', '%d spectral estimates' % len(ev))
        _, a, kw, heap, where = ev[0]
        H = type('H', (), {'heap': heap})

        def number(k, pos):
            v = kw.get(k, kw.get('arg:%d' % pos))
            if v is None:
                return None
            return float(eqv.Prog([]).poly(v.p)([])) if v.k == 'num' and v.p is not None and not eqv.leaves(v.p) and not eqv.opaque_fn(v.p) else '?'
        s = cmp_shape(a, Want((n,), None))
        if s is False:
            return 'the estimate is made of %s samples instead of %d' % (a.shape, n)
        if s is None:
            return ('?', 'signal shape')

        def sc(i):
            return eqv.spec('%s %d' % (nm, i), lambda *v: float(v[i]) * factor(m, fs, rb, eff, ex.get('r', 50), obw, ex.get('fullscale', 1), max(sum(float(y) ** 2 for y in v) / n, 1e-12)), *xs)
        for j in range(0, n, max(1, n // 7)) if not cplx else [k * n + j for j in (0, 1, n // 2, n - 1) for k in (0, 1)]:
            got = el(a, (C(j % n),))
            if cplx:
                got = csplit(got)
                got = got[j // n] if got is not None else None
            if got is None:
                return ('?', 'sample %d has no summary' % j)
            r = eqv.equal(got, sc(j) if m.startswith('dBc') else eqv.spec('%s one %d' % (nm, j), lambda v: float(v) * factor(m, fs, rb, eff, ex.get('r', 50), obw, ex.get('fullscale', 1), 1), xs[j]), dom)
            if r[0] == 'neq':
                return 'sample %d handed to the estimator is %s instead of %s when %s' % (j, r[2], r[3], {k: str(v) for k, v in list(r[1].items())[:3]})
            if r[0] != 'eq':
                return ('?', 'sample %d: %s' % (j, r[1]))
        for k, pos, want in (('fs', 1, fs), ('noverlap', 4, math.floor(wn * ex.get('overlap', 0.75))), ('nfft', 5, 2 ** math.ceil(math.log2(wn * ex.get('osr', 4))))):
            v = number(k, pos)
            if v == '?':
                return ('?', '%s has no summary' % k)
            if v is None or abs(v - want) > 1e-6 * abs(want):
                return '%s is %s instead of %s' % (k, v, want)
        sl = kw.get('scaling', kw.get('arg:8'))
        if sl is None or sl.c != 'spectrum':
            return 'the scaling is not that of a power spectrum'
        w = kw.get('window', kw.get('arg:2'))
        wa = arr_of(H, w) if w is not None else None
        if wa is None or wa.elem is None:
            return ('?', 'window has no summary')
        key = {x[1] for x in el(wa, (C(0),)).all_atoms() if x[0] == 'e'}
        want = 'window:%s:%d' % (ex.get('window', 'blackmanharris'), wn)
        if el(wa, (C(0),)) != Poly.atom(('e', want, C(0))):
            return 'the window is %s instead of %s' % (sorted(key), want)
        for v, what in ((fx, 'f'), (px, 'p')):
            o = arr_of(p, v)
            if o is None:
                return ('?', 'result has no summary')
            if el(o, (C(3),)) != Poly.atom(('e', 'welch0.' + what, C(3))):
                return 'the %s returned is not that of the estimate' % {'f': 'frequency', 'p': 'power'}[what]
        return None
    ps = I.explore(go, max_paths=24)
    for p in ps:
        if 'speculative' in p.tags:
            continue
        if p.kind != 'return':
            if p.kind == 'raise' and not p.facts and not p.opaque:
                recs.append(viol('psa', nm + '|raise', p.exc.where, '%s: raises %s: %s' % (nm, p.exc.exc, p.exc.msg)))
            continue
        w = check(p)
        if w is None:
            recs.append(ok('psa', nm))
        elif isinstance(w, tuple) or p.opaque or any(isinstance(k, Poly) for k in p.facts):
            recs.append(und('psa', nm, w[1] if isinstance(w, tuple) else w))
        else:
            recs.append(viol('psa', '%s|%s' % (mode, w[:30]), None, '%s: %s' % (nm, w)))
    return recs


def _go(I, it):
    return {'eye': eye, 'psa': psa}[it[0]](I, it[1])


def c25(ctx):
    ctx.rule('eye', 'eye_diagram: every column counts the samples of its phase per amplitude bin, the second half repeats the first, log10(count + 0.1) on request, with the amplitude axis')
    ctx.rule('psa', 'psa hands the signal times the normalisation of the mode, with the documented window, overlap and FFT size, to the spectral estimator and returns its result')
    its = [('eye', x) for x in ((2, 2, 4, 3, 1, False), (2, 2, 6, 4, 2, False), (1, 1, 3, 3, 1, True), (3, 3, 6, 3, 1, True), (4, 4, 8, 2, 3, False), (4, 2, 4, 5, 1, False), (2, 4, 4, 4, 1, False), (2, 4, 6, 3, 2, True), (3, 6, 6, 3, 1, False), (1, 1, 2, 256, 1, False), (1, 1, 2, 1000, 1, False), (1, 3, 3, 3, 1, False))]
    its += [('psa', (mode, None, rbw, side, (), 40, 32.0)) for mode in MODES for rbw, side in ((4.0, 'DSB'), (1.5, 'SSB'), (None, 'DSB'))]
    its += [('psa', ('dB', 6.0, 4.0, 'DSB', (), 40, 32.0)), ('psa', ('dBm', 6.0, 4.0, 'SSB', (), 40, 32.0)), ('psa', ('dBFs', None, 4.0, 'DSB', (('fullscale', 8.0),), 40, 32.0)),
            ('psa', ('dBm', None, 2.0, 'DSB', (('r', 75.0), ('osr', 2)), 40, 32.0)), ('psa', ('dBm/Hz', None, 2.0, 'SSB', (('r', 75.0), ('window', 'hann')), 40, 32.0)), ('psa', ('dB', None, 3.0, 'DSB', (('overlap', 0.5), ('osr', 8)), 40, 32.0))]
    its += [('psa', (mode, None, rbw, 'DSB', (('rows', r),), 40, 32.0)) for mode, rbw, r in (('dB', None, 4), ('dB', None, 40), ('dBc', None, 1), ('dBm', 4.0, 5))]
    its += [('psa', ('dB', None, None, 'DSB', (), 240, 32.0)), ('psa', ('dB', None, None, 'DSB', (), 150, 32.0))]
    its += [('psa', (mode, None, 2.0, 'SSB', (('complex', True),), 6, 4.0)) for mode in MODES]
    its += ctx.deep(*[('eye', (a, c, n, m, r, lg)) for a, c in ((1, 1), (2, 2), (4, 4), (5, 5), (2, 4), (4, 2), (6, 3)) for n in (2 * max(a, c), 3 * max(a, c)) for m, r in ((2, 1), (6, 1), (5, 2)) for lg in (False, True)])
    its += ctx.deep(*[('psa', (mode, None, rbw, side, (), n, fs)) for mode in MODES for rbw in (1.0, 2.5, 8.0) for side in ('DSB', 'SSB') for n, fs in ((64, 100.0), (33, 16.0))])
    ctx.pmap(_go, its)
