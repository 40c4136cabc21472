"""C16, C17: filters, equaliser recursion, and their memories."""
from fractions import Fraction
import numpy as np
from sa import universe as U, eqv, poly as P
from sa.poly import Poly
from sa.eqv import Points, Alphabet
from sa.frame import ok, viol
from sa.dom import Lst
from .rel import Want, symbolic, short, arr_of, C
from . import rel

H = 'CommDspy.misc.help_classes.'
DOM = Points(rows=16)


def elems(I, v, n):
    o = I.heap[v.x]
    if getattr(o, 'items', None) is not None:
        return [x.p for x in o.items]
    return [o.elem((C(j),)) for j in range(n)]


def diff_eq(b, a, x, xp=(), yp=()):
    """a[0] y[n] = sum b[i] x[n-i] - sum a[j] y[n-j]; xp, yp: earlier inputs and outputs, latest first"""
    X, Y = list(xp), list(yp)
    out = []
    inv = P.pinv(a[0])
    for s in x:
        X.insert(0, s)
        t = C(0)
        for i, c in enumerate(b):
            if i < len(X):
                t = t + c * X[i]
        for j, c in enumerate(a[1:]):
            if j < len(Y):
                t = t - c * Y[j]
        y = t * inv
        Y.insert(0, y)
        out.append(y)
    return out


def tdf2(b, a, x, z):
    """the same recursion from a transposed-form memory: -> outputs, final memory"""
    z = list(z)
    n = len(z)
    inv = P.pinv(a[0])
    out = []
    bb = [c * inv for c in b] + [C(0)] * (n + 1 - len(b))
    aa = [c * inv for c in a] + [C(0)] * (n + 1 - len(a))
    for s in x:
        y = bb[0] * s + (z[0] if n else C(0))
        for k in range(n):
            z[k] = (z[k + 1] if k + 1 < n else C(0)) + bb[k + 1] * s - aa[k + 1] * y
        out.append(y)
    return out, z


def vec_want(ps):
    ps = list(ps)
    return Want((len(ps),), lambda idx: ps[idx[0].cint()])


def chunks(I, f, b, sizes, mk, names='x'):
    """feed consecutive chunks to a callable object; -> [(result, elements)]"""
    res = []
    for k, s in enumerate(sizes):
        x = mk(b, '%s%d' % (names, k), s)
        res.append((I.call(f, [x], {}, None), elems(I, x, s)))
    return res


KINDS = {'array': lambda b, n, s: b.arr(n, (s,)), 'list': lambda b, n, s: b.lst(n, s), 'int array': lambda b, n, s: b.arr(n, (s,), 'int')}


def objects(I, item):
    cls, nb, na, sizes, mem, kind = item

    def build(I, b, i, n):
        B_, A_ = b.arr('b', (nb,)), b.arr('a', (na,))
        eb, ea = elems(I, B_, nb), elems(I, A_, na)
        kw, xp, yp, zz = {}, (), (), None
        if mem and cls == 'Filter':
            zf, zi = b.arr('zf', (nb,)), b.arr('zi', (na - 1,))
            xp, yp = elems(I, zf, nb), elems(I, zi, na - 1)
            kw = {'z_fir': zf, 'z_iir': zi}
        if cls == 'FilterTII':
            m = max(na, nb) - 1
            zz = [C(0)] * m
            if mem:
                z = b.arr('z', (m,))
                zz = [v for v in elems(I, z, m)]
                kw = {'z': z}
        f = U.call(I, H + cls, B_, A_, **kw)
        rs = chunks(I, f, b, sizes, KINDS[kind])
        xs = [e for _, ev in rs for e in ev]
        if cls == 'Filter':
            ys = diff_eq(eb, ea, xs, xp, yp)
        else:
            # the object's memory is that of the un-normalised sketch: it feeds a[0]*y
            inv = P.pinv(ea[0])
            ys = tdf2(eb, ea, xs, [v * inv for v in zz])[0]
        out, k = [], 0
        for j, (r, ev) in enumerate(rs):
            out.append(('chunk %d' % j, r, vec_want(ys[k:k + len(ev)])))
            k += len(ev)
        return out
    nm = '%s with %d/%d taps, chunks %s (%s)%s' % (cls, nb, na, sizes, kind, ', initial memory' if mem else '')
    return symbolic(I, 'difference-equation', nm, build, DOM)


# -- channel and CTLE: library filtering with a memory argument ----------------------------------------------------------
def parts(I, v, n):
    return U.parts(I, v, n)


def channel(I, item):
    kind, nb, na, sizes, mem = item

    def build(I, b, i, n):
        B_ = b.arr('b', (nb,)) if kind != 'list taps' else b.lst('b', nb)
        eb = elems(I, B_, nb)
        if na == 0:
            A_, ea = b.const('a', 1), [C(1)]
        else:
            A_ = b.arr('a', (na,)) if kind != 'list taps' else b.lst('a', na)
            ea = elems(I, A_, na)
        m = max(nb, na, 1) - 1
        kw, z = {}, [C(0)] * m
        if mem:
            Z = b.arr('z', (m,))
            z = elems(I, Z, m)
            kw = {'zi': Z}
        out = []
        for j, s in enumerate(sizes):
            x = b.arr('x%d' % j, (s,), 'int' if kind == 'int' else 'float')
            r = U.call(I, 'CommDspy.channel.awgn_channel', x, B_, A_, **kw)
            y, zo = parts(I, r, 2)
            ys, z = tdf2(eb, ea, elems(I, x, s), z)
            out += [('chunk %d' % j, y, vec_want(ys)), ('memory after chunk %d' % j, zo, vec_want(z))]
            kw = {'zi': zo}
        return out
    nm = 'awgn_channel with %d/%d taps, chunks %s (%s)%s' % (nb, na, sizes, kind, ', initial memory' if mem else '')
    return symbolic(I, 'streaming', nm, build, DOM)


def fir(I, item):
    """noise-free channel, FIR: every length"""
    nb = item

    def build(I, b, i, n):
        B_, x = b.arr('b', (nb,)), b.vec('x', n)
        eb, xe = elems(I, B_, nb), I.heap[x.x].elem
        y, zo = parts(I, U.call(I, 'CommDspy.channel.awgn_channel', x, B_, b.const('a', 1)), 2)

        def want(idx):
            t = C(0)
            for k, c in enumerate(eb):
                q = idx[0] - k
                v = q.cint()
                if v is not None and v < 0:
                    continue
                t = t + c * xe((q,))
            return t

        def zw(idx):
            k = idx[0].cint()
            t = C(0)
            for j in range(k + 1, nb):
                q = n + k - j
                if q.cint() is None or q.cint() >= 0:
                    t = t + eb[j] * xe((q,))
            return t
        return [('output', y, Want((n,), want)), ('memory', zo, Want((nb - 1,), zw))]
    return symbolic(I, 'streaming', 'awgn_channel FIR with %d taps, any length' % nb, build, DOM, lo=nb + 1, sizes=(1, 2, 3, 5, 8))


# -- CTLE ------------------------------------------------------------------------------------------------------------
def ctle_coefs(nz, npl, zeros, poles, gain, fs, osr):
    """Tustin image of 10^(gain/20) prod(1 + s/|z|) / prod(1 + s/|p|)"""
    import numpy as np
    w = 2.0 * float(fs) * float(osr)
    M = max(nz, npl)

    def side(roots):
        q = np.array([1.0])                    # in powers of 1/z
        for r in roots:
            k = w / abs(float(r))
            q = np.convolve(q, [1 + k, 1 - k])
        for _ in range(M - len(roots)):
            q = np.convolve(q, [1.0, 1.0])
        return q
    b, a = 10 ** (float(gain) / 20) * side(zeros), side(poles)
    return b / a[0], a / a[0]


def ctle_spec(nz, npl):
    def fn(which, j, *v):
        b, a = ctle_coefs(nz, npl, v[:nz], v[nz:nz + npl], *v[nz + npl:])
        return float((b, a)[int(which)][int(j)])
    return 'ctle %d %d' % (nz, npl), fn


FREQ = tuple(Fraction(k, 10) for k in (-27, -13, -8, 3, 7, 11, 16, 29))
CDOM = Points(rows=24, zeros=FREQ, poles=FREQ, fs=tuple(Fraction(k, 7) for k in range(3, 30, 4)), osr=(1, 2, 4, 7), gain=tuple(Fraction(k, 3) for k in range(-121, 121, 11)))


def ctle(I, item):
    nz, npl, mode = item

    def args(I, b):
        if mode == 'chunks':                       # fixed corner frequencies keep the summaries short
            cl = lambda nm, vs: I.alloc(Lst([b.const(nm, v) for v in vs]))
            return cl('zeros', (3, 5)[:nz]), cl('poles', (2, 7, 11, 13)[:npl]), b.const('gain', 0), b.const('fs', 4), b.const('osr', 2)
        z, p = b.lst('zeros', nz), b.lst('poles', npl)
        g, fs, osr = b.sym('gain', nt='float'), b.sym('fs', nt='float'), b.sym('osr', 1)
        return z, p, g, fs, osr
    M = max(nz, npl)

    def want(I, z, p, g, fs, osr, which):
        name, fn = ctle_spec(nz, npl)
        vals = elems(I, z, nz) + elems(I, p, npl) + [g.p, fs.p, osr.p]
        return Want((M + 1,), lambda idx: eqv.spec(name, fn, C(which), idx[0], *vals))
    if mode == 'coefficients':
        def build(I, b, i, n):
            a = args(I, b)
            x, y = parts(I, U.call(I, 'CommDspy.rx.get_ctle_filter', *a), 2)
            return [('numerator', x, want(I, *a, 0)), ('denominator', y, want(I, *a, 1))]
        return symbolic(I, 'ctle', 'get_ctle_filter with %d zeros and %d poles' % (nz, npl), build, CDOM)

    def build(I, b, i, n):
        a = args(I, b)
        cb, ca = parts(I, U.call(I, 'CommDspy.rx.get_ctle_filter', *a), 2)
        eb, ea = elems(I, cb, M + 1), elems(I, ca, M + 1)
        out = []
        if mode == 'one call':
            x = b.arr('x', (4,))
            return [('output', U.call(I, 'CommDspy.rx.ctle', x, *a), vec_want(tdf2(eb, ea, elems(I, x, 4), [C(0)] * M)[0]))]
        Z = b.arr('z', (M,))
        z = elems(I, Z, M)
        for j, s in enumerate((1, 2, 1)):
            x = b.arr('x%d' % j, (s,))
            y, zo = parts(I, U.call(I, 'CommDspy.rx.ctle', x, *a, zi=Z), 2)
            ys, z = tdf2(eb, ea, elems(I, x, s), z)
            out += [('chunk %d' % j, y, vec_want(ys)), ('memory after chunk %d' % j, zo, vec_want(z))]
            Z = zo
        return out
    return symbolic(I, 'ctle', 'ctle with %d zeros and %d poles, %s' % (nz, npl, mode), build, CDOM)


# -- FFE / DFE -------------------------------------------------------------------------------------------------------
XA = (Fraction(-9, 4), Fraction(3, 8) + Fraction(1, 3000), Fraction(13, 8) + Fraction(1, 7000))
FFE = {1: [1.25], 2: [1.0, -0.375], 3: [-0.25, 1.0, 0.375], 4: [-0.25, 1.0, 0.375, 0.125], 5: [0.125, -0.25, 1.0, 0.375, -0.125]}
DFE = {1: [0.5], 2: [0.5, -0.75], 3: [0.25, -0.5, 0.125], 4: [0.25, -0.5, 0.125, 0.375], 5: [0.5, -0.25, 0.125, -0.375, 0.25]}


def near(x, lv):
    return min(lv, key=lambda l: abs(x - l))


def ffe_dfe_ref(x, ffe, dfe, lv, osr, phase, zf, zd):
    """documented recursion: slicer input, FFE memory (oldest first), DFE memory (latest first)"""
    F = len(ffe)
    h = list(zf)[len(zf) - (F - 1):] + list(x)
    mem = list(zd)
    s, dec = [], []
    for n in range(len(x)):
        v = sum(Fraction(ffe[k]) * h[n + F - 1 - k] for k in range(F)) - sum(Fraction(dfe[k]) * mem[k] for k in range(len(dfe)))
        s.append(v)
        dec.append(near(v, lv))
        if n % osr == (phase + osr // 2) % osr and n - osr // 2 >= 0:
            mem = [dec[n - osr // 2]] + mem[:-1]
    return s, h[-F:], mem


def ffedfe(I, item):
    F, D, osr, phase, memf, memd, sizes, lvk = item
    ffe, dfe = FFE[F], (DFE[D] if D else [])
    lv = (-3, -1, 1, 3) if lvk == 'default' else (-1, 1)
    zf = {None: [0] * (F - 1), 'full': [0.5, -1.0, 2.0, 0.25, -0.75][:F], 'short': [-1.0, 2.0, 0.25, -0.75][:F - 1]}[memf]
    zd = [1, -1, 1, 1, -1][:D] if memd else [0] * D
    ntot = sum(sizes)

    def fn(which, chunk, idx, *x):
        z1, z2, k, r = [Fraction(v) for v in zf], [Fraction(v) for v in zd], 0, None
        for j, sz in enumerate(sizes):
            r = ffe_dfe_ref(x[k:k + sz], ffe, dfe, lv, osr, phase, z1, z2)
            k += sz
            z1, z2 = r[1], r[2]
            if j == int(chunk):
                break
        return r[int(which)][int(idx)]
    name = 'ffe_dfe %s' % (item,)

    def build(I, b, n):
        X = [b.arr('x%d' % j, (s,)) for j, s in enumerate(sizes)]
        ps = [q for x, s in zip(X, sizes) for q in elems(I, x, s)]
        kw = {'ffe_taps': b.carr('ffe_taps', ffe)}
        if D:
            kw['dfe_taps'] = b.carr('dfe_taps', dfe)
        if lvk != 'default':
            kw['levels'] = b.carr('levels', [float(v) for v in lv])
        if osr > 1:
            kw['osr'], kw['phase'] = b.const('osr', osr), b.const('phase', phase)
        if memf:
            kw['zi_ffe'] = b.carr('zi_ffe', zf)
        if memd:
            kw['zi_dfe'] = b.carr('zi_dfe', [float(v) for v in zd])
        out = []
        for j, x in enumerate(X):
            r = U.call(I, 'CommDspy.rx.ffe_dfe', x, **kw)
            w = lambda which, m, j=j: Want((m,), lambda idx: eqv.spec(name, fn, C(which), C(j), idx[0], *ps))
            if F == 1 and not D:
                out.append(('output %d' % j, r, w(0, sizes[j])))
                continue
            k = (F > 1) + (D > 0)
            rs = parts(I, r, 1 + k)
            out.append(('output %d' % j, rs[0], w(0, sizes[j])))
            if F > 1:
                out.append(('FFE memory %d' % j, rs[1], w(1, F)))
                kw['zi_ffe'] = rs[1]
            if D:
                out.append(('DFE memory %d' % j, rs[-1], w(2, D)))
                kw['zi_dfe'] = rs[-1]
        return out
    nm = 'ffe_dfe %d FFE, %d DFE taps, osr %d phase %d, chunks %s%s%s, %s levels' % (F, D, osr, phase, sizes, ', FFE memory ' + memf if memf else '', ', DFE memory' if memd else '', lvk)
    return short(I, 'ffe-dfe', nm, build, Alphabet(**{'x%d' % j: XA for j in range(len(sizes))}), lambda n, t: [('x%d' % j, (s,)) for j, s in enumerate(sizes)], [0], maxp=400)


def ffe_any(I, item):
    """feed-forward part alone: symbolic taps, every length"""
    F, mem = item

    def build(I, b, i, n):
        T, x = b.arr('taps', (F,)), b.vec('x', n)
        et, xe = elems(I, T, F), I.heap[x.x].elem
        kw, ez = {}, [C(0)] * (F - 1)
        if mem:
            Z = b.arr('z', (F if mem == 'full' else F - 1,))
            ez = elems(I, Z, F if mem == 'full' else F - 1)[-(F - 1):]
            kw['zi_ffe'] = Z
        y, zo = parts(I, U.call(I, 'CommDspy.rx.ffe_dfe', x, ffe_taps=T, **kw), 2)

        def at(q):
            c = q.cint()
            if c is not None and c < 0:
                return ez[F - 1 + c]
            return xe((q,))

        def want(idx):
            t = C(0)
            for k, c in enumerate(et):
                t = t + c * at(idx[0] - k)
            return t
        return [('output', y, Want((n,), want)), ('FFE memory', zo, Want((F,), lambda idx: at(n - F + idx[0])))]
    return symbolic(I, 'ffe-dfe', 'ffe_dfe with %d FFE taps only%s, any length' % (F, ', %s memory' % mem if mem else ''), build, DOM, lo=F + 1, sizes=(1, 2, 3, 5, 8))


def ffedfe_obj(I, item):
    F, D, sizes, d0 = item
    ffe, dfe = FFE[F], [d0] + (DFE[D] if D else [])
    lv = (-3, -1, 1, 3)

    def fn(idx, *x):
        s, h = [], []
        for n in range(int(idx) + 1):
            v = sum(Fraction(ffe[k]) * x[n - k] for k in range(F) if n - k >= 0) - sum(Fraction(dfe[k]) * h[n - k] for k in range(1, D + 1) if n - k >= 0)
            v = v / Fraction(d0)
            s.append(v)
            h.append(near(v, lv))
        return s[-1]
    name = 'ffedfe object %s' % (item,)

    def build(I, b, n):
        f = U.call(I, H + 'FfeDfeFilterTII', b.carr('ffe', ffe), b.carr('dfe', dfe), b.carr('levels', [float(v) for v in lv]))
        rs = chunks(I, f, b, sizes, KINDS['array'])
        ps = [e for _, ev in rs for e in ev]
        out, k = [], 0
        for j, (r, ev) in enumerate(rs):
            out.append(('chunk %d' % j, r, Want((len(ev),), lambda idx, k=k: eqv.spec(name, fn, idx[0] + k, *ps))))
            k += len(ev)
        return out
    return short(I, 'ffe-dfe-object', 'FfeDfeFilterTII %s' % (item,), build, Alphabet(**{'x%d' % j: XA for j in range(len(sizes))}), lambda n, t: [('x%d' % j, (s,)) for j, s in enumerate(sizes)], [0], maxp=400)


def long_filter(I, item):
    """long constant signals and many taps: the recursion is followed over its whole length"""
    cls, nb, na, sizes = item
    r = np.random.RandomState(nb + na + sum(sizes))
    vb, va = r.randint(-3, 4, nb), np.array([1, -1, 1] + [0] * 40)[:na]
    xs = [r.randint(-5, 6, n) for n in sizes]
    fl = lambda v: [float(q) for q in v]

    def build(I, b, i, n):
        cs = lambda v: [C(int(q)) for q in v]
        out = []
        if cls == 'awgn_channel':
            z = [C(0)] * (max(na, nb) - 1)
            kw = {}
            for j, x in enumerate(xs):
                y, zo = parts(I, U.call(I, 'CommDspy.channel.awgn_channel', b.carr('x%d' % j, fl(x)), b.carr('b', fl(vb)), b.carr('a', fl(va)), **kw), 2)
                ys, z = tdf2(cs(vb), cs(va), cs(x), z)
                out += [('chunk %d' % j, y, vec_want(ys)), ('memory after chunk %d' % j, zo, vec_want(z))]
                kw = {'zi': zo}
            return out
        f = U.call(I, H + cls, b.carr('b', fl(vb)), b.carr('a', fl(va)))
        ys, k = diff_eq(cs(vb), cs(va), cs(np.concatenate(xs))), 0
        for j, x in enumerate(xs):
            out.append(('chunk %d' % j, I.call(f, [b.carr('x%d' % j, fl(x))], {}, None), vec_want(ys[k:k + len(x)])))
            k += len(x)
        return out
    with rel.unroll(2000):
        return symbolic(I, 'streaming' if cls == 'awgn_channel' else 'difference-equation', '%s with %d/%d constant taps, long chunks %s' % item, build, Points(rows=1))


def long_ffedfe(I, item):
    """many taps and symbols, constant signal"""
    F, D, osr, phase, sizes = item
    r = np.random.RandomState(F + D + osr)
    ffe, dfe = list(r.randint(-8, 9, F) / 16), list(r.randint(-8, 9, D) / 16)
    ffe[F // 2] = 1.0
    xs = [r.randint(-12, 13, n) / 4 for n in sizes]
    lv = (-3, -1, 1, 3)

    def build(I, b, i, n):
        kw = {'ffe_taps': b.carr('ffe_taps', ffe), 'osr': b.const('osr', osr), 'phase': b.const('phase', phase)}
        if D:
            kw['dfe_taps'] = b.carr('dfe_taps', dfe)
        zf, zd, out = [0] * (F - 1), [0] * D, []
        for j, x in enumerate(xs):
            rs = parts(I, U.call(I, 'CommDspy.rx.ffe_dfe', b.carr('x%d' % j, list(x)), **kw), 1 + (F > 1) + (D > 0))
            y, zf, zd = ffe_dfe_ref([Fraction(float(q)) for q in x], ffe, dfe, lv, osr, phase, zf, zd)
            w = lambda v: vec_want([C(Fraction(q)) for q in v])
            out.append(('output %d' % j, rs[0], w(y)))
            if F > 1:
                out.append(('FFE memory %d' % j, rs[1], w(zf)))
                kw['zi_ffe'] = rs[1]
            if D:
                out.append(('DFE memory %d' % j, rs[-1], w(zd)))
                kw['zi_dfe'] = rs[-1]
        return out
    with rel.unroll(2000):
        return symbolic(I, 'ffe-dfe', 'ffe_dfe %d FFE, %d DFE constant taps, osr %d phase %d, long chunks %s' % item, build, Points(rows=1))


# -- entry points ------------------------------------------------------------------------------------------------------
def c16(ctx):
    ctx.rule('difference-equation', 'outputs of the filter objects follow a[0]y[n] = sum b[i]x[n-i] - sum a[j]y[n-j] across consecutive calls, from zero or given memories: element summaries with symbolic coefficients compared with the recursion')
    ctx.rule('streaming', 'awgn_channel without noise: output and returned memory follow the recursion, and feeding the memory to the next call continues the signal')
    ctx.rule('ctle', 'get_ctle_filter is the Tustin image of 10^(gain/20) prod(1+s/|z|)/prod(1+s/|p|) at rate fs*osr; ctle filters with it, from zero or given memory')
    items = []
    for cls in ('Filter', 'FilterTII'):
        for nb, na in [(1, 2), (3, 1), (2, 3), (3, 3), (4, 2), (1, 5), (6, 2), (5, 5), (12, 1), (9, 3)] + ctx.deep((2, 2), (1, 3), (4, 4), (7, 3), (3, 7), (8, 8)):
            for mem in (False, True):
                items += [(cls, nb, na, sz, mem, 'array') for sz in [(2, 1, 2)] + ctx.deep((1, 1, 1, 1), (5, 3))]
        items += [(cls, 2, 2, (1, 3), False, 'list'), (cls, 2, 2, (3, 1), False, 'int array')]
        items += [(cls, 3, 2, (12, 1, 7), False, 'array')]
    ctx.pmap(objects, items)
    ctx.pmap(channel, [('array', nb, na, (2, 1, 3), m) for nb, na in [(1, 2), (3, 0), (3, 1), (2, 3), (3, 3), (6, 2), (1, 5), (8, 1), (1, 1), (1, 0)] + ctx.deep((2, 2), (4, 4), (5, 3), (12, 1)) for m in (False, True)] + [('list taps', 2, 2, (2, 2), False), ('int', 2, 2, (2, 2), False)])
    ctx.pmap(fir, [1, 2, 4, 7, 16, 33] + ctx.deep(3, 5, 6, 12, 24, 50))
    ctx.pmap(long_filter, [(c, nb, na, sz) for c in ('Filter', 'FilterTII', 'awgn_channel') for nb, na, sz in ((40, 1, (70, 30)), (3, 3, (300, 150)), (2, 16, (40, 20)))] + [('awgn_channel', 3, 3, (1200, 600))])
    ctx.pmap(ctle, [(z, p, m) for z, p in ((1, 1), (1, 2), (2, 2), (0, 1), (2, 3), (2, 1), (0, 2), (3, 3), (1, 4)) for m in ('coefficients', 'one call', 'chunks') if m != 'one call' or z + p <= 3])


def c17(ctx):
    ctx.rule('ffe-dfe', 'ffe_dfe: output, FFE memory and DFE memory follow the documented recursion (slicer decisions of the sampling phase fed back), and feeding the memories to the next call continues the signal')
    ctx.rule('ffe-dfe-object', 'FfeDfeFilterTII: the same recursion, sample by sample, across calls')
    it = [(F, D, 1, 0, None, False, (3, 2), 'default') for F in (1, 2, 3) for D in (0, 1, 2, 3)]
    it += [(F, D, 1, 0, mf, D > 0, (2, 3), 'two') for F in (2, 3) for D in (0, 2) for mf in ('full', 'short')] + [(1, 2, 1, 0, None, True, (2, 2), 'two')]
    it += [(2, 2, osr, ph, None, False, (5,), 'default') for osr, ph in ((2, 0), (2, 1), (3, 0), (3, 1), (3, 2), (4, 1), (4, 0), (4, 2), (4, 3), (5, 0), (5, 2), (5, 4))] + [(2, 1, 2, 0, None, False, (2, 4), 'two')]
    it += [(1, 5, 1, 0, None, False, (7,), 'two'), (5, 1, 1, 0, None, False, (6,), 'two'), (4, 4, 1, 0, 'full', True, (3, 2), 'two'), (2, 1, 8, 5, None, False, (3,), 'two')]
    it += ctx.deep(*[(F, D, osr, ph, None, False, (n,), lv) for F in (1, 2, 3) for D in (1, 2) for osr, ph in ((1, 0), (2, 0), (2, 1), (3, 1), (4, 3)) for n in (4, 6) for lv in ('default', 'two') if lv == 'two' or n == 4])
    ctx.pmap(ffedfe, it)
    ctx.pmap(long_ffedfe, [(28, 0, 1, 0, (90, 60)), (28, 10, 1, 0, (80, 40)), (4, 3, 3, 1, (90, 60)), (2, 1, 3, 1, (300,)), (3, 2, 1, 0, (150, 150)), (40, 16, 2, 0, (100,))])
    ctx.pmap(ffe_any, [(F, m) for F in [2, 3, 4, 5, 9, 17] + ctx.deep(6, 7, 8, 12, 33) for m in (None, 'full', 'short')])
    ctx.pmap(ffedfe_obj, [(1, 1, (2, 3), 1.0), (2, 2, (3, 2), 1.0), (3, 1, (1, 4), 2.0), (2, 3, (5,), 1.0), (3, 0, (2, 2), 1.0)])
