"""C27: the building blocks of the example link."""
from itertools import combinations, product
from sa import universe as U, eqv, poly as P, npm
from sa.dom import *
from sa.poly import Poly
from sa.eqv import Alphabet, Points
from sa.frame import ok, viol, und
from .rel import Want, symbolic, short, C, arr_of, el
from .filters import elems, vec_want

S = U.S
BITS = Alphabet(x=(0, 1))
ORDER = ('coding_bin_differential', 'coding_manchester', 'coding_bipolar', 'coding_mlt3', 'coding_diff_manchester', 'coding_linear', 'coding_conv')
SYMF = ('bit_order_inv', 'inv_msb', 'inv_lsb', 'pn_inv')
LIN = [[1, 0, 1], [0, 1, 1]]


def get(I, o, name):
    return I.getattr(o, name, None)


def recursive(b):
    """a systematic code with feedback"""
    return {'G': b.dct('G', {0: b.carr('G0', [[1, 0, 0], [1, 1, 0]])}), 'feedback': b.dct('feedback', {0: b.carr('f0', [1, 0, 1])}), 'use_feedback': b.carr('use_feedback', [[0, 1]])}


def data(I, b, bps, con, codes, flags, chunk=4):
    kw = {k: b.const(k, True) for k in tuple(codes) + tuple(flags) if k != 'recursive'}
    if 'coding_linear' in codes:
        kw['G'] = b.carr('G', LIN)
    if 'coding_conv' in codes:
        kw['G'] = b.dct('G', {0: b.carr('G0', [[1, 1], [1, 0]])})
    if 'recursive' in codes:
        kw.update(recursive(b))
    return U.call(I, S + 'data_objects.CodingData', b.const('bits_per_symbol', bps), b.enum('constellation', 'ConstellationEnum', [con]), b.const('chunk_size', chunk), **kw)


def compose(I, b, x, bps, con, codes, flags):
    """what the encoder is to do, said with the functions of the package"""
    T = 'CommDspy.tx.'
    y = x
    for k in ORDER:
        if k not in codes:
            continue
        a = []
        if k == 'coding_bin_differential':
            k, a = 'coding_differential', [b.enum('c2', 'ConstellationEnum', ['OOK'])]
        elif k == 'coding_diff_manchester':
            k = 'coding_differential_manchester'
        elif k == 'coding_linear':
            a = [b.carr('G', LIN)]
        elif k == 'coding_conv':
            a = [b.dct('G', {0: b.carr('G0', [[1, 1], [1, 0]])})]
            if 'recursive' in codes:
                a = [recursive(b)[q] for q in ('G', 'feedback', 'use_feedback')]
        y = U.call(I, T + k, y, *a)
    if bps > 1:
        y = U.call(I, T + 'bin2symbol', y, b.const('m', 2 ** bps), **{k: b.const(k, True) for k in flags if k in SYMF})
    elif 'pn_inv' in flags:
        e = I.heap[y.x]
        y = I.alloc(e.rep(elem=lambda idx, e=e: C(1) - e.elem(idx), const=None, nt='int'))
    for k in ('coding_differential', 'coding_gray'):
        if k in flags:
            y = U.call(I, T + k, y, b.enum('c3', 'ConstellationEnum', [con]))
    return y


def codec(I, item):
    bps, con, codes, flags, lengths = item
    nm = '%d bits per symbol, %s' % (bps, ', '.join(codes + flags) or 'no coding')

    def build(I, b, n):
        x = b.arr('x', (n,), 'int', 0, 1)
        xs = elems(I, x, n)
        y = I.call(U.call(I, S + 'transmitter.Encoder', data(I, b, bps, con, codes, flags, n)), [x], {}, None)
        z = I.call(U.call(I, S + 'receiver.Decoder', data(I, b, bps, con, codes, flags, n)), [y], {}, None)
        if z.k == 'tuple' and z.x:
            z = z.x[0]
        w = compose(I, b, x, bps, con, codes, flags)
        return [('encoded', y, I.heap[w.x]), ('decoded', z, vec_want(xs))]
    return short(I, 'codec', nm, build, BITS, lambda n, t: [('x', (n,))], lengths, maxp=400)


def prbs(I, item):
    kind, n, chunk, k, seeded = item
    nm = 'PrbsGen %s, %d chunks of %d, %s seed' % (kind, k, chunk, 'given' if seeded else 'default')

    def build(I, b, i, m):
        kw = {'init_seed': b.arr('x', (n,), 'int', 0, 1)} if seeded else {}
        pd = U.call(I, S + 'data_objects.PrbsData', b.enum('prbs_type', 'PrbsEnum', [kind]), b.const('chunk_size', chunk), **kw)
        g = U.meth(I, U.call(I, S + 'transmitter.PrbsGen', pd), '__iter__')
        out, seeds = [], []
        for _ in range(k):
            seeds.append(U.meth(I, g, 'get_seed'))
            out.append((U.meth(I, g, '__next__'), U.meth(I, g, 'get_prev_seed'), U.meth(I, g, 'get_seed')))
        poly = U.call(I, 'CommDspy.get_polynomial', b.enum('prbs_type', 'PrbsEnum', [kind]))
        seed = b.arr('x', (n,), 'int', 0, 1) if seeded else b.carr('ones', [1] * n)
        w, ws = U.parts(I, U.call(I, 'CommDspy.tx.prbs_gen', poly, seed, b.const('n', chunk * k)), 2)
        we = I.heap[w.x].elem
        r = [('final seed', out[-1][2], I.heap[ws.x])]
        for c in range(k):
            r.append(('chunk %d' % c, out[c][0], Want((chunk,), lambda idx, c=c: we((C(chunk * c) + idx[0],)))))
            r.append(('previous seed %d' % c, out[c][1], I.heap[seeds[c].x]))
        return r
    return symbolic(I, 'prbs-chunks', nm, build, BITS)


def transmitter(I, item):
    con, bps, flags, lv = item
    nm = 'Transmitter %s, %s, %s' % (con, ','.join(flags) or 'plain', 'given levels' if lv else 'default levels')
    chunk = 8

    def build(I, b, i, m):
        n = 7
        pd = U.call(I, S + 'data_objects.PrbsData', b.enum('prbs_type', 'PrbsEnum', ['PRBS7']), b.const('chunk_size', chunk), init_seed=b.arr('x', (n,), 'int', 0, 1))
        kw = {'levels': b.carr('levels', lv), 'amp_pp_mv': b.const('amp_pp_mv', 3)} if lv else {}
        md = U.call(I, S + 'data_objects.MappingData', b.enum('con', 'ConstellationEnum', [con]), **kw)
        t = U.call(I, S + 'transmitter.Transmitter', pd, data(I, b, bps, con, (), flags, chunk), md)
        poly = U.call(I, 'CommDspy.get_polynomial', b.enum('prbs_type', 'PrbsEnum', ['PRBS7']))
        seed = b.arr('x', (n,), 'int', 0, 1)
        r = []
        for k in range(2):
            got = U.meth(I, t, 'generate')
            w, seed = U.parts(I, U.call(I, 'CommDspy.tx.prbs_gen', poly, seed, b.const('n', chunk)), 2)
            sy = compose(I, b, w, bps, con, (), flags)
            kw = {}
            if lv:
                mx = max(abs(v) for v in lv)
                kw = {'levels': b.carr('lv', [v / mx * 1.5 for v in lv])}
            mp = U.call(I, 'CommDspy.tx.mapping', sy, b.enum('con', 'ConstellationEnum', [con]), **kw)
            r += [('chunk %d' % k, got, I.heap[mp.x]), ('kept bits %d' % k, get(I, t, 'prbs_chunk'), I.heap[w.x]), ('kept symbols %d' % k, get(I, t, 'encoded_prbs_chunk'), I.heap[sy.x]),
                  ('kept levels %d' % k, get(I, t, 'mapped_prbs_chunk'), I.heap[mp.x])]
        return r
    return symbolic(I, 'transmitter', nm, build, BITS)


def chunked(I, obj, x, n, sizes, b):
    """the object called on consecutive pieces of x: element summaries of all its outputs, or None"""
    o = I.heap[x.x]
    k, out = 0, []
    for s in sizes:
        piece = I.alloc(Arr(shape=(C(s),), nt=o.nt, elem=lambda idx, k=k: o.elem((C(k) + idx[0],)), fx=o.fx))
        y = I.call(obj, [piece], {}, None)
        a = I.heap[y.x] if y.k == 'ref' else None
        if not isinstance(a, Arr) or a.shape is None or len(a.shape) != 1 or a.shape[0].cint() is None or a.elem is None:
            return None
        out += [a.elem((C(j),)) for j in range(a.shape[0].cint())]
        k += s
    return out


def want_list(I, v, n):
    a = I.heap[v.x]
    return vec_want([a.elem((C(j),)) for j in range(n)])


def stage(I, item):
    kind, sizes, opt = item
    n = sum(sizes)
    nm = '%s %s in chunks of %s' % (kind, opt, list(sizes))
    dom = Points(rows=12)

    def build(I, b, i, m):
        x = b.arr('x', (n,))
        if kind == 'Channel':
            ctype, nb, na, osr, span, zi = opt
            kw = {}
            if nb:
                kw['fir_coefs'] = b.arr('b', (nb,))
            if na:
                kw['iir_coefs'] = b.carr('a', [1, 0.5, -0.25][:na])
            zk = {}
            if zi:
                kw['pulse_zi'] = b.arr('pz', (2 * osr * span - 1,))
                kw['ch_zi'] = b.arr('cz', (max(nb or 1, na or 1) - 1,))
            cd = U.call(I, S + 'data_objects.ChannelData', b.const('pulse', 'rcos'), b.const('pulse_span', span), b.const('ch_type', ctype), osr=b.const('osr', osr), rolloff=b.const('rolloff', 0.25), snr=NONE, **kw)
            o = U.call(I, S + 'channel.Channel', cd)
            got = chunked(I, o, x, n, sizes, b)
            a = {'zi': b.arr('pz', (2 * osr * span - 1,))} if zi else {}
            w = U.call(I, 'CommDspy.channel.pulse_shape', x, b.const('osr', osr), b.const('span', span), b.const('pulse', 'rcos'), b.const('beta', 0.25), **a)
            w = U.parts(I, w, 2)[0]
            if ctype == 'isi_awgn':
                nz = max(nb or 1, na or 1) - 1
                zz = b.arr('cz', (nz,)) if zi else b.carr('z0', [0.0] * nz)
                w = U.parts(I, U.call(I, 'CommDspy.channel.awgn_channel', w, b.arr('b', (nb,)) if nb else b.carr('b1', [1]), b.carr('a', [1, 0.5, -0.25][:na]) if na else b.carr('a1', [1]), snr=NONE, zi=zz), 2)[0]
            ln = n * osr
        elif kind == 'Ctle':
            nz, npl, zi = opt
            m = max(nz, npl)

            def args():
                return [b.carr('zeros', [0.3, 0.8][:nz]), b.carr('poles', [0.5, 1.25, 2.0][:npl]), b.const('g', -3.0)]
            kw = {'zi': b.arr('z', (m,))} if zi else {}
            o = U.call(I, S + 'receiver.Ctle', U.call(I, S + 'data_objects.CtleData', *args(), b.const('fs', 4.0), b.const('osr', 2), **kw))
            got = chunked(I, o, x, n, sizes, b)
            w = U.call(I, 'CommDspy.rx.ctle', x, *args(), fs=b.const('fs', 4.0), osr=b.const('osr', 2), zi=b.arr('z', (m,)) if zi else b.carr('z0', [0.0] * m))
            w = U.parts(I, w, 2)[0]
            ln = n
        else:
            pre, post, nd, own, zi = opt
            nf = pre + post + 1
            kw = {'levels': b.carr('levels', [-3, -1, 1, 3])}
            if own:
                kw['ffe_vec'] = b.arr('f' if own != 'set' else 'f_old', (nf,))
                kw['dfe_vec'] = b.arr('d' if own != 'set' else 'd_old', (nd,))
            if zi:
                kw['zi_ffe'] = b.arr('zf', (nf,))
                kw['zi_dfe'] = b.arr('zd', (nd,))
            o = U.call(I, S + 'receiver.FfeDfe', U.call(I, S + 'data_objects.FfeDfeData', b.const('p', pre), b.const('q', post), b.const('k', nd), **kw))
            if own == 'set':
                U.meth(I, o, 'set_ffe', b.arr('f', (nf,)))
                U.meth(I, o, 'set_dfe', b.arr('d', (nd,)))
            got = chunked(I, o, x, n, sizes, b)
            k2 = {'ffe_taps': b.arr('f', (nf,)) if own else b.carr('f1', [1.0 if j == pre else 0.0 for j in range(nf)]), 'levels': b.carr('levels', [-3, -1, 1, 3])}
            if nf > 1:
                k2['zi_ffe'] = b.arr('zf', (nf,)) if zi else b.carr('zf0', [0.0] * nf)
            if nd:
                k2['dfe_taps'] = b.arr('d', (nd,)) if own else b.carr('d0', [0.0] * nd)
                k2['zi_dfe'] = b.arr('zd', (nd,)) if zi else b.carr('zd0', [0.0] * nd)
            w = U.call(I, 'CommDspy.rx.ffe_dfe', x, **k2)
            w = w.x[0] if w.k == 'tuple' else w
            ln = n
        if got is None:
            return [('output', TOP, want_list(I, w, ln))]
        return [('output', I.alloc(Arr(shape=(C(len(got)),), nt='float', elem=lambda idx: got[idx[0].cint()], fx=I.heap[x.x].fx)), want_list(I, w, ln))]
    return symbolic(I, 'stages', nm, build, dom)


def adc(I, item):
    n, osr, rate, phase, bits, frac, qt = item
    nm = 'Adc of %d samples, osr %d, %d per symbol, phase %s, %d.%d %s' % item
    dom = Alphabet(x=tuple(range(-9, 19)))

    def build(I, b, i, m):
        x = b.arr('x', (n,))
        xs = elems(I, x, n)
        kw = {} if phase is None else {'phase': b.const('phase', phase)}
        o = U.call(I, S + 'receiver.Adc', U.call(I, S + 'data_objects.AdcData', b.const('t', bits), b.const('f', frac), b.const('q', qt), b.const('osr', osr), b.const('r', rate), **kw))
        y = I.call(o, [x], {}, None)
        ph = osr // 2 if phase is None else phase
        src = list(range(ph, n, osr // rate))
        q = U.call(I, 'CommDspy.rx.quantize', I.alloc(Arr(shape=(C(len(src)),), nt='float', elem=lambda idx: xs[src[idx[0].cint()]] if idx[0].cint() is not None else None, fx=I.heap[x.x].fx)), b.const('t', bits), b.const('f', 0), b.const('q', qt))
        e = I.heap[q.x].elem
        return [('samples', y, Want((len(src),), lambda idx: e(idx) * C(1) * P.pinv(C(2 ** frac))))]
    return symbolic(I, 'stages', nm, build, dom)


def receiver(I, item):
    osr, pre, post, nd, gain, factor, flags = item
    nm = 'Receiver osr %d, %d+1+%d taps, %d feedback taps, gain %s, levels x %s, %s' % (osr, pre, post, nd, gain, factor, ','.join(flags) or 'plain')
    n = 2 * osr
    con, bps, lv = 'PAM4', 2, [-3.0, -1.0, 1.0, 3.0]

    def build(I, b, i, m):
        nf = pre + post + 1

        def ctle():
            return U.call(I, S + 'receiver.Ctle', cdat())

        def cdat():
            return U.call(I, S + 'data_objects.CtleData', b.carr('zeros', [0.5]), b.carr('poles', [1.25]), b.const('g', -3.0), b.const('fs', 4.0), b.const('osr', osr))

        def adat():
            return U.call(I, S + 'data_objects.AdcData', b.const('t', 4), b.const('f', 1), b.const('q', 'ss'), b.const('osr', osr), b.const('r', 1))

        def fdat():
            return U.call(I, S + 'data_objects.FfeDfeData', b.const('p', pre), b.const('q', post), b.const('k', nd), levels=b.carr('levels', lv), ffe_vec=b.carr('f', [0.25, 1.0, -0.5, 0.125][:nf]), dfe_vec=b.carr('d', [0.5, -0.25][:nd]))
        md = U.call(I, S + 'data_objects.MappingData', b.enum('con', 'ConstellationEnum', [con]), levels=b.carr('ml', lv), amp_pp_mv=b.const('amp', 4.0), rx_factor=b.const('rf', factor))
        kw = {'digital_gain': b.const('gain', gain)} if gain != 1 else {}
        r = U.call(I, S + 'receiver.Receiver', cdat(), adat(), fdat(), md, data(I, b, bps, con, (), flags), **kw)
        c, a, f = ctle(), U.call(I, S + 'receiver.Adc', adat()), U.call(I, S + 'receiver.FfeDfe', fdat())
        d = U.call(I, S + 'receiver.Decoder', data(I, b, bps, con, (), flags))
        out = []
        for k, name in enumerate(('x', 'y')):
            x = b.arr(name, (n,))
            got = I.call(r, [x], {}, None)
            w1 = I.call(c, [x], {}, None)
            w2 = I.call(a, [w1], {}, None)
            w3 = I.call(f, [w2], {}, None)
            e3 = I.heap[w3.x]
            w4 = I.alloc(e3.rep(elem=lambda idx, e3=e3: e3.elem(idx) * npm.pc(gain), const=None))
            w5 = U.call(I, 'CommDspy.rx.slicer', w4, b.carr('rl', [v / 3 * factor for v in lv]))
            w6 = U.call(I, 'CommDspy.rx.demapping', w5, b.enum('con', 'ConstellationEnum', [con]))
            w7 = I.call(d, [w6], {}, None)
            for lab, at, w in (('CTLE output', 'ctle_out', w1), ('ADC output', 'adc_out', w2), ('slicer input', 'slicer_in', w4), ('slicer output', 'slicer_out', w5), ('symbols', 'demapped_chunk', w6), ('bits', 'decoded_chunk', w7)):
                out.append(('%s %d' % (lab, k), get(I, r, at), I.heap[w.x]))
            out.append(('result %d' % k, got, I.heap[w7.x]))
            if k:
                for lab, at, w in last:
                    out.append((lab, get(I, r, at), I.heap[w.x]))
            last = [('previous ' + at, at + '_last', w) for at, w in (('ctle_out', w1), ('adc_out', w2), ('slicer_in', w4), ('slicer_out', w5), ('demapped_chunk', w6), ('decoded_chunk', w7))]
        return out
    return symbolic(I, 'receiver', nm, build, Points(rows=10))


def _go(I, it):
    return {'codec': codec, 'prbs': prbs, 'tx': transmitter, 'stage': stage, 'adc': adc, 'rx': receiver}[it[0]](I, it[1])


def c27(ctx):
    ctx.rule('codec', 'Encoder applies the enabled codes of the package in order and Decoder returns the encoded bits')
    ctx.rule('prbs-chunks', 'the chunks of PrbsGen continue one sequence from the given seed; the seeds reported are those before and after the chunk')
    ctx.rule('transmitter', 'Transmitter.generate maps the coded next PRBS chunk to the (scaled) levels and keeps the intermediate chunks')
    ctx.rule('stages', 'Channel, Ctle and FfeDfe fed in chunks give what the package function gives for the whole signal; Adc samples at its phase and rate and scales')
    ctx.rule('receiver', 'Receiver passes a chunk through CTLE, ADC, equaliser times digital gain, slicer with the scaled levels, demapping and decoder, and keeps the outputs of the present and the previous chunk')
    its = []
    L1 = ('coding_bin_differential', 'coding_manchester', 'coding_bipolar', 'coding_mlt3', 'coding_diff_manchester')
    combos = [(k,) for k in ORDER] + [()]
    combos += [('coding_bin_differential', k) for k in ORDER[1:]] + [('coding_manchester', k) for k in ORDER[2:]] + [('coding_diff_manchester', 'coding_linear'), ('coding_bin_differential', 'coding_manchester', 'coding_bipolar'),
               ('coding_bin_differential', 'coding_manchester', 'coding_linear'), ('coding_bin_differential', 'coding_diff_manchester', 'coding_linear')]
    for c in combos:
        wide = len(c) > 1 and ('coding_linear' in c or 'coding_conv' in c)
        for pn in ((), ('pn_inv',)):
            its.append(('codec', (1, 'OOK', c, pn, (2,) if 'coding_conv' in c and wide else (2, 4) if 'coding_linear' in c or 'coding_conv' in c else (1, 2, 3, 4, 5) if len(c) < 2 else (1, 2, 4))))
    its += [('codec', (1, 'OOK', c + ('coding_conv', 'recursive'), pn, (2, 4))) for c in ((), ('coding_bin_differential',)) for pn in ((), ('pn_inv',)) if not (c and pn)]
    for fl in [tuple(k for k, v in zip(SYMF, m) if v) for m in product((0, 1), repeat=4)]:
        for ex in ((), ('coding_gray',), ('coding_differential',), ('coding_differential', 'coding_gray')):
            its.append(('codec', (2, 'PAM4', (), fl + ex, (2, 4, 6))))
    for c in (('coding_bin_differential',), ('coding_manchester',), ('coding_linear',), ('coding_diff_manchester',)):
        its.append(('codec', (2, 'PAM4', c, ('inv_lsb', 'coding_differential', 'coding_gray'), (4,))))
    its += [('prbs', (k, n, c, r, s)) for k, n, c, r, s in (('PRBS7', 7, 4, 3, True), ('PRBS7', 7, 7, 2, True), ('PRBS7', 7, 10, 3, True), ('PRBS7', 7, 16, 2, False), ('PRBS9', 9, 5, 4, True), ('PRBS9', 9, 20, 2, True), ('PRBS13', 13, 16, 3, False), ('PRBS7', 7, 1, 5, True))]
    its += [('tx', (con, bps, fl, lv)) for con, bps in (('PAM4', 2), ('NRZ', 1), ('OOK', 1)) for fl in ((), ('pn_inv',), ('coding_gray',), ('coding_differential',)) for lv in (None, [-2.0, 1.0] if bps == 1 else [-3.0, -0.5, 0.75, 2.0])]
    SZ = ((3, 5), (4, 4, 4), (1, 6, 2))
    its += [('stage', ('Channel', s, o)) for s in SZ for o in (('pulse', 0, 0, 2, 2, False), ('pulse', 0, 0, 1, 1, True), ('isi_awgn', 3, 0, 2, 1, False), ('isi_awgn', 2, 3, 1, 1, False), ('isi_awgn', 3, 2, 1, 1, True), ('isi_awgn', 0, 2, 2, 1, False))]
    its += [('stage', ('Ctle', s, o)) for s in SZ for o in ((1, 2, False), (1, 2, True), (2, 3, False), (0, 1, False))]
    its += [('stage', ('FfeDfe', s, o)) for s in SZ for o in ((1, 1, 0, True, False), (0, 2, 0, 'set', True), (1, 2, 2, True, False), (0, 0, 2, True, True), (0, 0, 0, True, False), (1, 0, 1, False, False), (1, 1, 2, 'set', True))]
    its += [('adc', o) for o in ((16, 4, 1, None, 4, 2, 'ss'), (16, 4, 2, 1, 4, 0, 's'), (12, 2, 1, 0, 3, 1, 'u'), (13, 4, 4, 3, 4, 3, 'ss'), (6, 1, 1, None, 5, 2, 's'))]
    its += [('rx', o) for o in ((2, 0, 0, 0, 1, 3, ()), (2, 1, 1, 0, 1, 3, ('coding_gray',)), (2, 0, 1, 1, 2.0, 3, ()), (2, 1, 0, 2, 1, 3, ('inv_msb',)))]
    its += ctx.deep(*[('prbs', (k, n, c, r, s)) for k, n in (('PRBS7', 7), ('PRBS9', 9), ('PRBS11', 11), ('PRBS15', 15)) for c, r in ((2, 6), (n, 3), (n + 1, 3), (3 * n, 2)) for s in (True, False)])
    its += ctx.deep(*[('stage', (w, s, o)) for s in ((1, 1, 1, 1), (7,), (2, 9)) for w, os in (('Channel', (('isi_awgn', 4, 4, 1, 1, False), ('isi_awgn', 5, 0, 2, 2, False), ('pulse', 0, 0, 4, 2, False))), ('Ctle', ((2, 2, False), (1, 3, False))), ('FfeDfe', ((2, 2, 1, True, False), (3, 0, 2, 'set', True)))) for o in os])
    ctx.pmap(_go, its)
