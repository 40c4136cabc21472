"""C29: the link as a whole, its error counter and one adaptation step."""
from sa import universe as U, eqv, npm
from sa.dom import *
from sa.poly import Poly
from sa.eqv import Alphabet, Points
from sa.frame import ok, viol, und
from .rel import Want, symbolic, C, arr_of, el
from .filters import elems, vec_want
from .lock import hook_lock
from .link import S, get, data

LV = [-3.0, -1.0, 1.0, 3.0]
LOCK = ('func', 'CommDspy.rx.lock_pattern.lock_pattern_to_signal_binary')


def blocks(I, b, osr, pre, post, nd, flags, ch, chunk=4, factor=1):
    D = S + 'data_objects.'
    nf = pre + post + 1
    pd = U.call(I, D + 'PrbsData', b.enum('prbs_type', 'PrbsEnum', ['PRBS7']), b.const('chunk_size', chunk))
    cd = data(I, b, 2, 'PAM4', (), flags, chunk)
    md = U.call(I, D + 'MappingData', b.enum('con', 'ConstellationEnum', ['PAM4']), levels=b.carr('ml', LV), amp_pp_mv=b.const('amp', 4.0), rx_factor=b.const('rf', factor))
    kw = {'fir_coefs': b.carr('fir', [1.0, 0.25])} if ch != 'pulse' else {}
    if ch != 'pulse':
        kw['snr'] = b.const('snr', None)
    chd = U.call(I, D + 'ChannelData', b.const('pulse', 'rcos'), b.const('span', 2), b.const('ch_type', ch), osr=b.const('osr', osr), **kw)
    ct = U.call(I, D + 'CtleData', b.carr('zeros', [0.5]), b.carr('poles', [1.25]), b.const('g', -3.0), b.const('fs', 4.0), b.const('osr', osr))
    ad = U.call(I, D + 'AdcData', b.const('t', 6), b.const('f', 3), b.const('q', 'ss'), b.const('osr', osr), b.const('r', 1))
    fd = U.call(I, D + 'FfeDfeData', b.const('p', pre), b.const('q', post), b.const('k', nd), levels=b.carr('levels', LV), ffe_vec=b.carr('f', [0.25, 1.0, -0.5, 0.125][:nf]), dfe_vec=b.carr('d', [0.5, -0.25][:nd]))
    return pd, cd, md, chd, ct, ad, fd


def full(I, item):
    osr, pre, post, nd, flags, ch = item
    nm = 'FullLink osr %d, %d+1+%d taps, %d feedback taps, %s, %s' % (osr, pre, post, nd, ','.join(flags) or 'plain', ch)

    def build(I, b, i, n):
        B1 = blocks(I, b, osr, pre, post, nd, flags, ch)
        pd, cd, md, chd, ct, ad, fd = blocks(I, b, osr, pre, post, nd, flags, ch)
        link = U.call(I, S + 'full_link.FullLink', U.call(I, S + 'data_objects.FullLinkData', *B1))
        tx = U.call(I, S + 'transmitter.Transmitter', pd, cd, md)
        c = U.call(I, S + 'channel.Channel', chd)
        rx = U.call(I, S + 'receiver.Receiver', ct, ad, fd, md, cd)
        out = []
        for k in range(3):
            got = I.call(link, [], {}, None)
            w1 = U.meth(I, tx, 'generate')
            w2 = I.call(c, [w1], {}, None)
            w3 = I.call(rx, [w2], {}, None)
            out += [('sent levels %d' % k, get(I, link, 'chunk'), I.heap[w1.x]), ('channel output %d' % k, get(I, link, 'ch_out'), I.heap[w2.x]),
                    ('received bits %d' % k, got, I.heap[w3.x]), ('kept bits %d' % k, get(I, link, 'decoded_bits'), I.heap[w3.x])]
        return out
    return symbolic(I, 'link', nm, build, Points(rows=6))


def pn7():
    r, out = [1] * 7, []
    for _ in range(127):
        x = r[5] ^ r[6]
        r = [x] + r[:-1]
        out.append(x)
    return out


def ber(I, item):
    n1, n2, shift = item
    nm = 'Checker: chunks of %d and %d bits, rotation %d' % item
    ref = pn7()

    def build(I, b, i, n):
        I.hooks[LOCK] = hook_lock(shift, [])
        pd = U.call(I, S + 'data_objects.PrbsData', b.enum('prbs_type', 'PrbsEnum', ['PRBS7']), b.const('chunk_size', 8))
        c = U.call(I, 'example_simulation.analyzer.analyzer_classes.Checker', pd)
        x, y = b.arr('x', (n1,), 'int', 0, 1), b.arr('y', (n2,), 'int', 0, 1)
        ex, ey = elems(I, x, n1), elems(I, y, n2)
        r1 = U.meth(I, c, 'check_ber', x)
        a1, s1 = get(I, c, 'acc_errors'), get(I, c, 'acc_symbols')
        r2 = U.meth(I, c, 'check_ber', y)
        a2, s2 = get(I, c, 'acc_errors'), get(I, c, 'acc_symbols')

        def wrong(e):
            return sum((q if ref[(j + shift) % 127] == 0 else C(1) - q for j, q in enumerate(e)), C(0))
        w1, w2 = wrong(ex), wrong(ey)
        I.hooks.clear()
        sc = lambda q: Want((), lambda idx: q)
        return [('error rate of the first chunk', r1, sc(w1 * C(npm.Fraction(1, n1)))), ('errors after the first chunk', a1, sc(w1)), ('bits after the first chunk', s1, sc(C(n1))),
                ('error rate of the second chunk', r2, sc(w2 * C(npm.Fraction(1, n2)))), ('errors after the second chunk', a2, sc(w1 + w2)), ('bits after the second chunk', s2, sc(C(n1 + n2)))]
    try:
        return symbolic(I, 'error-count', nm, build, Points(rows=12, x=(0, 1), y=(0, 1)))
    finally:
        I.hooks.clear()


def step(I, item):
    """one converging call of the receiver, after one plain call"""
    osr, pre, post, nd, ns, lr, factor = item
    free = not nd and ns < 5
    nm = 'Receiver step osr %d, %d+1+%d taps, %d feedback taps, %d symbols, rate %s, levels x %s' % item

    def build(I, b, i, n):
        def rx():
            pd, cd, md, chd, ct, ad, fd = blocks(I, b, osr, pre, post, nd, (), 'pulse', 4, factor)
            return U.call(I, S + 'receiver.Receiver', ct, ad, fd, md, cd, **({'lms_lr': b.const('lr', lr)} if lr else {}))
        B1 = blocks(I, b, osr, pre, post, nd, (), 'pulse', 4, factor)
        link = U.call(I, S + 'full_link.FullLink', U.call(I, S + 'data_objects.FullLinkData', *B1))
        r, p = rx(), rx()
        I.setattr(link, 'Rx', r, None)
        if free:                        # the analogue front end delivers arbitrary samples
            I.hooks[('func', 'CommDspy.rx.ctle_model.ctle')] = lambda I, fo, env, node: vtuple([list(env.values())[0], I.alloc(Arr(shape=(C(1),), nt='float', elem=lambda idx: C(0)))])
            I.hooks[('func', 'CommDspy.rx.quantiztion.quantize')] = lambda I, fo, env, node: list(env.values())[0]
        xs = [b.carr('x', [0.25 * ((5 * j) % 11) - 1.25 for j in range(ns * osr)]), b.carr('y', [0.25 * ((7 * j + 3) % 13) - 1.5 for j in range(ns * osr)])] if not free else [b.arr('x', (ns * osr,)), b.arr('y', (ns * osr,))]
        I.call(r, [xs[0]], {}, None)
        I.call(p, [xs[0]], {}, None)
        U.meth(I, link, 'start_convergence')
        last = get(I, p, 'adc_out')
        I.call(r, [xs[1]], {}, None)
        I.call(p, [xs[1]], {}, None)
        a, la = (elems(I, v, ns) for v in (get(I, p, 'adc_out'), last))
        vec = (la[ns - pre:] + a[:ns - pre]) if pre else a
        adc = I.alloc(Arr(shape=(C(ns),), nt='float', elem=lambda idx: vec[idx[0].cint()] if idx[0].cint() is not None else None))
        sl = elems(I, get(I, p, 'slicer_in'), ns)
        levels = [v / 3 * factor for v in LV]
        rate = npm.pc(lr if lr else 2.0 ** -10)
        gain = C(1) + rate * 100 * (npm.pc(sum(v * v for v in levels) / 4) - sum((q * q for q in sl), C(0)) * C(npm.Fraction(1, ns)))
        out_ = I.alloc(Arr(shape=(C(ns),), nt='float', elem=lambda idx: gain * sl[idx[0].cint()] if idx[0].cint() is not None else None))
        mm = U.call(I, 'CommDspy.rx.mueller_muller_step', adc, get(I, p, 'slicer_out'), tol=b.const('tol', 1e-3))
        idx = {'ffe_tap_idx': b.carr('fi', list(range(-pre, post + 1)))}
        if nd:
            idx['dfe_tap_idx'] = b.carr('di', list(range(1, nd + 1)))
        g = U.call(I, 'CommDspy.rx.ddlms_grad', adc, out_, b.carr('rl', levels), **idx)
        g = U.parts(I, g, 2 + bool(nd))
        f0, d0 = [0.25, 1.0, -0.5, 0.125][:pre + post + 1], [0.5, -0.25][:nd]
        gf = elems(I, g[1], len(f0))
        fe = get(I, r, 'ffe_dfe')
        sc = lambda q: Want((), lambda idx: q)
        mmp = mm.p
        ph = eqv.spec('phase %d' % osr, lambda v: (osr // 2 + v) % osr, mmp)
        out = [('digital gain', get(I, r, 'dig_gain'), sc(gain)), ('mean squared error', get(I, r, 'lms_mse_last'), sc(g[0].p)),
               ('FFE taps', get(I, fe, 'ffe_vec'), vec_want([npm.pc(f) - rate * q for f, q in zip(f0, gf)])),
               ('phase', get(I, r, 'phase'), sc(ph)), ('ADC phase', get(I, get(I, r, 'adc'), 'phase'), sc(ph)),
               ('timing still adapting', flag(I, r, 'converge_cdr'), sc(eqv.spec('nz', lambda v: int(v != 0), mmp))),
               ('equaliser still adapting', flag(I, r, 'converge_lms'), sc(C(1))), ('still adapting', flag(I, r, 'converge'), sc(C(1)))]
        if nd:
            gd = elems(I, g[2], nd)
            out.append(('DFE taps', get(I, fe, 'dfe_vec'), vec_want([npm.pc(f) - rate * q for f, q in zip(d0, gd)])))
        for lab, at in (('slicer input', 'slicer_in'), ('slicer output', 'slicer_out'), ('bits', 'decoded_chunk')):
            out.append((lab, get(I, r, at), I.heap[get(I, p, at).x]))
        if not free:                    # further steps on the same chunk: adaptation ends when the error rests
            for k in range(2, 5):
                m1 = get(I, r, 'lms_mse_last')
                l1, c1 = flag(I, r, 'converge_lms'), flag(I, r, 'converge_cdr')
                if l1.k != 'num' or not l1.p.cint():
                    break
                I.call(r, [xs[1]], {}, None)
                m2 = get(I, r, 'lms_mse_last')
                cd = flag(I, r, 'converge_cdr')
                on = eqv.spec('moving', lambda u, v: int(abs(u - v) >= 0.01), m1.p, m2.p)
                out += [('equaliser still adapting after step %d' % k, flag(I, r, 'converge_lms'), sc(on)),
                        ('still adapting after step %d' % k, flag(I, r, 'converge'), sc(eqv.spec('or', lambda u, v: int(bool(u) or bool(v)), on, cd.p))),
                        ('finished after step %d' % k, flag(I, r, 'converge_done'), sc(eqv.spec('nor', lambda u, v: int(not u and not v), on, cd.p)))]
        return out
    try:
        return symbolic(I, 'adaptation', nm, build, Points(rows=6))
    finally:
        I.hooks.clear()


KEPT = [('tx_prbs_chunks', 'Tx', 'prbs_chunk'), ('tx_encoded_prbs_chunks', 'Tx', 'encoded_prbs_chunk'), ('tx_mapped_prbs_chunks', 'Tx', 'mapped_prbs_chunk'),
        ('ch_out_chunks', 'Ch', 'ch_out'), ('rx_ctle_out_chunks', 'Rx', 'ctle_out'), ('rx_adc_out_chunks', 'Rx', 'adc_out'), ('rx_slicer_in_chunks', 'Rx', 'slicer_in'),
        ('rx_slicer_out_chunks', 'Rx', 'slicer_out'), ('rx_demapped_chunks', 'Rx', 'demapped_chunk'), ('rx_decoded_chunks', 'Rx', 'decoded_chunk'),
        ('cdr_phase_vec', 'Rx', 'phase'), ('lms_mse_vec', 'Rx', 'lms_mse_last'), ('lms_ffe_vecs', 'Rx.ffe_dfe', 'ffe_vec'), ('lms_dfe_vecs', 'Rx.ffe_dfe', 'dfe_vec')]


def snapshot(I, link):
    """what the blocks of the link hold now, by name of the record that keeps it"""
    out = {}
    for rec, path, at in KEPT:
        o = link
        for p in path.split('.'):
            o = get(I, o, p)
        v = get(I, o, at)
        a = I.heap.get(v.x) if v.k == 'ref' else None
        out[rec] = a if isinstance(a, Arr) else Want((), lambda idx, v=v: v.p) if v.k == 'num' else None
    return out


def records(I, sim, snaps, tag):
    """the memory holds exactly the snapshots, in order"""
    mem = get(I, sim, 'Memory')
    out = []
    for rec, _, _ in KEPT:
        lst = I.heap.get(get(I, mem, rec).x)
        items = getattr(lst, 'items', None)
        if items is None:
            return [('record %s' % rec, None, Want((), lambda idx: C(0)))]
        out.append(('%slength of %s' % (tag, rec), num(len(items)), Want((), lambda idx: C(len(snaps)))))
        for k, (v, s) in enumerate(zip(items, snaps)):
            if s[rec] is not None:
                out.append(('%s%s %d' % (tag, rec, k), v, s[rec]))
    return out


def simulation(I, item):
    osr, pre, post, nd, flags, ch, mode = item
    nm = 'Simulation osr %d, %d+1+%d taps, %d feedback taps, %s, %s: %s' % (osr, pre, post, nd, ','.join(flags) or 'plain', ch, mode)

    def build(I, b, i, n):
        mk = lambda: U.call(I, S + 'data_objects.FullLinkData', *blocks(I, b, osr, pre, post, nd, flags, ch))
        sim = U.call(I, S + 'simulation.Simulation', mk())
        if mode in ('records', 'adapting records'):
            link, out, snaps = get(I, sim, 'Link'), [], []
            for k in range(3):
                I.call(link, [], {}, None)
                if mode != 'records' and not k:
                    U.meth(I, link, 'start_convergence')
                    I.call(link, [], {}, None)
                U.meth(I, sim, 'gather_memory')
                snaps.append(snapshot(I, link))
            out += records(I, sim, snaps, '')
            U.meth(I, get(I, sim, 'Memory'), 'reset')
            return out + records(I, sim, [], 'after reset: ')
        twin = U.call(I, S + 'full_link.FullLink', mk())
        for o in (get(I, sim, 'Link'), twin):
            I.setattr(get(I, o, 'Rx'), 'lms_mse_diff_th', num(400), None)      # any change counts as rest
        out = []
        for rnd in range(2):
            U.meth(I, sim, 'perform_convergence')
            I.call(twin, [], {}, None)
            U.meth(I, twin, 'start_convergence')
            snaps, q = [], get(I, twin, 'Rx')
            for _ in range(12):
                I.call(twin, [], {}, None)
                snaps.append(snapshot(I, twin))
                c1, c2 = flag(I, q, 'converge_cdr'), flag(I, q, 'converge_lms')
                if c1.k != 'num' or c2.k != 'num' or c1.p is None or c2.p is None or c1.p.cint() is None or c2.p.cint() is None:
                    return [('adaptation', None, Want((), lambda idx: C(0)))]
                if not c1.p.cint() and not c2.p.cint():
                    break
            else:
                break
            out += records(I, sim, snaps, 'run %d: ' % (rnd + 1))
            rx = get(I, get(I, sim, 'Link'), 'Rx')
            out += [('run %d: adaptation over' % (rnd + 1), flag(I, rx, 'converge'), Want((), lambda idx: C(0)))]
        return out
    I.hooks.clear()
    try:
        return symbolic(I, 'convergence' if mode == 'convergence' else 'records', nm, build, Points(rows=6))
    finally:
        I.hooks.clear()


def flag(I, o, name):
    v = get(I, o, name)
    return num(v.p, 'int') if v.k == 'num' else v


def _go(I, it):
    return {'link': full, 'ber': ber, 'step': step, 'sim': simulation}[it[0]](I, it[1])


def c29(ctx):
    ctx.rule('link', 'a call of FullLink is receiver after channel after transmitter, chunk after chunk, with the intermediate signals kept')
    ctx.rule('error-count', 'Checker counts the bits that differ from the aligned PRBS and adds errors and bits over the calls')
    ctx.rule('adaptation', 'one adapting call of the receiver moves gain, phase and taps by the defined steps of the package functions')
    its = [('link', x) for x in ((2, 0, 0, 0, (), 'pulse'), (4, 1, 1, 1, ('coding_gray',), 'pulse'), (2, 1, 2, 2, ('pn_inv', 'coding_gray'), 'isi_awgn'), (4, 0, 2, 0, ('coding_differential',), 'isi_awgn'))]
    its += [('ber', x) for x in ((1, 5, 0), (5, 127, 3), (130, 7, 126), (64, 40, 60))]
    its += [('step', x) for x in ((2, 0, 0, 0, 5, None, 1), (2, 1, 1, 1, 6, 0.02, 1), (2, 1, 1, 1, 6, 0.0195, 1), (2, 1, 1, 1, 6, 0.008, 1), (2, 1, 1, 1, 6, 0.125, 1), (4, 2, 1, 2, 6, 0.25, 2), (4, 0, 2, 0, 5, 0.125, 1), (2, 1, 1, 1, 6, 1e-6, 1), (4, 0, 1, 0, 5, 1e-6, 1), (2, 1, 0, 1, 8, None, 0.5), (2, 0, 0, 0, 2, 0.125, 1), (1, 1, 0, 0, 3, None, 1), (2, 0, 1, 0, 2, 0.25, 2), (4, 1, 0, 0, 3, 0.125, 1))]
    its += ctx.deep(*[('link', (osr, a, b, c, fl, ch)) for osr in (1, 2, 4) for a, b in ((0, 0), (1, 1), (2, 1)) for c in (0, 1) for fl in ((), ('pn_inv',), ('coding_gray',)) for ch in ('pulse', 'isi_awgn')])
    its += ctx.deep(*[('ber', (a, b, c)) for a in (3, 33, 127) for b in (6, 60, 128) for c in (0, 7, 100)])
    its += ctx.deep(*[('step', (osr, a, b, c, n, t, g)) for osr in (1, 2, 4) for a, b, c in ((0, 0, 0), (1, 1, 1), (2, 0, 2)) for n in (4, 7) for t in (None, 0.125) for g in (1, 2)])
    ctx.pmap(_go, its)


def c31(ctx):
    ctx.rule('records', 'gather_memory appends the current chunk of every stage of the link to its record, and later calls do not change what is kept; reset empties all records')
    ctx.rule('convergence', 'perform_convergence runs the link once, restarts the records and adapts, keeping every chunk, until both loops rest; it can be repeated')
    cases = ((2, 0, 0, 0, (), 'pulse'), (4, 1, 1, 1, ('coding_gray',), 'pulse'), (2, 1, 2, 2, ('pn_inv', 'coding_gray'), 'isi_awgn'), (4, 0, 2, 0, ('coding_differential',), 'isi_awgn'))
    conv = ((2, 0, 0, 0, (), 'pulse'), (4, 1, 1, 1, ('coding_gray',), 'pulse'), (2, 1, 1, 0, (), 'pulse'), (4, 0, 1, 0, ('pn_inv',), 'pulse'))
    ctx.pmap(_go, [('sim', c + ('records',)) for c in cases] + [('sim', c + ('adapting records',)) for c in conv] + [('sim', c + ('convergence',)) for c in conv])
