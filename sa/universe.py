"""Everything a user can drive: the exported functions (spec.API) and histories of the stateful objects
(bit-level generator object, filter objects, the example link's building blocks)."""
from . import spec
from .spec import B, MISSING, API
from .poly import Poly
from .dom import *
from .project import AnchorMissing

S = 'example_simulation.simulation_parts.'
H = 'CommDspy.misc.help_classes.'


def call(I, path, *a, **k):
    f = I.resolve(path)
    if f.k == 'mod':
        raise AnchorMissing('%s is not callable' % path)
    return I.call(f, list(a), k, None)


def meth(I, o, name, *a, **k):
    return I.call(I.getattr(o, name, None), list(a), k, None)


class Driver:
    """history of operations on objects; fn(I, b) -> V"""

    def __init__(self, name, fn, maxp=120):
        self.name, self.fn, self.maxp = name, fn, maxp
        self.params = ()


def _prbs_iter(I, b):
    it = call(I, 'CommDspy.tx.PrbsIterator', b.carr('poly_coeff', [0, 1, 1]), b.arr('init_seed', (3,), 'int', 0, 1))
    it = meth(I, it, '__iter__')
    out = [meth(I, it, '__next__') for _ in range(5)]
    return vtuple(out + [meth(I, it, 'get_seed'), meth(I, it, 'get_prev_seed')])


def _filter(cls, nb, na, zs, extra=()):
    def fn(I, b):
        kw = {}
        for z, n in zs:
            if b.I.choose(2, info=('option', 'with_' + z)):
                kw[z] = b.arr(z, (n,)) if b.I.choose(2, info=('option', z + '_list')) else b.lst(z, n)
        f = call(I, H + cls, b.arr('b', (nb,)), b.arr('a', (na,)), *[m(b, n) for n, m in extra], **kw)
        r1 = I.call(f, [b.vec('chunk_1')], {}, None)
        r2 = I.call(f, [b.vec('chunk_2')], {}, None)
        return vtuple([r1, r2])
    return fn


CODES = ('coding_bin_differential', 'coding_manchester', 'coding_bipolar', 'coding_mlt3', 'coding_diff_manchester')


def coding_data(I, b, bps, con, **kw):
    return call(I, S + 'data_objects.CodingData', b.const('bits_per_symbol', bps), b.enum('constellation', 'ConstellationEnum', [con]),
                b.const('chunk_size', 16), **kw)


def _codec_args(I, b):
    k = I.choose(4, info=('option', 'scheme'))
    I.tags['scheme'] = k
    fl = {}
    if k == 0:          # multi-level symbols
        for f in ('bit_order_inv', 'inv_msb', 'inv_lsb', 'pn_inv', 'coding_gray', 'coding_differential'):
            fl[f] = b.flag(f)
        cd = coding_data(I, b, 2, 'PAM4', **fl)
        x = b.vec('pattern', b.dim('n', 8) * 2, 'int', 0, 1)
    elif k == 1:        # two levels, one line code
        c = I.choose(len(CODES) + 1, info=('option', 'line code'))
        if c:
            fl[CODES[c - 1]] = b.const(CODES[c - 1], True)
            I.tags[CODES[c - 1]] = True
        fl['pn_inv'] = b.flag('pn_inv') if c not in (3, 4) else b.const('pn_inv', False)
        cd = coding_data(I, b, 1, 'OOK', **fl)
        x = b.vec('pattern', b.dim('n', 8), 'int', 0, 1)
    elif k == 2:        # block code
        fl['coding_linear'] = b.const('coding_linear', True)
        cd = coding_data(I, b, 1, 'OOK', G=b.carr('G', [[1, 0, 1], [0, 1, 1]]), **fl)
        x = b.vec('pattern', b.dim('n', 8) * 2, 'int', 0, 1)
    else:
        fl['coding_conv'] = b.const('coding_conv', True)
        cd = coding_data(I, b, 1, 'OOK', G=spec.gconst(spec.CONV1)(b, 'G'), **fl)
        x = b.vec('pattern', b.dim('n', 8) * 16, 'int', 0, 1)
    return cd, x


def _encoder(I, b):
    cd, x = _codec_args(I, b)
    return I.call(call(I, S + 'transmitter.Encoder', cd), [x], {}, None)


def _decoder(I, b):
    k = I.choose(2, info=('option', 'scheme'))
    I.tags['scheme'] = k
    if k == 0:
        fl = {f: b.flag(f) for f in ('bit_order_inv', 'inv_msb', 'inv_lsb', 'pn_inv', 'coding_gray', 'coding_differential')}
        cd = coding_data(I, b, 2, 'PAM4', **fl)
        x = b.vec('symbols', b.dim('n', 8), 'int', 0, 3)
    else:
        c = I.choose(len(CODES) + 2, info=('option', 'line code'))
        fl = {}
        if 0 < c <= len(CODES):
            fl[CODES[c - 1]] = b.const(CODES[c - 1], True)
            I.tags[CODES[c - 1]] = True
        if c > len(CODES):
            fl['coding_linear'] = b.const('coding_linear', True)
            fl['G'] = b.carr('G', [[1, 0, 1], [0, 1, 1]])
        else:
            fl['pn_inv'] = b.flag('pn_inv') if c not in (3, 4) else b.const('pn_inv', False)
        cd = coding_data(I, b, 1, 'OOK', **fl)
        x = b.vec('symbols', b.dim('n', 8) * 6, 'int', 0, 1)
    return I.call(call(I, S + 'receiver.Decoder', cd), [x], {}, None)


def prbs_data(I, b):
    seed = b.arr('init_seed', (7,), 'int', 0, 1) if I.choose(2, info=('option', 'with_seed')) else NONE
    return call(I, S + 'data_objects.PrbsData', b.enum('prbs_type', 'PrbsEnum', ['PRBS7']), b.const('chunk_size', 16), init_seed=seed)


def _prbs_gen(I, b):
    g = call(I, S + 'transmitter.PrbsGen', prbs_data(I, b))
    g = meth(I, g, '__iter__')
    r = [meth(I, g, '__next__'), meth(I, g, '__next__')]
    return vtuple(r + [meth(I, g, 'get_seed'), meth(I, g, 'get_prev_seed')])


def _transmitter(I, b):
    cd = coding_data(I, b, 2, 'PAM4', coding_gray=b.flag('coding_gray'))
    md = call(I, S + 'data_objects.MappingData', b.enum('constellation', 'ConstellationEnum', ['PAM4']), levels=b.arr('levels', (4,)))
    t = call(I, S + 'transmitter.Transmitter', prbs_data(I, b), cd, md)
    return vtuple([meth(I, t, 'generate'), meth(I, t, 'generate')])


def channel_obj(I, b, types=('pulse', 'awgn', 'isi_awgn')):
    kw = {}
    if b.I.choose(2, info=('option', 'with_zi')):
        kw['pulse_zi'] = b.arr('pulse_zi', (15,))
        kw['ch_zi'] = b.arr('ch_zi', (4,))
    ct = b.pick('ch_type', *types)
    cd = call(I, S + 'data_objects.ChannelData', b.const('pulse', 'rcos'), b.const('pulse_span', 2), ct, fir_coefs=b.arr('fir_coefs', (5,)),
              iir_coefs=b.arr('iir_coefs', (3,)), osr=b.const('osr', 4), rolloff=b.const('rolloff', 0.35), snr=b.sym('snr', None, 'float'), **kw)
    return call(I, S + 'channel.Channel', cd)


def _channel(I, b):
    c = channel_obj(I, b)
    return vtuple([I.call(c, [b.vec('chunk_1')], {}, None), I.call(c, [b.vec('chunk_2')], {}, None)])


def ctle_data(I, b):
    kw = {'zi': b.arr('zi', (3,))} if I.choose(2, info=('option', 'with_ctle_zi')) else {}
    return call(I, S + 'data_objects.CtleData', b.lst('zeros', 2), b.lst('poles', 3), b.sym('dc_gain', None, 'float'), b.sym('fs', 1, 'float'), b.const('osr', 4), **kw)


def _ctle(I, b):
    c = call(I, S + 'receiver.Ctle', ctle_data(I, b))
    return vtuple([I.call(c, [b.vec('chunk_1')], {}, None), I.call(c, [b.vec('chunk_2')], {}, None)])


def adc_data(I, b):
    return call(I, S + 'data_objects.AdcData', b.const('total_bits', 4), b.const('frac_bits', 2), b.const('quant_type', 'ss'), b.const('osr', 4), b.const('sample_rate', 1))


def _adc(I, b):
    return I.call(call(I, S + 'receiver.Adc', adc_data(I, b)), [b.vec('chunk', b.dim('n', 8) * 4)], {}, None)


def ffe_data(I, b, own=True):
    nd = b.pick('dfe_taps', 0, 2).cint()
    pre = b.pick('ffe_precursors', 0, 1).cint()
    kw = {'levels': b.arr('levels', (4,))}
    if own and I.choose(2, info=('option', 'with_taps')):
        kw['ffe_vec'] = b.arr('ffe_vec', (2 * pre + 1,))
        kw['dfe_vec'] = b.arr('dfe_vec', (nd,))
    return call(I, S + 'data_objects.FfeDfeData', b.const('ffe_precursors', pre), b.const('ffe_postcursors', pre), b.const('dfe_taps', nd), **kw)


def _ffe(I, b):
    f = call(I, S + 'receiver.FfeDfe', ffe_data(I, b))
    return vtuple([I.call(f, [b.vec('chunk_1', nlo=16)], {}, None), I.call(f, [b.vec('chunk_2', nlo=16)], {}, None)])


def _receiver(I, b):
    md = call(I, S + 'data_objects.MappingData', b.enum('constellation', 'ConstellationEnum', ['PAM4']), levels=b.arr('levels', (4,)))
    cd = coding_data(I, b, 2, 'PAM4')
    r = call(I, S + 'receiver.Receiver', ctle_data(I, b), adc_data(I, b), ffe_data(I, b), md, cd)
    n = b.dim('n', 16)
    outs = [I.call(r, [b.vec('chunk_1', n * 4)], {}, None)]
    if I.choose(2, info=('option', 'converge')):
        for f in ('converge', 'converge_lms', 'converge_cdr'):
            I.setattr(r, f, num(True), None)
    outs.append(I.call(r, [b.vec('chunk_2', n * 4)], {}, None))
    return vtuple(outs)


def _checker(I, b):
    c = call(I, 'example_simulation.analyzer.analyzer_classes.Checker', prbs_data(I, b))
    return meth(I, c, 'check_ber', b.vec('bit_vec', nt='int', lo=0, hi=1, nlo=400))


def _link(I, b):
    md = call(I, S + 'data_objects.MappingData', b.enum('constellation', 'ConstellationEnum', ['PAM4']), levels=b.arr('levels', (4,)))
    cd = coding_data(I, b, 2, 'PAM4', coding_gray=num(True))
    chd = call(I, S + 'data_objects.ChannelData', b.const('pulse', 'rcos'), b.const('pulse_span', 2), b.const('ch_type', 'isi_awgn'),
               fir_coefs=b.arr('fir_coefs', (5,)), osr=b.const('osr', 4), snr=b.sym('snr', None, 'float'))
    ld = call(I, S + 'data_objects.FullLinkData', prbs_data(I, b), cd, md, chd, ctle_data(I, b), adc_data(I, b), ffe_data(I, b, own=False))
    l = call(I, S + 'full_link.FullLink', ld)
    outs = [I.call(l, [], {}, None)]
    if I.choose(2, info=('option', 'converge')):
        meth(I, l, 'start_convergence')
    return vtuple(outs + [I.call(l, [], {}, None)])


DRIVERS = [
    Driver('tx.PrbsIterator', _prbs_iter),
    Driver('Filter', _filter('Filter', 3, 3, (('z_fir', 3), ('z_iir', 2)))),
    Driver('FilterTII', _filter('FilterTII', 3, 2, (('z', 2),))),
    Driver('FfeDfeFilterTII', _filter('FfeDfeFilterTII', 3, 3, (('z', 2),), (('levels', spec.levels()),))),
    Driver('sim.PrbsGen', _prbs_gen),
    Driver('sim.Encoder', _encoder),
    Driver('sim.Decoder', _decoder),
    Driver('sim.Transmitter', _transmitter),
    Driver('sim.Channel', _channel),
    Driver('sim.Ctle', _ctle),
    Driver('sim.Adc', _adc),
    Driver('sim.FfeDfe', _ffe),
    Driver('sim.Receiver', _receiver, 700),
    Driver('sim.Checker', _checker),
    Driver('sim.FullLink', _link),
]

UNIVERSE = list(API) + DRIVERS
NAMES = [e.name for e in UNIVERSE]
BYNAME = {e.name: e for e in UNIVERSE}


def run(I, e):
    if isinstance(e, Driver):
        return I.explore(lambda I: e.fn(I, B(I)), max_paths=e.maxp)
    return spec.run_entry(I, e)




def parts(I, v, n):
    """components of a returned tuple/list"""
    if v.k == 'tuple':
        xs = list(v.x)
    elif v.k == 'ref' and getattr(I.heap.get(v.x), 'items', None) is not None:
        xs = list(I.heap[v.x].items)
    else:
        xs = None
    if xs is None:
        return [TOP] * n
    return xs if len(xs) == n else [NONE] * n
