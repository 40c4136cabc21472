"""Public API of the repository as the analyses drive it: for every exported callable, how each
parameter is abstracted.  Lengths are symbolic, options are enumerated, array contents are opaque
(or range over a stated alphabet)."""
from fractions import Fraction
from . import poly as P
from .poly import Poly
from .dom import *
from .dom import V, Arr, Lst, Dct, Inst, Itr
from .facets import Fx, NOFX

MISSING = object()


class B:
    """argument builder for one exploration path"""

    def __init__(self, I):
        self.I = I

    # -- scalars ---------------------------------------------------------------------------
    def fx(self, label, linear=False):
        f = frozenset([label])
        if linear:
            return Fx(f, {label: 'L'}, {label: Fraction(1)})
        return Fx(f)

    def sym(self, name, lo=None, nt='int', label=None):
        at = ('s', name)
        P.BOUNDS.pop(at, None)
        P.RESID.pop(at, None)
        P.INT_SYMS.discard(name)
        if nt in ('int', 'bool'):
            P.INT_SYMS.add(name)
        if lo is not None:
            P.BOUNDS[at] = lo
        return num(Poly.sym(name), nt, self.fx(label or name))

    def dim(self, name, lo=8):
        at = ('s', name)
        P.RESID.pop(at, None)
        P.INT_SYMS.add(name)
        P.BOUNDS[at] = lo
        return Poly.sym(name)

    def const(self, name, x):
        fx = self.fx(name)
        if x is None:
            return NONE.w(fx)
        if isinstance(x, str):
            return vstr(x, fx)
        return num(x, None, fx)

    def pick(self, name, *alts):
        k = self.I.choose(len(alts), info=('option', name)) if len(alts) > 1 else 0
        a = alts[k]
        self.I.tags[name] = a if not callable(a) else k
        if a is MISSING:
            return MISSING
        if callable(a):
            return a(self, name)
        return self.const(name, a)

    def flag(self, name):
        return self.pick(name, False, True)

    def enum(self, name, clsname, members=None):
        c = self.I.resolve('CommDspy.' + clsname).c
        ms = members or [m for m, _ in c.members]
        k = self.I.choose(len(ms), info=('option', name)) if len(ms) > 1 else 0
        self.I.tags[name] = ms[k]
        if ms[k] not in c.env:
            from .project import AnchorMissing
            raise AnchorMissing('%s.%s' % (clsname, ms[k]))
        return c.env[ms[k]].w(self.fx(name))

    # -- arrays ----------------------------------------------------------------------------
    def cplx(self, name, dims):
        """array of complex numbers with real parts <name>.re and imaginary parts <name>.im"""
        from .npm import J
        v = self.arr(name, dims)
        a = self.I.heap[v.x]
        self.I.heap[v.x] = a.rep(nt='complex', elem=lambda idx: Poly.atom(('e', name + '.re') + tuple(idx)) + Poly.atom(('e', name + '.im') + tuple(idx)) * Poly.atom(J))
        return v

    def arr(self, name, dims, nt='float', lo=None, hi=None, linear=True, int_elems=None, key=None):
        key = key or name
        P.INT_ARRS.discard(key)
        P.ARR_LO.pop(key, None)
        P.ARR_HI.pop(key, None)
        if nt in ('int', 'bool') or int_elems:
            P.INT_ARRS.add(key)
        if lo is not None:
            P.ARR_LO[key] = lo
        if hi is not None:
            P.ARR_HI[key] = hi
        shape = tuple(d if isinstance(d, Poly) else Poly.const(d) for d in dims)
        a = Arr(shape=shape, nt=nt, elem=lambda idx: Poly.atom(('e', key) + tuple(idx)), bufs={('arg', name): True},
                fx=self.fx(name, linear), lo=None if lo is None else Fraction(lo), hi=None if hi is None else Fraction(hi))
        v = self.I.alloc(a)
        self.I.heap[v.x] = a
        return v

    def vec(self, name, n=None, nt='float', lo=None, hi=None, nlo=8, linear=True):
        if n is None:
            n = self.dim('len(%s)' % name, nlo)
        return self.arr(name, (n,), nt, lo, hi, linear)

    def lst(self, name, n, mk=None, nt='float'):
        items = [num(Poly.atom(('e', name, Poly.const(i))), nt, self.fx(name)) for i in range(n)]
        o = Lst(items, None, {('arg', name): True}, self.fx(name))
        v = self.I.alloc(o)
        self.I.heap[v.x] = o
        return v

    def dct(self, name, items):
        o = Dct({('n', k): v for k, v in items.items()}, None, None, {('arg', name): True}, self.fx(name))
        v = self.I.alloc(o)
        self.I.heap[v.x] = o
        return v

    def carr(self, name, data):
        """array with known contents owned by the caller"""
        import numpy as np
        from . import npm
        buf = ('arg', name)
        used = {k for o in self.I.heap.values() for k in (getattr(o, 'bufs', None) or ())}
        while buf in used:              # another array of that name: other memory
            buf = ('arg', name, len(buf) == 3 and buf[2] + 1 or 2)
        a = npm.from_const(np.array(data)).rep(bufs={buf: True}, fx=self.fx(name))
        v = self.I.alloc(a)
        self.I.lay[v.x] = 'own'
        self.I.heap[v.x] = a
        return v


# -- reusable makers ---------------------------------------------------------------------------------
def sig(nt='float', nlo=8):
    return lambda b, n: b.vec(n, nt=nt, nlo=nlo)


def bits(nlo=8):
    return lambda b, n: b.vec(n, nt='int', lo=0, hi=1, nlo=nlo)


def sig12(nt='float'):
    """1-D or 2-D"""
    def f(b, n):
        if b.I.choose(2, info=('rank', n)) == 0:
            return b.vec(n, nt=nt)
        return b.arr(n, (b.dim('rows(%s)' % n, 3), b.dim('cols(%s)' % n, 4)), nt)
    return f


def bits12():
    def f(b, n):
        if b.I.choose(2, info=('rank', n)) == 0:
            return b.vec(n, nt='int', lo=0, hi=1)
        return b.arr(n, (b.dim('rows(%s)' % n, 3), b.dim('cols(%s)' % n, 4)), 'int', 0, 1)
    return f


def ival(lo, nt='int'):
    return lambda b, n: b.sym(n, lo, nt)


def fval(lo=None):
    return lambda b, n: b.sym(n, lo, 'float')


def pick(*alts):
    return lambda b, n: b.pick(n, *alts)


def flag():
    return lambda b, n: b.flag(n)


def prbs(*members):
    return lambda b, n: b.enum(n, 'PrbsEnum', members or None)


def constel(*members):
    return lambda b, n: b.enum(n, 'ConstellationEnum', members or None)


def nlist(k, nt='float'):
    return lambda b, n: b.lst(n, k, nt=nt)


def cvec(data):
    return lambda b, n: b.carr(n, data)


def vecn(k, nt='float'):
    return lambda b, n: b.arr(n, (k,), nt)


def levels():
    return lambda b, n: b.arr(n, (4,), 'float')


def gmat(*shapes):
    def f(b, n):
        return b.dct(n, {i: b.arr(n, s, 'int', 0, 1, key='%s[%d]' % (n, i)) for i, s in enumerate(shapes)})
    return f


def gconst(*mats):
    def f(b, n):
        return b.dct(n, {i: b.carr(n, m) for i, m in enumerate(mats)})
    return f


def seedvec(n):
    return lambda b, nm: b.arr(nm, (n,), 'int', 0, 1)


class Entry:
    def __init__(self, name, params, path=None, maxp=260, tags=()):
        self.name = name
        self.path = path or 'CommDspy.' + name
        self.params = params
        self.maxp = maxp
        self.tags = tags

    def args(self, b):
        kw = {}
        for n, mk in self.params:
            v = mk(b, n)
            if v is not MISSING:
                kw[n] = v
        return kw


def _e(name, *params, **kw):
    return Entry(name, params, **kw)


def conv_params(extra=(), tb=True):
    def mode(b, n):
        return None
    return extra


CONV1 = [[1, 1, 1], [1, 1, 0]]
CONVR = [[1, 0], [0, 1]]


def conv_args(b, tb_len=None, flags=(), zi=False):
    """three representative code structures; the matrices are arrays owned by the caller"""
    k = b.I.choose(3, info=('option', 'code'))
    b.I.tags['code'] = k
    kw = {}
    kw['pattern'] = b.vec('pattern', nt='int', lo=0, hi=1, nlo=12)
    if k == 0:
        kw['G'] = gconst(CONV1)(b, 'G')
    elif k == 1:
        kw['G'] = gconst(CONVR)(b, 'G')
        kw['feedback'] = gconst([1, 1])(b, 'feedback')
        kw['use_feedback'] = b.carr('use_feedback', [[0, 1]])
    else:
        kw['G'] = gconst([[1, 0], [0, 0], [1, 1]], [[0, 0, 0], [1, 0, 0], [0, 0, 1]])(b, 'G')
    if tb_len:
        nout = {0: 2, 1: 2, 2: 3}[k]
        kw['tb_len'] = b.const('tb_len', 2 * nout)
    for f in flags:
        kw[f] = b.flag(f)
    return kw


class ConvEntry(Entry):
    def __init__(self, name, tb, flags):
        Entry.__init__(self, name, ())
        self.tb, self.flags = tb, flags

    def args(self, b):
        return conv_args(b, self.tb, self.flags)


class FfeDfeEntry(Entry):
    def __init__(self):
        Entry.__init__(self, 'rx.ffe_dfe', ())

    def args(self, b):
        kw = {'input_signal': b.vec('input_signal', nlo=16)}
        nf = b.pick('ffe_len', 1, 3).cint()
        nd = b.pick('dfe_len', 0, 1, 2).cint()
        kw['ffe_taps'] = b.arr('ffe_taps', (nf,), 'float')
        kw['levels'] = levels()(b, 'levels')
        if nd:
            kw['dfe_taps'] = b.arr('dfe_taps', (nd,), 'float')
            if b.pick('with_zi_dfe', 0, 1).cint():
                kw['zi_dfe'] = b.arr('zi_dfe', (nd,), 'float')
        if nf > 1:
            z = b.pick('with_zi_ffe', 0, 1, 2).cint()
            if z:
                kw['zi_ffe'] = b.arr('zi_ffe', (nf if z == 1 else nf - 1,), 'float')
        return kw


class LmsEntry(Entry):
    def __init__(self, name, extra=()):
        Entry.__init__(self, name, ())
        self.extra = extra

    def args(self, b):
        n = b.dim('len(input_vec)', 16)
        kw = {'input_vec': b.arr('input_vec', (n,)), 'output_vec': b.arr('output_vec', (n,)), 'levels': levels()(b, 'levels')}
        for nm, mk in self.extra:
            kw[nm] = mk(b, nm)
        if b.pick('with_ffe', 0, 1).cint():
            kw['ffe_tap_idx'] = b.carr('ffe_tap_idx', [-1, 0, 1])
        if b.pick('with_dfe', 0, 1).cint():
            kw['dfe_tap_idx'] = b.carr('dfe_tap_idx', [1, 2])
        if b.pick('with_ref', 0, 1).cint():
            kw['reference_vec'] = b.arr('reference_vec', (n,))
        return kw


class EqEntry(Entry):
    def args(self, b):
        kw = Entry.args(self, b)
        n = b.dim('len(signal)', 64)
        kw['signal'] = b.arr('signal', (n,))
        kw['reference_signal'] = b.arr('reference_signal', (n,))
        return kw


class EqPrbsEntry(Entry):
    FLAGS = ('prbs_full_scale', 'bit_order_inv', 'pn_inv_precoding', 'gray_coded', 'pn_inv_postmapping')

    def args(self, b):
        """every flag alone, none, and all together, under every combination of the other options"""
        kw = Entry.args(self, b)
        k = b.I.choose(len(self.FLAGS) + 2, info=('option', 'flags'))
        for i, f in enumerate(self.FLAGS):
            kw[f] = b.const(f, k in (i + 1, len(self.FLAGS) + 1))
            b.I.tags[f] = k in (i + 1, len(self.FLAGS) + 1)
        r = b.I.choose(3, info=('option', 'regularization'))
        b.I.tags['regularization'] = ('None', 'ridge', 'ridge')[r]
        b.I.tags['reg_lambda'] = (0, 0, 2)[r]
        kw['regularization'] = b.const('regularization', ('None', 'ridge', 'ridge')[r])
        kw['reg_lambda'] = b.const('reg_lambda', (0, 0, 2)[r])
        return kw


class ChkEntry(Entry):
    def args(self, b):
        kw = Entry.args(self, b)
        if b.pick('with_seq', 0, 1).cint():
            t = b.I.tags['prbs_type']
            kw['prbs_seq'] = b.arr('prbs_seq', (2 ** int(t[4:]) - 1,), 'int', 0, 1)
        return kw


class MMEntry(Entry):
    def args(self, b):
        n = b.dim('len(signal_chunk)', 8)
        kw = {'signal_chunk': b.arr('signal_chunk', (n,)), 'reference_signal': b.arr('reference_signal', (n,))}
        kw['pre_weight'] = b.sym('pre_weight', None, 'float')
        kw['post_weight'] = b.sym('post_weight', None, 'float')
        kw['tol'] = b.sym('tol', 0, 'float')
        return kw


ALLC = ('NRZ', 'OOK', 'PAM3', 'PAM4')
POW2 = pick(2, 4, 8)

API = [
    _e('get_polynomial', ('prbs_type', prbs())),
    _e('get_levels', ('constellation', constel()), ('full_scale', flag())),
    _e('get_gray_level_vec', ('level_num', pick(2, 3, 4, 8))),
    _e('power', ('signal', sig())),
    _e('rms', ('signal', sig())),
    _e('buffer', ('signal', sig(nlo=32)), ('length', pick(4)), ('overlap', pick(0, 3, -2)), ('delay', pick(0, 2)), ('clip', flag())),
    _e('upsample', ('signal', sig()), ('rate', pick(1, ival(1)))),
    _e('zoh', ('signal', sig()), ('hold_idx', pick(1, ival(1)))),
    _e('get_bin_perm', ('k', pick(1, 3))),
    _e('hamming', ('pattern_block', lambda b, n: b.arr(n, (b.dim('blocks', 3), 4), 'int', 0, 1)),
       ('codebook', lambda b, n: b.arr(n, (5, 4), 'int', 0, 1))),
    _e('bin2uint', ('bin_tensor', lambda b, n: b.arr(n, (b.dim('words', 3), 4), 'int', 0, 1))),
    _e('uint2bin', ('int_tensor', lambda b, n: b.vec(n, nt='int', lo=0)), ('n_bits', pick(1, 4))),
    _e('channel_estimation_prbs', ('prbs_type', prbs('PRBS7')), ('signal', sig(nlo=1024)), ('constellation', constel('NRZ', 'OOK', 'PAM4')),
       ('prbs_full_scale', flag()), ('channel_postcursor', pick(10)), ('channel_precursor', pick(3)), ('normalize', flag()),
       ('bit_order_inv', flag()), ('pn_inv_precoding', flag()), ('gray_coding', flag()), ('pn_inv_postcoding', flag())),
    EqEntry('equalization_estimation', (('ffe_postcursor', pick(5)), ('ffe_precursor', pick(2)), ('dfe_taps', pick(0, 2)), ('normalize', flag()),
       ('regularization', pick('None', 'ridge', 'lasso')), ('reg_lambda', ival(0, 'float')))),
    EqPrbsEntry('equalization_estimation_prbs', (('prbs_type', prbs('PRBS7')), ('signal', sig(nlo=1024)), ('constellation', constel('NRZ', 'PAM4')),
       ('ffe_postcursor', pick(5)), ('ffe_precursor', pick(2)), ('dfe_taps', pick(0, 2)), ('normalize', flag()))),
    _e('dig_delay_lagrange_coeffs', ('n', pick(2, 3)), ('alpha', fval(0)), ('forward', flag())),
    _e('dig_delay_sinc_coeffs', ('n', pick(2, 3)), ('alpha', fval(0)), ('forward', flag())),
    _e('digital_oversample', ('signal_vec', sig(nlo=32)), ('osr', pick(1, 4)), ('order', pick(2, 3)), ('method', pick('sinc', 'lagrange', 'rcos')), ('beta', fval(0))),
    _e('eye_diagram', ('signal', sig(nlo=64)), ('osr_in', pick(4)), ('osr_diag', pick(4, 8)), ('fs_value', fval(0)), ('quantization', pick(16)), ('logscale', flag())),
    _e('tx.prbs_gen', ('poly_coeff', pick(lambda b, n: b.carr(n, [0, 0, 0, 0, 0, 1, 1]), lambda b, n: b.carr(n, [1, 0, 1]))),
       ('init_seed', lambda b, n: b.arr(n, (7 if b.I.tags['poly_coeff'] == 0 else 3,), 'int', 0, 1)),
       ('output_length', pick(0, 2, 5, 20, 300, lambda b, n: b.sym(n, 0)))),
    _e('tx.bin2symbol', ('bin_mat', bits12()), ('num_of_symbols', POW2), ('bit_order_inv', flag()), ('inv_msb', flag()), ('inv_lsb', flag()), ('pn_inv', flag())),
    _e('tx.coding_gray', ('pattern', bits12()), ('constellation', constel())),
    _e('tx.coding_differential', ('pattern', bits12()), ('constellation', constel())),
    _e('tx.coding_manchester', ('pattern', bits12())),
    _e('tx.coding_bipolar', ('pattern', bits12())),
    _e('tx.coding_mlt3', ('pattern', bits12())),
    _e('tx.coding_differential_manchester', ('pattern', bits12())),
    _e('tx.coding_linear', ('pattern', bits()), ('G', lambda b, n: b.arr(n, (3, 5), 'int', 0, 1))),
    ConvEntry('tx.coding_conv', False, ()),
    _e('tx.mapping', ('signal', bits12()), ('constellation', constel()), ('full_scale', flag()),
       ('levels', lambda b, n: b.pick(n, None, lambda b, n: b.arr(n, ({'NRZ': 2, 'OOK': 2, 'PAM3': 3}.get(b.I.tags['constellation'], 4),)))), ('pn_inv', flag())),
    _e('rx.slicer', ('slicer_in_mat', sig12()), ('levels', lambda b, n: b.pick(n, None, lambda b, n: b.arr(n, (4,))))),
    _e('rx.demapping', ('signal', sig12()), ('constellation', constel()), ('full_scale', flag()), ('pn_inv', flag())),
    _e('rx.decoding_gray', ('pattern', bits12()), ('constellation', constel())),
    _e('rx.decoding_differential', ('pattern', bits12()), ('constellation', constel())),
    _e('rx.decoding_manchester', ('pattern', lambda b, n: b.vec(n, b.dim('blocks', 4) * 2, 'int', 0, 1))),
    _e('rx.decoding_bipolar', ('pattern', bits()), ('error_detection', flag())),
    _e('rx.decoding_mlt3', ('pattern', bits())),
    _e('rx.decoding_differential_manchester', ('pattern', lambda b, n: b.vec(n, b.dim('blocks', 4) * 2, 'int', 0, 1))),
    _e('rx.decoding_linear', ('pattern', bits(12)), ('G', lambda b, n: b.arr(n, (3, 5), 'int', 0, 1)), ('error_prob', flag())),
    ConvEntry('rx.decoding_conv_ml', True, ('error_prob',)),
    ConvEntry('rx.decoding_conv_viterbi', True, ('error_prob',)),
    _e('rx.symbol2bin', ('symbol_mat', bits12()), ('num_of_symbols', POW2), ('bit_order_inv', flag()), ('inv_msb', flag()), ('inv_lsb', flag()), ('pn_inv', flag())),
    _e('rx.lock_pattern_to_signal_binary', ('pattern', bits()), ('signal', bits())),
    _e('rx.lock_pattern_to_signal', ('pattern', sig()), ('signal', sig())),
    ChkEntry('rx.prbs_checker', (('prbs_type', prbs('PRBS7')), ('data_in', bits(400)), ('init_lock', flag()), ('loss_th', ival(1)))),
    _e('rx.prbs_checker_econ', ('prbs_type', prbs('PRBS7')), ('data_in', bits(400)), ('loss_th', ival(1))),
    _e('rx.get_ctle_filter', ('zeros', nlist(2)), ('poles', nlist(3)), ('dc_gain', fval()), ('fs', fval(1)), ('osr', ival(1))),
    _e('rx.ctle', ('signal', sig()), ('zeros', nlist(2)), ('poles', nlist(3)), ('dc_gain', fval()), ('fs', fval(1)), ('osr', ival(1)),
       ('zi', pick(None, vecn(3)))),
    FfeDfeEntry(),
    _e('rx.quantize', ('signal', sig12()), ('total_bits', pick(3)), ('frac_bits', pick(0, 1)), ('fix_point_type', pick('u', 's', 'ss'))),
    LmsEntry('rx.ddlms_grad'),
    LmsEntry('rx.soft_ddlms_grad', (('sigma', fval(1)),)),
    MMEntry('rx.mueller_muller_step', ()),
    _e('channel.pulse_shape', ('signal', sig()), ('osr', pick(1, 4)), ('span', pick(2)), ('pulse', pick('rect', 'sinc', 'rcos', 'rrc', 'imp')),
       ('beta', pick(0.5)), ('rj_sigma', pick(0.0, lambda b, n: b.sym(n, 0, 'float'))), ('zi', pick(None, lambda b, n: b.arr(n, (4 * b.I.tags['osr'] - 1,))))),
    _e('channel.rect_pulse', ('osr', pick(4)), ('span', pick(2)), ('t', pick(None, sig()))),
    _e('channel.sinc_pulse', ('osr', pick(4)), ('span', pick(2)), ('t', pick(None, sig()))),
    _e('channel.rcos_pulse', ('osr', pick(4)), ('span', pick(2)), ('beta', pick(0.5, fval(0))), ('t', pick(None, sig()))),
    _e('channel.rrc_pulse', ('osr', pick(4)), ('span', pick(2)), ('beta', pick(0.5, fval(0))), ('t', pick(None, sig()))),
    _e('channel.awgn', ('signal', sig()), ('snr', fval())),
    _e('channel.awgn_channel', ('signal', sig()), ('b', vecn(4)), ('a', pick(vecn(3), vecn(6), 1)), ('snr', pick(None, fval())), ('zi', lambda b, n: b.pick(n, None))),
    _e('psa.psa', ('signal', sig(nlo=2048)), ('fs', fval(1)), ('rbw', pick(None, fval(1))), ('mode', pick('dBm', 'dBm/Hz', 'dBc', 'dBuv', 'dBuv/sqrt(Hz)', 'dB', 'dBFs')),
       ('obw', pick(None)), ('sb_mode', pick('DSB', 'SSB')), ('plot', pick(False)), path='CommDspy.psa.psa'),
    _e('misc.least_squares', ('a_mat', lambda b, n: b.arr(n, (b.dim('M', 20), 5))), ('b', lambda b, n: b.arr(n, (Poly.sym('M'),))),
       ('regularization', pick('None', 'ridge', 'lasso')), ('reg_lambda', fval(0)), path='CommDspy.misc.least_squares.least_squares'),
    _e('misc.ridge_regression_manual', ('a_mat', lambda b, n: b.arr(n, (b.dim('M', 20), 5))), ('b', lambda b, n: b.arr(n, (Poly.sym('M'),))),
       ('reg_lambda', fval(0)), path='CommDspy.misc.least_squares.ridge_regression_manual'),
    _e('misc.lasso_regression_manual', ('a_mat', lambda b, n: b.arr(n, (b.dim('M', 20), 5))), ('b', lambda b, n: b.arr(n, (Poly.sym('M'),))),
       ('reg_lambda', fval(0)), path='CommDspy.misc.least_squares.lasso_regression_manual'),
    _e('misc.ols_manual', ('a_mat', lambda b, n: b.arr(n, (b.dim('M', 20), 5))), ('b', lambda b, n: b.arr(n, (Poly.sym('M'),))),
       path='CommDspy.misc.least_squares.ols_manual'),
    _e('dig_delay_rcos_coeffs', ('n', pick(2, 3)), ('alpha', fval(0)), ('forward', flag()), ('beta', fval(0)), path='CommDspy.digital_delay.dig_delay_rcos_coeffs'),
]

BYNAME = {e.name: e for e in API}


def run_entry(I, e, overrides=None):
    """explore one API entry; returns list of Path (tags = chosen options)"""
    fv = I.resolve(e.path)

    def entry(I):
        b = B(I)
        kw = e.args(b)
        if overrides:
            kw.update(overrides(b) or {})
        I.argv = kw
        return I.call(fv, [], kw, None)
    return I.explore(entry, max_paths=e.maxp)
