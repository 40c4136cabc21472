"""C28: calling convention.  Leaving an option out, giving its documented default by name, and giving all arguments by position or
all by name are the same call: the element summaries (and the problems handed to solvers and estimators) must coincide."""
from fractions import Fraction
from sa import universe as U, eqv
from sa.poly import Poly
from sa.dom import *
from sa.eqv import Points
from sa.frame import ok, viol, und
from .rel import C, el, arr_of, cmp_shape, opts
from .lock import hook_lock
from sa.spec import B
from itertools import product as iprod

ENUM = object()


def A(n, nt='float', lo=None, hi=None):
    return lambda b, k: b.arr(k, n if isinstance(n, tuple) else (n,), nt, lo, hi)


def bits(n):
    return A(n, 'int', 0, 1)


def cv(data):
    return lambda b, k: b.carr(k, data)


def con(m):
    return lambda b, k: b.enum(k, 'ConstellationEnum', [m])


def prbs(m):
    return lambda b, k: b.enum(k, 'PrbsEnum', [m])


def gdict(*mats):
    return lambda b, k: b.dct(k, {j: b.carr('%s_%d' % (k, j), m) for j, m in enumerate(mats)})


F4 = [('bit_order_inv', False), ('inv_msb', False), ('inv_lsb', False), ('pn_inv', False)]
PAM4 = con('PAM4')
G1 = gdict([[1, 0, 1], [1, 1, 1]])
GF = gdict([[1, 0, 0], [1, 0, 1]])
FB = gdict([1, 1, 1])
UF = cv([[0, 1]])
L4 = cv([-3, -1, 1, 3])
MIX = cv([-0.5, 0.25, 2.5])

def prbs7(n, wrong):
    r, out = [1] * 7, []
    for k in range(n):
        x = r[5] ^ r[6]
        r = [x] + r[:-1]
        out.append(x)
    return [x ^ 1 if 7 <= k < 7 + wrong else x for k, x in enumerate(out)]


EQ = [('ffe_postcursor', 23), ('ffe_precursor', 4), ('dfe_taps', 0), ('normalize', False), ('regularization', 'None'), ('reg_lambda', 0)]
# results whose summary has no normal form in bounds; what they are computed from is compared
SKIP = {'equalization_estimation of 40 samples': ('result part 5',), 'equalization_estimation_prbs': ('result part 4', 'result part 5'), 'channel_estimation_prbs of PRBS11': ('target',), 'least_squares': ()}

# name -> (path, [(required, maker)], [(option, default)], [context: {option: value}])
# Each context sets some options by name; the others are left out or given explicitly.
TABLE = {
    'get_levels': ('CommDspy.get_levels', [('constellation', PAM4)], [('full_scale', False)], [{}, {'full_scale': True}]),
    'buffer': ('CommDspy.buffer', [('signal', A(9)), ('length', 4)], [('overlap', 0), ('delay', 0), ('clip', False)], [{}, {'overlap': 1}, {'delay': 2}, {'overlap': 1, 'delay': 2, 'clip': True}]),
    'awgn_channel': ('CommDspy.channel.awgn_channel', [('signal', A(4)), ('b', A(3)), ('a', cv([1, 0.5]))], [('snr', None), ('zi', None)], [{}, {'zi': A(2)}]),
    'pulse_shape': ('CommDspy.channel.pulse_shape', [('signal', A(3))], [('osr', 1), ('span', 1), ('pulse', 'rect'), ('beta', 0.5), ('rj_sigma', 0.0), ('zi', None)],
                    [{}, {'osr': 4, 'span': 2}, {'osr': 3, 'pulse': 'rcos'}, {'span': 3, 'osr': 2, 'pulse': 'rrc', 'beta': 0.25}, {'pulse': 'rrc', 'osr': 4}, {'pulse': 'rcos', 'span': 2}, {'pulse': 'sinc', 'osr': 2, 'zi': A(3)}]),
    'rect_pulse': ('CommDspy.channel.rect_pulse', [('osr', 4), ('span', 2)], [('t', None)], [{}, {'t': MIX}]),
    'sinc_pulse': ('CommDspy.channel.sinc_pulse', [('osr', 4), ('span', 2)], [('t', None)], [{}, {'t': MIX}]),
    'rcos_pulse': ('CommDspy.channel.rcos_pulse', [('osr', 4), ('span', 2), ('beta', 0.3)], [('t', None)], [{}, {'t': MIX}]),
    'rrc_pulse': ('CommDspy.channel.rrc_pulse', [('osr', 4), ('span', 2), ('beta', 0.3)], [('t', None)], [{}, {'t': MIX}]),
    'dig_delay_lagrange_coeffs': ('CommDspy.dig_delay_lagrange_coeffs', [('n', 3), ('alpha', Fraction(3, 10))], [('forward', True)], [{}, {'forward': False}]),
    'dig_delay_sinc_coeffs': ('CommDspy.dig_delay_sinc_coeffs', [('n', 3), ('alpha', Fraction(3, 10))], [('forward', True)], [{}, {'forward': False}]),
    'digital_oversample': ('CommDspy.digital_oversample', [('signal_vec', A(12)), ('osr', 2), ('order', 4), ('method', 'rcos')], [('beta', 0)], [{}, {'beta': 0.4}]),
    'eye_diagram': ('CommDspy.eye_diagram', [('signal', cv([0.3, -0.7, 0.9, 1.4, -1.2, 0.1, 0.55, -0.35])), ('osr_in', 2), ('osr_diag', 2)], [('fs_value', 1), ('quantization', 256), ('logscale', False)],
                    [{}, {'quantization': 5}, {'fs_value': 2, 'quantization': 4}, {'fs_value': 2, 'quantization': 3, 'logscale': True}]),
    'eye_diagram of another rate': ('CommDspy.eye_diagram', [('signal', cv([0.3, -0.7, 0.9, 1.4, -1.2, 0.1, 0.55, -0.35])), ('osr_in', 4), ('osr_diag', 2)], [('fs_value', 1), ('quantization', 256), ('logscale', False)], [{'quantization': 5}]),
    'prbs_checker': ('CommDspy.rx.prbs_checker', [('prbs_type', prbs('PRBS7')), ('data_in', bits(9)), ('init_lock', True)], [('loss_th', 100), ('prbs_seq', None)], [{}, {'loss_th': 3}, {'prbs_seq': cv([1, 0, 1, 1, 0, 0, 1, 0, 1]), 'loss_th': 2}]),
    'prbs_checker_econ': ('CommDspy.rx.prbs_checker_econ', [('prbs_type', prbs('PRBS7')), ('data_in', bits(10))], [('loss_th', 100)], [{}, {'loss_th': 3}]),
    'mueller_muller_step': ('CommDspy.rx.mueller_muller_step', [('signal_chunk', A(4)), ('reference_signal', A(4))], [('pre_weight', 1), ('post_weight', 1), ('tol', 0.001)], [{}, {'pre_weight': 2}, {'post_weight': 3}, {'pre_weight': 2, 'post_weight': 3, 'tol': 0.1}]),
    'ctle': ('CommDspy.rx.ctle', [('signal', A(4)), ('zeros', cv([1e9])), ('poles', cv([4e9, 6e9])), ('dc_gain', -3), ('fs', 1e10), ('osr', 4)], [('zi', None)], [{}, {'zi': A(2)}]),
    'coding_gray': ('CommDspy.tx.coding_gray', [('pattern', A(3, 'int', 0, 3))], [('constellation', PAM4)], [{}]),
    'coding_differential': ('CommDspy.tx.coding_differential', [('pattern', A(3, 'int', 0, 3))], [('constellation', PAM4)], [{}, {'constellation': con('PAM3')}]),
    'decoding_gray': ('CommDspy.rx.decoding_gray', [('pattern', A(3, 'int', 0, 3))], [('constellation', PAM4)], [{}]),
    'decoding_differential': ('CommDspy.rx.decoding_differential', [('pattern', A(3, 'int', 0, 3))], [('constellation', PAM4)], [{}, {'constellation': con('PAM3')}]),
    'decoding_bipolar': ('CommDspy.rx.decoding_bipolar', [('pattern', cv([0, 1, 0, 2]))], [('error_detection', False)], [{}, {'error_detection': True}]),
    'decoding_linear': ('CommDspy.rx.decoding_linear', [('pattern', bits(4)), ('G', cv([[1, 0, 1, 1], [0, 1, 0, 1]]))], [('error_prob', False)], [{}, {'error_prob': True}]),
    'coding_conv': ('CommDspy.tx.coding_conv', [('pattern', bits(4)), ('G', G1)], [('feedback', None), ('use_feedback', None)], [{}]),
    'coding_conv recursive': ('CommDspy.tx.coding_conv', [('pattern', bits(4)), ('G', GF)], [('feedback', None), ('use_feedback', None)], [{'feedback': FB, 'use_feedback': UF}]),
    'decoding_conv_ml': ('CommDspy.rx.decoding_conv_ml', [('pattern', cv([1, 1, 0, 1])), ('G', G1), ('tb_len', 4)], [('feedback', None), ('use_feedback', None), ('error_prob', False)], [{}, {'error_prob': True}]),
    'decoding_conv_ml recursive': ('CommDspy.rx.decoding_conv_ml', [('pattern', cv([1, 1, 0, 1])), ('G', GF), ('tb_len', 4)], [('feedback', None), ('use_feedback', None), ('error_prob', False)], [{'feedback': FB, 'use_feedback': UF}]),
    'decoding_conv_viterbi': ('CommDspy.rx.decoding_conv_viterbi', [('pattern', cv([1, 1, 0, 1])), ('G', G1), ('tb_len', 4)], [('feedback', None), ('use_feedback', None), ('error_prob', False)], [{}, {'error_prob': True}]),
    'decoding_conv_viterbi recursive': ('CommDspy.rx.decoding_conv_viterbi', [('pattern', cv([1, 1, 0, 1])), ('G', GF), ('tb_len', 4)], [('feedback', None), ('use_feedback', None), ('error_prob', False)], [{'feedback': FB, 'use_feedback': UF}]),
    'demapping': ('CommDspy.rx.demapping', [('signal', cv([-2.2, 0.4, 1.7, -0.8])), ('constellation', PAM4)], [('full_scale', False), ('pn_inv', False)], [{}, {'full_scale': True}, {'pn_inv': True}]),
    'ffe_dfe': ('CommDspy.rx.ffe_dfe', [('input_signal', A(4))], [('ffe_taps', cv([1])), ('dfe_taps', None), ('levels', None), ('osr', 1), ('phase', 0), ('zi_ffe', None), ('zi_dfe', None)],
                [{'ffe_taps': A(2)}, {'ffe_taps': A(2), 'zi_ffe': A(1)}]),
    'ffe_dfe with feedback': ('CommDspy.rx.ffe_dfe', [('input_signal', cv([0.9, -0.4, 1.2, 0.3, -1.1, 0.2, 0.8, -0.6]))], [('ffe_taps', cv([1])), ('dfe_taps', None), ('levels', None), ('osr', 1), ('phase', 0), ('zi_ffe', None), ('zi_dfe', None)],
                              [{'dfe_taps': cv([0.3]), 'levels': cv([-1, 1])}, {'dfe_taps': cv([0.3]), 'levels': cv([-1, 1]), 'osr': 4}, {'dfe_taps': cv([0.3, 0.7]), 'levels': cv([-1, 1]), 'osr': 4, 'phase': 1, 'ffe_taps': cv([1, 0.5]), 'zi_ffe': cv([2]), 'zi_dfe': cv([1, -1])}]),
    'ddlms_grad': ('CommDspy.rx.ddlms_grad', [('input_vec', A(4)), ('output_vec', cv([0.9, -0.4, 1.2, -2.2])), ('levels', cv([-1, 1]))], [('ffe_tap_idx', cv([])), ('dfe_tap_idx', cv([])), ('reference_vec', None)],
                   [{}, {'ffe_tap_idx': cv([0, 1])}, {'dfe_tap_idx': cv([1])}, {'reference_vec': A(4), 'ffe_tap_idx': cv([-1]), 'dfe_tap_idx': cv([1, 2])}]),
    'soft_ddlms_grad': ('CommDspy.rx.soft_ddlms_grad', [('input_vec', A(3)), ('output_vec', cv([0.9, -0.4, 1.2])), ('levels', cv([-1, 1]))], [('sigma', 1), ('ffe_tap_idx', cv([])), ('dfe_tap_idx', cv([])), ('reference_vec', None)],
                        [{}, {'ffe_tap_idx': cv([0, 1])}, {'sigma': 0.5, 'dfe_tap_idx': cv([1])}, {'sigma': 2, 'reference_vec': A(3), 'ffe_tap_idx': cv([-1]), 'dfe_tap_idx': cv([1, 2])}]),
    'quantize': ('CommDspy.rx.quantize', [('signal', cv([-2.3, 0.4, 1.7, 9.6, -0.8])), ('total_bits', 3)], [('frac_bits', 0), ('fix_point_type', 'u')], [{}, {'fix_point_type': 's'}, {'frac_bits': 1}, {'frac_bits': 1, 'fix_point_type': 'ss'}]),
    'slicer': ('CommDspy.rx.slicer', [('slicer_in_mat', cv([-2.3, 0.4, 1.7]))], [('levels', None)], [{}, {'levels': cv([0, 1])}]),
    'symbol2bin': ('CommDspy.rx.symbol2bin', [('symbol_mat', A(3, 'int', 0, 7)), ('num_of_symbols', 8)], F4, [{}, {'bit_order_inv': True}, {'inv_msb': True}, {'inv_lsb': True, 'bit_order_inv': True}, {'pn_inv': True}]),
    'bin2symbol': ('CommDspy.tx.bin2symbol', [('bin_mat', bits(6)), ('num_of_symbols', 8)], F4, [{}, {'bit_order_inv': True}, {'inv_msb': True}, {'inv_lsb': True, 'bit_order_inv': True}, {'pn_inv': True}]),
    'mapping': ('CommDspy.tx.mapping', [('signal', A(3, 'int', 0, 3)), ('constellation', PAM4)], [('full_scale', False), ('levels', None), ('pn_inv', False)], [{}, {'full_scale': True}, {'levels': A(4)}, {'pn_inv': True}]),
    'equalization_estimation': ('CommDspy.equalization_estimation', [('reference_signal', A(9)), ('signal', A(9))], EQ,
                                [{'ffe_postcursor': 1}, {'reg_lambda': 0.5, 'ffe_postcursor': 1, 'ffe_precursor': 1}, {'ffe_postcursor': 2, 'ffe_precursor': 1, 'dfe_taps': 1}, {'ffe_postcursor': 2, 'ffe_precursor': 1, 'regularization': 'ridge'}, {'ffe_postcursor': 1, 'ffe_precursor': 1, 'dfe_taps': 1, 'normalize': True, 'regularization': 'ridge', 'reg_lambda': 0.25}]),
    'equalization_estimation of 40 samples': ('CommDspy.equalization_estimation', [('reference_signal', A(40)), ('signal', A(40))], EQ, [{}, {'ffe_postcursor': 3}, {'ffe_precursor': 2}]),
    'prbs_checker_econ at the threshold': ('CommDspy.rx.prbs_checker_econ', [('prbs_type', prbs('PRBS7')), ('data_in', cv(prbs7(120, 100)))], [('loss_th', 100)], [{}]),
    'prbs_checker_econ below the threshold': ('CommDspy.rx.prbs_checker_econ', [('prbs_type', prbs('PRBS7')), ('data_in', cv(prbs7(120, 99)))], [('loss_th', 100)], [{}]),
    'prbs_checker at the threshold': ('CommDspy.rx.prbs_checker', [('prbs_type', prbs('PRBS7')), ('data_in', cv([1] * 100 + [0] * 27)), ('init_lock', True)], [('loss_th', 100), ('prbs_seq', None)], [{'prbs_seq': cv([0] * 127)}]),
    'prbs_checker below the threshold': ('CommDspy.rx.prbs_checker', [('prbs_type', prbs('PRBS7')), ('data_in', cv([1] * 99 + [0] * 28)), ('init_lock', True)], [('loss_th', 100), ('prbs_seq', None)], [{'prbs_seq': cv([0] * 127)}]),
    'psa': ('CommDspy.psa.psa', [('signal', A(40)), ('fs', 1000)], [('rbw', None), ('mode', 'dB'), ('obw', None), ('r', 50), ('osr', 4), ('window', 'blackmanharris'), ('overlap', 0.75), ('fullscale', 1), ('sb_mode', 'DSB'), ('plot', False)],
            [{}, {'rbw': 100}, {'rbw': 150}, {'rbw': 200}, {'rbw': 100, 'mode': 'dBm'}, {'rbw': 100, 'mode': 'dBFs'}, {'rbw': 100, 'obw': 10, 'mode': 'dBm', 'r': 2, 'osr': 2, 'window': 'hann', 'overlap': 0.5, 'fullscale': 3, 'sb_mode': 'SSB'}, {'rbw': 125, 'mode': 'dBm', 'r': 2, 'osr': 2, 'window': 'hann', 'overlap': 0.5, 'fullscale': 3, 'sb_mode': 'SSB'}]),
    'least_squares': ('CommDspy.misc.least_squares.least_squares', [('a_mat', A((5, 2))), ('b', A(5))], [('regularization', 'None'), ('reg_lambda', 0)], [{}, {'reg_lambda': 0.5}, {'regularization': 'ridge'}, {'regularization': 'lasso', 'reg_lambda': 0.5}]),
    'Filter': ('CommDspy.misc.help_classes.Filter', [('b', A(3)), ('a', A(2))], [('z_fir', None), ('z_iir', None)], [{}, {'z_fir': A(3)}, {'z_fir': A(3), 'z_iir': A(1)}]),
    'FilterTII': ('CommDspy.misc.help_classes.FilterTII', [('b', A(3)), ('a', A(2))], [('z', None)], [{}, {'z': A(2)}]),
    'FfeDfeFilterTII': ('CommDspy.misc.help_classes.FfeDfeFilterTII', [('ffe', cv([1, 0.5])), ('dfe', cv([1, 0.25])), ('levels', cv([-1, 1]))], [('z', None)], [{}, {'z': cv([0.5])}]),
    'channel_estimation_prbs': ('CommDspy.channel_estimation_prbs', [('prbs_type', prbs('PRBS7')), ('signal', A(127)), ('constellation', PAM4)],
                                [('prbs_full_scale', False), ('channel_postcursor', 500), ('channel_precursor', 19), ('normalize', False), ('bit_order_inv', False), ('pn_inv_precoding', False), ('gray_coding', False), ('pn_inv_postcoding', False)],
                                [{'channel_postcursor': 2, 'channel_precursor': 1}, {'channel_postcursor': 2}, {'channel_precursor': 1, 'channel_postcursor': 3, 'gray_coding': True}, {'channel_precursor': 1, 'channel_postcursor': 3, 'prbs_full_scale': True, 'normalize': True, 'pn_inv_precoding': True},
                                 {'channel_precursor': 1, 'channel_postcursor': 3, 'bit_order_inv': True, 'pn_inv_postcoding': True}]),
    'channel_estimation_prbs of PRBS11': ('CommDspy.channel_estimation_prbs', [('prbs_type', prbs('PRBS11')), ('signal', A(2047)), ('constellation', con('NRZ'))],
                                [('prbs_full_scale', False), ('channel_postcursor', 500), ('channel_precursor', 19), ('normalize', False), ('bit_order_inv', False), ('pn_inv_precoding', False), ('gray_coding', False), ('pn_inv_postcoding', False)], [{}]),
    'equalization_estimation_prbs': ('CommDspy.equalization_estimation_prbs', [('prbs_type', prbs('PRBS7')), ('signal', A(127)), ('constellation', PAM4)],
                                [('ffe_postcursor', 23), ('ffe_precursor', 4), ('dfe_taps', 0), ('normalize', False), ('regularization', 'None'), ('reg_lambda', 0), ('prbs_full_scale', False), ('bit_order_inv', False), ('pn_inv_precoding', False), ('gray_coded', True), ('pn_inv_postmapping', False)],
                                [{}, {'reg_lambda': 0.5, 'ffe_postcursor': 1, 'ffe_precursor': 1}, {'ffe_postcursor': 2}, {'ffe_precursor': 1, 'dfe_taps': 2, 'ffe_postcursor': 2, 'gray_coded': False}, {'ffe_precursor': 1, 'ffe_postcursor': 2, 'regularization': 'ridge', 'reg_lambda': 0.5, 'prbs_full_scale': True, 'normalize': True, 'pn_inv_precoding': True},
                                 {'ffe_precursor': 1, 'ffe_postcursor': 2, 'regularization': 'ridge', 'bit_order_inv': True, 'pn_inv_postmapping': True}]),
}
for nm in ('coding_manchester', 'coding_bipolar', 'coding_mlt3', 'coding_differential_manchester'):
    TABLE[nm] = ('CommDspy.tx.' + nm, [('pattern', bits(4))], [], [{}])
for nm in ('decoding_manchester', 'decoding_mlt3', 'decoding_differential_manchester'):
    TABLE[nm] = ('CommDspy.rx.' + nm, [('pattern', cv([0, 1, 1, 0]))], [], [{}])
TABLE['coding_linear'] = ('CommDspy.tx.coding_linear', [('pattern', bits(4)), ('G', cv([[1, 0, 1, 1], [0, 1, 0, 1]]))], [], [{}])
TABLE['lock_pattern_to_signal'] = ('CommDspy.rx.lock_pattern_to_signal', [('pattern', cv([1, -1, 3, 1])), ('signal', cv([3, 1, 1, -1, 3, 1]))], [], [{}])
TABLE['lock_pattern_to_signal_binary'] = ('CommDspy.rx.lock_pattern_to_signal_binary', [('pattern', cv([1, 0, 1, 1])), ('signal', cv([1, 1, 1, 0, 1]))], [], [{}])
TABLE['get_ctle_filter'] = ('CommDspy.rx.get_ctle_filter', [('zeros', cv([1e9])), ('poles', cv([4e9, 6e9])), ('dc_gain', -3), ('fs', 1e10), ('osr', 4)], [], [{}])
TABLE['prbs_gen'] = ('CommDspy.tx.prbs_gen', [('poly_coeff', cv([0, 1, 1])), ('init_seed', cv([1, 0, 1])), ('output_length', 5)], [], [{}])
TABLE['upsample'] = ('CommDspy.upsample', [('signal', A(3)), ('rate', 2)], [], [{}])
TABLE['zoh'] = ('CommDspy.zoh', [('signal', A(3)), ('hold_idx', 2)], [], [{}])
TABLE['uint2bin'] = ('CommDspy.uint2bin', [('int_tensor', cv([3, 1])), ('n_bits', 3)], [], [{}])
TABLE['hamming'] = ('CommDspy.hamming', [('pattern_block', bits((2, 3))), ('codebook', bits((3, 3)))], [], [{}])


def any_lock(I, fo, env, node):
    n = I.heap[list(env.values())[0].x].shape
    return vtuple([I.alloc(Arr(shape=n, nt='float', elem=lambda idx: Poly.atom(('e', 'aligned') + tuple(idx))), node), I.alloc(Arr(shape=n, nt='float'), node)])


D = U.S + 'data_objects.'
TABLE['ChannelData'] = (D + 'ChannelData', [('pulse', 'rcos'), ('pulse_span', 2), ('ch_type', 'pulse')], [('fir_coefs', None), ('iir_coefs', None), ('rolloff', 0.35), ('osr', 1), ('snr', 22), ('pulse_rj_sigma', 0), ('pulse_zi', None), ('ch_zi', None)],
                        [{'osr': 4}, {}, {'osr': 2, 'rolloff': 0.2, 'pulse_zi': A(7)}])
TABLE['ChannelData with ISI'] = (D + 'ChannelData', [('pulse', 'rect'), ('pulse_span', 1), ('ch_type', 'isi_awgn')], [('fir_coefs', None), ('iir_coefs', None), ('rolloff', 0.35), ('osr', 1), ('snr', 22), ('pulse_rj_sigma', 0), ('pulse_zi', None), ('ch_zi', None)],
                                 [{'snr': None}, {'snr': None, 'fir_coefs': cv([1, 0.5])}, {'snr': None, 'iir_coefs': cv([1, 0.5]), 'ch_zi': A(1)}])
TABLE['MappingData'] = (D + 'MappingData', [('constellation', PAM4)], [('levels', None), ('amp_pp_mv', 2), ('rx_factor', 1)], [{}, {'levels': L4}, {'levels': L4, 'amp_pp_mv': 3}])
TABLE['CodingData'] = (D + 'CodingData', [('bits_per_symbol', 2), ('constellation', PAM4), ('chunk_size', 4)], F4 + [(k, False) for k in ('coding_gray', 'coding_differential', 'coding_bin_differential', 'coding_manchester', 'coding_bipolar', 'coding_mlt3', 'coding_diff_manchester', 'coding_linear', 'coding_conv')] + [('G', None), ('feedback', None), ('use_feedback', None)],
                       [{}] + [{k: True} for k in ('bit_order_inv', 'inv_msb', 'inv_lsb', 'pn_inv', 'coding_gray', 'coding_differential', 'coding_bin_differential', 'coding_manchester', 'coding_diff_manchester')] + [{'coding_linear': True, 'G': cv([[1, 0, 1, 1], [0, 1, 0, 1]])}, {'coding_conv': True, 'G': G1}])
TABLE['AdcData'] = (D + 'AdcData', [('total_bits', 4), ('frac_bits', 1), ('quant_type', 'ss'), ('osr', 4), ('sample_rate', 1)], [('phase', None)], [{}, {'phase': 1}])
TABLE['CtleData'] = (D + 'CtleData', [('zeros', cv([0.5])), ('poles', cv([1.25, 2.0])), ('dc_gain', -3.0), ('fs', 4.0), ('osr', 2)], [('zi', None)], [{}, {'zi': A(2)}])
TABLE['FfeDfeData'] = (D + 'FfeDfeData', [('ffe_precursors', 1), ('ffe_postcursors', 2), ('dfe_taps', 1)], [('ffe_vec', None), ('dfe_vec', None), ('levels', None), ('zi_ffe', None), ('zi_dfe', None)],
                       [{'levels': cv([-1, 1])}, {'levels': cv([-1, 1]), 'ffe_vec': cv([0.25, 1, 0.5, -0.25]), 'dfe_vec': cv([0.5]), 'zi_ffe': cv([1, 2, 3, 4]), 'zi_dfe': cv([-1])}])


def _tx(I, r):
    b = B(I)
    pd = U.call(I, D + 'PrbsData', b.enum('prbs_type', 'PrbsEnum', ['PRBS7']), b.const('chunk_size', 8))
    cd = U.call(I, D + 'CodingData', b.const('bps', 2), b.enum('constellation', 'ConstellationEnum', ['PAM4']), b.const('chunk_size', 8))
    return U.meth(I, U.call(I, U.S + 'transmitter.Transmitter', pd, cd, r), 'generate')


def block(cls, x):
    return lambda I, r: I.call(U.call(I, U.S + cls, r), [x(B(I), 'chunk')], {}, None)


USE = {'ChannelData': block('channel.Channel', A(3)), 'ChannelData with ISI': block('channel.Channel', A(3)), 'MappingData': _tx, 'CodingData': block('transmitter.Encoder', bits(4)),
       'AdcData': block('receiver.Adc', cv([0.3, 1.2, -0.7, 2.2, 0.9, -3.1, 0.1, 1.7])), 'CtleData': block('receiver.Ctle', A(3)), 'FfeDfeData': block('receiver.FfeDfe', cv([0.3, 1.2, -0.7, 2.2, 0.9]))}


def make(b, k, v):
    return v(b, k) if callable(v) else b.const(k, v)


def pairs(p, lab, x, y, out):
    """flatten two results into comparable leaves; out: list of (label, a, b) or a str"""
    if x is None or y is None:
        out.append((lab, None, None))
        return
    if isinstance(x, Arr) or isinstance(y, Arr):
        out.append((lab, x, y))
        return
    if x.k == 'tuple' and y.k == 'tuple':
        if len(x.x) != len(y.x):
            out.append('%s has %d parts instead of %d' % (lab, len(x.x), len(y.x)))
            return
        for j, (a, c) in enumerate(zip(x.x, y.x)):
            pairs(p, '%s part %d' % (lab, j + 1), a, c, out)
        return
    if x.k in ('none', 'str', 'enum', 'bool') or y.k in ('none', 'str', 'enum', 'bool'):
        if x.k != y.k or (x.k == 'str' and x.c != y.c):
            if x.k != 'top' and y.k != 'top':
                out.append('%s is %s instead of %s' % (lab, x.c if x.k == 'str' else x.k, y.c if y.k == 'str' else y.k))
            else:
                out.append((lab, None, None))
        return
    out.append((lab, x, y))


def run_case(I, name, how, first, second):
    """first/second(I, b) -> (positional, keyword): both calls on one path, with the event counters reset in between"""
    path, req, options, _ = TABLE[name]
    dom = Points(rows=40 if 'mueller' in name else 12)
    cls = path.startswith('CommDspy.misc.help_classes')

    def once(I, form):
        n0 = len(I.log)
        a, kw = form(I, B(I))
        r = U.call(I, path, *a, **kw)
        if name in USE:
            r = USE[name](I, r)
        elif cls:
            r = vtuple([I.call(r, [B(I).arr('chunk', (4,)) if name != 'FfeDfeFilterTII' else B(I).carr('chunk', [0.9, -0.4, 1.2, -2.2])], {}, None)])
        ev = [e for e in I.log[n0:] if e[0] in ('welch', 'solve')]
        del I.log[n0:]
        return r, ev

    def go(I):
        if 'prbs' in name and 'estimation' in name:
            I.hooks[('func', 'CommDspy.rx.lock_pattern.lock_pattern_to_signal')] = any_lock if 'PRBS11' in name else hook_lock(5, [])
        return once(I, first), once(I, second)
    try:
        ps = I.explore(go, max_paths=60)
        complete = I.last_complete
    finally:
        I.hooks.clear()
    lab = '%s: %s' % (name, how)
    n, bad, unk = 0, None, None if complete else 'exploration incomplete'
    for p in ps:
        if 'speculative' in p.tags or p.kind == 'abort':
            continue
        if p.kind == 'raise':
            if not p.facts and not p.opaque:
                bad = (p.exc.where, 'raises %s: %s' % (p.exc.exc, p.exc.msg))
            continue
        (r1, e1), (r2, e2) = p.val
        out = []
        pairs(p, 'result', r1, r2, out)
        if len(e1) != len(e2):
            out.append('%d estimation problems instead of %d' % (len(e1), len(e2)))
        for a, c in zip(e1, e2):
            if a[0] != c[0]:
                out.append('another kind of estimate')
                continue
            if a[0] == 'solve':
                if a[1] != c[1]:
                    out.append('solver %s instead of %s' % (a[1], c[1]))
                out.append(('matrix', a[2], c[2]))
                out.append(('target', a[3], c[3]))
                params(p, a[4], c[4], out)
            else:
                out.append(('estimated signal', a[1], c[1]))
                params(p, {k: v for k, v in a[2].items() if k != 'arg:0'}, {k: v for k, v in c[2].items() if k != 'arg:0'}, out, a[3], c[3])
        for o in out:
            if isinstance(o, str):
                if p.opaque:
                    unk = o
                else:
                    bad = bad or (None, o)
                continue
            l, x, y = o
            if l in SKIP.get(name, ()):
                continue
            x, y = arr_of(p, x), arr_of(p, y)
            if x is None or y is None:
                if o[1] is not None and o[1] is o[2]:
                    continue
                unk = l + ' has no summary'
                continue
            s = cmp_shape(x, y)
            if s is not True:
                if s is False and not p.opaque:
                    bad = bad or (None, '%s has shape %s instead of %s' % (l, x.shape, y.shape))
                    continue
                if x.shape is None or x.shape != y.shape or len(x.shape) != 1:
                    unk = '%s: shape %s versus %s' % (l, x.shape, y.shape)
                    continue
            dims = [d.cint() if d is not None else None for d in y.shape]
            if any(d is None for d in dims):
                dims = [3 if d is None else d for d in dims]
            ix = list(iprod(*[range(d) if d <= 16 else sorted({0, 1, 2, d // 2, d - 2, d - 1} | set(range(0, d, max(1, d // 16)))) for d in dims]))
            if len(ix) > 300:
                ix = ix[::len(ix) // 300 + 1]
            for t in ix:
                idx = tuple(C(j) for j in t)
                u, w = el(x, idx), el(y, idx)
                if u is None or w is None:
                    unk = '%s has no element summary' % l
                    break
                if u == w:
                    n += 1
                    continue
                q = eqv.equal(u, w, dom, p.facts)
                if q[0] == 'eq':
                    n += 1
                elif q[0] == 'neq' and not p.opaque:
                    bad = bad or (None, '%s%s is %s instead of %s' % (l, list(t), q[2], q[3]))
                    break
                elif q[0] != 'vacuous':
                    unk = '%s%s cannot be compared' % (l, list(t))
                    break
    if bad:
        return [viol('convention', '%s|%s' % (name, how.split(' [')[0]), bad[0], '%s: %s' % (lab, bad[1]))]
    if unk:
        return [und('convention', lab, unk)]
    return [ok('convention', lab, max(n, 1))]


def params(p, a, c, out, ha=None, hc=None):
    for k in sorted(set(a) | set(c), key=str):
        x, y = a.get(k), c.get(k)
        if x is None or y is None:
            if (x is None) != (y is None):
                out.append('parameter %s given in one form only' % k)
            continue
        if x.k == 'ref' and ha is not None:
            x, y = ha.get(x.x), hc.get(y.x) if y.k == 'ref' else y
        pairs(p, 'parameter %s' % k, x, y, out)


def case(I, item):
    name, j = item
    path, req, options, ctxs = TABLE[name]
    ctx = ctxs[j]
    given = ', '.join('%s=%s' % (k, v if not callable(v) else '...') for k, v in ctx.items())
    recs = []

    def short(I, b):
        return [make(b, k, v) for k, v in req], {k: make(b, k, v) for k, v in ctx.items()}

    def full(I, b):
        return [make(b, k, v) for k, v in req], {**{k: make(b, k, v) for k, v in options}, **{k: make(b, k, v) for k, v in ctx.items()}}

    def named(I, b):
        a, kw = full(I, b)
        return [], {**dict(zip([k for k, _ in req], a)), **kw}

    def position(I, b):
        return [make(b, k, v) for k, v in req] + [make(b, k, ctx.get(k, v)) for k, v in options], {}
    if options:
        recs += run_case(I, name, 'options left out or given [%s]' % given, short, full)
    recs += run_case(I, name, 'by position or by name [%s]' % given, position, named)
    return recs


def c28(ctx):
    ctx.rule('convention', 'calls that leave options out, give their documented defaults, or pass everything by position or by name have equal results')
    ctx.pmap(case, [(n, j) for n in sorted(TABLE) for j in range(len(TABLE[n][3]))])
