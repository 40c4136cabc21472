SEEDS = []


def seed(id, prop, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo))


HEAD = 'import sys\nimport numpy as np\nimport CommDspy as cdsp\n'

seed('c01-bin2symbol-trim', 'C01', 'a bit stream whose length is not a multiple of the bits per symbol, with an MSB/LSB inversion flag',
     "the caller's bit array is inverted in place",
     [('CommDspy/tx/bin2symbol.py', 'bin_vec[:-1*trim].copy() if trim > 0', 'bin_vec[:-1*trim] if trim > 0')],
     HEAD + '''
x = np.array([0, 1, 1, 0, 1, 1, 0])
y = x.copy()
cdsp.tx.bin2symbol(x, 4, False, True, True, False)
sys.exit(0 if np.array_equal(x, y) else 1)
''')
seed('c02-levels-cache', 'C02', 'a caller that changes the returned level table, followed by any other call for the same constellation',
     'constellation levels handed out are shared between calls',
     [('CommDspy/auxiliary.py', 'def get_levels(constellation, full_scale=False):', 'from functools import lru_cache\n\n\n@lru_cache(maxsize=None)\ndef get_levels(constellation, full_scale=False):')],
     HEAD + '''
a = cdsp.get_levels(cdsp.ConstellationEnum.PAM4)
ref = a.copy()
a[:] = 7
b = cdsp.get_levels(cdsp.ConstellationEnum.PAM4)
sys.exit(0 if np.array_equal(b, ref) else 1)
''')
seed('c03-zoh-one', 'C03', 'holding for a single sample',
     'the result is the very array that was passed in',
     [('CommDspy/auxiliary.py', '    return np.reshape(np.tile(signal[:, None], [1, hold_idx]), -1)', '    return np.reshape(np.broadcast_to(signal[:, None], [len(signal), hold_idx]), -1)')],
     HEAD + '''
x = np.arange(6.0)
y = cdsp.zoh(x, 1)
sys.exit(1 if np.shares_memory(x, y) else 0)
''')
seed('c04-jitter-draw', 'C04', 'a jitter-free call between seeding and another random draw',
     'pulse shaping without jitter advances the global random generator',
     [('CommDspy/channel/pulse_shaping.py', '    if np.isclose(rj_sigma, 0):\n        return sig_conv, zo\n', '    jitter = np.random.randn(len(sig_conv)//osr)\n    if np.isclose(rj_sigma, 0):\n        return sig_conv, zo\n'),
      ('CommDspy/channel/pulse_shaping.py', 'np.random.randn(len(sig_conv)//osr) * rj_sigma', 'jitter * rj_sigma')],
     HEAD + '''
np.random.seed(3)
a = np.random.randn(4)
np.random.seed(3)
cdsp.channel.pulse_shape(np.ones(8), osr=4, span=2, pulse='rect')
b = np.random.randn(4)
sys.exit(0 if np.array_equal(a, b) else 1)
''')
seed('c06-dfe-only', 'C06', 'gradient request for DFE taps only',
     'the call fails with an accidental error instead of returning loss and DFE gradient',
     [('CommDspy/rx/least_mean_squares.py', '    elif ffe_size == 0:\n        return loss, grad_dfe\n', '    elif ffe_size == 0:\n        return loss, dfe_grad\n')],
     HEAD + '''
x = np.random.RandomState(0).randn(32)
try:
    loss, g = cdsp.rx.ddlms_grad(x, x, np.array([-3., -1., 1., 3.]), dfe_tap_idx=np.array([1, 2]))
except Exception as e:
    print(e)
    sys.exit(1)
sys.exit(0 if len(g) == 2 else 1)
''')
seed('c07-zero-bit-skip', 'C07', 'the register one bit earlier, read after a bit that is zero',
     'get_prev_seed is not updated when the new bit is zero',
     [('CommDspy/tx/prbs_iterator.py', '        self.seed_prev = self.seed\n', '        self.seed_prev = self.seed if single_patt or self.seed_prev is None else self.seed_prev\n')],
     HEAD + '''
poly = cdsp.get_polynomial(cdsp.PrbsEnum.PRBS7)
it = cdsp.tx.PrbsIterator(poly, np.array([1, 0, 0, 1, 0, 1, 1]))
ok = True
for _ in range(60):
    before = np.array(it.get_seed())
    next(it)
    ok &= np.array_equal(it.get_prev_seed(), before)
sys.exit(0 if ok else 1)
''')
seed('c07-prbs31-taps', 'C07', 'PRBS31, whose period is too long to be measured',
     'PRBS31 uses a polynomial that is not primitive',
     [('CommDspy/auxiliary.py', 'poly_coeff[[27, 30]] = 1', 'poly_coeff[[26, 30]] = 1')],
     HEAD + '''
p = cdsp.get_polynomial(cdsp.PrbsEnum.PRBS31)
sys.exit(0 if list(np.nonzero(p)[0] + 1) == [28, 31] else 1)
''')
seed('c08-flag-order', 'C08', 'bit order inversion together with exactly one of MSB/LSB inversion',
     'bits are inverted at the wrong end of the symbol on the receive side',
     [('CommDspy/rx/symbol2bin.py', '        if inv_msb:\n', '        if bit_order_inv:\n            symbol_mat_binary = np.fliplr(symbol_mat_binary).copy()\n        if inv_msb:\n'),
      ('CommDspy/rx/symbol2bin.py', '        if bit_order_inv:\n            symbol_mat_binary = np.fliplr(symbol_mat_binary)\n    return', '    return')],
     HEAD + '''
x = np.random.RandomState(1).randint(0, 2, 40)
y = cdsp.tx.bin2symbol(x, 4, True, True, False, False)
sys.exit(0 if np.array_equal(cdsp.rx.symbol2bin(y, 4, True, True, False, False), x) else 1)
''')
seed('c09-ook-inverted', 'C09', 'OOK with P-N inversion',
     'inverted OOK levels are demapped to the complementary index',
     [('CommDspy/rx/demapping.py', 'signal - np.min(coded_levels)', 'signal + (np.max(coded_levels) if pn_inv else -1 * np.min(coded_levels))')],
     HEAD + '''
x = np.array([0, 1, 1, 0, 1])
ok = True
for c in cdsp.ConstellationEnum:
    y = cdsp.rx.demapping(cdsp.tx.mapping(x, c, pn_inv=True), c, pn_inv=True) % 3
    ok = ok and np.array_equal(y, x)
sys.exit(0 if ok else 1)
''')
seed('c10-pam3-differential', 'C10', 'differential coding of a PAM3 pattern',
     'the encoder wraps at four levels while the decoder wraps at three',
     [('CommDspy/tx/coding.py', '    lvl_num = len(get_levels(constellation))\n    return np.reshape(lfilter', '    lvl_num = 2 ** int(np.ceil(np.log2(len(get_levels(constellation)))))\n    return np.reshape(lfilter')],
     HEAD + """
x = np.random.RandomState(2).randint(0, 3, 50)
c = cdsp.ConstellationEnum.PAM3
sys.exit(0 if np.array_equal(cdsp.rx.decoding_differential(cdsp.tx.coding_differential(x, c), c), x) else 1)
""")
seed('c11-gray-wide', 'C11', 'Gray numbering of eight levels or more',
     'neighbouring levels differ in more than one bit',
     [('CommDspy/auxiliary.py', 'np.vstack((lvls, lvls[::-1]))', 'np.vstack((lvls, np.roll(lvls, 1, axis=0)))')],
     HEAD + '''
g = cdsp.get_gray_level_vec(16)
ok = all(bin(int(a) ^ int(b)).count('1') == 1 for a, b in zip(g[:-1], g[1:])) and sorted(g) == list(range(16))
sys.exit(0 if ok else 1)
''')
seed('c12-threshold', 'C12', 'exactly loss_th wrong bits',
     'the lock is reported kept although the threshold is reached',
     [('CommDspy/rx/checker.py', '    lost_lock           = np.sum(error_bit) >= loss_th', '    lost_lock           = np.sum(error_bit) > loss_th')],
     HEAD + '''
p = cdsp.PrbsEnum.PRBS7
d, _ = cdsp.tx.prbs_gen(cdsp.get_polynomial(p), np.ones(7, dtype=int), 300)
d = d.copy()
d[[5, 60, 200]] ^= 1
lost, good, err = cdsp.rx.prbs_checker(p, d, True, loss_th=3)
sys.exit(0 if lost and good == 297 else 1)
''')
seed('c13-pad-front', 'C13', 'a pattern whose length is not a multiple of the block length',
     'padding zeros go in front of the data, shifting every block',
     [('CommDspy/tx/coding.py', 'np.concatenate([pattern, np.array([0] * padding)]).astype(int)', 'np.concatenate([np.array([0] * padding), pattern]).astype(int)')],
     HEAD + '''
G = np.array([[1, 0, 1], [0, 1, 1]])
y = cdsp.tx.coding_linear(np.array([1, 0, 1]), G)
sys.exit(0 if list(y) == [1, 0, 1, 1, 0, 1] else 1)
''')
seed('c14-feedback-order', 'C14', 'a recursive code whose feedback polynomial is not symmetric',
     'the decoder trellis applies the feedback taps in reverse order',
     [('CommDspy/misc/ml_decoding.py', 'memory_dict[kk].dot(feedback[kk][1:])', 'memory_dict[kk].dot(feedback[kk][:0:-1])')],
     HEAD + '''
G = {0: np.array([[1, 0, 0, 0], [1, 1, 0, 1]])}
fb, uf = {0: np.array([1, 0, 1, 1])}, np.array([[0, 1]])
x = np.random.RandomState(3).randint(0, 2, 40)
y = cdsp.tx.coding_conv(x, G, feedback=fb, use_feedback=uf)
y = y.copy()
y[40] ^= 1
d, _ = cdsp.rx.decoding_conv_viterbi(y, G, len(y), feedback=fb, use_feedback=uf)
sys.exit(0 if np.array_equal(d, x) else 1)
''')
seed('c15-ss-range', 'C15', 'the symmetric signed format and a sample beyond the negative end of the range',
     'symmetric signed quantisation drops the top level instead of the bottom one',
     [('CommDspy/rx/quantiztion.py', 'levels[1:] - 2**(total_bits - 1)', 'levels[:-1] - 2**(total_bits - 1)')],
     HEAD + '''
y = cdsp.rx.quantize(np.array([-9., -0.3, 9.]), 3, 0, 'ss')
sys.exit(0 if np.array_equal(y, [-3, 0, 3]) else 1)
''')
seed('c15-sorted-levels', 'C15', 'levels that are not listed in ascending order',
     'the decision threshold search assumes ascending levels',
     [('CommDspy/rx/slicer.py', '''    diff_mat = abs(slicer_in_vec - levels)
''', '''    mid_vec = (levels[1:] + levels[:-1]) / 2
'''), ('CommDspy/rx/slicer.py', '    constellation_points = np.argmin(diff_mat, axis=1)\n', '    constellation_points = np.sum(slicer_in_vec > mid_vec, axis=1)\n')],
     HEAD + '''
lv = np.array([3., -1., 1., -3.])
y = cdsp.rx.slicer(np.array([2.7, -0.8, 0.6, -5.]), lv)
sys.exit(0 if np.array_equal(y, [3, -1, 1, -3]) else 1)
''')
seed('c16-tii-leading', 'C16', 'a recursive transposed filter whose leading denominator coefficient is not one',
     'the filter memory is updated with the un-normalised output',
     [('CommDspy/misc/help_classes.py', '        self._z = (x * self._b_vec) + z_temp - (y * self._a_vec)', '        self._z = (x * self._b_vec) + z_temp - (a0_y * self._a_vec)')],
     HEAD + '''
from scipy.signal import lfilter
from CommDspy.misc.help_classes import FilterTII
b, a = np.array([1., 0.5]), np.array([2., -0.5, 0.25])
x = np.random.RandomState(1).randn(20)
sys.exit(0 if np.allclose(FilterTII(b, a)(x), lfilter(b, a, x)) else 1)
''')
seed('c16-ctle-sign', 'C16', 'a CTLE zero frequency given as a negative number',
     'the mirrored (non-minimum-phase) zero is realised',
     [('CommDspy/rx/ctle_model.py', '[-1 * np.sign(zero) * zero for zero in zeros]', '[-1 * zero for zero in zeros]')],
     HEAD + '''
b1, a1 = cdsp.rx.get_ctle_filter([-5e8], [2e9, 5e9], -4, 1e10, 2)
b2, a2 = cdsp.rx.get_ctle_filter([5e8], [2e9, 5e9], -4, 1e10, 2)
sys.exit(0 if np.allclose(b1, b2) and np.allclose(a1, a2) else 1)
''')
seed('c17-short-chunk', 'C17', 'chunks shorter than the feed-forward filter',
     'the feed-forward memory returned is too short',
     [('CommDspy/rx/ffe_dfe_model.py', '        return slicer_in, bufferred_signal[-1], dfe_memory', '        return slicer_in, input_signal[-1*ffe_len:], dfe_memory')],
     HEAD + '''
taps = np.array([1., -0.4, 0.2, 0.1])
x = np.random.RandomState(2).randn(12)
dfe = np.array([0.3])
full = cdsp.rx.ffe_dfe(x, ffe_taps=taps, dfe_taps=dfe)[0]
z, d = np.zeros(4), np.zeros(1)
out = []
try:
    for k in range(0, 12, 2):
        y, z, d = cdsp.rx.ffe_dfe(x[k:k + 2], ffe_taps=taps, dfe_taps=dfe, zi_ffe=z, zi_dfe=d)
        out.append(y)
except ValueError as e:
    print(e)
    sys.exit(1)
sys.exit(0 if np.allclose(np.concatenate(out), full) else 1)
''')
seed('c17-osr-phase', 'C17', 'an oversampled signal whose decision phase lies in the second half of the symbol',
     'the decision fed back is taken at a wrong phase',
     [('CommDspy/rx/ffe_dfe_model.py', "        if ii % osr == (phase +  osr // 2) % osr:", "        if ii % osr == min(phase + osr // 2, osr - 1):")],
     HEAD + '''
x = np.array([3.1, 2.2, -0.7, -2.9, 1.3, 0.4, -1.1, 2.6, 0.9, -3.3, 1.8, -0.2])
osr, phase = 4, 3
dfe = np.array([0.5, -0.25])
got = cdsp.rx.ffe_dfe(x, dfe_taps=dfe, osr=osr, phase=phase)[0]
lv = np.array([-3., -1., 1., 3.])
mem, s, d = np.zeros(2), [], []
for n in range(len(x)):
    s.append(x[n] - mem.dot(dfe))
    d.append(lv[np.argmin(abs(lv - s[-1]))])
    k = n - osr // 2
    if k >= 0 and k % osr == phase:
        mem = np.array([d[k], mem[0]])
sys.exit(0 if np.allclose(got, s) else 1)
''')
seed('c18-rrc-singular', 'C18', 'a roll-off for which a sample falls on the removable singularity of the root raised cosine',
     'the sample at the singularity has a wrong value',
     [('CommDspy/channel/pulse_shaping.py', '(1 + 2/np.pi)*np.sin(np.pi/(4*beta)) + (1 - 2/np.pi)*np.cos(np.pi/(4*beta))', '(1 + 2/np.pi)*np.sin(np.pi/(4*beta)) + (1 - 2/np.pi)*np.cos(np.pi/4*beta)')],
     HEAD + '''
beta = 0.25
p = cdsp.channel.rrc_pulse(4, 4, beta)
q = cdsp.channel.rrc_pulse(4, 4, beta + 1e-6)
sys.exit(0 if np.allclose(p, q, atol=1e-3) else 1)
''')
seed('c18-memory-span', 'C18', 'shaping in chunks with a span larger than one symbol and a chunk shorter than the pulse',
     'the returned memory forgets what the previous chunks contributed',
     [('CommDspy/channel/pulse_shaping.py', '''    if np.isclose(rj_sigma, 0):
        return sig_conv, zo
''', '''    if len(sig_ups) < len(zi):
        zo = lfilter(pulse_vec, [1], sig_ups, zi=np.zeros_like(zi))[1]
    if np.isclose(rj_sigma, 0):
        return sig_conv, zo
''')],
     HEAD + '''
x = np.random.RandomState(0).randn(10)
kw = dict(osr=2, span=3, pulse='sinc')
full = cdsp.channel.pulse_shape(x, **kw)[0]
z, out = None, []
for k in range(10):
    y, z = cdsp.channel.pulse_shape(x[k:k + 1], zi=z, **kw)
    out.append(y)
sys.exit(0 if np.allclose(np.concatenate(out), full) else 1)
''')
seed('c19-axis', 'C19', 'an odd interpolation order',
     'the output is one sample period late against its own first column',
     [('CommDspy/digital_delay.py', '        output_mat[:, ii+1] = lfilter(fir_coeffs[::-1], 1, signal_vec)[order:]', "        output_mat[:, ii+1] = lfilter(fir_coeffs, 1, signal_vec)[order:] if order % 2 and osr > 4 else lfilter(fir_coeffs[::-1], 1, signal_vec)[order:]")],
     HEAD + '''
x = np.arange(20.0)
y, x2, x1 = cdsp.digital_oversample(x, 5, 3, 'lagrange')
sys.exit(0 if np.allclose(y, 1 + np.arange(len(y)) / 5) else 1)
''')
seed('c20-buffer-rows', 'C20', 'frames overlapping by more than one sample and a signal whose last frame brings exactly one new sample',
     'the last frame, with its new sample, is missing',
     [('CommDspy/auxiliary.py', 'full_len - length - max(overlap, 0), full_len)', 'full_len - length - max(overlap, 0) - (1 if overlap > 1 else 0), full_len)')],
     HEAD + '''
x = np.arange(1., 10.)
bad = 0
for n in range(5, 10):
    m = cdsp.buffer(x[:n], 4, 2)
    want = []
    k = 0
    while k < n - 2:
        f = np.zeros(4)
        f[:len(x[k:min(k + 4, n)])] = x[k:min(k + 4, n)]
        want.append(f)
        k += 2
    bad += not (m.shape == np.array(want).shape and np.array_equal(m, want))
sys.exit(1 if bad else 0)
''')
seed('c21-ffe-window', 'C21', 'a feed-forward tap index that looks ahead (negative)',
     'the gradient of look-ahead taps wraps around the end of the block',
     [('CommDspy/rx/least_mean_squares.py', '        stop_idx = min([N, N + ii])  # stop is exclusive in python', '        stop_idx = N  # stop is exclusive in python'),
      ('CommDspy/rx/least_mean_squares.py', 'e_n[mask_vec] * input_vec[mask_vec - ii]', 'e_n[mask_vec] * np.roll(input_vec, ii)[mask_vec]')],
     HEAD + '''
r = np.random.RandomState(0)
x, y = r.randn(16), r.randn(16)
lv = np.array([-3., -1., 1., 3.])
l, g = cdsp.rx.ddlms_grad(x, y, lv, ffe_tap_idx=np.array([-2, 0, 2]))
e = y - cdsp.rx.slicer(y, lv)
want = [0.5 * np.mean(e[:-2] * x[2:]), 0.5 * np.mean(e * x), 0.5 * np.mean(e[2:] * x[:-2])]
sys.exit(0 if np.allclose(g, want) else 1)
''')
seed('c21-mm-weights', 'C21', 'unequal pre- and post-cursor weights', 'the weights of the pre- and post-cursor are exchanged',
     [('CommDspy/rx/clock_data_recovery.py', 'post_coef * post_weight - pre_coef * pre_weight', 'post_coef * pre_weight - pre_coef * post_weight')],
     HEAD + '''
s = np.array([1., 2., -1., 3., 0.5])
r = np.array([1., 1., -1., 3., 1.])
pre = r[1:].dot(s[:-1]) / 4
post = r[:-1].dot(s[1:]) / 4
bad = 0
for pw, qw in ((1, 1), (2, 0.1), (0.1, 2)):
    bad += cdsp.rx.mueller_muller_step(s, r, pw, qw) != int(np.sign(post * qw - pre * pw))
sys.exit(1 if bad else 0)
''')
seed('c22-dfe-window', 'C22', 'more than one DFE tap', 'the feedback part of the system uses a window of the reference one sample late, which contains the target itself',
     [('CommDspy/equalization_estimation.py', '        temp_ref = reference_signal\n', '        temp_ref = reference_signal[1:] if dfe_taps > 1 else reference_signal\n')],
     HEAD + '''
r = np.random.RandomState(0)
ref = r.choice([-3., -1., 1., 3.], 400)
s = ref + 0.4 * np.concatenate([[0], ref[:-1]]) - 0.3 * np.concatenate([[0, 0], ref[:-2]])
ffe, dfe, g, e, m = cdsp.equalization_estimation(ref, s, ffe_postcursor=0, ffe_precursor=0, dfe_taps=2)
sys.exit(0 if np.allclose(ffe, [1], atol=1e-6) and np.allclose(dfe, [0.4, -0.3], atol=1e-6) else 1)
''')
seed('c22-normalize-sign', 'C22', 'normalisation of an equaliser whose largest-magnitude tap is negative', 'the gain is the magnitude of a negative tap instead of the peak',
     [('CommDspy/equalization_estimation.py', '    dig_gain  = np.max(ffe)\n', '    dig_gain  = np.max(np.abs(ffe))\n')],
     HEAD + '''
r = np.random.RandomState(0)
ref = r.choice([-3., -1., 1., 3.], 400)
s = -ref + 0.4 * np.concatenate([[0], ref[:-1]]) + 0.1 * r.randn(400)
a = cdsp.equalization_estimation(ref, s, 2, 1, 2)
b = cdsp.equalization_estimation(ref, s, 2, 1, 2, normalize=True)
sys.exit(0 if np.allclose(a[1], b[1] * b[2]) and np.allclose(a[0], b[0] * b[2]) and np.isclose(b[2], np.max(a[0])) else 1)
''')
seed('c23-lock-polarity', 'C23', 'a pattern whose largest correlation is beaten in magnitude by an anti-correlation', 'the lock goes to the strongest correlation of either sign',
     [('CommDspy/rx/lock_pattern.py', '    start_idx = np.argmax(xcorr)\n    return pattern_rep[start_idx:start_idx + pattern_len], xcorr\n\ndef lock_pattern_to_signal(', '    start_idx = np.argmax(np.abs(xcorr))\n    return pattern_rep[start_idx:start_idx + pattern_len], xcorr\n\ndef lock_pattern_to_signal(')],
     HEAD + '''
pattern = np.array([1, 1, 1, 0, 0, 0, 1, 0, 1, 0])
signal = np.roll(pattern, -3).copy()
signal[0] ^= 1; signal[4] ^= 1; signal[7] ^= 1
nrz, rep = 2 * signal - 1, 2 * np.tile(pattern, 2) - 1
bad = 0
for k in range(10):
    for seed in range(30):
        s = np.random.RandomState(seed).randint(0, 2, 10)
        c = [np.sum(rep[j:j + 10] * (2 * s - 1)) for j in range(11)]
        j = int(np.argmax(c))
        bad += not np.array_equal(cdsp.rx.lock_pattern_to_signal_binary(pattern, s)[0], np.tile(pattern, 2)[j:j + 10])
sys.exit(1 if bad else 0)
''')
seed('c23-precoding-inversion', 'C23', 'a multi-bit constellation whose bits were inverted before coding', 'the inversion before coding reaches bin2symbol as inversion of one bit only',
     [('CommDspy/channel_estimation.py', 'bin2symbol(prbs_seq, len(levels), bit_order_inv, False, False, pn_inv_precoding)', 'bin2symbol(prbs_seq, len(levels), bit_order_inv, False, pn_inv_precoding)')],
     HEAD + '''
from CommDspy.constants import PrbsEnum, ConstellationEnum
from CommDspy.auxiliary import get_polynomial
C = ConstellationEnum.PAM4
bits, _ = cdsp.tx.prbs_gen(get_polynomial(PrbsEnum.PRBS9), np.ones(9, dtype=int), 511 * 4)
x = cdsp.tx.mapping(cdsp.tx.bin2symbol(bits, 4, pn_inv=True), C)
h = np.array([0.1, 1.0, 0.4, -0.2])
y = np.convolve(np.tile(x, 2), h)[511:511 + 2 * 511 + 37]
est, _ = cdsp.channel_estimation_prbs(PrbsEnum.PRBS9, y, C, channel_postcursor=4, channel_precursor=2, normalize=True, pn_inv_precoding=True)
k = int(np.argmax(est))
sys.exit(0 if np.allclose(est[k - 1:k + 3], h, atol=1e-6) and k == 2 else 1)
''')
seed('c23-gray-scale', 'C23', 'a Gray-coded full-scale reference', 'the reference of a Gray-coded transmitter is not scaled',
     [('CommDspy/equalization_estimation.py', 'mapping(coding_gray(prbsq, constellation), constellation, prbs_full_scale, pn_inv=pn_inv_postmapping)', 'mapping(coding_gray(prbsq, constellation), constellation, pn_inv=pn_inv_postmapping)')],
     HEAD + '''
from CommDspy.constants import PrbsEnum, ConstellationEnum
from CommDspy.auxiliary import get_polynomial
C = ConstellationEnum.PAM4
bits, _ = cdsp.tx.prbs_gen(get_polynomial(PrbsEnum.PRBS9), np.ones(9, dtype=int), 511 * 4)
x = cdsp.tx.mapping(cdsp.tx.coding_gray(cdsp.tx.bin2symbol(bits, 4), C), C, full_scale=True)
y = np.concatenate([x, x])
ffe, dfe, g, e, m = cdsp.equalization_estimation_prbs(PrbsEnum.PRBS9, y, C, ffe_postcursor=2, ffe_precursor=2, prbs_full_scale=True)
sys.exit(0 if np.isclose(np.max(ffe), 1, atol=1e-3) else 1)
''')
seed('c24-noisy-samples', 'C24', 'jitter with more than one sample per symbol', 'every sample is shifted on its own instead of the whole symbol',
     [('CommDspy/channel/pulse_shaping.py', "        rj       = np.random.randn(len(sig_conv)//osr) * rj_sigma\n", "        rj       = np.random.randn(len(sig_conv)) * rj_sigma\n"),
      ('CommDspy/channel/pulse_shaping.py', "        t_mat_rj = t_mat + rj[:, None]\n", "        t_mat_rj = t_mat + rj.reshape(-1, osr)\n")],
     HEAD + '''
np.random.seed(1)
# a straight ramp sampled by the linear part of a wide pulse: jitter shows as the offset of the output
x = np.random.choice([-1.0, 1.0], 200)
clean, _ = cdsp.channel.pulse_shape(x, osr=4, span=4, pulse='rcos', beta=0.5)
jit, _ = cdsp.channel.pulse_shape(x, osr=4, span=4, pulse='rcos', beta=0.5, rj_sigma=0.01)
slope = np.gradient(clean) * 4
d = ((jit - clean) / np.where(np.abs(slope) > 0.5, slope, np.nan)).reshape(-1, 4)
spread = np.nanmedian(np.nanmax(d, axis=1) - np.nanmin(d, axis=1))
sys.exit(0 if spread < 0.005 else 1)
''')
seed('c25-eye-range', 'C25', 'a full scale other than one', 'the histogram covers only a fixed range, the axis the requested one',
     [('CommDspy/eye_diagram.py', "range=[-1*fs_value, fs_value])", "range=[-1, 1])")],
     HEAD + '''
x = np.array([0.1, -1.5, 2.2, 0.9, -0.3, 1.7, -2.9, 2.9])
e, amp = cdsp.eye_diagram(x, 2, 2, fs_value=3, quantization=6)
want = np.array([np.histogram(x[k::2], 6, (-3, 3))[0] for k in (0, 1, 0, 1)]).T
sys.exit(0 if np.array_equal(e, want) else 1)
''')
seed('c25-ssb', 'C25', 'single side band of a real signal', 'the side-band option is ignored for real signals',
     [('CommDspy/psa.py', "    effective_fs = fs / 2 if np.all(np.isreal(signal)) and sb_mode == 'DSB' else fs\n", "    effective_fs = fs / 2 if np.all(np.isreal(signal)) or sb_mode == 'DSB' else fs\n")],
     HEAD + '''
from CommDspy.psa import psa
x = np.sin(np.arange(4000) * 0.3)
f, a = psa(x, 1000.0, rbw=10.0, mode='dBm', sb_mode='DSB')
f, b = psa(x, 1000.0, rbw=10.0, mode='dBm', sb_mode='SSB')
sys.exit(0 if np.allclose(a, 2 * b) else 1)
''')
seed('c26-feedback-size', 'C26', 'a feedback usage matrix wrong in one dimension only', 'the matrix is accepted and its surplus columns ignored',
     [('CommDspy/misc/help_functions.py', "use_feedback.shape[0] != len(G) or use_feedback.shape[1]", "use_feedback.shape[0] != len(G) and use_feedback.shape[1]")],
     HEAD + '''
try:
    cdsp.tx.coding_conv(np.array([1, 0, 1, 1]), {0: np.array([[1, 0], [0, 1]])}, feedback={0: np.array([1, 1])}, use_feedback=np.array([[0, 1, 1]]))
except ValueError:
    sys.exit(0)
sys.exit(1)
''')
seed('c26-levels', 'C26', 'a level vector longer than the constellation', 'surplus levels are ignored without an error',
     [('CommDspy/tx/mapping.py', "if len(levels) != len(default_lvls):", "if len(levels) < len(default_lvls):")],
     HEAD + '''
try:
    cdsp.tx.mapping(np.array([0, 1, 1, 0]), cdsp.ConstellationEnum.NRZ, levels=[-3, -1, 1, 3])
except ValueError:
    sys.exit(0)
sys.exit(1)
''')
seed('c26-generator', 'C26', 'a block code generator with an entry other than 0 and 1', 'non-binary generators are accepted',
     [('CommDspy/tx/coding.py', "    check_binary(pattern)\n    check_binary(G)\n", "    check_binary(pattern)\n    check_binary(G[0])\n")],
     HEAD + '''
try:
    cdsp.tx.coding_linear(np.array([0, 1, 1, 0]), np.array([[1, 0, 1], [0, 1, 3]]))
except ValueError:
    sys.exit(0)
sys.exit(1)
''')
seed('c26-fir-without-feedback', 'C26', 'a transfer function without feedback whose first memory tap is zero', 'a code that cannot be realised is accepted',
     [('CommDspy/misc/help_functions.py', "if sum(G_ii_jj[1:]) > 0:", "if G_ii_jj[1] > 0:")],
     HEAD + '''
try:
    cdsp.rx.decoding_conv_ml(np.array([0, 1, 1, 0]), {0: np.array([[1, 0, 1], [1, 0, 1]])}, 2, feedback={0: np.array([1, 1, 1])}, use_feedback=np.array([[0, 1]]))
except ValueError:
    sys.exit(0)
except Exception:
    sys.exit(1)
sys.exit(1)
''')
seed('c27-adc-rate', 'C27', 'more than one sample per symbol and a phase beyond the sampling step', 'sampling starts at the phase folded into one step',
     [('example_simulation/simulation_parts/receiver.py', "np.arange(self.phase, len(signal_chunk), self.osr//self.sample_rate)", "np.arange(self.phase % (self.osr//self.sample_rate), len(signal_chunk), self.osr//self.sample_rate)")],
     HEAD + '''
from example_simulation.simulation_parts.receiver import Adc
from example_simulation.simulation_parts.data_objects import AdcData
x = np.arange(12.0) - 6
y = Adc(AdcData(5, 0, 's', 4, 2, phase=3))(x)
sys.exit(0 if np.array_equal(y, x[3::2]) else 1)
''')
seed('c27-dfe-memory', 'C27', 'decision feedback without feed-forward taps, several chunks', 'the feedback memory is not carried to the next chunk',
     [('example_simulation/simulation_parts/receiver.py', "slicer_in_vec, self.zi_dfe = cdsp.rx.ffe_dfe(signal_chunk,\n                                                         ffe_taps=self.ffe_vec, dfe_taps=dfe_vec,\n                                                         levels=self.levels,\n                                                         zi_dfe=self.zi_dfe)",
       "slicer_in_vec, _ = cdsp.rx.ffe_dfe(signal_chunk,\n                                                         ffe_taps=self.ffe_vec, dfe_taps=dfe_vec,\n                                                         levels=self.levels,\n                                                         zi_dfe=self.zi_dfe)")],
     HEAD + '''
from example_simulation.simulation_parts.receiver import FfeDfe
from example_simulation.simulation_parts.data_objects import FfeDfeData
lv = np.array([-3, -1, 1, 3])
x = np.array([2.7, -1.2, 0.4, 3.3, -2.8, 1.1, 0.2, -0.9])
mk = lambda: FfeDfe(FfeDfeData(0, 0, 2, ffe_vec=np.array([1.0]), dfe_vec=np.array([0.4, -0.2]), levels=lv))
f = mk()
a = np.concatenate([f(x[:4]), f(x[4:])])
sys.exit(0 if np.allclose(a, mk()(x)) else 1)
''')
seed('c28-econ-threshold', 'C28', 'loss_th left out and between 10 and 99 wrong bits', 'the default number of errors that loses the lock is 10',
     [('CommDspy/rx/checker.py', "def prbs_checker_economy(prbs_type, data_in, loss_th=100):", "def prbs_checker_economy(prbs_type, data_in, loss_th=10):")],
     HEAD + '''
T = cdsp.PrbsEnum.PRBS9
x, _ = cdsp.tx.prbs_gen(cdsp.get_polynomial(T), np.ones(9, dtype=int), 400)
x[50:90] ^= 1
sys.exit(1 if cdsp.rx.prbs_checker_econ(T, x)[0] else 0)
''')
seed('c28-demap-order', 'C28', 'demapping called with its options by position', 'full_scale and pn_inv are swapped by position',
     [('CommDspy/rx/demapping.py', "def demapping(signal, constellation, full_scale=False, pn_inv=False):", "def demapping(signal, constellation, pn_inv=False, full_scale=False):")],
     HEAD + '''
C = cdsp.ConstellationEnum.PAM4
i = np.array([0, 3, 2, 1])
x = cdsp.tx.mapping(i, C, True)
sys.exit(0 if np.array_equal(cdsp.rx.demapping(x, C, True), i) else 1)
''')
seed('c29-adc-history', 'C29', 'adapting receiver with precursor taps and chunks after the first', 'the delayed samples come from the start of the previous chunk',
     [('example_simulation/simulation_parts/receiver.py', "self.adc_out_last[-1 * delay:]", "self.adc_out_last[:delay]")],
     HEAD + '''
from example_simulation.simulation_parts import data_objects as d
from example_simulation.simulation_parts.receiver import Receiver
C = cdsp.ConstellationEnum.PAM4
lv = np.array([-3.0, -1.0, 1.0, 3.0])
r = Receiver(d.CtleData([0.5], [1.25], -3.0, 4.0, 2), d.AdcData(8, 4, 'ss', 2, 1), d.FfeDfeData(2, 1, 0), d.MappingData(C), d.CodingData(2, C, 8), lms_lr=0.125)
g = np.random.RandomState(3)
r(g.randn(16) * 40)
a = r.adc_out
r.converge = r.converge_lms = True
f = r.ffe_dfe.ffe_vec.copy()
r(g.randn(16) * 40)
v = np.concatenate([a[-2:], r.adc_out[:-2]])
_, w = cdsp.rx.ddlms_grad(v, r.dig_gain * r.slicer_in, r.levels, ffe_tap_idx=np.arange(-2, 2))
sys.exit(0 if np.allclose(r.ffe_dfe.ffe_vec, f - 0.125 * w) else 1)
''')
seed('c29-error-rate', 'C29', 'several chunks checked', 'the accumulated number of bits counts the wrong ones only once',
     [('example_simulation/analyzer/analyzer_classes.py', "self.acc_symbols += len(error_bit)", "self.acc_symbols = max(self.acc_symbols, len(error_bit))")],
     HEAD + '''
from example_simulation.simulation_parts.data_objects import PrbsData
from example_simulation.analyzer.analyzer_classes import Checker
T = cdsp.PrbsEnum.PRBS7
c = Checker(PrbsData(T, 100))
x, _ = cdsp.tx.prbs_gen(cdsp.get_polynomial(T), np.ones(7, dtype=int), 300)
c.check_ber(x[:150])
c.check_ber(x[150:])
sys.exit(0 if c.acc_symbols == 300 and c.acc_errors == 0 else 1)
''')
seed('c30-lasso-stop', 'C30', 'a lasso descent in which one unknown settles before the others', 'the descent stops when any unknown rests',
     [('CommDspy/misc/least_squares.py', "if np.all(np.abs(omega - omega_mat[:,step-1]) < tol):", "if np.any(np.abs(omega - omega_mat[:,step-1]) < tol):")],
     HEAD + '''
from CommDspy.misc.least_squares import lasso_regression_manual
np.random.seed(4)
A = np.array([[1.0, 0.0], [0.0, 1e-3], [0.0, 2e-3]])
x, s, done, path = lasso_regression_manual(A, np.array([3.0, 5.0, 10.0]), 0.0, mu=0.5, tol=1e-9, max_steps=200, return_path=True)
sys.exit(0 if path.shape == (2, 200) and not done else 1)
''')
seed('c30-path-shared', 'C30', 'the path of a lasso descent that starts from the recorded point', 'the first recorded point is overwritten by the last one',
     [('CommDspy/misc/least_squares.py', "omega_mat[:, 0] = omega\n", "omega           = omega_mat[:, 0]\n"),
      ('CommDspy/misc/least_squares.py', "omega = np.random.rand(a_mat.shape[1])\n", "start = np.random.rand(a_mat.shape[1])\n"),
      ('CommDspy/misc/least_squares.py', "omega_mat       = np.zeros((a_mat.shape[1], max_steps))\n", "omega_mat       = np.tile(start[:, None], (1, max_steps))\n")],
     HEAD + '''
from CommDspy.misc.least_squares import lasso_regression_manual
g = np.random.RandomState(5)
A, b = g.randn(6, 3), g.randn(6)
np.random.seed(11)
x, s, done, path = lasso_regression_manual(A, b, 0.25, mu=0.125, max_steps=5, return_path=True)
np.random.seed(11)
sys.exit(0 if np.array_equal(path[:, 0], np.random.rand(3)) else 1)
''')
seed('c31-shared-taps', 'C31', 'two adapting chunks gathered one after the other', 'the recorded taps of earlier chunks change when the link goes on',
     [('example_simulation/simulation_parts/simulation.py', "self.Link.Rx.ffe_dfe.ffe_vec.copy()", "self.Link.Rx.ffe_dfe.ffe_vec"),
      ('example_simulation/simulation_parts/receiver.py', "self.ffe_dfe.ffe_vec = self.ffe_dfe.ffe_vec - self.lms_lr * ffe_grad_vec", "self.ffe_dfe.ffe_vec -= self.lms_lr * ffe_grad_vec")],
     HEAD + '''
from example_simulation.simulation_parts import data_objects as d
from example_simulation.simulation_parts.simulation import Simulation
C, T = cdsp.ConstellationEnum.PAM4, cdsp.PrbsEnum.PRBS7
P, cd, md = d.PrbsData(T, 100), d.CodingData(2, C, 64), d.MappingData(C)
ch = d.ChannelData('rcos', 4, 'pulse', osr=2)
L = d.FullLinkData(P, cd, md, ch, d.CtleData([0.5], [1.25], -3.0, 4.0, 2), d.AdcData(8, 4, 'ss', 2, 1), d.FfeDfeData(1, 1, 0))
s = Simulation(L)
s.Link()
s.Link.start_convergence()
s.Link(); s.gather_memory()
a = s.Memory.lms_ffe_vecs[0].copy()
s.Link(); s.gather_memory()
sys.exit(0 if np.array_equal(a, s.Memory.lms_ffe_vecs[0]) and len(s.Memory.lms_ffe_vecs) == 2 else 1)
''')
seed('c14-block-leak', 'C14', 'Viterbi decoding of more than one block', 'the path metrics of a block continue those of the block before',
     [('CommDspy/rx/decoding.py', "path_hamming    = step_hamming if chunk_idx == 0 else", "path_hamming    = step_hamming if ii == chunk_idx == 0 else")],
     HEAD + '''
G = {0: np.array([[1, 0, 1], [1, 1, 1]])}
x = np.array([1, 0, 1, 1, 0, 0, 1, 0, 1, 1, 1, 0])
g = np.random.RandomState(0)
ok = True
for k in range(60):
    y = g.randint(0, 2, 40)
    a = cdsp.rx.decoding_conv_viterbi(y, G, 10)[0]
    b = np.concatenate([cdsp.rx.decoding_conv_viterbi(y[i:i + 10], G, 10)[0] for i in range(0, 40, 10)])
    ok = ok and np.array_equal(a, b)
sys.exit(0 if ok else 1)
''')
seed('c12-reseed', 'C12', 'a wrong bit among the first register-length bits', 'the economy checker gives up one seed early',
     [('CommDspy/rx/checker.py', "for seed_start in range(prbs_type.value):", "for seed_start in range(prbs_type.value - 1):")],
     HEAD + '''
T = cdsp.PrbsEnum.PRBS7
x, _ = cdsp.tx.prbs_gen(cdsp.get_polynomial(T), np.ones(7, dtype=int), 400)
x = x.copy()
x[5] ^= 1
r = cdsp.rx.prbs_checker_econ(T, x, loss_th=3)
sys.exit(0 if not r[0] and not np.any(r[2]) else 1)
''')
seed('c25-bandwidth-2d', 'C25', 'a spectrum of a signal given as a matrix', 'the default resolution follows the number of rows',
     [('CommDspy/psa.py', "2*fs/len(signal_flat)/10", "2*fs/len(signal)/10")],
     HEAD + '''
x = np.random.RandomState(2).randn(4, 2000)
from CommDspy.psa import psa
f1, p1 = psa(x, 1e9)
f2, p2 = psa(x.reshape(-1), 1e9)
sys.exit(0 if f1.shape == f2.shape and np.allclose(p1, p2) else 1)
''')
seed('c20-hamming-width', 'C20', 'words longer than 127 bits', 'the Hamming distances are summed in 8-bit integers and wrap around',
     [('CommDspy/auxiliary.py', "pattern_block[None, :, :]), axis=2)", "pattern_block[None, :, :]), axis=2, dtype=np.int8)")],
     HEAD + '''
w = np.zeros((1, 300), dtype=int)
d, k = cdsp.hamming(w, np.array([[1] * 300, [0] * 299 + [1]]))
sys.exit(0 if d[0, 0] == 300 and k[0] == 1 else 1)
''')
seed('c11-differential-width', 'C11', 'a long PAM3 pattern, whose running sum passes 127', 'the running sum of the differential code is kept in 8 bits; 256 is no multiple of 3',
     [('CommDspy/tx/coding.py', "np.reshape(pattern, -1).astype(float)) % lvl_num, shape).astype(int)", "np.reshape(pattern, -1).astype(float)).astype(np.int8) % lvl_num, shape).astype(int)")],
     HEAD + '''
x = np.random.RandomState(0).randint(0, 3, 600)
y = cdsp.tx.coding_differential(x, cdsp.ConstellationEnum.PAM3)
sys.exit(0 if np.array_equal(y, np.cumsum(x) % 3) else 1)
''')
seed('c15-level-width', 'C15', 'a quantiser of 12 bits or more', 'the quantiser never builds more than 2048 levels',
     [('CommDspy/rx/quantiztion.py', "levels = np.arange(0, 2 **total_bits)", "levels = np.arange(0, 2 **min(total_bits, 11))")],
     HEAD + '''
y = cdsp.rx.quantize(np.array([3301.2, 3.1, 4093.0]), 12, 0, 'u')
sys.exit(0 if np.array_equal(y, [3301, 3, 4093]) else 1)
''')
seed('c08-symbol-width', 'C08', 'an alphabet of more than 256 symbols', 'symbol2bin keeps the symbols in 8 bits',
     [('CommDspy/rx/symbol2bin.py', "((symbol_vec[:, None] & (1", "((symbol_vec[:, None].astype(np.uint8) & (1")],
     HEAD + '''
b = np.random.RandomState(1).randint(0, 2, 400)
ok = all(np.array_equal(cdsp.rx.symbol2bin(cdsp.tx.bin2symbol(b, 2 ** k), 2 ** k), b[:len(b) // k * k]) for k in (1, 2, 4, 8, 10))
sys.exit(0 if ok else 1)
''')
seed('c27-feedback-flags', 'C27', 'a recursive convolutional code in the simulated link', 'the decoder of the receiver does not know which outputs use the feedback',
     [('example_simulation/simulation_parts/receiver.py', """feedback=self.feedback,
                                                               use_feedback=self.use_feedback)""", """feedback=self.feedback)""")],
     HEAD + '''
sys.path.insert(0, 'example_simulation')
from simulation_parts import transmitter as t, receiver as r, data_objects as d
x = np.random.RandomState(3).randint(0, 2, 40)
kw = dict(coding_conv=True, G={0: np.array([[1, 0, 0], [1, 1, 0]])}, feedback={0: np.array([1, 0, 1])}, use_feedback=np.array([[0, 1]]))
cd = lambda: d.CodingData(1, cdsp.ConstellationEnum.OOK, 40, **kw)
try:
    y = r.Decoder(cd())(t.Encoder(cd())(x))
except Exception:
    sys.exit(1)
y = y[0] if isinstance(y, tuple) else y
sys.exit(0 if np.array_equal(y, x) else 1)
''')
seed('c17-output-precision', 'C17', 'samples or taps that are not short binary fractions', 'the equaliser output is kept in single precision',
     [('CommDspy/rx/ffe_dfe_model.py', "slicer_in  = np.zeros([len(input_signal)])", "slicer_in  = np.zeros([len(input_signal)], dtype=np.float32)")],
     HEAD + '''
x = np.random.RandomState(4).randn(50)
y = cdsp.rx.ffe_dfe(x, ffe_taps=np.array([0.1, 1, -0.2]), dfe_taps=np.array([0.3]))[0]
d, p = 0.0, []
e = np.convolve(x, [0.1, 1, -0.2])[:50]
for k in range(50):
    p.append(e[k] - 0.3 * d)
    d = min((-3., -1., 1., 3.), key=lambda q: abs(q - p[-1]))
sys.exit(0 if np.allclose(y, p, rtol=0, atol=1e-12) else 1)
''')
seed('c21-block-length', 'C21', 'blocks of more than a thousand samples', 'the timing step looks at the first thousand samples of the block only',
     [('CommDspy/rx/clock_data_recovery.py', "reference_pre  = reference_signal[1:]", "reference_signal, signal_chunk = reference_signal[:1000], signal_chunk[:1000]\n    reference_pre  = reference_signal[1:]")],
     HEAD + '''
r = np.random.RandomState(4).choice([-3., -1., 1., 3.], 4000)
w = np.where(np.arange(4000) < 1000, 1., -2.)
s = r + w * np.concatenate([[0], r[:-1]]) / 2
sys.exit(0 if cdsp.rx.mueller_muller_step(s, r) == -1 else 1)
''')
seed('c17-decision-phase', 'C17', 'an oversampling factor that does not divide 256 and chunks of more than 256 samples', 'the sampling phase is counted in eight bits',
     [('CommDspy/rx/ffe_dfe_model.py', "if ii % osr == (phase +  osr // 2) % osr:", "if np.uint8(ii % 256) % osr == (phase +  osr // 2) % osr:")],
     HEAD + '''
x = np.random.RandomState(4).randn(300)
f, q = np.array([0.1, 1, -0.2]), np.array([0.3])
a = cdsp.rx.ffe_dfe(x, ffe_taps=f, dfe_taps=q, osr=3, phase=1)[0]
b1, z, w = cdsp.rx.ffe_dfe(x[:150], ffe_taps=f, dfe_taps=q, osr=3, phase=1)
b2 = cdsp.rx.ffe_dfe(x[150:], ffe_taps=f, dfe_taps=q, osr=3, phase=1, zi_ffe=z, zi_dfe=w)[0]
sys.exit(0 if np.allclose(a, np.concatenate([b1, b2])) else 1)
''')
