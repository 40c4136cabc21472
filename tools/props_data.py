from __main__ import prop, PKG, SIM

AI = 'static analysis: path-sensitive abstract interpretation of the Python AST (symbolic lengths, enumerated options, opaque elements) with summaries of NumPy/SciPy'
COV = 'Covers every exported function and the histories of the stateful objects (filters, bit generator, example link) for all option combinations driven by sa/spec.py and sa/universe.py; '

prop('C01', "The library never modifies the caller's data",
     "No exported function, and no building block of the example link, ever changes the contents of an array, list or dictionary that the caller handed in, whatever the option values and the data. This includes data handed in at construction time and touched by later calls.",
     ['inputs', 'configurations', 'histories'], 'every exported function and object method, every option combination, every input content and length',
     'The tests call each function with a few options and never compare the arguments before and after; in-place updates hide behind one option value or one data-dependent branch.',
     PKG + SIM, [('ownership of argument storage', 'every store in CommDspy and example_simulation')],
     AI + '; escape/ownership (may-alias) analysis of every store',
     COV + 'a store counts when its target buffer certainly or possibly is caller storage. Trusted: view/copy summaries of NumPy.')
prop('C02', 'Calls have no hidden memory',
     'The result of a call depends only on its arguments, on the documented per-object state and, where noise is requested, on the random generator. No call changes module-level tables, default argument values, caches or class attributes in a way a later call can see, and no result hands out storage that the library keeps.',
     ['histories', 'configurations'], 'every sequence of calls over the public interface',
     'Needs the comparison of the same call after arbitrary other calls; the tests run each function once.',
     PKG + SIM, [('module constants, default arguments, caches', 'module level of every file')],
     AI + '; effect analysis for storage that outlives a call and escape analysis of results',
     COV + 'decides effects and sharing, not numerical equality.')
prop('C03', 'Results own their storage',
     'An array returned by an exported function never shares memory with an array the caller passed in, nor do two arrays returned together hold the same memory cells. The caller may therefore change a result, or reuse an input buffer, without disturbing anything else.',
     ['inputs', 'configurations'], 'every exported function, option combination and data-dependent shortcut (no-op options, zero lengths, short inputs)',
     'Tests compare values only; sharing shows only when a buffer is changed later.',
     PKG + SIM, [('return values of every exported function', 'CommDspy/__init__.py exports')],
     AI + '; alias analysis between results, arguments and each other',
     COV + 'an alarm needs definite sharing on a path.')
prop('C04', 'Randomness only on request, from the seedable global generator',
     'Random numbers are drawn only when the caller asks for noise (an SNR), jitter (a nonzero jitter deviation) or a randomised solver, and then only from the global NumPy generator, so seeding it reproduces a run and noise-free calls leave its state alone. Nothing seeds, replaces or privately creates a generator.',
     ['configurations', 'histories'], 'every exported function and example-link object, every option combination',
     'A test cannot see a draw whose result is unused, nor a re-seed that happens on a rarely used option.',
     ['CommDspy/channel/', 'CommDspy/misc/least_squares.py'] + SIM, [('noise', 'CommDspy/channel/additive_noise_functions.py'), ('jitter', 'CommDspy/channel/pulse_shaping.py')],
     AI + '; effect analysis of random-source calls',
     COV + 'the set of noise-requesting configurations is part of the specification.')
prop('C05', 'Computations have no outside effects',
     'Apart from the explicit plotting option of the spectrum analyser, calling the library or stepping the example link never prints, warns, plots, reads or writes files, reads the clock or the environment, or starts processes or threads.',
     ['inputs', 'configurations'], 'every exported function and example-link object, every option combination',
     'Output on a rarely taken branch is not asserted against by any test.',
     PKG + SIM, [('absence of I/O calls', 'whole package')],
     AI + '; effect analysis of I/O, plotting, warning and process calls',
     COV + 'effects inside NumPy/SciPy are outside.')
prop('C06', 'Documented arguments never end in an internal error',
     'Every exported function and example-link object accepts every combination of its documented option values: with well-formed input of sufficient length a call returns a result, or, for data-dependent rejection, raises a deliberate error. It never fails with an accidental one (undefined name, missing attribute, wrong operand type, shape mismatch, bad index).',
     ['inputs', 'configurations'], 'every exported function, every option combination, symbolic input lengths',
     'The cross product of options is far larger than what the tests call; whole options are never exercised.',
     PKG + SIM, [('every abstract path', 'whole package')],
     AI + '; definite-failure analysis (unresolved names, arity, operand kinds, shapes, indices)',
     COV + 'only definite failures are reported; value-dependent arithmetic failures are outside.')

SUM = 'static analysis: abstract interpretation computing element summaries (value numbers over the input elements), compared with the defining summary by normal form and by truth table over the finite input alphabet'
UP = 'Element summaries are exact over the rationals, not floating point. '
prop('C07', 'PRBS sources emit the standard maximal-length sequence, seamlessly across calls',
     'get_polynomial returns, for every PRBS type, the coefficients of the standard primitive polynomial of that degree. prbs_gen and PrbsIterator emit bit by bit the parity of the tapped register contents, newest bit first in the register, starting from the given seed; requests longer than one period repeat it. The seed returned by prbs_gen, and get_seed of the iterator, is the register after the last bit whatever the number of bits, so a stream cut into calls of any lengths equals the uncut stream; get_prev_seed is the register one bit earlier.',
     ['inputs', 'histories'], 'every seed; every PRBS type; output lengths below, at and above the register length and the period; any cutting into calls',
     'The tests compare a few fixed lengths from the all-ones seed.',
     ['CommDspy/tx/prbs_generator.py', 'CommDspy/tx/prbs_iterator.py', 'CommDspy/auxiliary.py'], [('prbs_generator', 'CommDspy/tx/prbs_generator.py'), ('get_polynomial', 'CommDspy/auxiliary.py')],
     SUM, 'Seeds are symbolic; lengths are the listed ones up to two periods of degree 2-4 registers and up to degree+9 for the standard types, and consecutive calls of those lengths.')
prop('C08', 'Bits and symbols convert into each other without loss',
     'bin2symbol groups log2(M) consecutive bits, the first being the least significant, applies bit order inversion, MSB inversion, LSB inversion and P-N inversion in that order, and drops an incomplete last group; with M = 2 only P-N inversion acts. symbol2bin with the same flags is its exact inverse in both directions, for every length including a single symbol, and matrices are read in row-major order.',
     ['inputs', 'configurations'], 'M = 2, 4, 8, 16, all sixteen flag combinations, every bit pattern and length',
     'Sixteen flag combinations times all patterns; the tests sample a few.',
     ['CommDspy/tx/bin2symbol.py', 'CommDspy/rx/symbol2bin.py'], [('bin2symbol', 'CommDspy/tx/bin2symbol.py'), ('symbol2bin', 'CommDspy/rx/symbol2bin.py')],
     SUM, UP + 'Symbolic length (first, generic and last indices) plus all words of short lengths.')
prop('C09', 'Mapping picks the documented levels and demapping undoes it',
     'get_levels returns NRZ {-1,1}, OOK {0,1}, PAM3 {-1,0,1}, PAM4 {-3,-1,1,3}, divided by their root mean square when full_scale is set. mapping replaces each index by its level (or by the caller\'s level vector), negated under pn_inv, keeping the shape, and refuses a level vector of the wrong size. demapping with the same constellation, full_scale and pn_inv returns the original indices in the original shape.',
     ['inputs', 'configurations'], 'all constellations, flags, index patterns, lengths and shapes',
     'The tests use single constellations with one flag setting.',
     ['CommDspy/tx/mapping.py', 'CommDspy/rx/demapping.py', 'CommDspy/auxiliary.py'], [('mapping', 'CommDspy/tx/mapping.py'), ('demapping', 'CommDspy/rx/demapping.py'), ('get_levels', 'CommDspy/auxiliary.py')],
     SUM, UP + 'Demapping is decided for noise-free levels.')
prop('C10', 'Every line code decodes to what was encoded',
     'For Gray (2 and 4 levels), differential, Manchester, bipolar, MLT-3 and differential Manchester coding, decoding an encoded pattern returns the pattern, with the same shape, for every input word of every length, also when the pattern is a matrix.',
     ['inputs', 'configurations'], 'every word over the alphabet of the code, every length, one- and two-dimensional arrays',
     'Codes with memory fail only after particular histories; tests encode one random word.',
     ['CommDspy/tx/coding.py', 'CommDspy/rx/decoding.py'], [('coding_*', 'CommDspy/tx/coding.py'), ('decoding_*', 'CommDspy/rx/decoding.py')],
     SUM + '; running sums are rewritten to a common base, so the comparison is inductive in the index',
     UP + 'Symbolic length for vectors, all words of short shapes for matrices. Gray coding of PAM3 is outside (its three-level numbering is not a permutation).')
prop('C11', 'Line encoders emit the words their definition prescribes',
     'Gray: level k becomes k xor k/2, so neighbouring levels differ in one bit (get_gray_level_vec for 2, 4, 8, 16 levels). Differential: running sum modulo the number of levels. Manchester: 1 becomes 10, 0 becomes 01. Bipolar: 0 becomes level 1, marks alternate between 0 and 2 beginning with 0. MLT-3: a 1 advances along 0,1,2,1 starting from 0, a 0 holds the level. Differential Manchester: a transition at every symbol boundary and a mid-symbol transition exactly for 0. Arrays keep their shape, the last axis doubling for the Manchester codes. decoding_manchester gives 0.5 for a pair without transition; bipolar error detection replaces repeated equal marks by half of the mark.',
     ['inputs'], 'every word over the alphabet, every length',
     'Tests compare with the documentation example only.',
     ['CommDspy/tx/coding.py', 'CommDspy/rx/decoding.py', 'CommDspy/auxiliary.py'], [('coding_*', 'CommDspy/tx/coding.py'), ('get_gray_level_vec', 'CommDspy/auxiliary.py')],
     SUM + '; running sums as accumulators', UP + 'Bipolar error detection is decided for all words up to length 4.')
prop('C12', 'PRBS checkers report exactly the wrong bits',
     'prbs_checker with init_lock set marks precisely the positions where the data differ from the reference (given, or generated from the all-ones seed) repeated periodically, for data of any length; without init_lock the reference is first rotated as lock_pattern_to_signal_binary says for these data. prbs_checker_econ compares the data with the sequence that continues their first register-length bits (so, when these are right, it marks precisely the wrong bits) and, when that loses the lock, with the one continuing the bits one place later, and so on for at most register-length seeds, reporting the first comparison that keeps the lock or else the last. The number of correct bits is the length minus the marked bits, and the lock counts as lost exactly when at least loss_th bits are wrong.',
     ['inputs'], 'every data word, length, phase and error pattern',
     'Error counts at the threshold and data longer than a period are not tested.',
     ['CommDspy/rx/checker.py'], [('prbs_checker', 'CommDspy/rx/checker.py'), ('prbs_checker_economy', 'CommDspy/rx/checker.py')],
     SUM, 'Decided for PRBS7 and PRBS9; reference comparison for every length, counts and threshold on short data.')
prop('C13', 'Block codes: matrix encoding and nearest-word decoding',
     'coding_linear emits, block by block, the data block times the generating matrix over GF(2), padding the last block with trailing zeros. decoding_linear ignores an incomplete last block and returns for each block the data word of a code word at minimum Hamming distance, so clean words are recovered and correctable errors corrected; its error probability is 0 for a code word and 1/(number of nearest code words) otherwise.',
     ['inputs', 'configurations'], 'every data word and length; every received block',
     'Tests decode random samples at one noise level.',
     ['CommDspy/tx/coding.py', 'CommDspy/rx/decoding.py', 'CommDspy/misc/ml_decoding.py'], [('coding_linear', 'CommDspy/tx/coding.py'), ('ml_decoding', 'CommDspy/misc/ml_decoding.py')],
     SUM, 'Generating matrices: single parity, repetition, (5,3) and Hamming (7,4); all received words of one block (two blocks for the short codes), and generic words of up to six blocks.')
prop('C14', 'Convolutional codes: register encoding and minimum-distance decoding',
     'coding_conv emits the outputs of the shift-register encoder described by G (and by feedback/use_feedback), starting from the zero state, inputs served in turn and a missing last input taken as zero. decoding_conv_viterbi and decoding_conv_ml return for every block an input word whose encoding from some start state is at minimum Hamming distance from the received block; Viterbi\'s final state is a best end state, and the error probabilities are those documented.',
     ['inputs', 'configurations'], 'every data word and length; every received block of the traceback length',
     'Suboptimal survivor choices show only for particular error patterns.',
     ['CommDspy/tx/coding.py', 'CommDspy/rx/decoding.py', 'CommDspy/misc/ml_decoding.py'], [('coding_conv', 'CommDspy/tx/coding.py'), ('decoding_conv_viterbi', 'CommDspy/rx/decoding.py'), ('Trellis', 'CommDspy/misc/ml_decoding.py')],
     SUM, 'Seven codes (one and two inputs, memory 1 to 3, recursive and not); received blocks of two or three trellis steps; arithmetic is exact, so overflow of very long recursive streams is outside.')

GEN = 'static analysis: abstract interpretation computing element summaries (value numbers over the input elements, filter coefficients and memories kept opaque), compared with the defining summary by normal form and, failing that, refuted only at generic points'
prop('C15', 'Decisions go to the nearest level',
     "slicer returns, for every sample of a one- or two-dimensional signal (array, or list of samples), the level nearest to it, the first listed of equally near ones, in the shape of the input; without levels it uses the PAM4 levels -3, -1, 1, 3. quantize returns for every sample the nearest number representable with total_bits bits of which frac_bits are fractional (frac_bits may be negative or exceed total_bits) in the unsigned ('u', the default), signed ('s') or symmetric signed ('ss') format, values beyond the range going to the nearer end, ties to the smaller.",
     ['inputs', 'configurations'], 'every sample value and signal length, any set of levels, fixed-point formats of up to four bits',
     'Ties, values outside the range, unsorted levels and other formats are not in the tests; quantize has no test of its defaults.',
     ['CommDspy/rx/slicer.py', 'CommDspy/rx/quantiztion.py'], [('slicer', 'CommDspy/rx/slicer.py'), ('quantize', 'CommDspy/rx/quantiztion.py')],
     SUM, UP + 'Sample values: every cell cut by the levels and their midpoints, with the cut points. Caller-supplied levels: three, in any order.')
prop('C16', 'Linear filters follow their difference equation and continue across calls',
     'The output of Filter and FilterTII, of awgn_channel without noise, and of ctle obeys a[0]y[n] = sum b[i]x[n-i] - sum a[j]y[n-j] from zero or given initial memory (Filter: past inputs and outputs, latest first; the others: transposed direct form II memory). Objects remember, and awgn_channel and ctle (when given a memory) return, exactly the memory with which the next chunk continues, so filtering in chunks of any sizes equals filtering at once. Integer signals and lists are filtered without rounding. get_ctle_filter gives the bilinear (Tustin) image, at rate fs*osr and normalised to a leading denominator coefficient 1, of 10^(gain/20) prod(1+s/|z|)/prod(1+s/|p|).',
     ['inputs', 'histories', 'configurations'], 'every coefficient, memory and sample value; all cuts of a signal into chunks; every signal length for FIR channels',
     'The tests filter one random signal per case in one piece with typical coefficients.',
     ['CommDspy/misc/help_classes.py', 'CommDspy/channel/', 'CommDspy/rx/ctle_model.py'], [('Filter, FilterTII', 'CommDspy/misc/help_classes.py'), ('awgn_channel', 'CommDspy/channel/additive_noise_functions.py'), ('ctle', 'CommDspy/rx/ctle_model.py')],
     GEN, UP + 'Up to four numerator and three denominator coefficients, chunks of one to three samples for recursive filters; CTLE with up to two zeros and three poles. scipy lfilter/bilinear are trusted summaries.')
prop('C17', 'The FFE-DFE equaliser follows its recursion and continues across calls',
     "ffe_dfe returns the slicer input: the feed-forward filter of the signal minus the feedback taps times the last decisions, where one decision per symbol, taken at phase within the osr samples of the symbol, enters the feedback memory osr//2 samples later. The FFE memory it returns is the last len(ffe_taps) samples seen (oldest first), the DFE memory the last decisions (latest first); passing them to the next call continues the signal (for osr > 1 when phase + osr//2 < osr and chunks hold whole symbols). Memories of len(ffe_taps) or len(ffe_taps)-1 samples are accepted. The FfeDfeFilterTII object computes the same recursion, divided by its leading DFE tap, across its calls.",
     ['inputs', 'histories', 'configurations'], 'every signal; with and without FFE, DFE, memories, levels; oversampled signals of every phase; cuts into chunks',
     'No test calls ffe_dfe with memories or oversampling or checks what it returns as memory.',
     ['CommDspy/rx/ffe_dfe_model.py', 'CommDspy/misc/help_classes.py'], [('ffe_dfe', 'CommDspy/rx/ffe_dfe_model.py'), ('FfeDfeFilterTII', 'CommDspy/misc/help_classes.py')],
     GEN, UP + 'FFE alone: symbolic taps and any length, 2, 3 and 5 taps. With feedback: fixed generic taps, up to three each, signals of up to six samples over a three-value alphabet (every decision path).')
prop('C18', 'Pulses have their defining samples and shaping is their convolution',
     'rect_pulse, sinc_pulse, rcos_pulse and rrc_pulse return the 2*osr*span samples of their defining formula at times k/osr - span, with the limit value at removable singularities and for every roll-off from 0 to 1 (0 giving the sinc). pulse_shape without jitter returns, for every signal length, the signal with osr-1 zeros after each symbol convolved with the chosen pulse (imp: unit impulse), cut to osr samples per symbol, and the convolution memory; passing the memory to the next call continues the waveform seamlessly.',
     ['inputs', 'histories', 'configurations'], 'every pulse, roll-off and signal; oversampling ratios and spans including 1; all cuts into chunks',
     'Singular points depend on the combination of osr and roll-off; the tests use one or two.',
     ['CommDspy/channel/pulse_shaping.py'], [('pulse_shape', 'CommDspy/channel/pulse_shaping.py'), ('pulses', 'CommDspy/channel/pulse_shaping.py')],
     GEN + '; constant folding of the pulse formulas', UP + 'Listed osr/span/roll-off combinations (osr up to 14, span up to 4), roll-off also symbolic for small osr; pulse samples are compared to 1e-6.')
prop('C19', 'Fractional delay and digital oversampling interpolate as documented',
     'dig_delay_lagrange_coeffs and dig_delay_sinc_coeffs give, for every delay alpha, the Lagrange basis polynomials or sinc values of order+1 taps placed around the zero-delay tap, the extra tap of odd orders lying on the forward or backward side as asked. digital_oversample keeps the original samples at every osr-th output, interpolates the others at multiples of 1/osr with the taps of the chosen method (lagrange, sinc, rcos), leaves out the edge samples whose interpolation needs samples beyond the signal, and returns matching new and old time axes.',
     ['inputs', 'configurations'], 'every delay value, signal and length; orders 1 to 5; oversampling 1 to 4',
     'The tests plot or compare a single sine with tolerance.',
     ['CommDspy/digital_delay.py'], [('digital_oversample', 'CommDspy/digital_delay.py')],
     GEN, UP + 'Orders and oversampling ratios are the listed ones; alpha and the signal are symbolic.')
prop('C20', 'Resampling, framing and bit-vector helpers are exact',
     'upsample puts rate-1 zeros after each sample and zoh repeats each sample, for every length. buffer cuts the signal, preceded by delay zeros, into frames starting every length-overlap samples (negative overlap skips samples), zero-padded at the end, without frames that bring no new sample; clip drops frames that would need padding. get_bin_perm(k) lists all k-bit words in counting order; bin2uint and uint2bin read and write words most significant bit first along the last axis and undo each other; hamming returns the distance of every word to every code word and the index of the first nearest one. power is the mean of the squared magnitudes, for real and complex signals, and rms its root.',
     ['inputs', 'configurations'], 'every content; every length of upsample, zoh, bin2uint, uint2bin, hamming; buffer for lengths up to 7 with all small lengths, overlaps, delays',
     'buffer, negative overlap, clip and multi-dimensional bit arrays are hardly tested.',
     ['CommDspy/auxiliary.py'], [('upsample, zoh, buffer, bin2uint, uint2bin, hamming, power, rms', 'CommDspy/auxiliary.py')],
     SUM, UP + 'Word lengths up to five bits; buffer: listed sizes.')
prop('C21', 'Adaptation uses the defined loss, gradients and timing step',
     'ddlms_grad returns the mean squared error between the equaliser output and its decisions (or the given reference) and, for each requested tap index, half the mean of error times input delayed by the index (FFE) and minus half the mean of error times reference delayed by the index (DFE), over the samples where both exist. soft_ddlms_grad does the same with the error derived from, and the loss being, the mean negative log likelihood of a Gaussian mixture around the levels with the given sigma. mueller_muller_step returns the sign (1, -1) of weighted post-cursor minus weighted pre-cursor correlation, and 0 within the tolerance.',
     ['inputs', 'configurations'], 'every sample value, tap index set (negative, zero, positive), level set, with and without reference, weights and tolerance',
     'The LMS gradients have no test; Mueller-Muller is tested on one signal.',
     ['CommDspy/rx/least_mean_squares.py', 'CommDspy/rx/clock_data_recovery.py'], [('ddlms_grad', 'CommDspy/rx/least_mean_squares.py'), ('mueller_muller_step', 'CommDspy/rx/clock_data_recovery.py')],
     GEN, UP + 'Signals of up to five samples, listed tap index sets.')
prop('C22', 'Equaliser estimation solves the documented least-squares problem',
     'equalization_estimation sets up, for n from dfe_taps up and as many rows as samples minus taps, the system reference[n] = FFE taps (last first) times the postcursor+precursor+1 signal samples starting at n, minus DFE taps (latest first) times the dfe_taps reference samples before n; hands it to ordinary least squares over all singular directions, or to ridge or lasso without intercept and with the given factor when regularisation is on with a positive factor; and returns the FFE taps, the DFE taps (None without DFE), both divided by the largest FFE tap when normalising with that gain (otherwise 1), the residual sum of squares of the solution, and the error power in dB relative to the power of the equalised signal.',
     ['inputs', 'configurations'], 'every reference and signal; tap counts with and without pre-cursor, post-cursor and DFE; normalisation; the three solvers',
     'The tests check that the estimate opens the eye for one channel, not which samples are paired.',
     ['CommDspy/equalization_estimation.py', 'CommDspy/misc/least_squares.py'], [('equalization_estimation', 'CommDspy/equalization_estimation.py'), ('lasso, ridge, irls', 'CommDspy/misc/least_squares.py')],
     GEN, UP + 'Signals of 8 or 9 samples, up to three taps each; the solver itself (lstsq, scikit-learn) is an opaque, trusted function of matrix, target and parameters.')
prop('C23', 'Pattern lock and PRBS-based estimation use the right reference',
     'lock_pattern_to_signal and its binary variant return the pattern rotated to the first largest correlation of the repeated pattern with the first samples (at most one pattern length) of the signal, together with all those correlations (binary values counted as -1, 1); a signal that starts with a rotation of the pattern gets exactly that rotation. The PRBS estimators lock the very symbol stream that the given PRBS, bit order, inversions, Gray option, constellation and full-scale flag produce at the transmitter. channel_estimation_prbs then solves, by ordinary least squares, one equation per phase of the period, pairing the mean of the samples of that phase over the whole periods (up to one common positive factor) with the aligned stream at delays -precursor..postcursor, and returns the taps in order of delay (divided by the largest when normalizing) and the residual. equalization_estimation_prbs hands the aligned stream, postcursor samples ahead, and the mean over whole periods (or the signal itself when shorter than one) with all its options to equalization_estimation.',
     ['inputs', 'configurations'], 'every pattern and signal; all transmitter flags; captures of several, one and less than one period; every alignment',
     'The tests estimate one channel from whole periods with default flags and look at the taps loosely.',
     ['CommDspy/rx/lock_pattern.py', 'CommDspy/channel_estimation.py', 'CommDspy/equalization_estimation.py'], [('lock_pattern_to_signal', 'CommDspy/rx/lock_pattern.py'), ('channel_estimation_prbs', 'CommDspy/channel_estimation.py'), ('equalization_estimation_prbs', 'CommDspy/equalization_estimation.py')],
     GEN, UP + 'Lock: patterns and signals of up to six symbols over small alphabets (truth tables). Estimators: PRBS7, all flag combinations, listed tap counts and capture lengths, symbolic samples; the lock is replaced by its contract, the solver is opaque.')
prop('C24', 'Noise and jitter have the requested spread and touch nothing else',
     'awgn(signal, snr) returns, for a real signal, signal + noise in which every sample has its own normal deviate of mean zero and of one common standard deviation sqrt(P / 10^(snr/10)), P being the unbiased sample variance plus the squared mean of the whole signal. awgn_channel with an snr is the filtered signal through awgn, and its memory is that of the filter without noise. pulse_shape with rj_sigma > 0 returns the cubic interpolation of the waveform without jitter at the sample times shifted by one normal deviate of standard deviation rj_sigma (in symbols) per symbol, common to the osr samples of the symbol, and the memory without jitter.',
     ['inputs', 'random draws', 'configurations'], 'every signal, SNR and random draw; one- and multi-dimensional signals; with filter memory',
     'A test can only estimate the noise level of a long run within a tolerance; it cannot see which power is used, shared deviates or a noisy memory.',
     ['CommDspy/channel/additive_noise_functions.py', 'CommDspy/channel/pulse_shaping.py'], [('awgn', 'CommDspy/channel/additive_noise_functions.py'), ('pulse_shape', 'CommDspy/channel/pulse_shaping.py')],
     GEN + '; random deviates are opaque elements of their draw', UP + 'Signals of up to 13 samples; NumPy\'s generator and SciPy\'s interpolation are trusted. The statistics of a particular run are outside.')
prop('C25', 'Eye diagram and spectrum analyser measure the signal they are given',
     "eye_diagram returns, for a real signal of whole symbols, a matrix whose column c and column c + osr_diag count, per amplitude bin (quantization equal bins over -fs_value..fs_value, upper edge in the last bin, samples outside left out), the samples of phase c of the symbol, or log10(count + 0.1) with logscale; the signal is first oversampled by digital_oversample (sinc, order osr_in) when osr_in < osr_diag; and the amplitude axis of quantization points from -fs_value to fs_value. psa hands the flattened (real or complex) signal, multiplied by the amplitude factor of the mode (dB: 1; dBm: sqrt(1000/r*rbw/F); dBm/Hz: sqrt(1000/r/F); dBuv: 1e6*sqrt(rbw/F); dBuv/sqrt(Hz): 1e6*sqrt(1/F); dBc, and any mode with an obw given: sqrt(obw/F)/rms; dBc/Hz: sqrt(1/F)/rms; dBFs: sqrt(obw/F)/fullscale; obw being rbw by default and F = fs/2 for 'DSB' with a real signal, fs otherwise, rms the root mean squared magnitude), to Welch's estimator with the named window of int(1.9*ceil(fs/rbw)) points, overlap floor(points*overlap), the next power of two of points*osr as FFT size and spectrum scaling, rbw defaulting to max(fs/1000, fs/5/samples), and returns its frequencies and powers.",
     ['inputs', 'configurations'], 'every signal; all modes and side bands; default and given bandwidths; with and without oversampling',
     'The tests only plot the eye and the spectrum.',
     ['CommDspy/eye_diagram.py', 'CommDspy/psa.py'], [('eye_diagram', 'CommDspy/eye_diagram.py'), ('psa', 'CommDspy/psa.py')],
     GEN, UP + 'Eye: up to eight samples, up to five bins (and the default 256). psa: one sampling rate, several bandwidths; Welch\'s estimator and the windows are trusted. The accuracy of the spectral estimate is outside.')
prop('C26', 'Invalid arguments are rejected, valid ones are not',
     "The binary codecs (Manchester, differential Manchester, AMI/bipolar and MLT-3 encoding, Manchester decoding, linear block and convolutional coding and decoding) accept an integer pattern exactly when each of its values is 0 or 1 and otherwise raise ValueError. ValueError is also raised for: a generator matrix or feedback polynomial that is not binary; feedback without use_feedback, use_feedback of another size than inputs x outputs, feedback used for an input without polynomial or not used for a transfer function with memory of an input that has one; a number of symbols that is not a power of two (bin2symbol); custom levels of another number than the constellation's; an unknown constellation, pulse, fixed-point format, psa mode or regularisation (with a positive reg_lambda), and AttributeError for an unknown oversampling method; filter, pulse shaping, FFE (len or len - 1) and DFE memories of the wrong length; an LMS reference of another length; tap vectors and memories of the wrong length in the example receiver, and a DFE without levels. Right sizes are accepted.",
     ['inputs', 'configurations'], 'every pattern and signal; every size off by one or more; unknown names; every generator entry',
     'No test passes an invalid argument.',
     ['CommDspy/misc/help_functions.py', 'CommDspy/tx', 'CommDspy/rx', 'CommDspy/channel/pulse_shaping.py', 'CommDspy/misc/help_classes.py', 'CommDspy/psa.py', 'example_simulation/simulation_parts'], [('check_binary', 'CommDspy/misc/help_functions.py'), ('check_valid_conv', 'CommDspy/misc/help_functions.py')],
     GEN, UP + 'Patterns of up to four integers over -1, 0, 1, 2; the sizes and names listed in checks/validate.py.')
prop('C27', 'The example link: its blocks compose the package and continue across chunks',
     "In example_simulation: Encoder applies exactly the enabled codes, binary ones first (differential, Manchester, bipolar, MLT-3, differential Manchester, block, convolutional), then bits to symbols with the inversion flags, then differential and Gray coding; Decoder given the same CodingData returns the bits that were encoded, for every combination of codes the package accepts (2-level, and PAM4 with all flags). PrbsGen's chunks continue one PRBS from the given or all-ones seed, and it reports the seeds before and after the chunk. Transmitter.generate returns the mapping of the encoded next chunk to the default levels or the given ones scaled to half the amplitude, and keeps bits, symbols and levels. Channel ('pulse', and 'isi_awgn' without noise), Ctle and FfeDfe fed any split of a signal return what pulse_shape/awgn_channel, ctle and ffe_dfe return for the whole of it. Adc samples every osr//sample_rate samples from its phase (osr//2 by default), quantises and divides by 2**frac_bits. Receiver (not converging) returns and keeps the CTLE, ADC, equaliser times digital gain, slicer, symbol and bit outputs of the present and previous chunk.",
     ['inputs', 'configurations', 'histories'], 'every bit pattern and signal; every combination of codes and flags; every split into chunks listed',
     'The tests do not run the example link.',
     ['example_simulation/simulation_parts'], [('Encoder', 'example_simulation/simulation_parts/transmitter.py'), ('PrbsGen', 'example_simulation/simulation_parts/transmitter.py'), ('Transmitter', 'example_simulation/simulation_parts/transmitter.py'), ('Channel', 'example_simulation/simulation_parts/channel.py'), ('Decoder', 'example_simulation/simulation_parts/receiver.py'), ('FfeDfe', 'example_simulation/simulation_parts/receiver.py')],
     GEN, UP + 'Bit patterns of up to six bits; signals of up to twelve samples in two or three chunks; CTLE and recursive channel coefficients fixed. Convergence of the adaptation loop is outside.')
prop('N01', 'The achieved noise power approaches the requested one',
     'Over long signals the measured power of the noise added for a requested signal-to-noise ratio tends to the requested power, and the deviates are independent normal samples.',
     ['inputs', 'histories'], 'every signal and generator state, as the length grows', 'A statistical limit; a test samples one seed.',
     ['CommDspy/channel/additive_noise_functions.py'], [('np.random.randn', 'CommDspy/channel/additive_noise_functions.py')], '', '',
     na="A statement about the distribution of NumPy's generator: the source only fixes the scale and the independence of the draws, which C24 decides; the statistics of the generator are not in /repo.")
prop('N02', 'Adaptation and timing recovery converge',
     'Stepping the example link with adaptation enabled drives taps, digital gain and sampling phase to an operating point with open eyes, and adaptation ends.',
     ['histories', 'inputs'], 'every channel with an equalisable response, every noise history', 'Only a run over thousands of chunks shows it, and only for one channel.',
     ['example_simulation/simulation_parts/receiver.py'], [('Receiver', 'example_simulation/simulation_parts/receiver.py')], '', '',
     na='Convergence of a stochastic feedback loop depends on channel, step sizes and noise; no static argument in reach bounds it. The gradients, loss and timing steps are decided by C21, the chunk pipeline by C27.')
prop('N03', 'Results are numerically accurate in floating point',
     'Filters, pulses, estimates and spectra agree with their exact mathematical definition up to rounding errors that do not grow with the length of the signal.',
     ['inputs', 'configurations'], 'every signal, filter and length', 'Rounding growth shows only for long signals and unstable or ill-conditioned filters and matrices.',
     ['CommDspy/'], [('double precision arithmetic', 'NumPy, SciPy')], '', '',
     na='Needs error bounds through SciPy kernels (lfilter, lstsq, welch) and conditioning of caller data; the checks decide the exact-arithmetic definition only.')
prop('C28', 'Omitted options have their documented values, by position or by name',
     "For every exported function, the filter objects and the data objects of the example link: leaving an option out is the same as passing its documented default, and passing all arguments by position in the documented order is the same as passing them by name. Defaults are: no inversion, full scale, error probability, normalisation, regularisation, noise, jitter, initial memory, reference or plot; PAM4 for the Gray and differential codes; 23 postcursors and 4 precursors (Gray coded) in equaliser estimation, 500 and 19 (not Gray coded) in channel estimation; rectangular pulse of osr 1, span 1, roll-off 0.5; unsigned integers in quantize; 256 bins over -1..1 in the eye diagram; loss of lock at 100 errors; Mueller-Muller weights 1 and tolerance 0.001; sigma 1; a single unit FFE tap, one sample per symbol, phase 0; psa in dB with r 50, osr 4, Blackman-Harris window, overlap 0.75, full scale 1, DSB. In the example link: roll-off 0.35, one sample per symbol, no coding, amplitude 2, ADC phase osr//2, centre-tap FFE and zero DFE.",
     ['inputs', 'configurations'], 'every exported function and data object; every option omitted in several settings of the others; opaque or representative data',
     'Tests pass most options explicitly, and always in one form; a changed default or parameter order shows only in the form that is not tested.',
     ['CommDspy', 'example_simulation/simulation_parts/data_objects.py'], [('function signatures', 'CommDspy/**/*.py'), ('data objects', 'example_simulation/simulation_parts/data_objects.py')],
     GEN, UP + 'The settings are those listed in checks/defaults.py; awgn, get_bin_perm and other functions without options are covered elsewhere; the random part of a noisy call is not compared.')
prop('C29', 'The example link composes, counts errors and adapts as defined',
     "A call of FullLink returns and keeps what the receiver makes of what the channel makes of the transmitter's next chunk, chunk after chunk. Checker.check_ber returns the fraction of bits that differ from the aligned PRBS of the given seed and adds up errors and bits over its calls. While adapting, a receiver call computes its outputs with the old settings and then: adds 100 times the step size times (power of the levels minus power of the slicer input) to the digital gain; moves the sampling phase by the Mueller-Muller step of the ADC samples (delayed by the precursors, continued from the previous chunk) against the decisions, modulo osr; moves the FFE and DFE taps against the gradients of ddlms_grad by the step size; timing adaptation ends at step 0, tap adaptation when the mean squared error changed by less than 10^(-40/20), and the whole when both ended.",
     ['inputs', 'histories', 'configurations'], 'every chunk sequence and configuration listed, every bit vector, every sample value in the feed-forward case',
     'The tests do not run the example link.',
     ['example_simulation/simulation_parts', 'example_simulation/analyzer'], [('FullLink', 'example_simulation/simulation_parts/full_link.py'), ('Checker', 'example_simulation/analyzer/analyzer_classes.py'), ('Receiver.digital_stage', 'example_simulation/simulation_parts/receiver.py')],
     GEN, UP + 'Link: PRBS7 from the all-ones seed, three chunks, four configurations. Checker: chunks of up to 130 bits, the lock replaced by its contract. Adaptation: arbitrary samples (up to three symbols) without DFE, propagated constants with DFE and for further steps. Convergence itself is outside.')
prop('C30', 'Least-squares helpers return the minimiser and its residual',
     "least_squares and the three solvers behind it hand the given matrix and target unchanged to ordinary least squares ('None'), ridge ('ridge') or lasso ('lasso') without intercept and with the given factor, and return the solution and the sum of its squared residuals. ols_manual and ridge_regression_manual return the solution x of (A'A) x = A'b and (A'A + factor I) x = A'b with its sum of squared residuals. lasso_regression_manual moves from a random start, step by step, by the rate mu against A'(Ax - b)/N + factor * sign(x rounded to 4 decimals), N being the number of unknowns, stops after the first step that moves every unknown by less than tol and at the latest after max_steps - 1 steps, and returns the last point with its sum of squared residuals; with return_path also whether it stopped before the last allowed step, and the points as the columns of a matrix.",
     ['inputs', 'configurations'], 'every matrix of full rank and target; the three regularisations, directly and by name; several factors, rates and step counts',
     'The tests use one channel; the manual solvers are not run at all.',
     ['CommDspy/misc/least_squares.py'], [('least_squares', 'CommDspy/misc/least_squares.py'), ('lasso_regression_manual', 'CommDspy/misc/least_squares.py')],
     GEN, UP + 'Systems of up to seven equations in three unknowns; up to two descent steps. The library solvers are taken by their documented contract.')
prop('C31', 'The simulation keeps every chunk and can be converged repeatedly',
     "Simulation.gather_memory appends the present chunk of every stage of the link (PRBS, encoded and mapped chunk, channel, CTLE and ADC output, slicer input and output, demapped and decoded chunk) and the present sampling phase, mean squared error, FFE and DFE taps to the record of that stage; later calls of the link do not change what was kept, and Memory.reset empties every record. Simulation.perform_convergence runs the link once, empties the records, starts adaptation and runs the link, gathering after every chunk, until timing and tap adaptation have both ended, leaving the receiver not adapting; this holds again when it is called again.",
     ['histories', 'configurations'], 'every call history of up to three chunks or two convergence runs in the listed configurations',
     'The tests do not run the simulation.',
     ['example_simulation/simulation_parts', 'example_simulation/analyzer'], [('Simulation', 'example_simulation/simulation_parts/simulation.py'), ('Memory', 'example_simulation/analyzer/analyzer_classes.py'), ('FullLink.start_convergence', 'example_simulation/simulation_parts/full_link.py')],
     GEN, UP + 'PRBS7 from the all-ones seed, four link configurations each; the change that counts as rest is set large, so that adaptation ends after a few chunks.')
