From e222ea82c4b7e06483820cb93f63b2ad76fe12a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:20 +0000
Subject: [PATCH 01/33] fix: demapping with pn_inv no longer negates the
 caller's signal in place

---
 CommDspy/rx/demapping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/rx/demapping.py b/CommDspy/rx/demapping.py
index 706591c..24092c2 100644
--- a/CommDspy/rx/demapping.py
+++ b/CommDspy/rx/demapping.py
@@ -24,7 +24,7 @@ def demapping(signal, constellation, full_scale=False, pn_inv=False):
     # PN-inv
     # ==================================================================================================================
     if pn_inv:
-        signal *= -1
+        signal = -1 * signal
     # ==================================================================================================================
     # Converting symbols to indices, i.e. performing decoding
     # ==================================================================================================================
-- 
2.43.0


From fd677b162e60aabe03fc917938ba41e52ab0ad88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:20 +0000
Subject: [PATCH 02/33] fix: maximum-likelihood decoding with error_prob no
 longer corrects the caller's pattern in place

---
 CommDspy/misc/ml_decoding.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/CommDspy/misc/ml_decoding.py b/CommDspy/misc/ml_decoding.py
index 5772d5e..48128f4 100644
--- a/CommDspy/misc/ml_decoding.py
+++ b/CommDspy/misc/ml_decoding.py
@@ -15,7 +15,6 @@ def ml_decoding(permutations, codebook, pattern_block, error_prob):
         min_hamming = np.min(hamming, axis=0)
         not_codeword = min_hamming > 0
         correct_idx = np.argmin(hamming[:, not_codeword], axis=0)
-        pattern_block[not_codeword] = codebook[correct_idx]
         # ----------------------------------------------------------------------------------------------------------
         # Fixing the hamming matrix, filling p_err
         # ----------------------------------------------------------------------------------------------------------
-- 
2.43.0


From bb3aa87692fab2debdb89afd2e7cda81b248d18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:20 +0000
Subject: [PATCH 03/33] fix: ffe_dfe validates the FFE and DFE memory sizes
 without crashing

---
 CommDspy/rx/ffe_dfe_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CommDspy/rx/ffe_dfe_model.py b/CommDspy/rx/ffe_dfe_model.py
index 2b2f73f..4ae2544 100644
--- a/CommDspy/rx/ffe_dfe_model.py
+++ b/CommDspy/rx/ffe_dfe_model.py
@@ -64,12 +64,12 @@ def ffe_dfe(input_signal, ffe_taps=np.array([1]), dfe_taps=None, levels=None, os
         elif len(zi_dfe) == len(dfe_taps):
             dfe_memory = zi_dfe
         else:
-            raise ValueError(f'zi_dfe is not in the same size as the DFE, length is {len(zi_dfe):d} instead of {dfe_taps:d}')
+            raise ValueError(f'zi_dfe is not in the same size as the DFE, length is {len(zi_dfe):d} instead of {len(dfe_taps):d}')
     if zi_ffe is None:
         zi_ffe = np.zeros(ffe_len - 1)
     elif len(zi_ffe) == ffe_len:
         zi_ffe = zi_ffe[1:]
-    elif len(zi_ffe) != len(ffe_len) - 1:
+    elif len(zi_ffe) != ffe_len - 1:
         raise ValueError(f'zi_ffe is not in the same size as the FFE, length is {len(zi_ffe):d} instead of {ffe_len - 1:d}')
     # ==================================================================================================================
     # If we only have FFE and without DFE we can use convolution for speed
-- 
2.43.0


From b04b9dfd7edb25a50e70e83de7512c94e1335bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:20 +0000
Subject: [PATCH 04/33] fix: ffe_dfe returns FFE memory of the full size, and
 memories that do not alias the caller's arrays

---
 CommDspy/rx/ffe_dfe_model.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/CommDspy/rx/ffe_dfe_model.py b/CommDspy/rx/ffe_dfe_model.py
index 4ae2544..04a4329 100644
--- a/CommDspy/rx/ffe_dfe_model.py
+++ b/CommDspy/rx/ffe_dfe_model.py
@@ -62,7 +62,7 @@ def ffe_dfe(input_signal, ffe_taps=np.array([1]), dfe_taps=None, levels=None, os
         if zi_dfe is None:
             dfe_memory = np.zeros([len(dfe_taps)])
         elif len(zi_dfe) == len(dfe_taps):
-            dfe_memory = zi_dfe
+            dfe_memory = np.array(zi_dfe)
         else:
             raise ValueError(f'zi_dfe is not in the same size as the DFE, length is {len(zi_dfe):d} instead of {len(dfe_taps):d}')
     if zi_ffe is None:
@@ -75,8 +75,9 @@ def ffe_dfe(input_signal, ffe_taps=np.array([1]), dfe_taps=None, levels=None, os
     # If we only have FFE and without DFE we can use convolution for speed
     # ==================================================================================================================
     if dfe_taps is None:
-        rx_ffe_out = signal.convolve(ffe_taps, np.concatenate([zi_ffe, input_signal]), mode='valid')
-        return rx_ffe_out, input_signal[-1*ffe_len:]
+        ffe_in     = np.concatenate([zi_ffe, input_signal])
+        rx_ffe_out = signal.convolve(ffe_taps, ffe_in, mode='valid')
+        return rx_ffe_out, ffe_in[-1*ffe_len:]
     # ==================================================================================================================
     # In case we hae DFE taps we need to make a decision, therefore we can not use convolution
     # ==================================================================================================================
-- 
2.43.0


From 0e258ef912d7247644871b0a5d619196759f7df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:20 +0000
Subject: [PATCH 05/33] fix: coding_gray returns a new array for the binary
 constellations as well

---
 CommDspy/tx/coding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/tx/coding.py b/CommDspy/tx/coding.py
index c9a3b3b..c607f29 100644
--- a/CommDspy/tx/coding.py
+++ b/CommDspy/tx/coding.py
@@ -26,7 +26,7 @@ def coding_gray(pattern, constellation=ConstellationEnum.PAM4):
         levels = get_gray_level_vec(level_num)
         return levels[pattern]
     else:
-        return pattern
+        return pattern.copy()
 
 def coding_differential(pattern, constellation=ConstellationEnum.PAM4):
     """
-- 
2.43.0


From f0d1b83058f6e2bb3052fecf9e467c6a27aa911e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:20 +0000
Subject: [PATCH 06/33] fix: prbs_generator returns a seed that does not alias
 the sequence or the initial seed

---
 CommDspy/tx/prbs_generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CommDspy/tx/prbs_generator.py b/CommDspy/tx/prbs_generator.py
index e225c38..96a9854 100644
--- a/CommDspy/tx/prbs_generator.py
+++ b/CommDspy/tx/prbs_generator.py
@@ -16,7 +16,7 @@ def prbs_generator(poly_coeff, init_seed, output_length):
     # ==================================================================================================================
     poly_size   = len(poly_coeff)
     prbs_length = 2**poly_size - 1
-    seed        = init_seed
+    seed        = np.array(init_seed)
     loop_length = min((output_length, prbs_length))
     rep_number  = int(np.ceil(output_length/prbs_length))
     single_bin  = np.array([0] * loop_length)
@@ -34,5 +34,5 @@ def prbs_generator(poly_coeff, init_seed, output_length):
     # Organizing
     # ==================================================================================================================
     sequence = multiple_bin[:output_length]
-    seed = np.flip(sequence[-1*poly_size:]) if output_length >= len(seed) else seed
+    seed = np.flip(sequence[-1*poly_size:]).copy() if output_length >= len(seed) else seed
     return sequence, seed
-- 
2.43.0


From 91d1d16ca7fe54f5c1b5ef862bc5e2a27ab1c254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:20 +0000
Subject: [PATCH 07/33] fix: equalization_estimation with normalize=True and no
 DFE taps no longer divides None

---
 CommDspy/equalization_estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/equalization_estimation.py b/CommDspy/equalization_estimation.py
index 333bc4b..07763f4 100644
--- a/CommDspy/equalization_estimation.py
+++ b/CommDspy/equalization_estimation.py
@@ -157,7 +157,7 @@ def equalization_estimation(reference_signal, signal, ffe_postcursor=23, ffe_pre
     err       = sig_out - skewed_ref
     mse = 10 * np.log10(power(err) / power(sig_out))
     if normalize:
-        return ffe / dig_gain, dfe / dig_gain, dig_gain, ls_err, mse
+        return ffe / dig_gain, dfe / dig_gain if dfe is not None else None, dig_gain, ls_err, mse
     else:
         return ffe, dfe, 1, ls_err, mse
 
-- 
2.43.0


From f5a5b37f533294be5b0a9b0af34dcd5603d6e460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:20 +0000
Subject: [PATCH 08/33] fix: pulse 'imp' has the length of the other pulses so
 that pulse_shape accepts its memory

---
 CommDspy/channel/pulse_shaping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/channel/pulse_shaping.py b/CommDspy/channel/pulse_shaping.py
index b9855b4..41dc5a6 100644
--- a/CommDspy/channel/pulse_shaping.py
+++ b/CommDspy/channel/pulse_shaping.py
@@ -151,7 +151,7 @@ def _get_pulse(method, osr=1, span=1, beta=0.5, t=None):
     elif method == 'rrc':
         return rrc_pulse(osr, span, beta, t)
     elif method == 'imp':
-        return np.array([1])
+        return np.concatenate([[1], np.zeros(osr * span * 2 - 1)])
     else:
         raise ValueError('Method is not available, please try another')
 
-- 
2.43.0


From a8888ef54510505e385947fbeff5e4823b04624c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:20 +0000
Subject: [PATCH 09/33] fix: PrbsGen of the example simulation keeps the
 previous seed that get_prev_seed returns

---
 example_simulation/simulation_parts/transmitter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/example_simulation/simulation_parts/transmitter.py b/example_simulation/simulation_parts/transmitter.py
index f6a28ee..eff45dd 100644
--- a/example_simulation/simulation_parts/transmitter.py
+++ b/example_simulation/simulation_parts/transmitter.py
@@ -7,11 +7,13 @@ class PrbsGen:
         self.gen_poly   = prbs_data.gen_poly
         self.chunk_size = prbs_data.chunk_size
         self.seed       = prbs_data.seed if prbs_data.seed is not None else np.ones_like(self.gen_poly)
+        self.seed_prev  = self.seed
 
     def __iter__(self):
         return self
 
     def __next__(self):
+        self.seed_prev   = self.seed
         chunk, self.seed = cdsp.tx.prbs_gen(self.gen_poly, self.seed, self.chunk_size)
         return chunk
 
-- 
2.43.0


From d6d1a3e7ba840fdd81b1a34ff968b51ee8d5f1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:20 +0000
Subject: [PATCH 10/33] fix: ChannelData of the example simulation keeps the
 IIR coefficients it was given

---
 example_simulation/simulation_parts/data_objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/example_simulation/simulation_parts/data_objects.py b/example_simulation/simulation_parts/data_objects.py
index ce02795..15d6f97 100644
--- a/example_simulation/simulation_parts/data_objects.py
+++ b/example_simulation/simulation_parts/data_objects.py
@@ -61,7 +61,7 @@ class ChannelData:
         self.pulse_span     = pulse_span
         self.rolloff        = rolloff
         self.ch_type        = ch_type
-        self.iir_coefs      = [1] if iir_coefs is None else fir_coefs
+        self.iir_coefs      = [1] if iir_coefs is None else iir_coefs
         self.fir_coefs      = [1] if fir_coefs is None else fir_coefs
         self.osr            = osr
         self.snr            = snr
-- 
2.43.0


From 0380079fa39b49886a3dc9f013503202ebc709d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:20 +0000
Subject: [PATCH 11/33] fix: Decoder of the example simulation undoes gray
 coding with gray decoding and differential with differential

---
 example_simulation/simulation_parts/receiver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/example_simulation/simulation_parts/receiver.py b/example_simulation/simulation_parts/receiver.py
index dc12ef5..bcd87c4 100644
--- a/example_simulation/simulation_parts/receiver.py
+++ b/example_simulation/simulation_parts/receiver.py
@@ -110,9 +110,9 @@ class Decoder:
         # ==============================================================================================================
         pattern_decoded = signal_chunk.copy()
         if self.coding_gray:
-            pattern_decoded = cdsp.rx.decoding_differential(pattern_decoded, self.constellation)
-        if self.coding_differential:
             pattern_decoded = cdsp.rx.decoding_gray(pattern_decoded, self.constellation)
+        if self.coding_differential:
+            pattern_decoded = cdsp.rx.decoding_differential(pattern_decoded, self.constellation)
         # ==============================================================================================================
         # Converting symbols to binary if needed
         # ==============================================================================================================
-- 
2.43.0


From 5e277b114d611723a5159eaf424de516ffa0395f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:20 +0000
Subject: [PATCH 12/33] fix: Receiver of the example simulation adapts its taps
 with the existing ddlms_grad, without changing the caller's taps

---
 example_simulation/simulation_parts/receiver.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/example_simulation/simulation_parts/receiver.py b/example_simulation/simulation_parts/receiver.py
index bcd87c4..c4f6d3b 100644
--- a/example_simulation/simulation_parts/receiver.py
+++ b/example_simulation/simulation_parts/receiver.py
@@ -236,11 +236,12 @@ class Receiver:
             # Converging the FFE and DFE
             # ------------------------------------------------------------------------------------------------------
             if self.converge_lms:
-                mse, ffe_grad_vec, dfe_grad_vec = cdsp.rx.lms_grad(adc_vec, self.dig_gain * self.slicer_in, self.levels,
-                                                                   ffe_tap_idx=self.lms_ffe_idx,
-                                                                   dfe_tap_idx=self.lms_dfe_idx)
-                self.ffe_dfe.ffe_vec += -1 * self.lms_lr * ffe_grad_vec
-                self.ffe_dfe.dfe_vec += -1 * self.lms_lr * dfe_grad_vec
+                mse, ffe_grad_vec, *dfe_grad_vec = cdsp.rx.ddlms_grad(adc_vec, self.dig_gain * self.slicer_in, self.levels,
+                                                                      ffe_tap_idx=self.lms_ffe_idx,
+                                                                      dfe_tap_idx=self.lms_dfe_idx)
+                self.ffe_dfe.ffe_vec = self.ffe_dfe.ffe_vec - self.lms_lr * ffe_grad_vec
+                if self.ffe_dfe.dfe_taps > 0:
+                    self.ffe_dfe.dfe_vec = self.ffe_dfe.dfe_vec - self.lms_lr * dfe_grad_vec[0]
                 self.lms_mse_last = mse
                 # **********************************************************************************************
                 # Stop condition
-- 
2.43.0


From ecca120647d216527848c7001591e72757d2ec74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:21 +0000
Subject: [PATCH 13/33] fix: decoding_differential and decoding_mlt3 invert
 their encoders for multi-dimensional patterns

---
 CommDspy/rx/decoding.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/CommDspy/rx/decoding.py b/CommDspy/rx/decoding.py
index dfa4e95..6effd8d 100644
--- a/CommDspy/rx/decoding.py
+++ b/CommDspy/rx/decoding.py
@@ -43,8 +43,9 @@ def decoding_differential(pattern, constellation=ConstellationEnum.PAM4):
                    |                              +|
                    --------------------------------
         """
+    shape   = pattern.shape
     lvl_num = len(get_levels(constellation))
-    return (lfilter([1, -1], [1], pattern.astype(float)) % lvl_num).astype(int)
+    return np.reshape(lfilter([1, -1], [1], np.reshape(pattern, -1).astype(float)) % lvl_num, shape).astype(int)
 
 def decoding_manchester(pattern):
     """
@@ -118,7 +119,7 @@ def decoding_mlt3(pattern):
     # ==================================================================================================================
     # Decoding
     # ==================================================================================================================
-    if pattern[0] == 1:
+    if pattern_flat[0] == 1:
         transitions = np.concatenate((np.array([1]), np.abs(np.diff(pattern_flat))))
     else:
         transitions = np.concatenate((np.array([0]), np.abs(np.diff(pattern_flat))))
-- 
2.43.0


From 991cd2c0fa201a682371f0388a7cfc7f596f9c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:41 +0000
Subject: [PATCH 14/33] fix: symbol2bin handles a single multi-bit symbol with
 the inversion flags

---
 CommDspy/rx/symbol2bin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/rx/symbol2bin.py b/CommDspy/rx/symbol2bin.py
index 2112404..cffdf52 100644
--- a/CommDspy/rx/symbol2bin.py
+++ b/CommDspy/rx/symbol2bin.py
@@ -25,7 +25,7 @@ def symbol2bin(symbol_mat, num_of_symbols, bit_order_inv=False, inv_msb=False, i
     # ==================================================================================================================
     # Converting to binary representation
     # ==================================================================================================================
-    symbol_mat_binary = np.squeeze(((symbol_vec[:, None] & (1 << np.arange(0, bits_per_symbol, 1))) > 0).astype(int))
+    symbol_mat_binary = ((symbol_vec[:, None] & (1 << np.arange(0, bits_per_symbol, 1))) > 0).astype(int)
     # ==================================================================================================================
     # Bit manipulations according to the flags
     # ==================================================================================================================
-- 
2.43.0


From b751308f9078dbd63cb5e4728bb6d836dc407159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:32 +0000
Subject: [PATCH 15/33] fix: check_binary rejects data holding anything but 0
 and 1

---
 CommDspy/misc/help_functions.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/CommDspy/misc/help_functions.py b/CommDspy/misc/help_functions.py
index 5e98490..d478303 100644
--- a/CommDspy/misc/help_functions.py
+++ b/CommDspy/misc/help_functions.py
@@ -2,11 +2,7 @@ import numpy as np
 
 def check_binary(pattern):
     data_in = np.unique(pattern)
-    if len(data_in) == 1 and (0 not in data_in and 1 not in data_in):
-        raise ValueError('Data in is not binary, please consider other encoding methods')
-    elif len(data_in) == 2 and (0 not in data_in and 1 not in data_in):
-        raise ValueError('Data in is not binary, please consider other encoding methods')
-    elif len(data_in) > 2:
+    if not np.all((data_in == 0) | (data_in == 1)):
         raise ValueError('Data in is not binary, please consider other encoding methods')
 
 def check_valid_conv(pattern, G, feedback, use_feedback):
-- 
2.43.0


From 03164fc4598c8e2a039cb76266015c8336de6478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:32 +0000
Subject: [PATCH 16/33] fix: bipolar error detection marks repeated negative
 marks with -0.5 and keeps the pattern shape

---
 CommDspy/rx/decoding.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/CommDspy/rx/decoding.py b/CommDspy/rx/decoding.py
index 6effd8d..79fe5b6 100644
--- a/CommDspy/rx/decoding.py
+++ b/CommDspy/rx/decoding.py
@@ -102,17 +102,14 @@ def decoding_bipolar(pattern, error_detection=False):
         # Detecting the mark locations in the pattern
         # ----------------------------------------------------------------------------------------------------------
         pattern_flat    = np.reshape(pattern - 1, -1)
-        decoded_pattern = np.abs(pattern - 1).astype(float)
+        decoded_pattern = np.abs(pattern_flat).astype(float)
         idx_vec         = np.arange(0, len(decoded_pattern))
         mark_location   = idx_vec[pattern_flat != 0]
         mark_change     = np.concatenate((np.array([1]), np.diff(pattern_flat[mark_location])))
-        running_sign    = 1
         for ii, mark in enumerate(mark_change):
             if mark == 0:
-                decoded_pattern[mark_location[ii]] = decoded_pattern[mark_location[ii-1]] = 0.5 * np.sign(running_sign)
-            else:
-                running_sign = np.sign(mark)
-        return decoded_pattern
+                decoded_pattern[mark_location[ii]] = decoded_pattern[mark_location[ii-1]] = 0.5 * pattern_flat[mark_location[ii]]
+        return np.reshape(decoded_pattern, pattern.shape)
 
 def decoding_mlt3(pattern):
     pattern_flat = np.reshape(pattern, -1)
-- 
2.43.0


From c287e0bee87e0392be016e8472865f14d6aefc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:16 +0000
Subject: [PATCH 17/33] fix: Viterbi survivors are chosen by accumulated
 distance over existing transitions only

---
 CommDspy/rx/decoding.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/CommDspy/rx/decoding.py b/CommDspy/rx/decoding.py
index 79fe5b6..c5fc12d 100644
--- a/CommDspy/rx/decoding.py
+++ b/CommDspy/rx/decoding.py
@@ -309,14 +309,13 @@ def decoding_conv_viterbi(pattern, G, tb_len, feedback=None, use_feedback=None,
             # step_hamming[ii,jj] = hamming from state ii to state jj, computing for all transitions in one step
             step_hamming, _ = hamming(output_tensor_reshape, pattern_chunk[None, :])
             step_hamming    = np.reshape(step_hamming, trellis_obj.output_tensor.shape[:-1])
+            path_hamming    = step_hamming if chunk_idx == 0 else step_hamming + hamming_dist[:, chunk_idx-1][:, None]
+            path_hamming    = np.where(trellis_obj.input_tensor[:, :, 0] >= 0, path_hamming, 2 * tb_len)  # missing transitions
             # ----------------------------------------------------------------------------------------------------------
             # Noting the best for this step, the return path and the input for the best per state
             # ----------------------------------------------------------------------------------------------------------
-            hamming_state[:, chunk_idx] = np.argmin(step_hamming, axis=0)
-            if chunk_idx > 0:
-                hamming_dist[:, chunk_idx] = np.min(step_hamming, axis=0) + hamming_dist[hamming_state[:,chunk_idx], chunk_idx-1]
-            else:
-                hamming_dist[:, chunk_idx] = np.min(step_hamming, axis=0)
+            hamming_state[:, chunk_idx] = np.argmin(path_hamming, axis=0)
+            hamming_dist[:, chunk_idx]  = np.min(path_hamming, axis=0)
             decoded_mat_prev = decoded_mat.copy()
             out_state = hamming_state[in_state_int_vec, chunk_idx]
             if chunk_idx > 0:
-- 
2.43.0


From f9f61625d2f6c883196b4087f2ca28cadcb7abb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:16 +0000
Subject: [PATCH 18/33] fix: quantize: default type is 'u', negative fractional
 bits scale the levels

---
 CommDspy/rx/quantiztion.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/CommDspy/rx/quantiztion.py b/CommDspy/rx/quantiztion.py
index 10116e8..7b107eb 100644
--- a/CommDspy/rx/quantiztion.py
+++ b/CommDspy/rx/quantiztion.py
@@ -1,7 +1,7 @@
 import numpy as np
 from CommDspy.rx.slicer import slicer
 
-def quantize(signal, total_bits, frac_bits=0, fix_point_type='unsigned'):
+def quantize(signal, total_bits, frac_bits=0, fix_point_type='u'):
     """
     :param signal: Input signal to perform quantization on
     :param total_bits: Total bit used in the quantization
@@ -42,9 +42,8 @@ def quantize(signal, total_bits, frac_bits=0, fix_point_type='unsigned'):
         levels = levels[1:] - 2**(total_bits - 1)
     elif fix_point_type != 'u':
         raise ValueError('Type used is not defined, please read function description')
-    if frac_bits > 0:
-        levels = levels.astype(float)
-        levels /= 2**frac_bits
+    if frac_bits != 0:
+        levels = levels / 2.0**frac_bits
     # ==================================================================================================================
     # Applying Quantization
     # ==================================================================================================================
-- 
2.43.0


From c06b830d5d6bb828fd4a06f0f08874f61669aae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:16 +0000
Subject: [PATCH 19/33] fix: slicer: accept a list, as its AttributeError
 branch intends

---
 CommDspy/rx/slicer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CommDspy/rx/slicer.py b/CommDspy/rx/slicer.py
index 1fdd862..b0e64f0 100644
--- a/CommDspy/rx/slicer.py
+++ b/CommDspy/rx/slicer.py
@@ -12,9 +12,9 @@ def slicer(slicer_in_mat, levels=None):
     try:
         y, x = slicer_in_mat.shape
     except AttributeError:
-        slicer_im_mat = np.array(slicer_in_mat)
+        slicer_in_mat = np.array(slicer_in_mat)
         try:
-            y, x = slicer_im_mat.shape
+            y, x = slicer_in_mat.shape
         except ValueError:
             x = slicer_in_mat.shape[0]
             y = 0
-- 
2.43.0


From cd1fbde6ca918bf5eb02d1295e0083eb6aee1dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:37 +0000
Subject: [PATCH 20/33] fix: filter objects do not truncate their output to the
 integer type of the input

---
 CommDspy/misc/help_classes.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/CommDspy/misc/help_classes.py b/CommDspy/misc/help_classes.py
index b07a6c1..e1e25bb 100644
--- a/CommDspy/misc/help_classes.py
+++ b/CommDspy/misc/help_classes.py
@@ -49,10 +49,7 @@ class Filter:
         return y
 
     def __call__(self, data_chunk):
-        y_vec = np.zeros_like(data_chunk)
-        for ii, x in enumerate(data_chunk):
-            y_vec[ii] = self._process(x)
-        return y_vec
+        return np.array([self._process(x) for x in data_chunk])
 
 class FilterTII:
     def __init__(self, b, a, z=None):
@@ -131,10 +128,7 @@ class FilterTII:
         return y
 
     def __call__(self, data_chunk):
-        y_vec = np.zeros_like(data_chunk)
-        for ii, x in enumerate(data_chunk):
-            y_vec[ii] = self._process(x)
-        return y_vec
+        return np.array([self._process(x) for x in data_chunk])
 
 class FfeDfeFilterTII(FilterTII):
     def __init__(self, ffe, dfe, levels, z=None):
-- 
2.43.0


From c1e8eef2ee7cf1b7be41c0f755ba6cfb41c74e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:04 +0000
Subject: [PATCH 21/33] fix: rcos_pulse: limit value near the singular points
 and for zero roll-off

---
 CommDspy/channel/pulse_shaping.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/CommDspy/channel/pulse_shaping.py b/CommDspy/channel/pulse_shaping.py
index 41dc5a6..94ead0e 100644
--- a/CommDspy/channel/pulse_shaping.py
+++ b/CommDspy/channel/pulse_shaping.py
@@ -93,13 +93,14 @@ def rcos_pulse(osr, span, beta, t=None):
     # ==================================================================================================================
     if t is None:
         t = _time_vec_pulse(osr, span)
-    tneq = t[np.abs(2*beta*t) != 1]
+    eqb  = np.isclose(np.abs(2*beta*t), 1)
+    tneq = t[~eqb]
     # ==================================================================================================================
     # Creating the pulse
     # ==================================================================================================================
     pulse = np.zeros_like(t)
-    pulse[np.abs(2*beta*t) == 1] = np.pi/4 * np.sinc(1/(2*beta))
-    pulse[np.abs(2*beta*t) != 1] = np.sinc(tneq) * np.cos(np.pi * beta * tneq) / (1 - (2 * beta * tneq) ** 2)
+    pulse[eqb]  = np.pi/4 * np.sinc(t[eqb])
+    pulse[~eqb] = np.sinc(tneq) * np.cos(np.pi * beta * tneq) / (1 - (2 * beta * tneq) ** 2)
     return pulse
 
 def rrc_pulse(osr, span, beta, t=None):
-- 
2.43.0


From 051273585923ba676689e5a86af678952d6f806e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:04 +0000
Subject: [PATCH 22/33] fix: rrc_pulse: zero roll-off is the sinc pulse

---
 CommDspy/channel/pulse_shaping.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CommDspy/channel/pulse_shaping.py b/CommDspy/channel/pulse_shaping.py
index 94ead0e..4081b3e 100644
--- a/CommDspy/channel/pulse_shaping.py
+++ b/CommDspy/channel/pulse_shaping.py
@@ -116,6 +116,8 @@ def rrc_pulse(osr, span, beta, t=None):
     # ==================================================================================================================
     if t is None:
         t = _time_vec_pulse(osr, span)
+    if beta == 0:
+        return np.sinc(t)
     neq0 = ~np.isclose(t, np.zeros_like(t))
     neqb = ~np.isclose(np.abs(t) - 1/(4*beta), np.zeros_like(t))
     # ==================================================================================================================
-- 
2.43.0


From 52f5e53b5f6c767427f30d048758167373e06c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:04 +0000
Subject: [PATCH 23/33] fix: raised cosine delay coefficients: limit value
 where the quotient is 0/0

---
 CommDspy/digital_delay.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/CommDspy/digital_delay.py b/CommDspy/digital_delay.py
index 2f9c19c..380c679 100644
--- a/CommDspy/digital_delay.py
+++ b/CommDspy/digital_delay.py
@@ -81,7 +81,11 @@ def dig_delay_rcos_coeffs(n, alpha, forward=True, beta=0.5):
     # ==================================================================================================================
     # Creating the filter parameters
     # ==================================================================================================================
-    return np.sinc(ii_vec - alpha) * np.cos(np.pi * beta * (ii_vec - alpha)) / (1 - (2 * beta * (ii_vec - alpha)) ** 2)
+    t           = ii_vec - alpha
+    eqb         = np.isclose(np.abs(2 * beta * t), 1)
+    coeffs      = np.pi / 4 * np.sinc(t)
+    coeffs[~eqb] = np.sinc(t[~eqb]) * np.cos(np.pi * beta * t[~eqb]) / (1 - (2 * beta * t[~eqb]) ** 2)
+    return coeffs
 
 def digital_oversample(signal_vec, osr, order, method, beta=0):
     """
-- 
2.43.0


From b3a2a1817e90fd9a021b03c37bade067f9a1230e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:29 +0000
Subject: [PATCH 24/33] fix: buffer: clip removes the incomplete last row
 whatever the data

---
 CommDspy/auxiliary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/auxiliary.py b/CommDspy/auxiliary.py
index e87e5c5..2f7b292 100644
--- a/CommDspy/auxiliary.py
+++ b/CommDspy/auxiliary.py
@@ -115,7 +115,7 @@ def buffer(signal, length, overlap=0, delay=0, clip=False):
     rows_to_remove = np.sum(np.any(np.array([np.arange(full_len - length - max(overlap, 0), full_len)]).T - rows == 0, axis=1))
     if rows_to_remove > 0:
         matrix = matrix[:-1*rows_to_remove]
-    if clip and matrix[-1,:] not in linalg.hankel(signal, signal[::-1][:length])[:-1]:
+    if clip and len(matrix) > 0 and rows[len(matrix) - 1] + length > delay + len(signal):
         matrix = matrix[:-1]
     return matrix
 
-- 
2.43.0


From 464357d997dfe0a683207b08f9cecdf3b59b05c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:32 +0000
Subject: [PATCH 25/33] fix: regularised least squares solve Ax=b without a
 hidden intercept

---
 CommDspy/misc/least_squares.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CommDspy/misc/least_squares.py b/CommDspy/misc/least_squares.py
index a4afd80..8119052 100644
--- a/CommDspy/misc/least_squares.py
+++ b/CommDspy/misc/least_squares.py
@@ -43,7 +43,7 @@ def ridge_regression(a_mat, b, reg_lambda):
     :return: performing least squares with L2 regularization, sklearn implementation
              ||y - Xw||^2_2 + reg_lambda * ||w||^2_2
     """
-    model = Ridge(alpha=reg_lambda)
+    model = Ridge(alpha=reg_lambda, fit_intercept=False)
     model.fit(a_mat, b)
     x_hat = model.coef_
     ssr   = np.sum(np.power(a_mat @ x_hat - b, 2))
@@ -57,7 +57,7 @@ def lasso_regression(a_mat, b, reg_lambda):
     :return: performing least squares with L1 regularization, sklearn implementation
              ||y - Xw||^2_2 + reg_lambda * ||w||_1
     """
-    model = Lasso(alpha=reg_lambda)
+    model = Lasso(alpha=reg_lambda, fit_intercept=False)
     model.fit(a_mat, b)
     x_hat = model.coef_
     ssr   = np.sum(np.power(a_mat @ x_hat - b, 2))
-- 
2.43.0


From 64c342e42dd35f1d194b49e0e2cd41243bbf34d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:32 +0000
Subject: [PATCH 26/33] fix: channel_estimation_prbs honours pn_inv_postcoding

---
 CommDspy/channel_estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/channel_estimation.py b/CommDspy/channel_estimation.py
index e6ed182..8f99157 100644
--- a/CommDspy/channel_estimation.py
+++ b/CommDspy/channel_estimation.py
@@ -57,7 +57,7 @@ def channel_estimation_prbs(prbs_type, signal, constellation,
         return True, 0, [0]
     prbs_seq, _ = prbs_generator(poly_coeff, init_seed, 2 * prbs_len)
     prbsq       = bin2symbol(prbs_seq, len(levels), bit_order_inv, False, False, pn_inv_precoding)
-    prbs_coded  = mapping(prbsq, constellation, prbs_full_scale) if not gray_coding else mapping(coding_gray(prbsq, constellation), constellation, prbs_full_scale)
+    prbs_coded  = mapping(prbsq, constellation, prbs_full_scale, pn_inv=pn_inv_postcoding) if not gray_coding else mapping(coding_gray(prbsq, constellation), constellation, prbs_full_scale, pn_inv=pn_inv_postcoding)
     # ==================================================================================================================
     # Locking on the pattern beginning
     # ==================================================================================================================
-- 
2.43.0


From 95c2cea46cb5a9049838824398e0126996f5d45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:16 +0000
Subject: [PATCH 27/33] fix: equalization_estimation_prbs aligns the reference
 with the FFE cursor when there are more DFE taps than FFE postcursors

---
 CommDspy/equalization_estimation.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/CommDspy/equalization_estimation.py b/CommDspy/equalization_estimation.py
index 07763f4..38d7285 100644
--- a/CommDspy/equalization_estimation.py
+++ b/CommDspy/equalization_estimation.py
@@ -60,7 +60,6 @@ def equalization_estimation_prbs(prbs_type, signal, constellation,
     init_seed       = np.array([1] * prbs_type.value)
     prbs_len        = 2 ** len(init_seed) - 1
     levels          = get_levels(constellation, prbs_full_scale)
-    postcursor_num  = np.max((ffe_postcursor, dfe_taps))
     # ==================================================================================================================
     # Getting reference PRBS and coding
     # ==================================================================================================================
@@ -74,7 +73,7 @@ def equalization_estimation_prbs(prbs_type, signal, constellation,
     # Locking on the pattern beginning and then shifting to account for post-cursors
     # ==================================================================================================================
     prbs_coded_aligned, _ = lock_pattern_to_signal(prbs_coded, signal)
-    shift_idx = np.concatenate([np.arange(postcursor_num, prbs_len, 1), np.arange(0, postcursor_num, 1)])
+    shift_idx = np.concatenate([np.arange(ffe_postcursor, prbs_len, 1), np.arange(0, ffe_postcursor, 1)])
     prbs_coded_shift = prbs_coded_aligned[shift_idx]
     # ==================================================================================================================
     # Averaging to help remove noise from captured signal
-- 
2.43.0


From 25c06caa176d9d459679be59bd0adc256f294e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:16 +0000
Subject: [PATCH 28/33] fix: equaliser least squares uses only rows that lie
 inside the signal

---
 CommDspy/equalization_estimation.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/CommDspy/equalization_estimation.py b/CommDspy/equalization_estimation.py
index 38d7285..a0acf25 100644
--- a/CommDspy/equalization_estimation.py
+++ b/CommDspy/equalization_estimation.py
@@ -117,8 +117,7 @@ def equalization_estimation(reference_signal, signal, ffe_postcursor=23, ffe_pre
     # ==================================================================================================================
     # Local variables
     # ==================================================================================================================
-    postcursor_num = np.max((ffe_postcursor, dfe_taps))
-    chop_len = postcursor_num + ffe_precursor + 1
+    chop_len = dfe_taps + ffe_postcursor + ffe_precursor + 1
     mat_row_num    = len(signal) - chop_len
     # ==================================================================================================================
     # Building the FFE part of the matrix in the Ax=b system
-- 
2.43.0


From e73de186130c85e5a6254eaa2dadd293fd0c0e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:01 +0000
Subject: [PATCH 29/33] fix: psa rejects the documented mode 'dBc/Hz'

---
 CommDspy/psa.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/CommDspy/psa.py b/CommDspy/psa.py
index b93e5de..18b9795 100644
--- a/CommDspy/psa.py
+++ b/CommDspy/psa.py
@@ -64,6 +64,9 @@ def psa(signal, fs, rbw=None, mode='dB', obw=None, r=50, osr=4, window='blackman
         if obw is None:
             obw = rbw
         norm_factor = np.sqrt(obw / effective_fs) / vrms
+    elif mode == 'dBc/Hz':
+        vrms = np.sqrt(np.mean(signal_flat * np.conj(signal_flat)))
+        norm_factor = np.sqrt(1 / effective_fs) / vrms
     elif mode == 'dBFs':
         if obw is None:
             obw = rbw
-- 
2.43.0


From 949d421231209d8f0ed1d5932b3ce801b8eea141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:25 +0000
Subject: [PATCH 30/33] fix: Decoder undoes combined binary codes in the order
 they were applied

---
 .../simulation_parts/receiver.py              | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/example_simulation/simulation_parts/receiver.py b/example_simulation/simulation_parts/receiver.py
index c4f6d3b..30fe98b 100644
--- a/example_simulation/simulation_parts/receiver.py
+++ b/example_simulation/simulation_parts/receiver.py
@@ -134,23 +134,23 @@ class Decoder:
         # ==============================================================================================================
         # Binary decoding options
         # ==============================================================================================================
-        if self.coding_bin_differential:
-            pattern_decoded = cdsp.rx.decoding_differential(pattern_decoded, cdsp.ConstellationEnum.OOK)
-        if self.coding_manchester:
-            pattern_decoded = cdsp.rx.decoding_manchester(pattern_decoded)
-        if self.coding_bipolar:
-            pattern_decoded = cdsp.rx.decoding_bipolar(pattern_decoded)
-        if self.coding_mlt3:
-            pattern_decoded = cdsp.rx.decoding_mlt3(pattern_decoded)
-        if self.coding_diff_manchester:
-            pattern_decoded = cdsp.rx.decoding_differential_manchester(pattern_decoded)
-        if self.coding_linear:
-            pattern_decoded = cdsp.rx.decoding_linear(pattern_decoded, self.G)
         if self.coding_conv:
             pattern_decoded, _ = cdsp.rx.decoding_conv_viterbi(pattern_decoded, self.G,
                                                                tb_len=self.chunk_size,
                                                                feedback=self.feedback,
                                                                use_feedback=self.use_feedback)
+        if self.coding_linear:
+            pattern_decoded = cdsp.rx.decoding_linear(pattern_decoded, self.G)
+        if self.coding_diff_manchester:
+            pattern_decoded = cdsp.rx.decoding_differential_manchester(pattern_decoded)
+        if self.coding_mlt3:
+            pattern_decoded = cdsp.rx.decoding_mlt3(pattern_decoded)
+        if self.coding_bipolar:
+            pattern_decoded = cdsp.rx.decoding_bipolar(pattern_decoded)
+        if self.coding_manchester:
+            pattern_decoded = cdsp.rx.decoding_manchester(pattern_decoded)
+        if self.coding_bin_differential:
+            pattern_decoded = cdsp.rx.decoding_differential(pattern_decoded, cdsp.ConstellationEnum.OOK)
         return pattern_decoded
 class Receiver:
     def __init__(self, ctle_data, adc_data, ffe_dfe_data, mapping_data, coding_data, lms_lr=2**(-10), digital_gain=1):
-- 
2.43.0


From 7ba7911983469518b605e9531302a4ab8c7665a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:35 +0000
Subject: [PATCH 31/33] fix: Receiver LMS stop condition compares the MSE with
 the previous one

---
 example_simulation/simulation_parts/receiver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/example_simulation/simulation_parts/receiver.py b/example_simulation/simulation_parts/receiver.py
index 30fe98b..95d5ff1 100644
--- a/example_simulation/simulation_parts/receiver.py
+++ b/example_simulation/simulation_parts/receiver.py
@@ -242,11 +242,12 @@ class Receiver:
                 self.ffe_dfe.ffe_vec = self.ffe_dfe.ffe_vec - self.lms_lr * ffe_grad_vec
                 if self.ffe_dfe.dfe_taps > 0:
                     self.ffe_dfe.dfe_vec = self.ffe_dfe.dfe_vec - self.lms_lr * dfe_grad_vec[0]
+                mse_diff = abs(mse - self.lms_mse_last)
                 self.lms_mse_last = mse
                 # **********************************************************************************************
                 # Stop condition
                 # **********************************************************************************************
-                if abs(mse - self.lms_mse_last) > 10 ** (self.lms_mse_diff_th / 20):
+                if mse_diff < 10 ** (self.lms_mse_diff_th / 20):
                     self.converge_lms = False
             if not self.converge_cdr and not self.converge_lms:
                 self.converge      = False
-- 
2.43.0


From b0dbd8390b04421a45ac3b6583caf0a765e0afad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:48 +0000
Subject: [PATCH 32/33] fix: a restarted convergence is not finished:
 start_convergence clears converge_done

After a first convergence the flag stayed set, so a second perform_convergence
kept no chunk, ended at once and left the receiver adapting.
---
 example_simulation/simulation_parts/full_link.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/example_simulation/simulation_parts/full_link.py b/example_simulation/simulation_parts/full_link.py
index a1f8bc2..f1ed1ce 100644
--- a/example_simulation/simulation_parts/full_link.py
+++ b/example_simulation/simulation_parts/full_link.py
@@ -23,6 +23,7 @@ class FullLink:
         self.Rx.converge     = True
         self.Rx.converge_lms = True
         self.Rx.converge_cdr = True
+        self.Rx.converge_done = False
         self.Rx.lms_mse_vec  = []
         self.Rx.cdr_step_vec = []
 
-- 
2.43.0


From 7fa3278d026117108f70605942d237f06f3d5792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:36 +0000
Subject: [PATCH 33/33] fix: coding_conv computes the feedback of recursive
 encoders modulo 2

---
 CommDspy/tx/coding.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/CommDspy/tx/coding.py b/CommDspy/tx/coding.py
index c607f29..29ff425 100644
--- a/CommDspy/tx/coding.py
+++ b/CommDspy/tx/coding.py
@@ -315,7 +315,10 @@ def coding_conv(pattern, G, feedback=None, use_feedback=None, zi=None):
             # ------------------------------------------------------------------------------------------------------
             # Passing the data through the transfer function
             # ------------------------------------------------------------------------------------------------------
-            out_ii_jj     = lfilter(G_ii_jj.astype(float), iir_vals, in_pattern)
+            if type(iir_vals) != float:  # computing the feedback modulo 2, over the reals it may grow without bound
+                out_ii_jj = lfilter(G_ii_jj.astype(float), 1.0, _feedback_mod2(in_pattern, iir_vals))
+            else:
+                out_ii_jj = lfilter(G_ii_jj.astype(float), iir_vals, in_pattern)
             out_vals[jj] += out_ii_jj
     # ==================================================================================================================
     # Setting the data to binary
@@ -325,3 +328,15 @@ def coding_conv(pattern, G, feedback=None, use_feedback=None, zi=None):
     # Reshaping back to the output
     # ==================================================================================================================
     return np.reshape(out_vals.T, -1)
+
+def _feedback_mod2(pattern, feedback):
+    """
+    :param pattern: 1D binary numpy array, the input of the shift register
+    :param feedback: feedback polynomial, should have 1 in the '0' location
+    :return: binary sequence entering the shift register, i.e. the pattern plus the feedback, modulo 2
+    """
+    register_in = np.array(pattern, dtype=float)
+    for ii in range(1, len(register_in)):
+        memory          = register_in[max(0, ii - len(feedback) + 1):ii][::-1]
+        register_in[ii] = (register_in[ii] + np.dot(feedback[1:len(memory) + 1], memory)) % 2
+    return register_in
-- 
2.43.0

