From 3ee550c8cfe1e81432abfa204ecb5e07534926e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:18 +0000
Subject: [PATCH 01/28] fix: payload length of messages with array fields
 counted one element per array

---
 protocol_meta/protocol_meta.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/protocol_meta/protocol_meta.py b/protocol_meta/protocol_meta.py
index 79208a6..78320a0 100644
--- a/protocol_meta/protocol_meta.py
+++ b/protocol_meta/protocol_meta.py
@@ -55,8 +55,10 @@ class MavlinkDialectMeta:
         obj: type = dialect.mavlink_map.get(msg_id)  # type: ignore
         if not issubclass(obj, dialect.MAVLink_message):
             raise ValueError()
-        field_types = obj.fieldtypes  # type: ignore
-        return sum(self.field_lengths[field] for field in field_types)
+        # array fields occupy array_length elements on the wire, scalar fields have an array_length of 0
+        ordered_field_types = [field_type for _, field_type in self.__msg_fields(msg_id)]
+        return sum(self.field_lengths[field_type] * max(1, array_length)
+                   for field_type, array_length in zip(ordered_field_types, obj.array_lengths))  # type: ignore
 
 
 mav_obj = dialect.MAVLink(1)
-- 
2.43.0


From f40272c946012fcb8b2f3076f68d0207174b83ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:26 +0000
Subject: [PATCH 02/28] fix: nearest valid header search stopped at an exact
 match that exceeds max_len

---
 protocol_meta/msg_header.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/protocol_meta/msg_header.py b/protocol_meta/msg_header.py
index d10e819..949ab81 100644
--- a/protocol_meta/msg_header.py
+++ b/protocol_meta/msg_header.py
@@ -54,8 +54,10 @@ def hamming_distance_2_valid_header(buffer: bytes, max_len: Optional[int] = None
     chosen_msg_id: int = -1
 
     for msg_id, msg_len in meta.msgs_payload_length.items():
+        if max_len is not None and msg_len > max_len:
+            continue  # too long to fit, an exact match of it must not end the search
         candidate_dist = hamming_distance(msg_len, buffer[1]) + hamming_distance(msg_id, buffer[5])
-        if candidate_dist < min_dist and (max_len is None or msg_len <= max_len):
+        if candidate_dist < min_dist:
             min_dist = candidate_dist
             chosen_msg_id = msg_id
         if candidate_dist == 0:
-- 
2.43.0


From 75793a2f4d2bbd17d3fbe6e99bd04a75b40880b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:23 +0000
Subject: [PATCH 03/28] fix: adherence test raised instead of returning False
 for short or corrupted buffers

---
 inference/buffer_segmentation.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/inference/buffer_segmentation.py b/inference/buffer_segmentation.py
index e7642ca..296e71c 100644
--- a/inference/buffer_segmentation.py
+++ b/inference/buffer_segmentation.py
@@ -2,7 +2,8 @@
 import contextlib
 from enum import Enum
 from protocol_meta import dialect_meta as meta
-from protocol_meta import FrameHeader, is_valid_header, MAVError
+from protocol_meta import FrameHeader, is_valid_header, MAVError, NonExistentMsdId
+from protocol_meta.msg_header import HeaderLength
 from typing import Callable, Union, Any
 from array import array
 import numpy as np
@@ -63,7 +64,10 @@ class BufferStructure:
         :param buffer: candidate buffer
         """
         for idx, msg_id in self.structure.items():
-            hdr = FrameHeader.from_buffer(buffer[idx:idx + meta.header_len])
+            try:
+                hdr = FrameHeader.from_buffer(buffer[idx:idx + meta.header_len])
+            except (HeaderLength, NonExistentMsdId):  # buffer too short, or not a header of any known message
+                return False
             if hdr.msg_id != msg_id:
                 return False
         return True
-- 
2.43.0


From 882c32b7ac08f96034e4bc2d480ffcfa5b4a3ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:23 +0000
Subject: [PATCH 04/28] fix: get_msg_fields returned a bare dict instead of a
 pair when no message was found

---
 inference/buffer_segmentation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inference/buffer_segmentation.py b/inference/buffer_segmentation.py
index 296e71c..8f58b24 100644
--- a/inference/buffer_segmentation.py
+++ b/inference/buffer_segmentation.py
@@ -201,7 +201,7 @@ class BufferSegmentation:
         """
         msg_parts, bit_validity, buffer_structure = self.segment_buffer(buffer)
         if buffer_structure == {}:
-            return {}
+            return {}, []
         fields = {}
         buffer_description = []
         for k, v in buffer_structure.items():
-- 
2.43.0


From a50b7cabb6f590e502e3e3e7d400550d9fc3f87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:56 +0000
Subject: [PATCH 05/28] fix: bit statistics keep both symbols when all observed
 bits agree

prob() infers its alphabet from the data, so data in which every bit has the
same value gave a distribution with a single column: the decoders then failed
on the missing column or took the probability of one for that of zero. Pass
the binary alphabet explicitly wherever bit statistics are learned.
---
 decoders/classifiying_decoder.py     |  2 +-
 decoders/combined_decoder.py         |  2 +-
 decoders/combined_unified_decoder.py |  2 +-
 decoders/entropy_bitwise_decoder.py  |  8 ++++----
 inference/clustering.py              |  2 +-
 utils/information_theory.py          | 16 ++++++++++++----
 6 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/decoders/classifiying_decoder.py b/decoders/classifiying_decoder.py
index 625c325..9a3a233 100644
--- a/decoders/classifiying_decoder.py
+++ b/decoders/classifiying_decoder.py
@@ -154,7 +154,7 @@ class ClassifyingEntropyDecoder(Decoder):
             # trim old messages according to window
             self.models_data[cluster_id] = self.models_data[cluster_id][
                                            :, self.models_data[cluster_id].shape[1] - self.window_length:]
-        dist = prob(self.models_data[cluster_id])
+        dist = prob(self.models_data[cluster_id], alphabet=(0, 1))
         v = dist[:, 1]
         p1 = np.clip((v - self.bit_flip) / (1 - 2 * self.bit_flip), 0, 1)
         self.distributions[cluster_id] = np.column_stack((1 - p1, p1))
diff --git a/decoders/combined_decoder.py b/decoders/combined_decoder.py
index 78c0a1e..5f1299d 100644
--- a/decoders/combined_decoder.py
+++ b/decoders/combined_decoder.py
@@ -111,7 +111,7 @@ class CombinedDecoder(Decoder):
             # trim old messages according to window
             self.entropy_models_data[cluster_id] = self.entropy_models_data[cluster_id][
                                                    :, self.entropy_models_data[cluster_id].shape[1] - self.window_length:]
-        dist = prob(self.entropy_models_data[cluster_id])
+        dist = prob(self.entropy_models_data[cluster_id], alphabet=(0, 1))
         v = dist[:, 1]
         p1 = np.clip((v - self.bit_flip) / (1 - 2 * self.bit_flip), 0, 1)
         self.distributions[cluster_id] = np.column_stack((1 - p1, p1))
diff --git a/decoders/combined_unified_decoder.py b/decoders/combined_unified_decoder.py
index a080bfd..1a2f4f5 100644
--- a/decoders/combined_unified_decoder.py
+++ b/decoders/combined_unified_decoder.py
@@ -121,7 +121,7 @@ class CombinedUnifiedDecoder(Decoder):
             # trim old messages according to window
             self.entropy_models_data[cluster_id] = self.entropy_models_data[cluster_id][
                                                    :, self.entropy_models_data[cluster_id].shape[1] - self.window_length:]
-        dist = prob(self.entropy_models_data[cluster_id])
+        dist = prob(self.entropy_models_data[cluster_id], alphabet=(0, 1))
         v = dist[:, 1]
         p1 = np.clip((v - self.bit_flip) / (1 - 2 * self.bit_flip), 0, 1)
         self.distributions[cluster_id] = np.column_stack((1 - p1, p1))
diff --git a/decoders/entropy_bitwise_decoder.py b/decoders/entropy_bitwise_decoder.py
index 3816b25..6940848 100644
--- a/decoders/entropy_bitwise_decoder.py
+++ b/decoders/entropy_bitwise_decoder.py
@@ -97,7 +97,7 @@ class EntropyBitwiseDecoder(Decoder):
         if (self.window_length is not None) and self.model_data.shape[1] > self.window_length:
             # trim old messages according to window
             self.model_data = self.model_data[:, self.model_data.shape[1] - self.window_length:]
-        self.distribution = prob(self.model_data)
+        self.distribution = prob(self.model_data, alphabet=(0, 1))
         self.entropy = entropy(self.distribution)
 
     def model_prediction(self, observation: NDArray[np.float_]) -> NDArray[np.float_]:
@@ -207,7 +207,7 @@ class EntropyBitwiseFlippingDecoder(Decoder):
         if (self.window_length is not None) and self.model_data.shape[1] > self.window_length:
             # trim old messages according to window
             self.model_data = self.model_data[:, self.model_data.shape[1] - self.window_length:]
-        self.distribution = prob(self.model_data)
+        self.distribution = prob(self.model_data, alphabet=(0, 1))
         self.entropy = entropy(self.distribution)
 
     def model_prediction(self, observation: NDArray[np.int_]) -> NDArray[np.int_]:
@@ -372,7 +372,7 @@ class EntropyBitwiseWeightedDecoder(Decoder):
             if (self.window_length is not None) and self.model_a_data.shape[1] > self.window_length:
                 # trim old messages according to window
                 self.model_a_data = self.model_a_data[:, self.model_a_data.shape[1] - self.window_length:]
-            self.a_distribution = prob(self.model_a_data)
+            self.a_distribution = prob(self.model_a_data, alphabet=(0, 1))
             if self.corrected_dist:
                 v = self.a_distribution[:, 1]
                 p1 = np.clip((v - self.bit_flip) / (1 - 2 * self.bit_flip), 0, 1)
@@ -424,7 +424,7 @@ class EntropyBitwiseWeightedDecoder(Decoder):
             if (self.window_length is not None) and self.model_b_data.shape[1] > self.window_length:
                 # trim old messages according to window
                 self.model_b_data = self.model_b_data[:, self.model_b_data.shape[1] - self.window_length:]
-            self.b_distribution = prob(self.model_b_data)
+            self.b_distribution = prob(self.model_b_data, alphabet=(0, 1))
             if self.corrected_dist:
                 v = self.b_distribution[:, 1]
                 p1 = np.clip((v - self.bit_flip) / (1 - 2 * self.bit_flip), 0, 1)
diff --git a/inference/clustering.py b/inference/clustering.py
index 489486d..a0ab016 100644
--- a/inference/clustering.py
+++ b/inference/clustering.py
@@ -63,7 +63,7 @@ class BufferClassifier:
         self.samples += 1
         if self.samples < self.min_data_size:
             sample = np.array(buffer, dtype=np.int_)[np.newaxis].T
-            self.__add_cluster(prob(sample))
+            self.__add_cluster(prob(sample, alphabet=(0, 1)))
             return -1
         if not self.init:
             self.merge_clusters()
diff --git a/utils/information_theory.py b/utils/information_theory.py
index 84cbe60..2edb24a 100644
--- a/utils/information_theory.py
+++ b/utils/information_theory.py
@@ -1,15 +1,19 @@
 """various statistical functions, information theory measures, and convenience wrappers around scipy"""
 import numpy as np
 from scipy.stats import entropy as scipy_ent
+from collections.abc import Sequence
 from typing import Any, Optional
 from utils.custom_exceptions import UnsupportedDtype
 import numpy.typing as npt
 
 
-def prob_with_alphabet(data: npt.NDArray[Any]) -> tuple[npt.NDArray[np.float_], list[Any]]:
+def prob_with_alphabet(data: npt.NDArray[Any], alphabet: Optional[Sequence[Any]] = None) -> \
+        tuple[npt.NDArray[np.float_], list[Any]]:
     """Estimate the probability distribution given samples. Doesn't work with floating point values.
 
     :param data: a 1D or 2D numpy array. Each row is a dimension and each column an observation
+    :param alphabet: optional, the known alphabet of the data. If None, the alphabet is inferred from the data, and symbols
+    which don't appear in the data are not part of it.
     :return: a tuple: prob, alphabet. prob is a 2D array of probabilities. Rows are RV dimension, and columns
     are alphabet size, alphabet is a list with the inferred alphabet.
     """
@@ -18,7 +22,7 @@ def prob_with_alphabet(data: npt.NDArray[Any]) -> tuple[npt.NDArray[np.float_],
     # TODO - add ability to return joint distribution - can be done with np.unique along axis
 
     if data.ndim == 2:
-        alphabet: list[Any] = np.unique(data).tolist()
+        alphabet = np.unique(data).tolist() if alphabet is None else list(alphabet)
         alphabet_size = len(alphabet)
         pr: npt.NDArray[np.float_] = np.zeros((data.shape[0], alphabet_size))
         num_samples = data.shape[1]
@@ -32,6 +36,9 @@ def prob_with_alphabet(data: npt.NDArray[Any]) -> tuple[npt.NDArray[np.float_],
     elif data.ndim == 1:
         num_samples = data.shape[0]
         alphabet_arr: npt.NDArray[Any]
+        if alphabet is not None:
+            pr = np.array([np.count_nonzero(data == symbol) for symbol in alphabet])
+            return np.divide(pr, num_samples), list(alphabet)
         alphabet_arr, pr = np.unique(data, return_counts=True)
         pr = np.divide(pr, num_samples)
         return pr, alphabet_arr.tolist()
@@ -39,13 +46,14 @@ def prob_with_alphabet(data: npt.NDArray[Any]) -> tuple[npt.NDArray[np.float_],
         raise ValueError("only scalar and vector RV's currently supported (dim=1,2)")
 
 
-def prob(data: npt.NDArray[Any]) -> npt.NDArray[np.float_]:
+def prob(data: npt.NDArray[Any], alphabet: Optional[Sequence[Any]] = None) -> npt.NDArray[np.float_]:
     """A wrapper around prob_with_alphabet which doesn't return the alphabet.
 
     :param data: a 1D or 2D numpy array. Each row is a dimension and each column an observation
+    :param alphabet: optional, the known alphabet of the data. If None it is inferred from the data.
     :return: a 2D array of probabilities. Rows are RV dimension, and columns are alphabet size.
     """
-    pr, alphabet = prob_with_alphabet(data)
+    pr, _ = prob_with_alphabet(data, alphabet)
     return pr
 
 
-- 
2.43.0


From 796887c52f21b7911722f5da61020535d3de7987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:37 +0000
Subject: [PATCH 06/28] fix: Hellinger distance of equal distributions is zero,
 not nan

The Bhattacharyya coefficient of two equal distributions can be rounded to
slightly more than one, which left the square root of a negative number.
---
 utils/information_theory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/information_theory.py b/utils/information_theory.py
index 2edb24a..59ec690 100644
--- a/utils/information_theory.py
+++ b/utils/information_theory.py
@@ -107,9 +107,9 @@ def hellinger(pk: npt.NDArray[Any], qk: npt.NDArray[Any]) -> npt.NDArray[np.floa
     row is a dimension, and the number of columns equals the support size.
     """
     if pk.ndim == 2 and qk.ndim == 2:
-        return np.sqrt(1 - np.sum(np.sqrt(pk * qk), axis=1))  # type: ignore
+        return np.sqrt(np.maximum(1 - np.sum(np.sqrt(pk * qk), axis=1), 0))  # type: ignore
     if pk.ndim == 1 and qk.ndim == 1:
-        return np.sqrt(1 - np.sum(np.sqrt(pk * qk)))  # type: ignore
+        return np.sqrt(np.maximum(1 - np.sum(np.sqrt(pk * qk)), 0))  # type: ignore
     raise ValueError("incorrect dimensions")
 
 
-- 
2.43.0


From cc93b736295633d1221e54606a963dfe80e0502d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:19 +0000
Subject: [PATCH 07/28] fix: the clipping range of the model llr is set by the
 strongest channel llr

max(llr) is the largest positive value: it ignores strong negative values, and
when every value is negative it inverts the range, so that clipping replaces
the decoder input by a constant. Use the magnitude, as the combined decoders do.
---
 decoders/classifiying_decoder.py    | 2 +-
 decoders/entropy_bitwise_decoder.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/decoders/classifiying_decoder.py b/decoders/classifiying_decoder.py
index 9a3a233..8d5665a 100644
--- a/decoders/classifiying_decoder.py
+++ b/decoders/classifiying_decoder.py
@@ -107,7 +107,7 @@ class ClassifyingEntropyDecoder(Decoder):
         #         self.model_bits_idx[self.models_entropy[label] < self.entropy_threshold], label
         model_llr = self.model_prediction(len(channel_llr), label)  # type: ignore
         if isinstance(self.ldpc_decoder, LogSpaDecoder):
-            clipping = self.clipping_factor * max(channel_llr)  # llr s clipped within +-clipping
+            clipping = self.clipping_factor * max(np.abs(channel_llr))  # llr s clipped within +-clipping
             model_llr = np.clip(channel_llr + model_llr, -clipping, clipping)
             estimate, llr, decode_success, iterations, syndrome, vnode_validity = self.ldpc_decoder.decode(model_llr)
         elif isinstance(self.ldpc_decoder, WbfDecoder):  # wbf decoder
diff --git a/decoders/entropy_bitwise_decoder.py b/decoders/entropy_bitwise_decoder.py
index 6940848..82b0540 100644
--- a/decoders/entropy_bitwise_decoder.py
+++ b/decoders/entropy_bitwise_decoder.py
@@ -113,7 +113,7 @@ class EntropyBitwiseDecoder(Decoder):
         llr = observation.copy()
         if self.predefined_model or (self.model_data.size > 0 and self.model_data.shape[1] >= self.min_data):
             # if sufficient previous data exists
-            clipping = self.clipping_factor * max(llr)  # llr s clipped within +-clipping
+            clipping = self.clipping_factor * max(np.abs(llr))  # llr s clipped within +-clipping
             llr[self.structural_elements] += np.clip(  # add model llr to the observation
                 np.log(
                     (np.finfo(np.float_).eps + self.distribution[:, 0]) / (self.distribution[:, 1] + np.finfo(np.float_).eps)
@@ -490,7 +490,7 @@ class EntropyBitwiseWeightedDecoder(Decoder):
         elif self.confidence_scheme == 5:  # ignore good model
             a_confidence = 0
 
-        clipping = self.clipping_factor * max(llr)  # llr s clipped within +-clipping
+        clipping = self.clipping_factor * max(np.abs(llr))  # llr s clipped within +-clipping
         # model llr is calculated as log(Pr(c=0 | model) / Pr(c=1| model))
         # add model llr to the observation
         if a_confidence > 0:
-- 
2.43.0


From c5ca2627f0fe95fc6b4b0410a426083d994030d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:37 +0000
Subject: [PATCH 08/28] fix: a model whose only structural bit is bit 0 is not
 ignored

The structural elements are bit indices, so any() is false when the only
structural bit has index 0.
---
 decoders/classifiying_decoder.py     | 4 ++--
 decoders/combined_decoder.py         | 2 +-
 decoders/combined_unified_decoder.py | 2 +-
 decoders/entropy_bitwise_decoder.py  | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/decoders/classifiying_decoder.py b/decoders/classifiying_decoder.py
index 8d5665a..28259ae 100644
--- a/decoders/classifiying_decoder.py
+++ b/decoders/classifiying_decoder.py
@@ -174,7 +174,7 @@ class ClassifyingEntropyDecoder(Decoder):
         structural_elements: NDArray[np.int_] = self.model_bits_idx[
             self.models_entropy[cluster_id] < self.entropy_threshold]
 
-        if not structural_elements.any():  # no structural elements found
+        if not structural_elements.size:  # no structural elements found
             return llr
         if self.train_models:
             size = self.models_data[cluster_id].shape[1] if self.models_data[cluster_id].size > 0 else 0
@@ -228,7 +228,7 @@ class ClassifyingEntropyDecoder(Decoder):
                 if size>= self.window_length:
                     structural_elements: NDArray[np.int_] = self.model_bits_idx[
                         self.models_entropy[0] < self.entropy_threshold]
-                    if structural_elements.any():
+                    if structural_elements.size:
                         samples[structural_elements] = model_bits[structural_elements]
         return samples, priors
 
diff --git a/decoders/combined_decoder.py b/decoders/combined_decoder.py
index 5f1299d..6ec0bda 100644
--- a/decoders/combined_decoder.py
+++ b/decoders/combined_decoder.py
@@ -80,7 +80,7 @@ class CombinedDecoder(Decoder):
         structural_elements: NDArray[np.int_] = self.model_bits_idx[
             self.models_entropy[cluster_id] < self.entropy_threshold]
 
-        if not structural_elements.any():  # no structural elements found
+        if not structural_elements.size:  # no structural elements found
             return None
 
         size = self.entropy_models_data[cluster_id].shape[1] if self.entropy_models_data[cluster_id].size > 0 else 0
diff --git a/decoders/combined_unified_decoder.py b/decoders/combined_unified_decoder.py
index 1a2f4f5..42eb124 100644
--- a/decoders/combined_unified_decoder.py
+++ b/decoders/combined_unified_decoder.py
@@ -90,7 +90,7 @@ class CombinedUnifiedDecoder(Decoder):
         structural_elements: NDArray[np.int_] = self.model_bits_idx[
             self.models_entropy[cluster_id] < self.entropy_threshold]
 
-        if not structural_elements.any():  # no structural elements found
+        if not structural_elements.size:  # no structural elements found
             return None
 
         size = self.entropy_models_data[cluster_id].shape[1] if self.entropy_models_data[cluster_id].size > 0 else 0
diff --git a/decoders/entropy_bitwise_decoder.py b/decoders/entropy_bitwise_decoder.py
index 82b0540..d846b0b 100644
--- a/decoders/entropy_bitwise_decoder.py
+++ b/decoders/entropy_bitwise_decoder.py
@@ -456,7 +456,7 @@ class EntropyBitwiseWeightedDecoder(Decoder):
         a_structural_elements: NDArray[np.int_] = self.model_bits_idx[self.a_entropy < self.entropy_threshold]
         b_structural_elements: NDArray[np.int_] = self.model_bits_idx[self.b_entropy < self.entropy_threshold]
 
-        if (not a_structural_elements.any()) and (not b_structural_elements.any()):  # no structural elements found
+        if (not a_structural_elements.size) and (not b_structural_elements.size):  # no structural elements found
             return llr
 
         if self.estimator == "Bayes":
-- 
2.43.0


From cc86adf35da625f1539bca350fb30c6950f36120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:51 +0000
Subject: [PATCH 09/28] fix: confidence scheme 2 of the weighted decoder is
 reachable

Its branch tested for scheme 1 a second time, so scheme 2 silently fell back to
separate confidence measures.
---
 decoders/entropy_bitwise_decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoders/entropy_bitwise_decoder.py b/decoders/entropy_bitwise_decoder.py
index d846b0b..53b00a3 100644
--- a/decoders/entropy_bitwise_decoder.py
+++ b/decoders/entropy_bitwise_decoder.py
@@ -477,7 +477,7 @@ class EntropyBitwiseWeightedDecoder(Decoder):
             if s > 0:
                 a_confidence *= a_confidence / s
                 b_confidence *= b_confidence / s
-        elif self.confidence_scheme == 1:  # normalize sum but prefer "good" model
+        elif self.confidence_scheme == 2:  # normalize sum but prefer "good" model
             s = 2 * a_confidence + b_confidence
             if s > 0:
                 a_confidence *= 2 * a_confidence / s
-- 
2.43.0


From c714062159d2c4df32e59941a59405bb4ec16202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:27 +0000
Subject: [PATCH 10/28] fix: a predefined model may be shorter than the
 modelled part of the buffer

The constructor accepts such a model, but the entropy mask and the indices it
was applied to had different lengths, so every prediction failed.
---
 decoders/entropy_bitwise_decoder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoders/entropy_bitwise_decoder.py b/decoders/entropy_bitwise_decoder.py
index 53b00a3..8647930 100644
--- a/decoders/entropy_bitwise_decoder.py
+++ b/decoders/entropy_bitwise_decoder.py
@@ -108,7 +108,7 @@ class EntropyBitwiseDecoder(Decoder):
         """
         # infer structure
         # index of structural (low entropy) elements among codeword
-        self.structural_elements = self.model_bits_idx[self.entropy < self.entropy_threshold]
+        self.structural_elements = self.model_bits_idx[:self.entropy.size][self.entropy < self.entropy_threshold]
         # model llr is calculated as log(Pr(c=0 | model) / Pr(c=1| model))
         llr = observation.copy()
         if self.predefined_model or (self.model_data.size > 0 and self.model_data.shape[1] >= self.min_data):
@@ -220,7 +220,7 @@ class EntropyBitwiseFlippingDecoder(Decoder):
             return observation
         # infer structure
         # index of structural (low entropy) elements among codeword
-        self.structural_elements = self.model_bits_idx[self.entropy < self.entropy_threshold]
+        self.structural_elements = self.model_bits_idx[:self.entropy.size][self.entropy < self.entropy_threshold]
         # round the probability of Pr(c=1)
         self.structural_values = np.array(self.distribution[:, 1] > 0.5, dtype=np.int_)[self.structural_elements]
         prediction = np.array(observation, dtype=np.int_)
-- 
2.43.0


From 971672a0ccfd50351c9314babb46983d6216a510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:21 +0000
Subject: [PATCH 11/28] fix: hard bits of a cluster are its majority bits

---
 inference/clustering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inference/clustering.py b/inference/clustering.py
index a0ab016..43b3bcc 100644
--- a/inference/clustering.py
+++ b/inference/clustering.py
@@ -15,7 +15,7 @@ class Cluster:
 
     @property
     def hard_bits(self) -> NDArray[np.int_]:
-        return np.array(self._data[:, 1] > self.dist[:, 0], dtype=np.int_)
+        return np.array(self._data[:, 1] > self._data[:, 0], dtype=np.int_)
 
     @property
     def dist(self) -> NDArray[np.float_]:
-- 
2.43.0


From 4bda10e284d28d726bfa314d6b855b64bedfad9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:07 +0000
Subject: [PATCH 12/28] fix: online denoiser with an empty context keeps it
 empty

---
 inference/dude.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inference/dude.py b/inference/dude.py
index 34e77f6..71fafb6 100644
--- a/inference/dude.py
+++ b/inference/dude.py
@@ -46,7 +46,7 @@ class OnlineDude:
         self.contexts[self._last_context][observation] += 1
         empirical_p = self.contexts[self._last_context][np.newaxis]
         # update the context
-        self._last_context = self._last_context[1:] + (observation,)
+        self._last_context = (self._last_context + (observation,))[1:]
         # estimate the state
         if self.hard_decision:
             posterior_p = np.matmul(empirical_p, self.inverse_channel_transition_matrix) * self.channel_transition_matrix[
-- 
2.43.0


From 63b41bd32545bbcc0ee4d2f879aaa544bb8cdc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:14 +0000
Subject: [PATCH 13/28] fix: bit error rate of unsigned and boolean bit arrays

---
 utils/performance_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/performance_analysis.py b/utils/performance_analysis.py
index 7450841..362a430 100644
--- a/utils/performance_analysis.py
+++ b/utils/performance_analysis.py
@@ -39,7 +39,7 @@ def ber(ground_truth: np.ndarray, predicted: np.ndarray):
     :param predicted: array of bits
     :return: BER
     """
-    return np.sum(np.abs(ground_truth - predicted)) / len(ground_truth)
+    return np.sum(ground_truth != predicted) / len(ground_truth)
 
 
 __all__ = ['stats', 'ber']
-- 
2.43.0


From d2fdb9be0352e741e832161770acdfe79aa74a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:14 +0000
Subject: [PATCH 14/28] fix: precision of a class that neither occurs nor is
 predicted is 1

---
 utils/performance_analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/performance_analysis.py b/utils/performance_analysis.py
index 362a430..b359e94 100644
--- a/utils/performance_analysis.py
+++ b/utils/performance_analysis.py
@@ -14,7 +14,7 @@ def stats(actual_labels=None, predicted_labels=None, cm=None):
         _precision = np.zeros(n_classes)
         for label in range(n_classes):
             if np.sum(cm[:, label]) == 0:  # no predictions for this class
-                _precision[label] = 1 if no_true_positives[label] is True else 0
+                _precision[label] = 1 if no_true_positives[label] else 0
                 # if there are no true positives, then precision is 1, else 0
             else:  # there are predictions for this class
                 _precision[label] = cm[label, label] / np.sum(cm[:, label])
@@ -27,7 +27,7 @@ def stats(actual_labels=None, predicted_labels=None, cm=None):
             if denominator[label] > 0:  # if there are some correct predictions for this class
                 _f1[label] = 2 * (_precision[label] * _recall[label]) / denominator[label]
             else:  # if there are no correct predictions for this class
-                _f1[label] = 1 if no_true_positives[label] is True else 0  # if there are no true positives, then 1, else 0
+                _f1[label] = 1 if no_true_positives[label] else 0  # if there are no true positives, then 1, else 0
     _accuracy = np.sum(np.diag(cm)) / np.sum(cm)
     return cm, _recall, _precision, _f1, _accuracy
 
-- 
2.43.0


From b58c4b42f22943d544a07eb25b5340116c1a02c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:14 +0000
Subject: [PATCH 15/28] fix: Markov samples depend on the samples that precede
 them

---
 utils/random_sources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/random_sources.py b/utils/random_sources.py
index 2792bb1..fc00fbe 100644
--- a/utils/random_sources.py
+++ b/utils/random_sources.py
@@ -16,7 +16,7 @@ def generate_markov_samples(transition_matrix, initial_state, num_samples):
 
     # Generate samples
     for i in range(order, num_samples):
-        current_states = states[-order:]
+        current_states = states[i - order:i]
         probabilities = transition_matrix[tuple(current_states)]
         states[i] = np.random.choice(range(num_states), p=probabilities)
     return states
-- 
2.43.0


From d08e1de5946a8a174f5e7349f6bf6c342f613d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:37 +0000
Subject: [PATCH 16/28] fix: MAVLink decoders pack information bits into bytes
 before segmentation

---
 decoders/combined_decoder.py         | 6 +++---
 decoders/combined_unified_decoder.py | 6 +++---
 decoders/mavlink_decoder.py          | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/decoders/combined_decoder.py b/decoders/combined_decoder.py
index 6ec0bda..d6c298a 100644
--- a/decoders/combined_decoder.py
+++ b/decoders/combined_decoder.py
@@ -185,14 +185,14 @@ class CombinedDecoder(Decoder):
 
         # try to run buffer segmentation on the modified llr and on the original llr. If segmentation is able to locate
         # a mavlink message, these bits are good and should be forced.
-        info_bytes = self.ldpc_decoder.info_bits(np.array(observation < 0, dtype=np.int_)).tobytes()
+        info_bytes = np.packbits(self.ldpc_decoder.info_bits(np.array(observation < 0, dtype=np.int_))).tobytes()
         parts, valid_info_bits, structure = self.bs.segment_buffer(info_bytes)
         if structure:
             modified_llr[np.where(valid_info_bits == 1)[0]] = observation[np.where(valid_info_bits == 1)[0]] * 2 * valid_factor
             print("found segmentation")
             # multiply by 2 for confidence
         else:
-            info_bytes = self.ldpc_decoder.info_bits(np.array(modified_llr < 0, dtype=np.int_)).tobytes()
+            info_bytes = np.packbits(self.ldpc_decoder.info_bits(np.array(modified_llr < 0, dtype=np.int_))).tobytes()
             parts, valid_info_bits, structure = self.bs.segment_buffer(info_bytes)
             if structure:
                 modified_llr[np.where(valid_info_bits == 1)[0]] *= 2
@@ -288,7 +288,7 @@ class CombinedDecoder(Decoder):
             if self.mavlink_learning:
                 if decode_success:  # buffer fully recovered
                     if self.buffer_structures[label] is None:
-                        info_bytes = self.ldpc_decoder.info_bits(estimate).tobytes()
+                        info_bytes = np.packbits(self.ldpc_decoder.info_bits(estimate)).tobytes()
                         parts, validity, structure = self.bs.segment_buffer(info_bytes)
                         self.buffer_structures[label] = structure
                     self.model.add_buffer(estimate, self.buffer_structures[label])
diff --git a/decoders/combined_unified_decoder.py b/decoders/combined_unified_decoder.py
index 42eb124..ba480b7 100644
--- a/decoders/combined_unified_decoder.py
+++ b/decoders/combined_unified_decoder.py
@@ -215,14 +215,14 @@ class CombinedUnifiedDecoder(Decoder):
 
         # try to run buffer segmentation on the modified llr and on the original llr. If segmentation is able to locate
         # a mavlink message, these bits are good and should be forced.
-        info_bytes = self.ldpc_decoder.info_bits(np.array(observation < 0, dtype=np.int_)).tobytes()
+        info_bytes = np.packbits(self.ldpc_decoder.info_bits(np.array(observation < 0, dtype=np.int_))).tobytes()
         parts, valid_info_bits, structure = self.bs.segment_buffer(info_bytes)
         if structure:
             modified_llr[np.where(valid_info_bits == 1)[0]] = observation[np.where(valid_info_bits == 1)[0]] * 2 * valid_factor
             print("found segmentation")
             # multiply by 2 for confidence
         else:
-            info_bytes = self.ldpc_decoder.info_bits(np.array(modified_llr < 0, dtype=np.int_)).tobytes()
+            info_bytes = np.packbits(self.ldpc_decoder.info_bits(np.array(modified_llr < 0, dtype=np.int_))).tobytes()
             parts, valid_info_bits, structure = self.bs.segment_buffer(info_bytes)
             if structure:
                 modified_llr[np.where(valid_info_bits == 1)[0]] *= 2
@@ -318,7 +318,7 @@ class CombinedUnifiedDecoder(Decoder):
             if self.mavlink_learning:
                 if decode_success:  # buffer fully recovered
                     if self.buffer_structures[label] is None:
-                        info_bytes = self.ldpc_decoder.info_bits(estimate).tobytes()
+                        info_bytes = np.packbits(self.ldpc_decoder.info_bits(estimate)).tobytes()
                         parts, validity, structure = self.bs.segment_buffer(info_bytes)
                         self.buffer_structures[label] = structure
                     self.model.add_buffer(estimate, self.buffer_structures[label])
diff --git a/decoders/mavlink_decoder.py b/decoders/mavlink_decoder.py
index 56aef63..3f120a6 100644
--- a/decoders/mavlink_decoder.py
+++ b/decoders/mavlink_decoder.py
@@ -140,7 +140,7 @@ class MavlinkRectifyingDecoder(Decoder):
         if self.learning:
             if decode_success:  # buffer fully recovered
                 if self.buffer_structures[label] is None:
-                    info_bytes = self.ldpc_decoder.info_bits(estimate).tobytes()
+                    info_bytes = np.packbits(self.ldpc_decoder.info_bits(estimate)).tobytes()
                     parts, validity, structure = self.bs.segment_buffer(info_bytes)
                     self.buffer_structures[label] = structure
                 self.model.add_buffer(estimate, self.buffer_structures[label])
@@ -212,14 +212,14 @@ class MavlinkRectifyingDecoder(Decoder):
 
         # try to run buffer segmentation on the modified llr and on the original llr. If segmentation is able to locate
         # a mavlink message, these bits are good and should be forced.
-        info_bytes = self.ldpc_decoder.info_bits(np.array(observation < 0, dtype=np.int_)).tobytes()
+        info_bytes = np.packbits(self.ldpc_decoder.info_bits(np.array(observation < 0, dtype=np.int_))).tobytes()
         parts, valid_info_bits, structure = self.bs.segment_buffer(info_bytes)
         if structure:
             modified_llr[np.where(valid_info_bits == 1)[0]] = observation[np.where(valid_info_bits == 1)[0]] * 2 * valid_factor
             print("found segmentation")
             # multiply by 2 for confidence
         else:
-            info_bytes = self.ldpc_decoder.info_bits(np.array(modified_llr < 0, dtype=np.int_)).tobytes()
+            info_bytes = np.packbits(self.ldpc_decoder.info_bits(np.array(modified_llr < 0, dtype=np.int_))).tobytes()
             parts, valid_info_bits, structure = self.bs.segment_buffer(info_bytes)
             if structure:
                 modified_llr[np.where(valid_info_bits == 1)[0]] *= 2
-- 
2.43.0


From 4ef869d39b18b63d45551fd8771a897641035827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:38 +0000
Subject: [PATCH 17/28] fix: fields without a model are neither good nor bad

---
 decoders/combined_decoder.py         | 4 ++--
 decoders/combined_unified_decoder.py | 4 ++--
 decoders/mavlink_decoder.py          | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/decoders/combined_decoder.py b/decoders/combined_decoder.py
index d6c298a..268188b 100644
--- a/decoders/combined_decoder.py
+++ b/decoders/combined_decoder.py
@@ -148,8 +148,8 @@ class CombinedDecoder(Decoder):
                                                                       self.buffer_structures[cluster_id])
         good_bits: NDArray[np.bool_] = valid_bits_p > 1 - self.valid_threshold
         bad_bits: NDArray[np.bool_] = valid_bits_p < self.invalid_thr
-        good_fields_idx: list[int] = [idx for idx, vfp in enumerate(valid_field_p) if vfp[1] > 1 - self.valid_threshold]
-        bad_fields_idx: list[int] = [idx for idx, vfp in enumerate(valid_field_p) if vfp[1] < self.invalid_thr]
+        good_fields_idx: list[int] = [idx for idx, vfp in enumerate(valid_field_p) if vfp and vfp[1] > 1 - self.valid_threshold]
+        bad_fields_idx: list[int] = [idx for idx, vfp in enumerate(valid_field_p) if vfp and vfp[1] < self.invalid_thr]
 
         if self.mavlink_learning:  # if model is being learned, need to add a confidence factor to the rectification
             def model_confidence(model_size: int, center: float, slope: float) -> np.float_:
diff --git a/decoders/combined_unified_decoder.py b/decoders/combined_unified_decoder.py
index ba480b7..2034e9c 100644
--- a/decoders/combined_unified_decoder.py
+++ b/decoders/combined_unified_decoder.py
@@ -158,8 +158,8 @@ class CombinedUnifiedDecoder(Decoder):
                                                                       self.buffer_structures[cluster_id])
         good_bits: NDArray[np.bool_] = valid_bits_p > 1 - self.valid_threshold
         bad_bits: NDArray[np.bool_] = valid_bits_p < self.invalid_thr
-        good_fields_idx: list[int] = [idx for idx, vfp in enumerate(valid_field_p) if vfp[1] > 1 - self.valid_threshold]
-        bad_fields_idx: list[int] = [idx for idx, vfp in enumerate(valid_field_p) if vfp[1] < self.invalid_thr]
+        good_fields_idx: list[int] = [idx for idx, vfp in enumerate(valid_field_p) if vfp and vfp[1] > 1 - self.valid_threshold]
+        bad_fields_idx: list[int] = [idx for idx, vfp in enumerate(valid_field_p) if vfp and vfp[1] < self.invalid_thr]
 
         if self.mavlink_learning:  # if model is being learned, need to add a confidence factor to the rectification
             def model_confidence(model_size: int, center: float, slope: float) -> np.float_:
diff --git a/decoders/mavlink_decoder.py b/decoders/mavlink_decoder.py
index 3f120a6..582f33c 100644
--- a/decoders/mavlink_decoder.py
+++ b/decoders/mavlink_decoder.py
@@ -175,8 +175,8 @@ class MavlinkRectifyingDecoder(Decoder):
                                                                       self.buffer_structures[cluster_id])
         good_bits: NDArray[np.bool_] = valid_bits_p > 1 - self.valid_threshold
         bad_bits: NDArray[np.bool_] = valid_bits_p < self.invalid_thr
-        good_fields_idx: list[int] = [idx for idx, vfp in enumerate(valid_field_p) if vfp[1] > 1 - self.valid_threshold]
-        bad_fields_idx: list[int] = [idx for idx, vfp in enumerate(valid_field_p) if vfp[1] < self.invalid_thr]
+        good_fields_idx: list[int] = [idx for idx, vfp in enumerate(valid_field_p) if vfp and vfp[1] > 1 - self.valid_threshold]
+        bad_fields_idx: list[int] = [idx for idx, vfp in enumerate(valid_field_p) if vfp and vfp[1] < self.invalid_thr]
 
         if self.learning:  # if model is being learned, need to add a confidence factor to the rectification
             def model_confidence(model_size: int, center: float, slope: float) -> np.float_:
-- 
2.43.0


From edd7752998b286cc0fe61005ac5d59cb69d68fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:38 +0000
Subject: [PATCH 18/28] fix: MAVLink decoder learns nothing while the
 classifier is being trained

---
 decoders/mavlink_decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoders/mavlink_decoder.py b/decoders/mavlink_decoder.py
index 582f33c..f5cd2b9 100644
--- a/decoders/mavlink_decoder.py
+++ b/decoders/mavlink_decoder.py
@@ -137,7 +137,7 @@ class MavlinkRectifyingDecoder(Decoder):
     def decode_and_update_model(self, llr, label, channel_bits) -> tuple[
         NDArray[np.int_], NDArray[np.float_], bool, int, NDArray[np.int_], NDArray[np.int_], int]:
         estimate, llr, decode_success, iterations, syndrome, vnode_validity = self.ldpc_decoder.decode(llr)
-        if self.learning:
+        if self.learning and label >= 0:
             if decode_success:  # buffer fully recovered
                 if self.buffer_structures[label] is None:
                     info_bytes = np.packbits(self.ldpc_decoder.info_bits(estimate)).tobytes()
-- 
2.43.0


From 12d3a9ed7f2086534deb93decace9b6b57d3e718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:38 +0000
Subject: [PATCH 19/28] fix: combined decoder learns the model bits of the
 codeword

---
 decoders/combined_decoder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoders/combined_decoder.py b/decoders/combined_decoder.py
index 268188b..9c796f0 100644
--- a/decoders/combined_decoder.py
+++ b/decoders/combined_decoder.py
@@ -295,7 +295,7 @@ class CombinedDecoder(Decoder):
                 elif self.buffer_structures[label] is not None:  # update model from channel if data is bad
                     self.model.add_buffer(channel_bits, self.buffer_structures[label])
             if decode_success:  # buffer fully recovered
-                self.update_entropy_model(estimate, label)
+                self.update_entropy_model(estimate[:self.model_length], label)
             else:  # update model from channel if data is bad
-                self.update_entropy_model(channel_bits, label)
+                self.update_entropy_model(channel_bits[:self.model_length], label)
         return estimate, llr, decode_success, iterations, label
-- 
2.43.0


From 98c869c115248943a55f4095d276756d1d21a4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:16 +0000
Subject: [PATCH 20/28] fix: mean bits of a buffer with a field that has no
 model

---
 inference/statistical_models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/inference/statistical_models.py b/inference/statistical_models.py
index d9fad8c..7578656 100644
--- a/inference/statistical_models.py
+++ b/inference/statistical_models.py
@@ -373,7 +373,8 @@ class BufferModel:
         mean_values = np.zeros(buffer_len*8, dtype=np.uint8)
         for field_idx, field_name, field_type in zip(range(len(ordered_field_names)),
                                                      ordered_field_names, ordered_field_types):
-            mean_values[bit_2_val_idx == field_idx] = num2bits(self._field_models[field_name].mean, field_type)
+            if field_name in self._field_models:  # fields without a model have no mean
+                mean_values[bit_2_val_idx == field_idx] = num2bits(self._field_models[field_name].mean, field_type)
         return mean_values[bits_idx]
 
 
-- 
2.43.0


From ed62c2648e5994a261581c188c4c141fc93a1793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:19 +0000
Subject: [PATCH 21/28] fix: a field with several bit errors is one damaged
 field

---
 decoders/combined_decoder.py         | 4 ++--
 decoders/combined_unified_decoder.py | 4 ++--
 decoders/mavlink_decoder.py          | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/decoders/combined_decoder.py b/decoders/combined_decoder.py
index 9c796f0..aaef19b 100644
--- a/decoders/combined_decoder.py
+++ b/decoders/combined_decoder.py
@@ -210,9 +210,9 @@ class CombinedDecoder(Decoder):
         if not damaged:
             return {}
         damaged_fields = np.array(tuple({field[1] for field in damaged}))
-        bad_fields_performance = confusion(bad_fields_idx, damaged_fields, n_fields_in_buffer - len(damaged))
+        bad_fields_performance = confusion(bad_fields_idx, damaged_fields, n_fields_in_buffer - len(damaged_fields))
         actual_good_fields = np.setdiff1d(np.arange(n_fields_in_buffer), damaged_fields)
-        good_fields_performance = confusion(good_fields_idx, actual_good_fields, len(damaged))
+        good_fields_performance = confusion(good_fields_idx, actual_good_fields, len(damaged_fields))
         return {"n_fields_in_buffer": n_fields_in_buffer, "n_damaged_fields_in_buffer": len(damaged_fields),
                 "good_fields_performance": good_fields_performance, "bad_fields_performance": bad_fields_performance}
 
diff --git a/decoders/combined_unified_decoder.py b/decoders/combined_unified_decoder.py
index 2034e9c..d0428b6 100644
--- a/decoders/combined_unified_decoder.py
+++ b/decoders/combined_unified_decoder.py
@@ -240,9 +240,9 @@ class CombinedUnifiedDecoder(Decoder):
         if not damaged:
             return {}
         damaged_fields = np.array(tuple({field[1] for field in damaged}))
-        bad_fields_performance = confusion(bad_fields_idx, damaged_fields, n_fields_in_buffer - len(damaged))
+        bad_fields_performance = confusion(bad_fields_idx, damaged_fields, n_fields_in_buffer - len(damaged_fields))
         actual_good_fields = np.setdiff1d(np.arange(n_fields_in_buffer), damaged_fields)
-        good_fields_performance = confusion(good_fields_idx, actual_good_fields, len(damaged))
+        good_fields_performance = confusion(good_fields_idx, actual_good_fields, len(damaged_fields))
         return {"n_fields_in_buffer": n_fields_in_buffer, "n_damaged_fields_in_buffer": len(damaged_fields),
                 "good_fields_performance": good_fields_performance, "bad_fields_performance": bad_fields_performance}
 
diff --git a/decoders/mavlink_decoder.py b/decoders/mavlink_decoder.py
index f5cd2b9..c4e976f 100644
--- a/decoders/mavlink_decoder.py
+++ b/decoders/mavlink_decoder.py
@@ -237,9 +237,9 @@ class MavlinkRectifyingDecoder(Decoder):
         if not damaged:
             return {}
         damaged_fields = np.array(tuple({field[1] for field in damaged}))
-        bad_fields_performance = confusion(bad_fields_idx, damaged_fields, n_fields_in_buffer - len(damaged))
+        bad_fields_performance = confusion(bad_fields_idx, damaged_fields, n_fields_in_buffer - len(damaged_fields))
         actual_good_fields = np.setdiff1d(np.arange(n_fields_in_buffer), damaged_fields)
-        good_fields_performance = confusion(good_fields_idx, actual_good_fields, len(damaged))
+        good_fields_performance = confusion(good_fields_idx, actual_good_fields, len(damaged_fields))
         return {"n_fields_in_buffer": n_fields_in_buffer, "n_damaged_fields_in_buffer": len(damaged_fields),
                 "good_fields_performance": good_fields_performance, "bad_fields_performance": bad_fields_performance}
 
-- 
2.43.0


From 6ed26cb0cb3fe7c1641e4badc4e0e779bc640d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:19 +0000
Subject: [PATCH 22/28] fix: debug analysis of forced bits before a buffer
 structure is known

---
 decoders/combined_decoder.py         | 4 +++-
 decoders/combined_unified_decoder.py | 4 +++-
 decoders/mavlink_decoder.py          | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/decoders/combined_decoder.py b/decoders/combined_decoder.py
index aaef19b..0a768cf 100644
--- a/decoders/combined_decoder.py
+++ b/decoders/combined_decoder.py
@@ -142,7 +142,7 @@ class CombinedDecoder(Decoder):
         :return: rectified observation, good bits, bad bits, good fields, bad fields, segmented bits
         """
         if self.buffer_structures[cluster_id] is None:
-            return observation, np.array([]), np.array([]), [], [], 0, np.array([]), np.array([])
+            return observation, np.array([]), np.array([]), [], [], 0, np.array([], dtype=np.int_), np.array([])
         # non mavlink bits are nan
         valid_field_p, valid_bits_p, bitwise_std = self.model.predict(np.array(observation < 0, dtype=np.int_),
                                                                       self.buffer_structures[cluster_id])
@@ -222,6 +222,8 @@ class CombinedDecoder(Decoder):
         # if not damaged:
         #     return {}
         # damaged_fields = np.array(tuple({field[1] for field in damaged}))
+        if self.buffer_structures[label] is None:
+            return {}
         buffer_len_bits = len(rx)
         bits_confusion_matrix = confusion(forced_bits, error_idx, buffer_len_bits - len(error_idx))
         # forced_fields = np.array([idx for idx, vfp in enumerate(valid_field_p) if (vfp[1] <= 0 and vfp[2] == 0)],
diff --git a/decoders/combined_unified_decoder.py b/decoders/combined_unified_decoder.py
index d0428b6..f4dafd5 100644
--- a/decoders/combined_unified_decoder.py
+++ b/decoders/combined_unified_decoder.py
@@ -152,7 +152,7 @@ class CombinedUnifiedDecoder(Decoder):
         :return: rectified observation, good bits, bad bits, good fields, bad fields, segmented bits
         """
         if self.buffer_structures[cluster_id] is None:
-            return observation, np.array([]), np.array([]), [], [], 0, np.array([]), np.array([])
+            return observation, np.array([]), np.array([]), [], [], 0, np.array([], dtype=np.int_), np.array([])
         # non mavlink bits are nan
         valid_field_p, valid_bits_p, bitwise_std = self.model.predict(np.array(observation < 0, dtype=np.int_),
                                                                       self.buffer_structures[cluster_id])
@@ -252,6 +252,8 @@ class CombinedUnifiedDecoder(Decoder):
         # if not damaged:
         #     return {}
         # damaged_fields = np.array(tuple({field[1] for field in damaged}))
+        if self.buffer_structures[label] is None:
+            return {}
         buffer_len_bits = len(rx)
         bits_confusion_matrix = confusion(forced_bits, error_idx, buffer_len_bits - len(error_idx))
         # forced_fields = np.array([idx for idx, vfp in enumerate(valid_field_p) if (vfp[1] <= 0 and vfp[2] == 0)],
diff --git a/decoders/mavlink_decoder.py b/decoders/mavlink_decoder.py
index c4e976f..11f7384 100644
--- a/decoders/mavlink_decoder.py
+++ b/decoders/mavlink_decoder.py
@@ -169,7 +169,7 @@ class MavlinkRectifyingDecoder(Decoder):
         :return: rectified observation, good bits, bad bits, good fields, bad fields, segmented bits
         """
         if self.buffer_structures[cluster_id] is None:
-            return observation, np.array([]), np.array([]), [], [], 0, np.array([]), np.array([])
+            return observation, np.array([]), np.array([]), [], [], 0, np.array([], dtype=np.int_), np.array([])
         # non mavlink bits are nan
         valid_field_p, valid_bits_p, bitwise_std = self.model.predict(np.array(observation < 0, dtype=np.int_),
                                                                       self.buffer_structures[cluster_id])
@@ -249,6 +249,8 @@ class MavlinkRectifyingDecoder(Decoder):
         # if not damaged:
         #     return {}
         # damaged_fields = np.array(tuple({field[1] for field in damaged}))
+        if self.buffer_structures[label] is None:
+            return {}
         buffer_len_bits = len(rx)
         bits_confusion_matrix = confusion(forced_bits, error_idx, buffer_len_bits - len(error_idx))
         # forced_fields = np.array([idx for idx, vfp in enumerate(valid_field_p) if (vfp[1] <= 0 and vfp[2] == 0)],
-- 
2.43.0


From f1e27cd5670615b0ecdaa53e5d8af23b9528ff7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:19 +0000
Subject: [PATCH 23/28] fix: a buffer is classified once, not in every
 segmentation iteration

---
 decoders/mavlink_decoder.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/decoders/mavlink_decoder.py b/decoders/mavlink_decoder.py
index 11f7384..28748d2 100644
--- a/decoders/mavlink_decoder.py
+++ b/decoders/mavlink_decoder.py
@@ -97,18 +97,18 @@ class MavlinkRectifyingDecoder(Decoder):
         channel_bits: NDArray[np.int_] = np.array(channel_llr < 0, dtype=np.int_)
         decoder_input = channel_llr.copy()
         all_iteration = 0
-        for _ in range(self.segmentation_iterations):
-            if self.n_clusters > 1:
-                if self.cluster:
-                    label: int = self.classifier.classify(channel_bits[self.model_bits_idx])
-                    if label < 0:  # label is negative during training phase of classifier, don't try to use model to rectify
-                        return self.decode_and_update_model(channel_llr, label, channel_bits) + (np.array([]), [], [], {}, {})
-                else:
-                    self.running_idx = (self.running_idx + 1) % self.n_clusters
-                    label = self.running_idx
-            else:  # no clustering, single buffer type
-                label = 0
+        if self.n_clusters > 1:
+            if self.cluster:
+                label: int = self.classifier.classify(channel_bits[self.model_bits_idx])
+                if label < 0:  # label is negative during training phase of classifier, don't try to use model to rectify
+                    return self.decode_and_update_model(channel_llr, label, channel_bits) + (np.array([]), [], [], {}, {})
+            else:
+                self.running_idx = (self.running_idx + 1) % self.n_clusters
+                label = self.running_idx
+        else:  # no clustering, single buffer type
+            label = 0
 
+        for _ in range(self.segmentation_iterations):
             segmented_bits: NDArray[np.bool_]
             good_fields_idx: list[int]
             bad_fields_idx: list[int]
-- 
2.43.0


From e682c5f887b6b24fd649638b86025d067234e3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:40 +0000
Subject: [PATCH 24/28] fix: no field classification report for the buffer that
 reveals the structure

---
 decoders/mavlink_decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoders/mavlink_decoder.py b/decoders/mavlink_decoder.py
index 28748d2..c37d845 100644
--- a/decoders/mavlink_decoder.py
+++ b/decoders/mavlink_decoder.py
@@ -231,7 +231,7 @@ class MavlinkRectifyingDecoder(Decoder):
 
     def classifier_analysis(self, good_fields_idx, bad_fields_idx, error_idx, n_fields_in_buffer, label=0) -> dict[str, Any]:
 
-        if self.buffer_structures[label] is None:
+        if self.buffer_structures[label] is None or n_fields_in_buffer == 0:  # no fields were classified in this buffer
             return {}
         damaged = self.model.find_damaged_fields(error_idx, self.buffer_structures[label], self.ldpc_decoder.n // 8)
         if not damaged:
-- 
2.43.0


From 4e569fd011e66162ab6a1086b4c420a5dda0132c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:40 +0000
Subject: [PATCH 25/28] fix: DUDE decoder does not change the channel values of
 the caller

---
 decoders/classifying_DUDE_decoder.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/decoders/classifying_DUDE_decoder.py b/decoders/classifying_DUDE_decoder.py
index eb321e1..6cf12d0 100644
--- a/decoders/classifying_DUDE_decoder.py
+++ b/decoders/classifying_DUDE_decoder.py
@@ -98,6 +98,7 @@ class ClassifyingDudeDecoder(Decoder):
         #         self.model_bits_idx[self.models_entropy[label] < self.entropy_threshold], label
         clipping = self.clipping_factor * max(np.abs(channel_llr))  # llr s clipped within +-clipping
         model_llr = self.model_prediction(channel_bits, label)  # type: ignore
+        channel_llr = channel_llr.copy()
         channel_llr[self.model_bits_idx] += model_llr
         channel_llr = np.clip(channel_llr, -clipping, clipping)
         denoised_bits = np.array(channel_llr < 0, dtype=np.int_)
-- 
2.43.0


From c3cf3210247f5a20a77af0b2dd30aaaeaa93659b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:49 +0000
Subject: [PATCH 26/28] fix: bits are forced by the model of the buffer's own
 cluster

---
 decoders/classifiying_decoder.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/decoders/classifiying_decoder.py b/decoders/classifiying_decoder.py
index 28259ae..3ff4286 100644
--- a/decoders/classifiying_decoder.py
+++ b/decoders/classifiying_decoder.py
@@ -113,12 +113,12 @@ class ClassifyingEntropyDecoder(Decoder):
         elif isinstance(self.ldpc_decoder, WbfDecoder):  # wbf decoder
             # Use WBF only with AWGN since it assumes a specific relationship between priors and LLR
             # The more positive the reliability is, the less reliable the value is
-            samples, priors = self._sample_and_priors(channel_llr, model_llr)
+            samples, priors = self._sample_and_priors(channel_llr, model_llr, label)
             estimate, decode_success, iterations, syndrome, vnode_validity = self.ldpc_decoder.decode(samples,
                                                                                                       priors)
             llr = np.array([])
         elif isinstance(self.ldpc_decoder, GalBfDecoder):
-            samples, _ = self._sample_and_priors(channel_llr, model_llr)
+            samples, _ = self._sample_and_priors(channel_llr, model_llr, label)
             if samples.dtype != np.int_:  # convert to hard bits
                 hard_channel_bits = np.array(samples < 0, dtype=np.int_)
             else:
@@ -192,7 +192,7 @@ class ClassifyingEntropyDecoder(Decoder):
 
         return llr
 
-    def _sample_and_priors(self, channel_sample: NDArray[np.float_], model_llr: NDArray[np.float_]):
+    def _sample_and_priors(self, channel_sample: NDArray[np.float_], model_llr: NDArray[np.float_], cluster_id: int = 0):
         """The method returns a modified channel sample and priors depending on the method used and inputs"""
         max_sample = max(np.abs(channel_sample))
         samples = channel_sample
@@ -224,10 +224,10 @@ class ClassifyingEntropyDecoder(Decoder):
             if self.reliability_method == 3:  # Used for forcing th bits in the GalBfDecoder
                 model_bits = np.array(model_llr < 0, dtype=np.int_)
                 samples = np.array(channel_sample < 0, dtype=np.int_)
-                size = self.models_data[0].shape[1] if self.models_data[0].size > 0 else 0
+                size = self.models_data[cluster_id].shape[1] if self.models_data[cluster_id].size > 0 else 0
                 if size>= self.window_length:
                     structural_elements: NDArray[np.int_] = self.model_bits_idx[
-                        self.models_entropy[0] < self.entropy_threshold]
+                        self.models_entropy[cluster_id] < self.entropy_threshold]
                     if structural_elements.size:
                         samples[structural_elements] = model_bits[structural_elements]
         return samples, priors
-- 
2.43.0


From 4eb71d8de8b6d023aa7d035779676c8062acd59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:18 +0000
Subject: [PATCH 27/28] fix: clusters are relabelled one to one, no two get the
 same class

---
 runs/clsutering_analysis/functions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runs/clsutering_analysis/functions.py b/runs/clsutering_analysis/functions.py
index 26c4c76..1514b14 100644
--- a/runs/clsutering_analysis/functions.py
+++ b/runs/clsutering_analysis/functions.py
@@ -32,6 +32,7 @@ def relabel(predicted_labels, n_classes, real_labels=None):
     for _ in range(n_classes-1):
         true_label, predicted_label = np.unravel_index(reduced_prediction_counts.argmax(), reduced_prediction_counts.shape)
         labels_map[predicted_label] = true_label
+        reduced_prediction_counts[true_label, :] = -1
         reduced_prediction_counts[:, predicted_label] = -1
     tmp, remaining_predicted_label = np.unravel_index(reduced_prediction_counts.argmax(), reduced_prediction_counts.shape)
     remaining_true_label = np.setdiff1d(np.arange(n_classes), np.array(list(labels_map.values())))[0]
-- 
2.43.0


From 000eb4beb23450839d9b6ca5cd03aac6d492e31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:18 +0000
Subject: [PATCH 28/28] fix: a buffer that exactly fills a codeword can be
 encoded

---
 runs/HC_eilat_July_2018/ecncoding_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runs/HC_eilat_July_2018/ecncoding_data.py b/runs/HC_eilat_July_2018/ecncoding_data.py
index b7d5e15..7830f69 100644
--- a/runs/HC_eilat_July_2018/ecncoding_data.py
+++ b/runs/HC_eilat_July_2018/ecncoding_data.py
@@ -11,7 +11,7 @@ def encode_data(encoder: EncoderWiFi) -> list[Bits]:
     buffers = [Bits(auto=tx.get("bin")) for tx in hc_tx.get("50000")]
     encoded = []
     for binary_data in buffers:
-        if len(binary_data) <= encoder.k:
+        if len(binary_data) < encoder.k:
             pad_len = encoder.k - len(binary_data)
             padded = binary_data + Bits(uint=random.getrandbits(pad_len), length=pad_len)
             encoded.append(encoder.encode(padded))
-- 
2.43.0

