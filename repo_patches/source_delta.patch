From 8864112efbb9a6a8afd1f2b9e9beabc12c19e5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:07 +0000
Subject: [PATCH 01/48] fix: quantise and dequantise 32-bit types without int32
 overflow

---
 core/itcl_quantization/quantization/operators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/itcl_quantization/quantization/operators.py b/core/itcl_quantization/quantization/operators.py
index 7807f74..40eca16 100644
--- a/core/itcl_quantization/quantization/operators.py
+++ b/core/itcl_quantization/quantization/operators.py
@@ -149,7 +149,7 @@ class Quantization(Generic[T]):
         Returns:
             np.ndarray: Dequantized Numpy Array
         """
-        return (np.array(data, dtype=np.int32) - zero_point) * scale
+        return (np.array(data, dtype=np.int64) - zero_point) * scale
 
     def round(self, data: input_type, extra=0.5) -> np.ndarray:
         """Rounds a numpy array of float64 quantized values to their nearest int8 value
@@ -159,7 +159,7 @@ class Quantization(Generic[T]):
         """
         rounded_data = np.floor(np.array(data) + extra)
 
-        return rounded_data.clip(self.dtype.min(), self.dtype.max()).astype("int32")
+        return rounded_data.clip(self.dtype.min(), self.dtype.max()).astype("int64")
 
     def float_activation(
         self,
-- 
2.43.0


From fd3f17598edfc421f947b0a1676d55b8d52784e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:07 +0000
Subject: [PATCH 02/48] fix: do not truncate activation tables when the first
 output is an int

---
 core/itcl_quantization/quantization/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/itcl_quantization/quantization/operators.py b/core/itcl_quantization/quantization/operators.py
index 40eca16..930273c 100644
--- a/core/itcl_quantization/quantization/operators.py
+++ b/core/itcl_quantization/quantization/operators.py
@@ -172,7 +172,7 @@ class Quantization(Generic[T]):
         )
         float_input = self.dequantize(quantized_input, input_zp, input_s)
 
-        apply_fn = np.vectorize(activation_fn)
+        apply_fn = np.vectorize(activation_fn, otypes=[np.float64])
 
         return apply_fn(float_input)
 
-- 
2.43.0


From a3e21276916a15d87817fe28460eb90a647931c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:07 +0000
Subject: [PATCH 03/48] fix: asymmetric reduced LUT tail offsets

---
 core/itcl_quantization/quantization/lut.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/itcl_quantization/quantization/lut.py b/core/itcl_quantization/quantization/lut.py
index ab1e261..307bedb 100644
--- a/core/itcl_quantization/quantization/lut.py
+++ b/core/itcl_quantization/quantization/lut.py
@@ -41,6 +41,11 @@ class ReducedLUT:
         self.right_shift, self.right_tuples = self.__reduce_lut_from_left(
             lut[self.left_shift :] if self.asymmetric else lut, reverse=True
         )
+        if self.asymmetric:
+            # The tail offsets are relative to the head-pruned LUT
+            self.right_tuples = [
+                (offset + self.left_shift, value) for offset, value in self.right_tuples
+            ]
 
         # Reduce the original LUT
         r_shift_slice_idx = -self.right_shift if self.right_shift else None
-- 
2.43.0


From 62096c35bc2cd6e84a3a8833e4c378e5d2aeb602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:07 +0000
Subject: [PATCH 04/48] fix: iterate over a deserialized reduced LUT

---
 core/itcl_quantization/quantization/lut.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/itcl_quantization/quantization/lut.py b/core/itcl_quantization/quantization/lut.py
index 307bedb..ba569d2 100644
--- a/core/itcl_quantization/quantization/lut.py
+++ b/core/itcl_quantization/quantization/lut.py
@@ -81,7 +81,12 @@ class ReducedLUT:
 
     def __iter__(self):
         """Iterator for the LUT"""
-        for i in range(len(self.lut)):
+        # The last tail offset is where the pruned tail starts
+        length = self.left_shift
+        if len(self.right_tuples):
+            length = self.right_tuples[-1][0] + self.right_shift
+
+        for i in range(length):
             yield self[i]
 
     def __reduce_lut_from_left(
-- 
2.43.0


From 017298cd67167d1778ac5e76fda8d9737e026447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:21 +0000
Subject: [PATCH 05/48] fix: keep uint64 results of typed scalars exact

---
 .../quantization/operators.py                 | 20 +++++++++----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/core/itcl_quantization/quantization/operators.py b/core/itcl_quantization/quantization/operators.py
index 930273c..1a21475 100644
--- a/core/itcl_quantization/quantization/operators.py
+++ b/core/itcl_quantization/quantization/operators.py
@@ -253,7 +253,7 @@ class Dtype:
         next = Dtype.from_dtype(larger.__double_dtype())
         a = np.array(self.value).astype(next.dtype)
         b = np.array(other.value).astype(next.dtype)
-        res = np.clip(a + b, next.min(), next.max())
+        res = self.__saturate(a + b, next)
         dtype = larger.dtype
 
         # If overflow: Upgrade the dtype to the next higher dtype
@@ -267,11 +267,7 @@ class Dtype:
 
         a = np.array(self.value).astype(next.dtype)
         b = np.array(other.value).astype(next.dtype)
-        res = np.clip(
-            a - b,
-            next.min(),
-            next.max(),
-        )
+        res = self.__saturate(a - b, next)
 
         dtype = larger.dtype
 
@@ -280,6 +276,12 @@ class Dtype:
 
         return Dtype(res, dtype)
 
+    @staticmethod
+    def __saturate(value: np.ndarray, limits: "Dtype"):
+        # Typed limits: a python int limit would turn uint64 scalars into float64
+        low, high = np.array([limits.min(), limits.max()], dtype=limits.dtype)
+        return np.clip(value, low, high)
+
     @staticmethod
     def __has_overflow(value: Union[np.ndarray, number], larger: "Dtype"):
 
@@ -294,11 +296,7 @@ class Dtype:
 
         a = np.array(self.value).astype(next.dtype)
         b = np.array(other.value).astype(next.dtype)
-        res = np.clip(
-            a * b,
-            next.min(),
-            next.max(),
-        )
+        res = self.__saturate(a * b, next)
 
         dtype = larger.dtype
         if self.__has_overflow(res, self):
-- 
2.43.0


From ec852ff20f000a7543df3d9aa32367645c76df84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:21 +0000
Subject: [PATCH 06/48] fix: RELU removes the input zero point and saturates
 instead of wrapping

---
 inference_engine/itcl_inference_engine/layers/common/relu.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/inference_engine/itcl_inference_engine/layers/common/relu.py b/inference_engine/itcl_inference_engine/layers/common/relu.py
index e48da1e..2194cce 100644
--- a/inference_engine/itcl_inference_engine/layers/common/relu.py
+++ b/inference_engine/itcl_inference_engine/layers/common/relu.py
@@ -34,6 +34,7 @@ class RELU(ILayer):
 
         y = (input_.astype(np.int16)).clip(min=self.input_zp)
 
-        relu = (self.output_zp + self.k * (y - self.output_zp)).astype(np.int8)
+        relu = self.output_zp + self.k * (y - self.input_zp)
+        relu = relu.clip(-128, 127).astype(np.int8)
 
         return relu
-- 
2.43.0


From 7b7f1d46bb4c1efecaa0a6c05304b42b6ac7a7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:21 +0000
Subject: [PATCH 07/48] fix: ONNX softmax normalises each sample and does not
 overflow

---
 inference_engine/itcl_inference_engine/layers/onnx/softmax.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/inference_engine/itcl_inference_engine/layers/onnx/softmax.py b/inference_engine/itcl_inference_engine/layers/onnx/softmax.py
index 06a19f5..8903d2a 100644
--- a/inference_engine/itcl_inference_engine/layers/onnx/softmax.py
+++ b/inference_engine/itcl_inference_engine/layers/onnx/softmax.py
@@ -32,4 +32,6 @@ class Softmax(IOperator):
             np.ndarray: Float32 output tensor (Each value should be between 0 and 1)
         """
 
-        return np.exp(input_) / np.sum(np.exp(input_))
+        # Each sample (last axis) is normalized, the max is removed to avoid overflows
+        exp = np.exp(input_ - np.max(input_, axis=-1, keepdims=True))
+        return exp / np.sum(exp, axis=-1, keepdims=True)
-- 
2.43.0


From 0a5f1f0f73f1ddb528576fc3761a2830d805fdea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:21 +0000
Subject: [PATCH 08/48] fix: integer multiplier of values below 2^-32

---
 inference_engine/itcl_inference_engine/util/floating.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inference_engine/itcl_inference_engine/util/floating.py b/inference_engine/itcl_inference_engine/util/floating.py
index f9c7d89..cae3b66 100644
--- a/inference_engine/itcl_inference_engine/util/floating.py
+++ b/inference_engine/itcl_inference_engine/util/floating.py
@@ -20,7 +20,7 @@ class FloatingIntegerApprox(Generic[E]):
             shift += 1
 
         if shift < -31:
-            self._shift = 0
+            shift = 0
             quantized_multiplier = 0
 
         self._q = quantized_multiplier
-- 
2.43.0


From 679939408258989542f795b4a2944c4a20a68d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:21 +0000
Subject: [PATCH 09/48] fix: integer multiplier overflow with arrays of less
 than 64 bits

---
 inference_engine/itcl_inference_engine/util/floating.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/inference_engine/itcl_inference_engine/util/floating.py b/inference_engine/itcl_inference_engine/util/floating.py
index cae3b66..a54018f 100644
--- a/inference_engine/itcl_inference_engine/util/floating.py
+++ b/inference_engine/itcl_inference_engine/util/floating.py
@@ -33,5 +33,9 @@ class FloatingIntegerApprox(Generic[E]):
         if not self._integer_only:
             return other * self._fp  # type: ignore
 
+        if isinstance(other, (np.ndarray, np.integer)):
+            # The product of a small dtype and the 31 bit multiplier needs 64 bits
+            other = other.astype(np.int64, casting="safe")  # type: ignore
+
         res = other * self._q + self._round
         return res >> self._shift  # type: ignore
-- 
2.43.0


From f07e5729b0ab21c8d43a67e36211a21b684e299b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:21 +0000
Subject: [PATCH 10/48] fix: LSTM starts from real zero and removes the hidden
 state zero point

---
 .../itcl_inference_engine/layers/itclq/lstm.py         | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/inference_engine/itcl_inference_engine/layers/itclq/lstm.py b/inference_engine/itcl_inference_engine/layers/itclq/lstm.py
index 37f146a..e711afe 100644
--- a/inference_engine/itcl_inference_engine/layers/itclq/lstm.py
+++ b/inference_engine/itcl_inference_engine/layers/itclq/lstm.py
@@ -270,8 +270,11 @@ class LSTM(ILayer):
         input_norm = (input_ - self._input_zp).swapaxes(0, 1)
 
         # Create the initial hidden state and cell state
-        hidden_state = [np.zeros((1, self._n_cells), dtype=np.int64)]
-        cell_state = np.zeros((1, self._n_cells), dtype=np.int64)
+        # (real zero is represented by the zero point)
+        hidden_state = [
+            np.full((1, self._n_cells), self._hidden_state_zp, dtype=np.int64)
+        ]
+        cell_state = np.full((1, self._n_cells), self._cell_state_zp, dtype=np.int64)
 
         inter = LSTMIntermediateTensors()
 
@@ -291,7 +294,8 @@ class LSTM(ILayer):
             for i, (recurrent_kernel, bias, M2) in enumerate(
                 zip(self._recurrent_kernel, bias_add, self._M2)
             ):
-                recurrent_add_large = (hidden_state[-1] @ recurrent_kernel) + bias
+                hidden_state_norm = hidden_state[-1] - self._hidden_state_zp
+                recurrent_add_large = (hidden_state_norm @ recurrent_kernel) + bias
                 recurrent_add.append(
                     (recurrent_add_large * M2 + self._recurrent_add_zp[i])
                     .clip(
-- 
2.43.0


From c3bf7a206813225ddae2c2116841b46f1a034c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:21 +0000
Subject: [PATCH 11/48] fix: LSTM int8 inputs do not wrap when the zero point
 is removed

---
 inference_engine/itcl_inference_engine/layers/itclq/lstm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inference_engine/itcl_inference_engine/layers/itclq/lstm.py b/inference_engine/itcl_inference_engine/layers/itclq/lstm.py
index e711afe..17a8bfc 100644
--- a/inference_engine/itcl_inference_engine/layers/itclq/lstm.py
+++ b/inference_engine/itcl_inference_engine/layers/itclq/lstm.py
@@ -267,7 +267,7 @@ class LSTM(ILayer):
     def infer(self, input_: np.ndarray) -> np.ndarray:
 
         # batch, window_len, n_features =  -> w, b , n
-        input_norm = (input_ - self._input_zp).swapaxes(0, 1)
+        input_norm = (input_.astype(np.int64) - self._input_zp).swapaxes(0, 1)
 
         # Create the initial hidden state and cell state
         # (real zero is represented by the zero point)
-- 
2.43.0


From dbb441746e2101f1601781fd7e55104596e8a183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:49 +0000
Subject: [PATCH 12/48] fix: LSTM cell state saturates to the type of the cell
 state node

---
 inference_engine/itcl_inference_engine/layers/itclq/lstm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inference_engine/itcl_inference_engine/layers/itclq/lstm.py b/inference_engine/itcl_inference_engine/layers/itclq/lstm.py
index 17a8bfc..a7051dc 100644
--- a/inference_engine/itcl_inference_engine/layers/itclq/lstm.py
+++ b/inference_engine/itcl_inference_engine/layers/itclq/lstm.py
@@ -193,7 +193,7 @@ class LSTM(ILayer):
         return_sequences: bool,
     ) -> LSTM:
 
-        assert cell_state_out["tensor"] is not None
+        assert cell_state["tensor"] is not None
         assert hidden_state["tensor"] is not None
 
         # Kernel
@@ -259,7 +259,7 @@ class LSTM(ILayer):
             # dtypes:
             bias_add_dtype=bias_add_nodes[0]["tensor"]["dtype"],  # type: ignore
             recurrent_add_dtype=recurrent_add_nodes[0]["tensor"]["dtype"],  # type: ignore
-            cell_state_dtype=cell_state_out["tensor"]["dtype"],
+            cell_state_dtype=cell_state["tensor"]["dtype"],
             hidden_state_dtype=hidden_state["tensor"]["dtype"],
             return_sequences=return_sequences,
         )
-- 
2.43.0


From c66d28b40e8d13f67a0ca35f7bd136d5a087933e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:02 +0000
Subject: [PATCH 13/48] fix: calibration of all-zero data and of unsigned types
 with a forced zero point

---
 .../itcl_quantizer/quantizer/distributions/distribution.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/quantizer/itcl_quantizer/quantizer/distributions/distribution.py b/quantizer/itcl_quantizer/quantizer/distributions/distribution.py
index 91a7b11..467f493 100644
--- a/quantizer/itcl_quantizer/quantizer/distributions/distribution.py
+++ b/quantizer/itcl_quantizer/quantizer/distributions/distribution.py
@@ -146,7 +146,9 @@ class Distribution:
             q_min = -q_max
 
         scale = (max_ - min_) / (q_max - q_min)
-        zero_point = round((min_ * q_max - max_ * q_min) / (min_ - max_))
+        zero_point = 0
+        if max_ != min_:
+            zero_point = round((min_ * q_max - max_ * q_min) / (min_ - max_))
 
         if force_zp is not None:
             zero_point = force_zp
@@ -155,7 +157,8 @@ class Distribution:
             if symmetric:
                 scale /= q_max
             else:
-                scale /= abs(q_min)
+                # An unsigned type has no negative side to fit the data in
+                scale /= abs(q_min) or q_max
 
         if force_s is not None:
             scale = force_s
-- 
2.43.0


From a5835ae10ab9b31b7b5c59d20214f9a1899759e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:44 +0000
Subject: [PATCH 14/48] fix: slicing a distribution after its last bin

---
 .../itcl_quantizer/quantizer/distributions/distribution.py     | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quantizer/itcl_quantizer/quantizer/distributions/distribution.py b/quantizer/itcl_quantizer/quantizer/distributions/distribution.py
index 467f493..3c69088 100644
--- a/quantizer/itcl_quantizer/quantizer/distributions/distribution.py
+++ b/quantizer/itcl_quantizer/quantizer/distributions/distribution.py
@@ -287,6 +287,9 @@ class Distribution:
             if key.stop is not None and edge <= key.stop:
                 max_bin_idx = i
 
+        # Keep the last bin if the slice starts after it (a RELU whose inputs are all negative)
+        min_bin_idx = min(min_bin_idx, len(self._histogram) - 1)
+
         if self._include_partial_bins:
             max_bin_idx = min(max_bin_idx + 1, len(self._histogram))
         else:
-- 
2.43.0


From 69a500be76e5b0e6e7ba7e8d5fe3a32ebcaf0527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:02 +0000
Subject: [PATCH 15/48] fix: tensor nodes dequantise with the zero point in the
 integer domain

---
 quantizer/itcl_quantizer/tensor_extractor/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/tensor.py b/quantizer/itcl_quantizer/tensor_extractor/tensor.py
index 58e7d0f..4a487d8 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/tensor.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/tensor.py
@@ -479,7 +479,7 @@ class NodeTensorTensor(IRoundingPolicy, NodeTensorBase):
         Returns:
             np.ndarray: A float tensor
         """
-        return self.quantized * self.scale + self.zero_point
+        return (self.quantized - self.zero_point) * self.scale
 
     def _requantize(self):
         """Requantization Function"""
-- 
2.43.0


From 86308b7ea0d871591beb3ace1e2b10903ee15a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:02 +0000
Subject: [PATCH 16/48] fix: rebuild the LUT of a node when its rounding policy
 changes

---
 quantizer/itcl_quantizer/tensor_extractor/tensor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/tensor.py b/quantizer/itcl_quantizer/tensor_extractor/tensor.py
index 4a487d8..e54170f 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/tensor.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/tensor.py
@@ -155,6 +155,7 @@ class NodeLUT(ISerializable, IRoundingPolicy):
     @rounding_policy.setter
     def rounding_policy(self, policy: np.ndarray):
         self._rounding_policy = policy
+        self._create()
 
     def as_json(self) -> LUTJson:
         """Serializes the LUT class as a serializable dictionary k:str, v: Any
-- 
2.43.0


From fdb772d20e4f9ff57b159b082bc5d2986fc3b7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:02 +0000
Subject: [PATCH 17/48] fix: rebuild the LUT when its output parameters change

---
 quantizer/itcl_quantizer/tensor_extractor/tensor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/tensor.py b/quantizer/itcl_quantizer/tensor_extractor/tensor.py
index e54170f..0a0fb09 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/tensor.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/tensor.py
@@ -98,6 +98,7 @@ class NodeLUT(ISerializable, IRoundingPolicy):
         """
         self._output_s = output_s
         self._output_zp = output_zp
+        self._create()
 
     @property
     def offset(
-- 
2.43.0


From d3e42dab522b0c07fddb865347a5ab994dffcc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:02 +0000
Subject: [PATCH 18/48] fix: keep activation LUTs in step with the parameters
 of the activation output

---
 .../tensor_extractor/keras/layers/activations.py            | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/activations.py b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/activations.py
index d5d3890..278b959 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/activations.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/activations.py
@@ -89,6 +89,12 @@ def quantize_activation_node(
         .exclude_tensor()
     )
 
+    # On output parameters update: Update the LUT that generates this output
+    if (lut := input_node.LUT) is not None:
+        output_node.on_quant_param_update.append(
+            lambda _: lut._update_out_qparams(output_node.scale, output_node.zero_point)
+        )
+
     operator = Operator(
         activation_name, activation_name, [input_node], [output_node], fn
     )
-- 
2.43.0


From 1894d3f994bf45d6d9c93265b2f2bec5f68578bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:14 +0000
Subject: [PATCH 19/48] fix: resetting the parameters of a node requantises it
 and notifies its dependants

---
 quantizer/itcl_quantizer/tensor_extractor/tensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/tensor.py b/quantizer/itcl_quantizer/tensor_extractor/tensor.py
index 0a0fb09..6680bc4 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/tensor.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/tensor.py
@@ -216,7 +216,7 @@ class NodeTensorBase(ISerializable):
 
     def reset_scale(self):
         """Resets the scale to the original/constructor one."""
-        self._scale = self._og_scale
+        self.update_quant_parameters(self._og_scale, self._zero_p)
 
     @property
     def name(self) -> str:
@@ -252,7 +252,7 @@ class NodeTensorBase(ISerializable):
 
     def reset_zp(self):
         """Resets the current zero point to the original one"""
-        self._zero_p = self._og_zero_p
+        self.update_quant_parameters(self._scale, self._og_zero_p)
 
     def update_quant_parameters(
         self, scale: float, zero_point: int, requantize: bool = True
-- 
2.43.0


From d9b3489bea2750b627317f6ded816cb6175d2feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:14 +0000
Subject: [PATCH 20/48] fix: the output node of a dense layer holds the layer's
 output

---
 .../tensor_extractor/keras/layers/keras_dense.py              | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_dense.py b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_dense.py
index 9ef5a17..b95a8b9 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_dense.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_dense.py
@@ -260,7 +260,9 @@ class KerasDense(AbstractLayer):
 
         out_s, out_zp = out_dist.quantize(self.__q_bias_add)
         return (
-            self.__quantize_bias_add_from_params(float_input, out_s, out_zp),
+            self.__quantize_bias_add_from_params(
+                np.array(float_output), out_s, out_zp
+            ),
             float_output,
         )
 
-- 
2.43.0


From da5c88b707c7c2d205b4d04148952ae060febc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:33 +0000
Subject: [PATCH 21/48] fix: the layer after a fused RELU is calibrated with
 rectified data

---
 .../tensor_extractor/keras/layers/activations.py              | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/activations.py b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/activations.py
index 278b959..a228fbf 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/activations.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/activations.py
@@ -55,7 +55,9 @@ def quantize_activation_node(
     activation_name = activation_name.upper()
 
     if activation_name in SKIP_FUNCTIONS:
-        return None, input_data
+        # No operator is required, but the next layer receives the activated data
+        fn = OVERRIDE_FUNCTIONS.get(activation_name, fn)
+        return None, np.array(fn(input_data))
 
     # Override the function if possible
     fn = OVERRIDE_FUNCTIONS.get(activation_name, fn)
-- 
2.43.0


From 84d5ed094d50e159c9738f8df7740fd68ae4c28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:34 +0000
Subject: [PATCH 22/48] fix: LSTM input gate is calibrated with its own
 pre-activation

---
 .../itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
index 156767e..44f96fd 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
@@ -419,7 +419,7 @@ class KerasLSTM(AbstractLayer):
         input_gate_op, _ = quantize_activation_node(
             tf.math.sigmoid,
             ACTIVATION_NAMES.SIGMOID,
-            recurrent_add[: self._n_units],
+            recurrent_add[:, :, : self._n_units],
             self._q_activation,
             input_gate,
         )
-- 
2.43.0


From 49f255e6794fcdff26f7b874365dc010ebe8f547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:34 +0000
Subject: [PATCH 23/48] fix: LSTM reports the bias add tensor

---
 .../itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
index 44f96fd..7bb1e6d 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
@@ -688,7 +688,7 @@ class LSTM:
         return LSTMResult(
             hidden_state=np.array(h[1:]),  # Remove the initial scale
             cell_state=np.array(previous_c),
-            bias_add=np.array(previous_recurrent_add),
+            bias_add=np.array(previous_bias_add),
             recurrent_add=np.array(previous_recurrent_add),
             input_gate=np.array(previous_i),
             forget_gate=np.array(previous_f),
-- 
2.43.0


From ade80008cbae094c1b0f31a4db100f65397a31ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:34 +0000
Subject: [PATCH 24/48] fix: LSTM quantization result refers to the quantized
 layer

---
 .../itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
index 7bb1e6d..6e9d186 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
@@ -517,7 +517,7 @@ class KerasLSTM(AbstractLayer):
             input_data=lstm_states.result,
             out_node=hidden_node,
             operators=[lstm_op],
-            layer=self._layer,
+            layer=self,
         )
 
         if is_debug_mode():
-- 
2.43.0


From 451f91529a9158b6e6159ce89101d8b47c435f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:34 +0000
Subject: [PATCH 25/48] fix: LSTM AdaRound passes the layer input

---
 .../tensor_extractor/keras/layers/keras_lstm.py        | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
index 6e9d186..f37e41b 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
@@ -63,6 +63,7 @@ class KerasLSTM(AbstractLayer):
         self._q_bias_add = Quantization(bias_add_dtype)
         self._q_recurrent_add = Quantization(recurrent_add_dtype)
         self._q_output = Quantization(output_dtype)
+        self._last_float_input: np.ndarray | None = None
 
     def _get_scale_zp(
         self, tensor: NPFP32, quantize: Quantization, symmetric: bool = False
@@ -383,6 +384,7 @@ class KerasLSTM(AbstractLayer):
         """
         input_data = input_result.input_data
         input_node = input_result.out_node
+        self._last_float_input = input_data
 
         if input_node is None:
             raise ValueError(
@@ -561,7 +563,13 @@ class KerasLSTM(AbstractLayer):
             ],
         )
 
-        AdaRound(optimizer_factory(), cost_fn, self, results).round(tensors)
+        AdaRound(
+            optimizer_factory(),
+            cost_fn,
+            self,
+            results,
+            float_input=self._last_float_input,
+        ).round(tensors)
 
 
 class MinMaxList(list):
-- 
2.43.0


From 43a6e1668fcc0f16a0b26a15af948f646e2b80c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:09 +0000
Subject: [PATCH 26/48] fix: base rounding policy of float32 tensors uses the
 precision of the quantizer

---
 .../itcl_quantizer/equalizers/adaround/irounding_policy.py      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantizer/itcl_quantizer/equalizers/adaround/irounding_policy.py b/quantizer/itcl_quantizer/equalizers/adaround/irounding_policy.py
index 3d05b3d..4dc9af5 100644
--- a/quantizer/itcl_quantizer/equalizers/adaround/irounding_policy.py
+++ b/quantizer/itcl_quantizer/equalizers/adaround/irounding_policy.py
@@ -29,5 +29,5 @@ def get_base_rounding(tensor: np.ndarray, scale: float) -> np.ndarray:
     Returns:
         np.ndarray: _description_
     """
-    tensor = tensor / scale
+    tensor = np.array(tensor, dtype=np.float64) / scale
     return np.where(np.floor(tensor + 0.5) > tensor, 1, 0)
-- 
2.43.0


From 35c9c85262af2353100f67878c378bf634ebb61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:27 +0000
Subject: [PATCH 27/48] fix: apply rounding policies before the zero point

---
 core/itcl_quantization/quantization/operators.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/core/itcl_quantization/quantization/operators.py b/core/itcl_quantization/quantization/operators.py
index 1a21475..eea3c46 100644
--- a/core/itcl_quantization/quantization/operators.py
+++ b/core/itcl_quantization/quantization/operators.py
@@ -127,16 +127,20 @@ class Quantization(Generic[T]):
             np.ndarray: Quantized numpy array
         """
 
-        float_res = np.array(np.array(data).astype(np.float64) / scale + zero_point)
+        scaled = np.array(np.array(data).astype(np.float64) / scale)
 
         if rounding_policy is not None:
             try:
-                return self.round(float_res + rounding_policy, extra=0)
+                # The policy selects between the neighbours of the scaled value, adding
+                # the zero point first could round a value up to the next integer.
+                return self.round(
+                    np.floor(scaled) + rounding_policy + zero_point, extra=0
+                )
             except ValueError:
                 logging.warning(
                     "Invalid quantization rounding policy, rounding to nearest"
                 )
-        return self.round(float_res)
+        return self.round(scaled + zero_point)
 
     def dequantize(self, data: input_type, zero_point: int, scale: float) -> np.ndarray:
         """Dequantizes a numpy array of quantized values to float64
-- 
2.43.0


From 7a76f7652f8a0445402d68c23baa9def23e3eaeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:14 +0000
Subject: [PATCH 28/48] fix: new tensor nodes are quantised with their own
 rounding policy

---
 quantizer/itcl_quantizer/tensor_extractor/tensor.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/tensor.py b/quantizer/itcl_quantizer/tensor_extractor/tensor.py
index 6680bc4..264ae56 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/tensor.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/tensor.py
@@ -394,7 +394,12 @@ class NodeTensorTensor(IRoundingPolicy, NodeTensorBase):
         self._rounding_policy = self._og_rounding_policy = get_base_rounding(
             fp_tensor, self.scale
         )
-        self._quantized = self.quant.quantize(fp_tensor, self.zero_point, self.scale)
+        self._quantized = self.quant.quantize(
+            fp_tensor,
+            self.zero_point,
+            self.scale,
+            rounding_policy=self._rounding_policy,
+        )
 
     def exclude_batch_dimension(self, exclude: bool = True) -> Self:
         """If the batch dimension should not appear in the json
-- 
2.43.0


From 0379ca0cec02c7d00add7f56d9d9e86351a14d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:14 +0000
Subject: [PATCH 29/48] fix: rounding annealer keeps a best cost of zero

---
 quantizer/itcl_quantizer/equalizers/adaround/annealer.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/quantizer/itcl_quantizer/equalizers/adaround/annealer.py b/quantizer/itcl_quantizer/equalizers/adaround/annealer.py
index 23cbbda..ee00c7b 100644
--- a/quantizer/itcl_quantizer/equalizers/adaround/annealer.py
+++ b/quantizer/itcl_quantizer/equalizers/adaround/annealer.py
@@ -1,6 +1,5 @@
 from copy import deepcopy
 from functools import reduce
-import sys
 from typing import Callable, List, Tuple
 import numpy as np
 from simanneal import Annealer
@@ -128,7 +127,7 @@ class RoundingAnnealer(Annealer, IRoundOptimizer):
             Tuple[List[np.ndarray], float]: _description_
         """
         neigh, energy = super().anneal()
-        return self._to_minima(neigh, energy or sys.maxsize)
+        return self._to_minima(neigh, energy)
 
     def energy(self) -> float:
         """Function that calculates the energy or loss
-- 
2.43.0


From 8ed27ab32d844e4016561ade978c7467928a228c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:14 +0000
Subject: [PATCH 30/48] fix: rounding annealer can flip every element of a
 tensor

---
 quantizer/itcl_quantizer/equalizers/adaround/annealer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantizer/itcl_quantizer/equalizers/adaround/annealer.py b/quantizer/itcl_quantizer/equalizers/adaround/annealer.py
index ee00c7b..bfd906c 100644
--- a/quantizer/itcl_quantizer/equalizers/adaround/annealer.py
+++ b/quantizer/itcl_quantizer/equalizers/adaround/annealer.py
@@ -67,7 +67,7 @@ class RoundingAnnealer(Annealer, IRoundOptimizer):
         new_state = []
 
         while True:
-            new_permutation = (*[randrange(start=0, stop=len(t)) for t in self.state],)
+            new_permutation = (*[randrange(start=0, stop=t.size) for t in self.state],)
             if not new_permutation in self._past_permutations:
                 break
 
-- 
2.43.0


From de3ca645bff3f75bfaf51f12ee792f4c16819b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:42 +0000
Subject: [PATCH 31/48] fix: QUBO targets the output of the dense operator
 before the activation

---
 quantizer/itcl_quantizer/equalizers/adaround/qubo.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/quantizer/itcl_quantizer/equalizers/adaround/qubo.py b/quantizer/itcl_quantizer/equalizers/adaround/qubo.py
index 1ab2674..231d92f 100644
--- a/quantizer/itcl_quantizer/equalizers/adaround/qubo.py
+++ b/quantizer/itcl_quantizer/equalizers/adaround/qubo.py
@@ -66,16 +66,14 @@ class QUBOAnnealer(IRoundOptimizer):
         kernel, bias = dense_layer.get_weights()
         input_f = self._input_data
         input_f = np.array(input_f)
-        output_f = self._results.input_data
-        output_f = np.array(output_f)
-        # output_f = TODO
-         
         kernel_roundp = tensors[0]  # todo: update
         bias_roundp = tensors[1]  # todo: update
         
         assert self._results.operators
 
         q_dense_op = self._results.operators[0]
+        # float output of the dense operator, before its activation
+        output_f = np.array(q_dense_op.outputs[0].fp_tensor)
     
         q_kernel = q_dense_op.inputs[1]
         kernel_s, kernel_zp = q_kernel.scale, q_kernel.zero_point
-- 
2.43.0


From 924b0ab667735bc6fba9d088677cf23aa65c679e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:21 +0000
Subject: [PATCH 32/48] fix: LUT entries are quantized with the type of the
 activation output

---
 core/itcl_quantization/quantization/operators.py           | 4 +++-
 .../tensor_extractor/keras/layers/activations.py           | 2 +-
 quantizer/itcl_quantizer/tensor_extractor/tensor.py        | 7 +++++++
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/core/itcl_quantization/quantization/operators.py b/core/itcl_quantization/quantization/operators.py
index eea3c46..499fba4 100644
--- a/core/itcl_quantization/quantization/operators.py
+++ b/core/itcl_quantization/quantization/operators.py
@@ -188,11 +188,13 @@ class Quantization(Generic[T]):
         output_s: float,
         output_zp: int,
         rounding_policy: np.ndarray | None = None,
+        output_quantization: "Quantization | None" = None,
     ) -> List[int]:
 
         activated_float = self.float_activation(activation_fn, input_s, input_zp)
 
-        return self.quantize(
+        # The entries belong to the output type, the indices to the input one
+        return (output_quantization or self).quantize(
             activated_float, output_zp, output_s, rounding_policy=rounding_policy
         ).tolist()
 
diff --git a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/activations.py b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/activations.py
index a228fbf..fe894ed 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/activations.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/activations.py
@@ -81,7 +81,7 @@ def quantize_activation_node(
     # Create and save the LUT (if possible)
     if activation_name in LUT_FUNCTIONS and not skip_lut:
         activation_name += "LUT"
-        input_node.with_lut(fn, out_s, out_zp)
+        input_node.with_lut(fn, out_s, out_zp, out_quant=quantization)
 
     # Create the output node
     output_node = (
diff --git a/quantizer/itcl_quantizer/tensor_extractor/tensor.py b/quantizer/itcl_quantizer/tensor_extractor/tensor.py
index 264ae56..029c001 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/tensor.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/tensor.py
@@ -36,6 +36,7 @@ class NodeLUT(ISerializable, IRoundingPolicy):
         output_s: float,
         output_zp: int,
         reduced_depth: int = 3,
+        output_quant: Quantization | None = None,
     ) -> None:
         """_summary_
 
@@ -47,6 +48,7 @@ class NodeLUT(ISerializable, IRoundingPolicy):
             output_s (float): Output Scale (Calculated from the distribution of the activated data)
             output_zp (int): Output ZP (...)
             reduced_depth (int, optional): Depth of the Reduced LUT. Defaults to 3.
+            output_quant (Quantization, optional): Quantization of the LUT entries. Defaults to quant.
         """
         self._input_s = input_s
         self._input_zp = input_zp
@@ -54,6 +56,7 @@ class NodeLUT(ISerializable, IRoundingPolicy):
         self._output_zp = output_zp
         self._reduced_depth = reduced_depth
         self._quant = quant
+        self._output_quant = output_quant
         self._fn = fn
 
         self._rounding_policy = get_base_rounding(
@@ -70,6 +73,7 @@ class NodeLUT(ISerializable, IRoundingPolicy):
             self._output_s,
             self._output_zp,
             rounding_policy=self._rounding_policy,
+            output_quantization=self._output_quant,
         )
         self._offset = -self._quant.min_value()
         self._quant = self._quant
@@ -289,6 +293,7 @@ class NodeTensorBase(ISerializable):
         out_scale: float,
         out_zp: int,
         reduced_depth=3,
+        out_quant: Quantization | None = None,
     ) -> Self:
         """Adds a LUT to the node
 
@@ -297,6 +302,7 @@ class NodeTensorBase(ISerializable):
             out_scale (float): Output Node Scale
             out_zp (int): Output Node Zero Point
             reduced_depth (int, optional): Reduced Depth. Defaults to 3, 0 to disable.
+            out_quant (Quantization, optional): Output Node Quantization. Defaults to this node's.
 
         Returns:
             Self: _description_
@@ -309,6 +315,7 @@ class NodeTensorBase(ISerializable):
             out_scale,
             out_zp,
             reduced_depth,
+            out_quant,
         )
         return self
 
-- 
2.43.0


From ce63ccaf8ba2495b5442aecca699d4effe774682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:44 +0000
Subject: [PATCH 33/48] fix: keras2json converts layers without a bias

---
 model_converters/keras2json/keras2json/layers/conv2d.py | 2 +-
 model_converters/keras2json/keras2json/layers/dense.py  | 2 +-
 model_converters/keras2json/keras2json/layers/lstm.py   | 5 ++++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/model_converters/keras2json/keras2json/layers/conv2d.py b/model_converters/keras2json/keras2json/layers/conv2d.py
index 6df1aac..e1e6add 100644
--- a/model_converters/keras2json/keras2json/layers/conv2d.py
+++ b/model_converters/keras2json/keras2json/layers/conv2d.py
@@ -13,7 +13,7 @@ class Conv2d(ILayer):
         weights: list[np.ndarray] = layer.get_weights()
 
         W = weights[0]
-        B = weights[1]
+        B = weights[1] if len(weights) > 1 else np.zeros(W.shape[-1], dtype=W.dtype)
         strides: tuple[int, int] = tuple(layer.strides)
         padding = 0 if "valid" in str(layer.padding).lower() else 1
 
diff --git a/model_converters/keras2json/keras2json/layers/dense.py b/model_converters/keras2json/keras2json/layers/dense.py
index 67f8625..5f30160 100644
--- a/model_converters/keras2json/keras2json/layers/dense.py
+++ b/model_converters/keras2json/keras2json/layers/dense.py
@@ -19,7 +19,7 @@ class Dense(ILayer):
         if len(weights) > 1:
             self._bias: np.ndarray = np.array(weights[1])
         else:
-            self._bias = np.zeros(len(self._kernel))
+            self._bias = np.zeros(self._kernel.shape[-1], dtype=self._kernel.dtype)
 
     def _dense(self) -> Operator :
 
diff --git a/model_converters/keras2json/keras2json/layers/lstm.py b/model_converters/keras2json/keras2json/layers/lstm.py
index 5512a58..7c398e3 100644
--- a/model_converters/keras2json/keras2json/layers/lstm.py
+++ b/model_converters/keras2json/keras2json/layers/lstm.py
@@ -30,7 +30,10 @@ class LSTM(ILayer):
 
         W_full = weights[0].T
         U_full = weights[1].T
-        B_full = weights[2]
+        if len(weights) > 2:
+            B_full = weights[2]
+        else:
+            B_full = np.zeros(len(W_full), dtype=W_full.dtype)
 
         # print(U_full.shape)
         # print(B_full.reshape())
-- 
2.43.0


From f8fc7044c4cc47b44e62fb2a145e72c8b81fcb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:44 +0000
Subject: [PATCH 34/48] fix: keras2json rejects layers that only resemble a
 supported one

---
 model_converters/keras2json/keras2json/_convert.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/model_converters/keras2json/keras2json/_convert.py b/model_converters/keras2json/keras2json/_convert.py
index 68b8b6b..63d13c1 100644
--- a/model_converters/keras2json/keras2json/_convert.py
+++ b/model_converters/keras2json/keras2json/_convert.py
@@ -11,15 +11,15 @@ from keras2json import layers
 def _from_layer(keras_layer) -> list[Operator]:
     name = str(keras_layer.__class__.__name__).upper()
 
-    if "DENSE" in name:
+    if name == "DENSE":
         builder = layers.Dense
-    elif "LSTM" in name:
+    elif name == "LSTM":
         builder = layers.LSTM
-    elif "CONV2D" in name:
+    elif name == "CONV2D":
         builder = layers.Conv2d
-    elif "FLATTEN" in name:
+    elif name == "FLATTEN":
         builder = layers.Flatten
-    elif "MAXPOOLING2D" in name:
+    elif name == "MAXPOOLING2D":
         builder = layers.MaxPool2D
     elif name in ["INPUT", "OUTPUT", "INPUTLAYER", "DROPOUT"]:
         return []
-- 
2.43.0


From 168138478ea56e670383a22b9910d8438ed32576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:44 +0000
Subject: [PATCH 35/48] fix: onnx2json writes the outputs of the model

---
 model_converters/onnx2json/2json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model_converters/onnx2json/2json.py b/model_converters/onnx2json/2json.py
index 4dacdcd..0b7079c 100644
--- a/model_converters/onnx2json/2json.py
+++ b/model_converters/onnx2json/2json.py
@@ -29,7 +29,7 @@ def model2json(model) -> JsonNetwork:
         "engine": "ONNX",
         "graph": graph.build_graph(),
         "input": [{"zero_point": None, "scale": None, "tensor":  layer_info_to_tensor(_in)} for _in in model.graph.input],
-        "output": [{"zero_point": None, "scale": None, "tensor":  layer_info_to_tensor(_out)} for _out in model.graph.input],
+        "output": [{"zero_point": None, "scale": None, "tensor":  layer_info_to_tensor(_out)} for _out in model.graph.output],
     }
 
 
-- 
2.43.0


From abaf0c02e999d181d1c35452ad909a1fb9c30cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:44 +0000
Subject: [PATCH 36/48] fix: onnx2json finds the first intermediate tensor

---
 .../onnx2json/helpers/nodeBuilders/buildBaseNode.py             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model_converters/onnx2json/helpers/nodeBuilders/buildBaseNode.py b/model_converters/onnx2json/helpers/nodeBuilders/buildBaseNode.py
index 6885aeb..8d604c1 100644
--- a/model_converters/onnx2json/helpers/nodeBuilders/buildBaseNode.py
+++ b/model_converters/onnx2json/helpers/nodeBuilders/buildBaseNode.py
@@ -81,7 +81,7 @@ def build_base_node(model, tensor_id) -> Node:
     id2idx = {init.name: i for i, init in enumerate(model.graph.value_info)}
     idx = id2idx.get(tensor_id)
     
-    if idx: # The tensor id is expected to be in the model
+    if idx is not None: # The tensor id is expected to be in the model
         layer_info = model.graph.value_info[idx]
 
     # Some tensors, like the input and output tensors, are not in the model body
-- 
2.43.0


From 804c5fc65b0f85955e4464fc6075893818eaf413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:44 +0000
Subject: [PATCH 37/48] fix: remote inference splits a batch into chunks of at
 most the maximum size

---
 demo/demo_lib/demo_lib/fpga.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demo/demo_lib/demo_lib/fpga.py b/demo/demo_lib/demo_lib/fpga.py
index 541aea2..1b263be 100644
--- a/demo/demo_lib/demo_lib/fpga.py
+++ b/demo/demo_lib/demo_lib/fpga.py
@@ -57,7 +57,7 @@ class InferFPGAMQTT(InferFPGA):
 
         self._client.publish(self._model_topic, json_net, qos=self._qos)
 
-        n_splits = len(x) // self._max_batch_size
+        n_splits = -(-len(x) // self._max_batch_size)  # no chunk is larger than the max
 
         chunk_resuts = []
 
-- 
2.43.0


From b25bf9534f3e74788b42145ce1a8ccf7a4edc0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:44 +0000
Subject: [PATCH 38/48] fix: remote inference matches results with their
 request

---
 demo/demo_lib/demo_lib/fpga.py | 35 ++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/demo/demo_lib/demo_lib/fpga.py b/demo/demo_lib/demo_lib/fpga.py
index 1b263be..e9320ea 100644
--- a/demo/demo_lib/demo_lib/fpga.py
+++ b/demo/demo_lib/demo_lib/fpga.py
@@ -6,6 +6,7 @@ import threading
 from abc import abstractmethod
 from dataclasses import dataclass
 from typing import Any, Generic, Protocol, TypeVar
+from uuid import uuid4
 
 import numpy as np
 from itcl_inference_engine.network.sequential import Network
@@ -24,6 +25,15 @@ class InferFPGA(Protocol):
         ...
 
 
+class _PendingResult:
+    """Result of the request that is waiting for an answer"""
+
+    def __init__(self, id: str) -> None:
+        self.id = id
+        self.result: np.ndarray | None = None
+        self.event = threading.Event()
+
+
 class InferFPGAMQTT(InferFPGA):
     def __init__(
         self,
@@ -45,8 +55,7 @@ class InferFPGAMQTT(InferFPGA):
         self._qos = qos
 
         # Async result synchronization
-        self._result: np.ndarray | None = None
-        self._result_event = threading.Event()
+        self._pending: _PendingResult | None = None
         self._max_batch_size = max_batch_size
         self._timeout = timeout
 
@@ -61,28 +70,30 @@ class InferFPGAMQTT(InferFPGA):
 
         chunk_resuts = []
 
-        for i, chunk in enumerate(np.array_split(x, n_splits)):
-            # Clear the result sync event & buffer
-            self._result_event.clear()
-            self._result = None
+        for chunk in np.array_split(x, n_splits):
+            input_ = Input.from_numpy(uuid4().hex, chunk)
+            # Only an answer to this request is accepted from now on
+            pending = self._pending = _PendingResult(input_.id)
 
-            input_ = Input.from_numpy(str(i), chunk)
             input_json = json.dumps({"input": input_.as_kv()})
             self._client.publish(self._infer_topic, input_json, qos=self._qos)
-            was_timeout = not self._result_event.wait(timeout=self._timeout)
-            if self._result is None:
+            was_timeout = not pending.event.wait(timeout=self._timeout)
+            if pending.result is None:
                 raise RuntimeError(
                     f"Result is None, synchronization failed. {'Reason timeout' if was_timeout else ''}"
                 )
-            chunk_resuts.append(self._result)
+            chunk_resuts.append(pending.result)
         return np.concatenate(chunk_resuts)
 
     @log_exception(logger=logger)
     def on_result(self, _client: Client, _: None, message: MQTTMessage) -> None:
         res_dict = json.loads(message.payload.decode("utf-8"))
         res = Output.from_kv(res_dict)
-        self._result = res.as_numpy()
-        self._result_event.set()  # notify that a result is ready
+        pending = self._pending
+        if pending is None or res.id != pending.id:
+            return  # late, duplicated or foreign result
+        pending.result = res.as_numpy()
+        pending.event.set()  # notify that a result is ready
 
 
 class LossFPGA(InferFPGA):
-- 
2.43.0


From 37b3338c6d798dbd2b987fd2bf8d24642478cd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:27 +0000
Subject: [PATCH 39/48] fix: parameter annealer applies its candidates to the
 network

---
 .../itcl_quantizer/equalizers/param_equalizer/annealer.py    | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quantizer/itcl_quantizer/equalizers/param_equalizer/annealer.py b/quantizer/itcl_quantizer/equalizers/param_equalizer/annealer.py
index 663ac02..1f43938 100644
--- a/quantizer/itcl_quantizer/equalizers/param_equalizer/annealer.py
+++ b/quantizer/itcl_quantizer/equalizers/param_equalizer/annealer.py
@@ -41,8 +41,9 @@ class ParamEqAnnealer(AbstractParamOptimizer, Annealer):
             _type_: _description_
         """
         best, cost = super().anneal()
+        self.copy(self._tensors, best, requantize=True)
 
-        return best, cost
+        return self._tensors, cost
 
     def energy(self) -> float:
         """Function that calculates the energy or loss
@@ -51,6 +52,8 @@ class ParamEqAnnealer(AbstractParamOptimizer, Annealer):
             float: loss
         """
 
+        # The annealer replaces the state with copies of it: apply the candidate to the network tensors
+        self.copy(self._tensors, self.state, requantize=True)
         energy: float = self._cost_fn(self.state)
         return energy
 
-- 
2.43.0


From 3b0923556a68a083a3b711947058080611d25fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:27 +0000
Subject: [PATCH 40/48] fix: fixed percent trimming keeps the share of samples
 it was asked for

---
 quantizer/itcl_quantizer/optimizers/fixed_percent.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quantizer/itcl_quantizer/optimizers/fixed_percent.py b/quantizer/itcl_quantizer/optimizers/fixed_percent.py
index b339a63..20af18f 100644
--- a/quantizer/itcl_quantizer/optimizers/fixed_percent.py
+++ b/quantizer/itcl_quantizer/optimizers/fixed_percent.py
@@ -9,10 +9,10 @@ class FixedPercentOptimizer(IOptimizer):
 
     def trim(self, distribution: Distribution) -> Distribution:
 
-        bins = distribution.get_bin_edges()
+        bins = len(distribution)  # Bins of the new range
         fp_array = distribution._sorted_a
-        low_percent = np.percentile(fp_array, self.__percent)
-        high_percent = np.percentile(fp_array, 1 - self.__percent)
+        low_percent = np.quantile(fp_array, self.__percent)
+        high_percent = np.quantile(fp_array, 1 - self.__percent)
 
         clipped_array = fp_array.clip(low_percent, high_percent)
 
-- 
2.43.0


From a22127da240b3cf1bd9aecd0e885f00ccf8db08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:27 +0000
Subject: [PATCH 41/48] fix: entropy trimming handles empty groups of bins

---
 quantizer/itcl_quantizer/optimizers/kl_div_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantizer/itcl_quantizer/optimizers/kl_div_optimizer.py b/quantizer/itcl_quantizer/optimizers/kl_div_optimizer.py
index 82441e8..764c23b 100644
--- a/quantizer/itcl_quantizer/optimizers/kl_div_optimizer.py
+++ b/quantizer/itcl_quantizer/optimizers/kl_div_optimizer.py
@@ -71,7 +71,7 @@ class KLDivergenceOptimizer(IOptimizer):
 
             mask_slice = np.array(mask[idx : idx + bins_per_reduced_bin])
 
-            expanded_bin = mask_slice * (bin.sum() / np.array(mask_slice).sum())
+            expanded_bin = mask_slice * (bin.sum() / max(mask_slice.sum(), 1))
 
             expanded_bins.extend(expanded_bin)
 
-- 
2.43.0


From 3e451d992a4ce546f2a1096f55b0baffd323e896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:27 +0000
Subject: [PATCH 42/48] fix: entropy trimming threshold belongs to the chosen
 bin

---
 quantizer/itcl_quantizer/optimizers/kl_div_optimizer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/quantizer/itcl_quantizer/optimizers/kl_div_optimizer.py b/quantizer/itcl_quantizer/optimizers/kl_div_optimizer.py
index 764c23b..319d9e9 100644
--- a/quantizer/itcl_quantizer/optimizers/kl_div_optimizer.py
+++ b/quantizer/itcl_quantizer/optimizers/kl_div_optimizer.py
@@ -41,9 +41,11 @@ class KLDivergenceOptimizer(IOptimizer):
             ), f"{len(candidate_dist)} != {len(reference_dist)}"
             divergence.append(kl_divergence(reference_dist, candidate_dist))
 
-        m = np.argmin(divergence)
+        m = self.__target_bin_count + np.argmin(divergence)
 
-        threshold = (m + 0.5) * distribution.get_bin_size()
+        threshold = (
+            distribution.get_bin_edges()[0] + (m + 0.5) * distribution.get_bin_size()
+        )
 
         print(threshold)
 
-- 
2.43.0


From 21b7a3db172d87fcb745e57a87062ce1482245fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:27 +0000
Subject: [PATCH 43/48] fix: tflite configuration reaches the layer specific
 settings

---
 quantizer/itcl_quantizer/config/models/keras.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quantizer/itcl_quantizer/config/models/keras.py b/quantizer/itcl_quantizer/config/models/keras.py
index e5baa00..1cb8c38 100644
--- a/quantizer/itcl_quantizer/config/models/keras.py
+++ b/quantizer/itcl_quantizer/config/models/keras.py
@@ -131,6 +131,8 @@ class QuantizerCfg(BaseModel):
     def tflite(self):
         self.ada_round_net = None
         self.param_equalizer = None
+        for layer in self.specific_layers.values():
+            layer.tflite()
         return super().tflite()
 
     @classmethod
-- 
2.43.0


From 2df27e7270d701729acd032ac3952251b4a7c5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:27 +0000
Subject: [PATCH 44/48] fix: collisions only count different values

---
 quantizer/itcl_quantizer/util/collisions.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/quantizer/itcl_quantizer/util/collisions.py b/quantizer/itcl_quantizer/util/collisions.py
index fdcf9ba..a9f5ac6 100644
--- a/quantizer/itcl_quantizer/util/collisions.py
+++ b/quantizer/itcl_quantizer/util/collisions.py
@@ -16,7 +16,10 @@ def calc_collisions(fp_tensor: np.ndarray, q_tensor: np.ndarray, epsilon: int) -
     """
     rounded_fp = np.around(fp_tensor, decimals=epsilon) if epsilon > 0 else fp_tensor
 
-    _, counts_fp = np.unique(rounded_fp, return_counts=True)
-    _, counts_q = np.unique(q_tensor, return_counts=True)
+    # Distinct float values of each quantized value
+    pairs = np.unique(
+        np.stack([np.ravel(rounded_fp), np.ravel(q_tensor)]).astype(np.float64), axis=1
+    )
+    _, counts = np.unique(pairs[1], return_counts=True)
 
-    return (counts_q * (counts_q != 1)).sum() - (counts_fp - 1).sum()
+    return counts[counts != 1].sum()
-- 
2.43.0


From 2737cab95bb8e5f81d3c201fb91c910b45ac945e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:27 +0000
Subject: [PATCH 45/48] fix: divergence leaves its inputs unchanged

---
 quantizer/itcl_quantizer/quantizer/metrics/noise.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantizer/itcl_quantizer/quantizer/metrics/noise.py b/quantizer/itcl_quantizer/quantizer/metrics/noise.py
index edd3a39..f2eff3c 100644
--- a/quantizer/itcl_quantizer/quantizer/metrics/noise.py
+++ b/quantizer/itcl_quantizer/quantizer/metrics/noise.py
@@ -6,8 +6,8 @@ from scipy.special import kl_div
 
 def kl_divergence(p: np.ndarray, q: np.ndarray) -> float:
 
-    p[p == 0] = 1e-10
-    q[q == 0] = 1e-10
+    p = np.where(p == 0, 1e-10, p)
+    q = np.where(q == 0, 1e-10, q)
     return kl_div(p, q).sum()
 
 
-- 
2.43.0


From 08ece69a0d8cf79102072d492305ed51c00b5337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:53 +0000
Subject: [PATCH 46/48] fix: the fully connected layer rescales accumulators of
 any size

---
 .../layers/tflite/fullyconnected.py                      | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/inference_engine/itcl_inference_engine/layers/tflite/fullyconnected.py b/inference_engine/itcl_inference_engine/layers/tflite/fullyconnected.py
index 7004cfd..7f7d8bb 100644
--- a/inference_engine/itcl_inference_engine/layers/tflite/fullyconnected.py
+++ b/inference_engine/itcl_inference_engine/layers/tflite/fullyconnected.py
@@ -227,9 +227,14 @@ class FullyConnected(ILayer):
         accumulator = accumulator.astype(np.int64)
         quantized_multiplier = self.__quantized_multiplier.astype(np.int64)
         rounded = self.__round.astype(np.int64)
-        res = accumulator * quantized_multiplier + rounded
 
-        return res >> self.__shift
+        # The product may need more than 64 bits (16 bit inputs and weights), both
+        # halves of the accumulator are scaled separately
+        high, low = accumulator >> 31, accumulator & 0x7FFFFFFF
+        high, low = high * quantized_multiplier, low * quantized_multiplier + rounded
+        if self.__shift >= 31:
+            return (high + (low >> 31)) >> (self.__shift - 31)
+        return (high << (31 - self.__shift)) + (low >> self.__shift)
         result = []
 
         for accumulator_value in accumulator:
-- 
2.43.0


From cceb38b3e8db2d786e5ef7d9b3c49c278f863b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:11 +0000
Subject: [PATCH 47/48] fix: a fused RELU6 saturates at 6 whatever its
 pre-activations are

---
 .../tensor_extractor/keras/layers/keras_dense.py             | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_dense.py b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_dense.py
index b95a8b9..7008dc7 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_dense.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_dense.py
@@ -33,7 +33,10 @@ from itcl_quantizer.tensor_extractor.tensor import (
 )
 
 FUSED_RELU_TRIM: Callable[[Distribution], Distribution] = lambda x: x[0:]
-FUSED_RELU6_TRIM: Callable[[Distribution], Distribution] = lambda x: x[0:6]
+# What the activation hands on lies in 0..6 and reaches 6 as soon as one input does
+FUSED_RELU6_TRIM: Callable[[Distribution], Distribution] = lambda x: Distribution(
+    np.clip(np.append(x._sorted_a, 0), 0, 6)
+)
 
 
 def fused_relu(activation: str):
-- 
2.43.0


From e678ff44de29f204cb8b6d573927652ed77187e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:39 +0000
Subject: [PATCH 48/48] fix: keep the bias scales of a recurrent layer in step
 with its input and kernel scales

---
 .../tensor_extractor/keras/layers/keras_lstm.py       | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
index f37e41b..918b2da 100644
--- a/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
+++ b/quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm.py
@@ -403,6 +403,17 @@ class KerasLSTM(AbstractLayer):
         recurrent_kernel_nodes = self._quantize_recurrent_kernel()
         bias_nodes = self._quantize_bias(input_node.scale, kernel_nodes)
 
+        # On kernel/input scale update: Update the bias scale and requantize the bias
+        for kernel_node, bias_node in zip(kernel_nodes, bias_nodes):
+
+            def update_bias_scale(_, kernel_node=kernel_node, bias_node=bias_node):
+                bias_node.update_quant_parameters(
+                    kernel_node.scale * input_node.scale, bias_node.zero_point
+                )
+
+            kernel_node.on_quant_param_update.append(update_bias_scale)
+            input_node.on_quant_param_update.append(update_bias_scale)
+
         # Quantize the intermediate Nodes
         hidden_node = self._quantize_hidden_state(lstm_states.hidden_state)
 
-- 
2.43.0

