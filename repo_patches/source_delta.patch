From b89340e578a4ea9cc3867bf342ce75d045789dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:59 +0000
Subject: [PATCH 01/91] fix: three-operand views keep their third operand

The third operand was replaced by the second, so a masked select always
returned its second operand whatever the mask said.
---
 src/types/base_tensors.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/base_tensors.hpp b/src/types/base_tensors.hpp
index aa54f1b..b248a37 100644
--- a/src/types/base_tensors.hpp
+++ b/src/types/base_tensors.hpp
@@ -737,7 +737,7 @@ namespace happyml {
                                                const shared_ptr<BaseTensor> &tensor3) {
             this->left_child_ = tensor1;
             this->middle_child_ = tensor2;
-            this->right_child_ = tensor2;
+            this->right_child_ = tensor3;
         }
 
         bool contains(const shared_ptr<BaseTensor> &other) override {
-- 
2.43.0


From 86f80b336adb1eecaea1f51249ae28960728db16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:59 +0000
Subject: [PATCH 02/91] fix: matrix division multiplies by the inverse

Every column of the quotient was the same element-wise row product.
---
 src/types/tensor_views/matrix_divide_tensor_view.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/tensor_views/matrix_divide_tensor_view.hpp b/src/types/tensor_views/matrix_divide_tensor_view.hpp
index 58b177a..491e642 100644
--- a/src/types/tensor_views/matrix_divide_tensor_view.hpp
+++ b/src/types/tensor_views/matrix_divide_tensor_view.hpp
@@ -49,7 +49,7 @@ namespace happyml {
             // Compute the inverse of the right_child_ matrix for the given row, column, channel
             float val = 0;
             for (size_t col = 0; col < left_child_->columnCount(); col++) {
-                val += left_child_->getValue(row, col, channel) * right_child_->getValue(row, col, channel);
+                val += left_child_->getValue(row, col, channel) * right_child_->getValue(col, column, channel);
             }
             return val;
         }
-- 
2.43.0


From 4dc72169ec3d7f835e940c3118bd946803a7fd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:59 +0000
Subject: [PATCH 03/91] fix: the diagonal view places every element of its
 vector

The operand was indexed as if it were already square, so only the first
element of a vector reached the diagonal.
---
 src/types/tensor_views/diagonal_tensor_view.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/types/tensor_views/diagonal_tensor_view.hpp b/src/types/tensor_views/diagonal_tensor_view.hpp
index 8eb1c4b..72c2714 100644
--- a/src/types/tensor_views/diagonal_tensor_view.hpp
+++ b/src/types/tensor_views/diagonal_tensor_view.hpp
@@ -55,8 +55,8 @@ namespace happyml {
         }
 
         float getValue(size_t row, size_t column, size_t channel) override {
-            if (row == column && row < child_->rowCount() && column < child_->columnCount() && channel < child_->channelCount()) {
-                return child_->getValue(row, column, channel);
+            if (row == column && row < dim && channel < child_->channelCount()) {
+                return ((BaseTensor &) *child_).getValue(channel * dim + row);
             }
             return 0.f;
         }
-- 
2.43.0


From 1ac0096df9715180989751af1456cdfffdba8f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:59 +0000
Subject: [PATCH 04/91] fix: standardising a tensor uses its mean and deviation

The running mean was divided by the total count at every step, which is not
the mean of the elements.
---
 src/types/tensor_views/standardize_tensor_view.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/tensor_views/standardize_tensor_view.hpp b/src/types/tensor_views/standardize_tensor_view.hpp
index cadb636..6b67367 100644
--- a/src/types/tensor_views/standardize_tensor_view.hpp
+++ b/src/types/tensor_views/standardize_tensor_view.hpp
@@ -19,7 +19,7 @@ namespace happyml {
             for (size_t element = 0; element < total_elements; ++element) {
                 double value = tensor->getValue(element);
                 double delta = value - mean;
-                mean += delta / total_elements;
+                mean += delta / (double) (element + 1);
                 double delta2 = value - mean;
                 M2 += delta * delta2;
             }
-- 
2.43.0


From 6f1a555cb2ecc5cc49449bd4181187be087ec9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:11 +0000
Subject: [PATCH 05/91] fix: full cross-correlation pads by the kernel size
 minus one

Half the kernel is only right for kernels up to three wide; with larger ones
the result was too small, and so was the error sent back by a convolution.
---
 .../full_2d_cross_correlation_tensor_view.hpp | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/types/tensor_views/full_2d_cross_correlation_tensor_view.hpp b/src/types/tensor_views/full_2d_cross_correlation_tensor_view.hpp
index 4e5fae2..6bb7f0f 100644
--- a/src/types/tensor_views/full_2d_cross_correlation_tensor_view.hpp
+++ b/src/types/tensor_views/full_2d_cross_correlation_tensor_view.hpp
@@ -15,24 +15,17 @@
 namespace happyml {
 // https://en.wikipedia.org/wiki/Cross-correlation
 // https://en.wikipedia.org/wiki/Two-dimensional_correlation_analysis
-// Having an even number of values in your filter is a little wierd, but I handle it
-// you'll see where I do the rounding, it's so that a 2x2 filter or a 4x4 filter would work.
-// I think most filters are odd numbers because even filters don't make much sense,
-// but I wanted the code to work. The center of your filter is at a halfway point,
-// which is why it's weird.
+// A full correlation visits every position where the filter overlaps the tensor by at least one element,
+// so the tensor is padded by the filter's size minus one on each side. That holds for odd and even filters.
     class Full2DCrossCorrelationTensorView : public Valid2DCrossCorrelationTensorView {
     public:
         Full2DCrossCorrelationTensorView(const shared_ptr<BaseTensor> &tensor, const shared_ptr<BaseTensor> &kernel)
                 : Valid2DCrossCorrelationTensorView(
                 make_shared<ZeroPadTensorView>(tensor,
-                                                           (kernel->rowCount() > 1) *
-                                                           (size_t) std::round(((double) kernel->rowCount()) / 2.0),
-                                                           (kernel->rowCount() > 1) *
-                                                           (size_t) std::round(((double) kernel->rowCount()) / 2.0),
-                                                           (kernel->columnCount() > 1) *
-                                                           (size_t) std::round(((double) kernel->columnCount()) / 2.0),
-                                                           (kernel->columnCount() > 1) *
-                                                           (size_t) std::round(((double) kernel->columnCount()) / 2.0)),
+                                                           kernel->rowCount() - 1,
+                                                           kernel->rowCount() - 1,
+                                                           kernel->columnCount() - 1,
+                                                           kernel->columnCount() - 1),
                 kernel) {
         }
 
-- 
2.43.0


From 8a6f746b0c517a6330c124ff299fb3ed9f01da54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:34 +0000
Subject: [PATCH 06/91] fix: getRowValues reads the channel it was asked for

---
 src/types/base_tensors.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/base_tensors.hpp b/src/types/base_tensors.hpp
index b248a37..a4ff99d 100644
--- a/src/types/base_tensors.hpp
+++ b/src/types/base_tensors.hpp
@@ -203,7 +203,7 @@ namespace happyml {
             vector<float> nextRow;
             size_t columnCount1 = columnCount();
             for (size_t col = 0; col < columnCount1; col++) {
-                nextRow.push_back(getValue(row, col, 0));
+                nextRow.push_back(getValue(row, col, channel));
             }
             return nextRow;
         }
-- 
2.43.0


From 59b153d80b4666b6b16e809fca774123e94d99b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:34 +0000
Subject: [PATCH 07/91] fix: the euclidean norm of an all-zero tensor is zero

It was 0/0, which is not a number.
---
 src/types/base_tensors.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/types/base_tensors.hpp b/src/types/base_tensors.hpp
index a4ff99d..611bf1c 100644
--- a/src/types/base_tensors.hpp
+++ b/src/types/base_tensors.hpp
@@ -452,6 +452,9 @@ namespace happyml {
             const size_t cols = columnCount();
             const size_t maxChannels = channelCount();
             auto max_abs_val = (double) max_abs();
+            if (max_abs_val == 0) {
+                return 0.f;
+            }
             for (size_t channel = 0; channel < maxChannels; channel++) {
                 for (size_t row = 0; row < rows; row++) {
                     for (size_t col = 0; col < cols; col++) {
-- 
2.43.0


From 8588028e70cb459fae90ca99e75f5b29c2fb9bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:12 +0000
Subject: [PATCH 08/91] fix: a missing or truncated tensor file is an error

Reading past the end left elements and even the sizes of the tensor
uninitialised, so a damaged file loaded as garbage or exhausted memory.
---
 src/types/tensor_impls/full_tensor.hpp       |  2 ++
 src/types/tensor_impls/half_tensor.hpp       |  2 ++
 src/types/tensor_impls/pixel_tensor.hpp      |  2 ++
 src/types/tensor_impls/quarter_tensor.hpp    |  2 ++
 src/types/tensor_impls/tensor_allocators.hpp | 24 ++++++++++++++++++++
 5 files changed, 32 insertions(+)

diff --git a/src/types/tensor_impls/full_tensor.hpp b/src/types/tensor_impls/full_tensor.hpp
index c1fce49..5b69f3c 100644
--- a/src/types/tensor_impls/full_tensor.hpp
+++ b/src/types/tensor_impls/full_tensor.hpp
@@ -176,6 +176,7 @@ namespace happyml {
             rows = portableBytes(rows);
             stream.read(reinterpret_cast<char *>(&columns), sizeof(columns));
             columns = portableBytes(columns);
+            requireTensorElements(stream, rows, columns, channels);
 
             assignBodyFromStream(stream, rows, columns, channels);
         }
@@ -193,6 +194,7 @@ namespace happyml {
                         float nextVal = *(float *) &val;
                         setVal(row, column, channel, nextVal);
                     }
+                    requireTensorRead(stream);
                 }
             }
         }
diff --git a/src/types/tensor_impls/half_tensor.hpp b/src/types/tensor_impls/half_tensor.hpp
index a2b3cb0..c99400f 100644
--- a/src/types/tensor_impls/half_tensor.hpp
+++ b/src/types/tensor_impls/half_tensor.hpp
@@ -109,6 +109,7 @@ namespace happyml {
             rows = portableBytes(rows);
             stream.read(reinterpret_cast<char *>(&columns), sizeof(columns));
             columns = portableBytes(columns);
+            requireTensorElements(stream, rows, columns, channels);
 
             data.resize(channels);
             for (size_t channel = 0; channel < channels; channel++) {
@@ -122,6 +123,7 @@ namespace happyml {
                         float nextVal = *(float *) &val;
                         setVal(row, column, channel, nextVal);
                     }
+                    requireTensorRead(stream);
                 }
             }
         }
diff --git a/src/types/tensor_impls/pixel_tensor.hpp b/src/types/tensor_impls/pixel_tensor.hpp
index b3530fd..d3aecb9 100644
--- a/src/types/tensor_impls/pixel_tensor.hpp
+++ b/src/types/tensor_impls/pixel_tensor.hpp
@@ -135,6 +135,7 @@ namespace happyml {
             rows = portableBytes(rows);
             stream.read(reinterpret_cast<char *>(&columns), sizeof(columns));
             columns = portableBytes(columns);
+            requireTensorElements(stream, rows, columns, channels);
 
             assignBodyFromStream(stream, rows, columns, channels);
         }
@@ -152,6 +153,7 @@ namespace happyml {
                         float nextVal = *(float *) &val;
                         setVal(row, column, channel, nextVal);
                     }
+                    requireTensorRead(stream);
                 }
             }
         }
diff --git a/src/types/tensor_impls/quarter_tensor.hpp b/src/types/tensor_impls/quarter_tensor.hpp
index 3f05ab3..c82c421 100644
--- a/src/types/tensor_impls/quarter_tensor.hpp
+++ b/src/types/tensor_impls/quarter_tensor.hpp
@@ -124,6 +124,7 @@ namespace happyml {
             rows = portableBytes(rows);
             stream.read(reinterpret_cast<char *>(&columns), sizeof(columns));
             columns = portableBytes(columns);
+            requireTensorElements(stream, rows, columns, channels);
 
             assignBodyFromStream(stream, rows, columns, channels);
         }
@@ -141,6 +142,7 @@ namespace happyml {
                         float nextVal = *(float *) &val;
                         setVal(row, column, channel, nextVal);
                     }
+                    requireTensorRead(stream);
                 }
             }
         }
diff --git a/src/types/tensor_impls/tensor_allocators.hpp b/src/types/tensor_impls/tensor_allocators.hpp
index b3a0e1d..8974268 100644
--- a/src/types/tensor_impls/tensor_allocators.hpp
+++ b/src/types/tensor_impls/tensor_allocators.hpp
@@ -11,6 +11,30 @@
 #include "../../types/base_tensors.hpp"
 
 namespace happyml {
+    // A file that is missing, cut short or not a tensor at all must not become a tensor of garbage:
+    // refuse it before allocating anything when it can't hold the elements that its header announces.
+    inline void requireTensorElements(ifstream &stream, const uint64_t rows, const uint64_t columns,
+                                      const uint64_t channels) {
+        const auto position = stream.tellg();
+        stream.seekg(0, ios::end);
+        const auto end = stream.tellg();
+        stream.seekg(position);
+        if (!stream) {
+            throw runtime_error("Failed to read tensor: the header is missing or incomplete.");
+        }
+        const uint64_t available = (uint64_t) (end - position) / sizeof(uint32_t);
+        if (rows > 0 && columns > 0 && (rows > available || columns > available / rows ||
+                                        channels > available / (rows * columns))) {
+            throw runtime_error("Failed to read tensor: the file is too short for the tensor it should hold.");
+        }
+    }
+
+    inline void requireTensorRead(ifstream &stream) {
+        if (!stream) {
+            throw runtime_error("Failed to read tensor: unexpected end of file.");
+        }
+    }
+
     template<typename T>
     void allocateTensorVector(vector<vector<vector<T>>> &data, const size_t rows, const size_t columns,
                               const size_t channels) {
-- 
2.43.0


From 4ff6c691b4b64e36b5d1c07f149f3e1d3952db31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:55 +0000
Subject: [PATCH 09/91] fix: the mean absolute error derivative is the sign of
 the error

---
 src/ml/losses/mae_loss.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ml/losses/mae_loss.hpp b/src/ml/losses/mae_loss.hpp
index c872257..be01975 100644
--- a/src/ml/losses/mae_loss.hpp
+++ b/src/ml/losses/mae_loss.hpp
@@ -7,6 +7,7 @@
 #define HAPPYML_MAE_LOSS_HPP
 
 #include "../../types/tensor_views/absolute_tensor_view.hpp"
+#include "../../types/tensor_views/value_transform_tensor_view.hpp"
 
 namespace happyml {
     // Also known as L1 loss
@@ -29,10 +30,11 @@ namespace happyml {
         shared_ptr<BaseTensor> compute_loss_derivative(shared_ptr<BaseTensor> &total_batch_error,
                                                        shared_ptr<BaseTensor> &truth,
                                                        shared_ptr<BaseTensor> &prediction) override {
-            shared_ptr<BaseTensor> accumulatedLossDerivative;
             // Derivative of mean absolute error = sign(prediction_i - truth_i)
             shared_ptr<BaseTensor> error_diff = make_shared<SubtractTensorView>(prediction, truth);
-            shared_ptr<BaseTensor> currentLossDerivative = make_shared<ScalarMultiplyTensorView>(error_diff, -1.0f);
+            shared_ptr<BaseTensor> currentLossDerivative = make_shared<ValueTransformTensorView>(error_diff, [](float error) {
+                return (float) (error > 0.0f) - (float) (error < 0.0f);
+            });
             return currentLossDerivative;
         }
     };
-- 
2.43.0


From 87d01cdfbd78de4b818d39bb7fc1d20cf05a38e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:55 +0000
Subject: [PATCH 10/91] fix: the linear part of the smooth mean absolute error
 derivative is the sign of the error

---
 src/ml/losses/smae_loss.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ml/losses/smae_loss.hpp b/src/ml/losses/smae_loss.hpp
index b1074c5..0c45c15 100644
--- a/src/ml/losses/smae_loss.hpp
+++ b/src/ml/losses/smae_loss.hpp
@@ -8,6 +8,7 @@
 
 #include "../../types/tensor_views/less_than_scalar_tensor_view.hpp"
 #include "../../types/tensor_views/masked_select_tensor_view.hpp"
+#include "../../types/tensor_views/value_transform_tensor_view.hpp"
 
 namespace happyml {
     // Also known as Smooth L1 loss, Smooth Mean Absolute Error loss, or Huber loss
@@ -51,7 +52,9 @@ namespace happyml {
             shared_ptr<BaseTensor> error_diff = make_shared<SubtractTensorView>(prediction, truth);
             shared_ptr<BaseTensor> abs_error_diff = make_shared<AbsoluteTensorView>(error_diff);
             shared_ptr<BaseTensor> smooth_derivative = make_shared<ScalarMultiplyTensorView>(error_diff, 1.0f / smoothness);
-            shared_ptr<BaseTensor> unsmooth_derivative = make_shared<ScalarMultiplyTensorView>(error_diff, -1.0f);
+            shared_ptr<BaseTensor> unsmooth_derivative = make_shared<ValueTransformTensorView>(error_diff, [](float error) {
+                return (float) (error > 0.0f) - (float) (error < 0.0f);
+            });
 
             shared_ptr<BaseTensor> smooth_mask = make_shared<LessThanScalarTensorView>(abs_error_diff, smoothness);
             shared_ptr<BaseTensor> currentLossDerivative = make_shared<MaskedSelectTensorView>(smooth_mask, smooth_derivative, unsmooth_derivative);
-- 
2.43.0


From 89defcf0d30c2a9a875f70c7e9a0507366451531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:55 +0000
Subject: [PATCH 11/91] fix: softmax passes the cross-entropy derivative back
 unscaled

---
 src/ml/activators/softmax_activation_function.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ml/activators/softmax_activation_function.hpp b/src/ml/activators/softmax_activation_function.hpp
index 69686a8..b54f777 100644
--- a/src/ml/activators/softmax_activation_function.hpp
+++ b/src/ml/activators/softmax_activation_function.hpp
@@ -9,6 +9,7 @@
 #include "../types/tensor_views/value_transform_with_double_tensor_view.hpp"
 #include "../../types/tensor_views/exponential_tensor_view.hpp"
 #include "../../types/tensor_views/scalar_subtract_tensor_view.hpp"
+#include "../../types/tensor_impls/uniform_tensor.hpp"
 
 
 namespace happyml {
@@ -28,7 +29,8 @@ namespace happyml {
 
         std::shared_ptr<BaseTensor> derivative(const std::shared_ptr<BaseTensor> &input) override {
             // shortcut. We don't explicitly compute the Jacobian matrix because this is always used before categorical cross-entropy loss
-            return input;
+            // and its derivative (prediction - truth) is already the derivative with respect to the input of softmax.
+            return std::make_shared<UniformTensor>(input->getShape(), 1.0f);
         }
     };
 }
-- 
2.43.0


From 79901e6c3227d9ad0005b280d2322eba81ba5400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:55 +0000
Subject: [PATCH 12/91] fix: the derivative of the sigmoid approximation is
 that of its own formula

---
 src/ml/activators/sigmoid_approx_activation_function.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/ml/activators/sigmoid_approx_activation_function.hpp b/src/ml/activators/sigmoid_approx_activation_function.hpp
index a89a09d..ee951a2 100644
--- a/src/ml/activators/sigmoid_approx_activation_function.hpp
+++ b/src/ml/activators/sigmoid_approx_activation_function.hpp
@@ -20,11 +20,10 @@ namespace happyml {
         }
 
         std::shared_ptr<BaseTensor> derivative(const std::shared_ptr<BaseTensor> &input) override {
-            // result = sigmoid(x) * (1.0 - sigmoid(x))
+            // f'(x) = 0.5 / (1 + abs(x))^2
             auto transformFunction = [](float original) {
-                // todo: validate math.
-                auto sig = 0.5f * ((original / (1.0f + abs(original))) + 1);
-                return sig * (1.f - sig);
+                const float denominator = 1.0f + abs(original);
+                return 0.5f / (denominator * denominator);
             };
             return std::make_shared<ValueTransformTensorView>(input, transformFunction);
         }
-- 
2.43.0


From 9cce2ae2e10e79d4e436c337f2d6f04fa8dd4aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:15 +0000
Subject: [PATCH 13/91] fix: a layer that feeds several layers is updated once
 per batch

---
 src/ml/neural_network.hpp      | 3 ++-
 src/ml/neural_network_node.hpp | 8 ++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/ml/neural_network.hpp b/src/ml/neural_network.hpp
index 0eb9e58..1f68fe6 100644
--- a/src/ml/neural_network.hpp
+++ b/src/ml/neural_network.hpp
@@ -488,8 +488,9 @@ namespace happyml {
                     nextRecord = trainingDataset->nextRecord();
                     if (batchOffset >= batchSize || nextRecord == nullptr) {
                         size_t currentBatch = ceil(current_record / batchSize);
+                        std::unordered_set<void *> applied;
                         for (size_t outputIndex = 0; outputIndex < outputSize; outputIndex++) {
-                            outputNodes[outputIndex]->apply(optimizer);
+                            outputNodes[outputIndex]->apply(optimizer, applied);
                         }
                         batchLoss /= (float) batchOffset;
                         epochTrainingLoss += (batchLoss - epochTrainingLoss) / (float) currentBatch;
diff --git a/src/ml/neural_network_node.hpp b/src/ml/neural_network_node.hpp
index dc2d625..631c7ca 100644
--- a/src/ml/neural_network_node.hpp
+++ b/src/ml/neural_network_node.hpp
@@ -183,12 +183,16 @@ namespace happyml {
             return clipped;
         }
 
-        void apply(const shared_ptr<BaseOptimizer> &optimizer) {
+        // A node that feeds more than one other node is reached more than once, but it must only be updated once per batch.
+        void apply(const shared_ptr<BaseOptimizer> &optimizer, std::unordered_set<void *> &visited) {
+            if (!visited.insert((void *) this).second) {
+                return;
+            }
             neuralNetworkFunction->apply(optimizer);
             for (const auto &inputConnection: connectionInputs) {
                 const auto conn = inputConnection.lock();
                 const auto from = conn->from.lock();
-                from->apply(optimizer);
+                from->apply(optimizer, visited);
             }
             saved = false;
         }
-- 
2.43.0


From d4ab737f0c10265fda4013b290e45ae53a34f305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:15 +0000
Subject: [PATCH 14/91] fix: a layer that feeds several layers gets the sum of
 their errors

---
 src/ml/neural_network_node.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/ml/neural_network_node.hpp b/src/ml/neural_network_node.hpp
index 631c7ca..f3eebcb 100644
--- a/src/ml/neural_network_node.hpp
+++ b/src/ml/neural_network_node.hpp
@@ -200,7 +200,6 @@ namespace happyml {
         // todo: right now, i'm assuming this is a directed acyclic graph, this may not work for everything.
         //  It is possible, I'll have to track visited nodes to avoid infinite cycles.
         void backward(const shared_ptr<BaseTensor> &outputError) {
-            // TODO: for multiple errors, I'm currently averaging the errors as they propagate, but it probably should be a weighted average
             PROFILE_BLOCK(profileBlock);
 #ifdef DEBUG_TRAIN_NAN
             if (outputError->hasNaNOrInf()) {
@@ -248,7 +247,7 @@ namespace happyml {
                             break;
                         }
                         if (sum == nullptr) {
-                            sum = make_shared<AddTensorView>(prior_error, output_conn->prior_error);
+                            sum = output_conn->prior_error;
                         } else {
                             sum = make_shared<AddTensorView>(sum, output_conn->prior_error);
                         }
@@ -256,9 +255,8 @@ namespace happyml {
                     if (!ready) {
                         continue;
                     }
-                    // TODO: for multiple errors, I'm currently averaging the errors as they propagate, but it probably should be a weighted average
-                    shared_ptr<BaseTensor> average_error = make_shared<ScalarDivideTensorView>(sum, (float) fromConnectionOutputSize);
-                    from->backward(average_error);
+                    // the gradient of a value that is used several times is the sum of the gradients of its uses
+                    from->backward(sum);
                     for (const auto &output_conn: from->connectionOutputs) {
                         output_conn->prior_error = nullptr;
                     }
-- 
2.43.0


From 3299008041c773c8ba619911a99d560afafc8641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:15 +0000
Subject: [PATCH 15/91] fix: a convolution passes each input channel its own
 error

---
 src/ml/layers/convolution_2d_valid_layer.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ml/layers/convolution_2d_valid_layer.hpp b/src/ml/layers/convolution_2d_valid_layer.hpp
index 61d6fb7..2ee5daa 100644
--- a/src/ml/layers/convolution_2d_valid_layer.hpp
+++ b/src/ml/layers/convolution_2d_valid_layer.hpp
@@ -156,8 +156,7 @@ namespace happyml {
 
             weight_changes.push(output_layers_weight_changes);
 
-            const auto resultError = make_shared<SumChannelsTensorView>(inputError);
-            return {resultError};
+            return {inputError};
         }
 
         void apply(const shared_ptr<BaseOptimizer> &optimizer) override {
-- 
2.43.0


From 17c3fc243fcf6310e1f84efd1a0d3beb146b362d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:15 +0000
Subject: [PATCH 16/91] fix: a convolution averages the weight changes of a
 batch and applies them once

---
 src/ml/layers/convolution_2d_valid_layer.hpp | 26 ++++++++++++++------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/ml/layers/convolution_2d_valid_layer.hpp b/src/ml/layers/convolution_2d_valid_layer.hpp
index 2ee5daa..1aeefe1 100644
--- a/src/ml/layers/convolution_2d_valid_layer.hpp
+++ b/src/ml/layers/convolution_2d_valid_layer.hpp
@@ -7,6 +7,7 @@
 #define HAPPYML_CONVOLUTION_2D_VALID_LAYER_HPP
 
 #include "../../types/tensor_impls/tensor_from_xavier.hpp"
+#include "../../types/tensor_views/scalar_divide_tensor_view.hpp"
 
 namespace happyml {
 // Here's an interesting, related read:
@@ -162,17 +163,28 @@ namespace happyml {
         void apply(const shared_ptr<BaseOptimizer> &optimizer) override {
             PROFILE_BLOCK(profileBlock);
 
+            if (weight_changes.empty()) {
+                throw runtime_error("Convolution2dValidFunction.apply() called without previous weight changes.");
+            }
             const size_t filters = outputShape[2];
+            const size_t batchSize = weight_changes.size();
+            vector<shared_ptr<BaseTensor>> weightChanges = weight_changes.front();
+            weight_changes.pop();
             while (!weight_changes.empty()) {
-                vector<shared_ptr<BaseTensor>> weightChanges = weight_changes.front();
-                weight_changes.pop();
+                const auto &nextWeightChanges = weight_changes.front();
                 for (size_t outputLayer = 0; outputLayer < filters; outputLayer++) {
-                    auto loss_gradient = weightChanges[outputLayer];
-                    const auto adjustedWeights = optimizer->calculateWeightsChange(registration_id,
-                                                                                   weights[outputLayer],
-                                                                                   loss_gradient);
-                    weights[outputLayer] = materializeTensor(adjustedWeights, bits);
+                    weightChanges[outputLayer] = make_shared<AddTensorView>(weightChanges[outputLayer],
+                                                                            nextWeightChanges[outputLayer]);
                 }
+                weight_changes.pop();
+            }
+            for (size_t outputLayer = 0; outputLayer < filters; outputLayer++) {
+                const auto loss_gradient = materializeTensor(
+                        make_shared<ScalarDivideTensorView>(weightChanges[outputLayer], (float) batchSize));
+                const auto adjustedWeights = optimizer->calculateWeightsChange(registration_id,
+                                                                               weights[outputLayer],
+                                                                               loss_gradient);
+                weights[outputLayer] = materializeTensor(adjustedWeights, bits);
             }
         }
 
-- 
2.43.0


From 2d373ffb56be759e8bdf88bd8529a0997db41ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:15 +0000
Subject: [PATCH 17/91] fix: the L2 term of a convolution is its weights, not
 its gradient

---
 src/ml/layers/convolution_2d_valid_layer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ml/layers/convolution_2d_valid_layer.hpp b/src/ml/layers/convolution_2d_valid_layer.hpp
index 1aeefe1..f5aca99 100644
--- a/src/ml/layers/convolution_2d_valid_layer.hpp
+++ b/src/ml/layers/convolution_2d_valid_layer.hpp
@@ -144,7 +144,7 @@ namespace happyml {
                                                                                                             outputErrorForLayer);
                     if (use_l2_regularization) {
                         PROFILE_BLOCK(profileBlock2);
-                        auto l2_regularization = make_shared<ScalarMultiplyTensorView>(nextWeightError, regularization_strength);
+                        auto l2_regularization = make_shared<ScalarMultiplyTensorView>(weightForInputLayer, regularization_strength);
                         nextWeightError = make_shared<AddTensorView>(nextWeightError, l2_regularization);
                     }
                     const auto nextWeightToInputChannel = make_shared<SumToChannelTensorView>(nextWeightError,
-- 
2.43.0


From 2b9aaa03a5c7521189d34c6606c01475f092cfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:15 +0000
Subject: [PATCH 18/91] fix: every filter of a convolution has its own
 optimizer state

---
 src/ml/happyml_dsl.hpp                       | 6 +++++-
 src/ml/layers/convolution_2d_valid_layer.hpp | 4 +++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ml/happyml_dsl.hpp b/src/ml/happyml_dsl.hpp
index fb703bf..380b2ee 100644
--- a/src/ml/happyml_dsl.hpp
+++ b/src/ml/happyml_dsl.hpp
@@ -463,9 +463,13 @@ namespace happyml {
                 } else if (node_type == LayerType::convolution2dValid) {
                     auto inputShape = inputShapes[0];
                     string c2dvLabel = asString(vertexUniqueId) + "_c2dv";
+                    const int first_registration_id = optimizer->registerForWeightChanges();
+                    for (size_t filter = 1; filter < filters; filter++) {
+                        optimizer->registerForWeightChanges();
+                    }
                     auto c2d = make_shared<Convolution2dValidFunction>(c2dvLabel, inputShape, filters, kernel_size,
                                                                        bits,
-                                                                       optimizer->registerForWeightChanges(),
+                                                                       first_registration_id,
                                                                        use_l2_regularization,
                                                                        regularization_strength);
                     next_node = make_shared<NeuralNetworkNode>(c2d);
diff --git a/src/ml/layers/convolution_2d_valid_layer.hpp b/src/ml/layers/convolution_2d_valid_layer.hpp
index f5aca99..2655be2 100644
--- a/src/ml/layers/convolution_2d_valid_layer.hpp
+++ b/src/ml/layers/convolution_2d_valid_layer.hpp
@@ -22,6 +22,8 @@ namespace happyml {
                                    bool use_l2_regularization,
                                    float regularization_strength) {
             this->label = label;
+            // each filter has its own weights, so it needs its own state in the optimizer: filter n uses the id
+            // that is n after the first one.
             this->registration_id = optimizer_registration_id;
             this->inputShape = inputShape;
             this->kernelSize = kernelSize;
@@ -181,7 +183,7 @@ namespace happyml {
             for (size_t outputLayer = 0; outputLayer < filters; outputLayer++) {
                 const auto loss_gradient = materializeTensor(
                         make_shared<ScalarDivideTensorView>(weightChanges[outputLayer], (float) batchSize));
-                const auto adjustedWeights = optimizer->calculateWeightsChange(registration_id,
+                const auto adjustedWeights = optimizer->calculateWeightsChange(registration_id + (int) outputLayer,
                                                                                weights[outputLayer],
                                                                                loss_gradient);
                 weights[outputLayer] = materializeTensor(adjustedWeights, bits);
-- 
2.43.0


From 25227ef5749c06e5c0b26f155e2d191f4832eeae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:41 +0000
Subject: [PATCH 19/91] fix: the derivative of standardising includes the mean
 and the deviation

---
 src/ml/layers/normalization_layer.hpp         | 10 +++--
 .../standardize_derivative_tensor_view.hpp    | 37 +++++++++----------
 2 files changed, 24 insertions(+), 23 deletions(-)

diff --git a/src/ml/layers/normalization_layer.hpp b/src/ml/layers/normalization_layer.hpp
index 199046c..065d90e 100644
--- a/src/ml/layers/normalization_layer.hpp
+++ b/src/ml/layers/normalization_layer.hpp
@@ -30,7 +30,9 @@ namespace happyml {
 
             shared_ptr<StandardizeTensorView> normTensor = make_shared<StandardizeTensorView>(inputTensor);
             if (forTraining) {
-                lastInput = normTensor;
+                lastInput = inputTensor;
+                lastMean = normTensor->get_mean();
+                lastStdDev = normTensor->get_std_dev();
             }
 #ifdef DEBUG_TRAIN_NAN
             if (normTensor->hasNaNOrInf()) {
@@ -48,7 +50,7 @@ namespace happyml {
                 throw runtime_error("No inputs to backpropagate through.");
             }
 
-            shared_ptr<BaseTensor> normDerivativeTensor = make_shared<StandardizeDerivativeTensorView>(output_error, lastInput, lastInput->get_mean(), lastInput->get_std_dev());
+            shared_ptr<BaseTensor> normDerivativeTensor = make_shared<StandardizeDerivativeTensorView>(output_error, lastInput, lastMean, lastStdDev);
 #ifdef DEBUG_TRAIN_NAN
             if (normDerivativeTensor->hasNaNOrInf()) {
                 normDerivativeTensor->print();
@@ -60,7 +62,9 @@ namespace happyml {
         }
 
     private:
-        shared_ptr<StandardizeTensorView> lastInput;
+        shared_ptr<BaseTensor> lastInput;
+        float lastMean = 0.0f;
+        float lastStdDev = 1.0f;
     };
 
 }
diff --git a/src/types/tensor_views/standardize_derivative_tensor_view.hpp b/src/types/tensor_views/standardize_derivative_tensor_view.hpp
index df49a40..4ea56f5 100644
--- a/src/types/tensor_views/standardize_derivative_tensor_view.hpp
+++ b/src/types/tensor_views/standardize_derivative_tensor_view.hpp
@@ -18,28 +18,24 @@ namespace happyml {
     public:
         explicit StandardizeDerivativeTensorView(const shared_ptr<BaseTensor> &d_output, const shared_ptr<BaseTensor> &input, float mean, float std_dev)
                 : BaseTensorUnaryOperatorView(d_output), mean_(mean), std_dev_(std_dev), input_(input) {
-            total_elements_ = input->size();
+            const size_t total_elements = input->size();
+            double d_output_sum = 0.0;
+            double d_output_by_standardized_sum = 0.0;
+            for (size_t element = 0; element < total_elements; ++element) {
+                const double d_output_value = d_output->getValue(element);
+                d_output_sum += d_output_value;
+                d_output_by_standardized_sum += d_output_value * ((input->getValue(element) - mean) / std_dev);
+            }
+            d_output_mean_ = (float) (d_output_sum / (double) total_elements);
+            d_output_by_standardized_mean_ = (float) (d_output_by_standardized_sum / (double) total_elements);
         }
 
         float getValue(size_t row, size_t column, size_t channel) override {
-            // get corresponding values
-            float d_output_value = child_->getValue(row, column, channel);
-            float input_value = input_->getValue(row, column, channel);
-
-            // calculate common part
-            float common = d_output_value / (std_dev_ * (float) total_elements_);
-
-            // calculate three parts of gradient
-            float dx1 = d_output_value / std_dev_;
-            float dx2 = -common * (input_value - mean_);
-
-            // Recompute common with square of difference
-            float diff = input_value - mean_;
-            common = d_output_value * diff / (std_dev_ * std_dev_ * std_dev_ * (float) total_elements_);
-            float dx3 = - (float) total_elements_ * diff * common;
-
-            // return total gradient
-            return dx1 + dx2 + dx3;
+            // every element influences the mean and the standard deviation, and through them every output, so with
+            // s = (x - mean) / std_dev the derivative is (d_output - avg(d_output) - s * avg(d_output * s)) / std_dev
+            const float standardized = (input_->getValue(row, column, channel) - mean_) / std_dev_;
+            return (child_->getValue(row, column, channel) - d_output_mean_
+                    - standardized * d_output_by_standardized_mean_) / std_dev_;
         }
 
         void printMaterializationPlan() override {
@@ -51,7 +47,8 @@ namespace happyml {
         float mean_;
         float std_dev_;
         shared_ptr<BaseTensor> input_;
-        size_t total_elements_;
+        float d_output_mean_;
+        float d_output_by_standardized_mean_;
     };
 }
 
-- 
2.43.0


From 13c40adb420e7ad4b9b669e62e86719c366407b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:41 +0000
Subject: [PATCH 20/91] fix: flattening handles every channel, forward and
 backward

---
 src/ml/happyml_dsl.hpp          |  4 ++--
 src/ml/layers/flatten_layer.hpp | 15 ++++++++++++---
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/ml/happyml_dsl.hpp b/src/ml/happyml_dsl.hpp
index 380b2ee..e478f76 100644
--- a/src/ml/happyml_dsl.hpp
+++ b/src/ml/happyml_dsl.hpp
@@ -418,7 +418,7 @@ namespace happyml {
                 shared_ptr<NeuralNetworkNode> last_node = nullptr;
                 if (node_type == LayerType::full) {
                     auto inputShape = inputShapes[0];
-                    if (inputShape[0] > 1) {
+                    if (inputShape[0] > 1 || inputShape[2] > 1) {
                         auto flatten_node = make_shared<NeuralNetworkNode>(make_shared<FlattenLayer>());
                         last_node = appendNode(last_node, flatten_node);
                     }
@@ -454,7 +454,7 @@ namespace happyml {
                     next_node = make_shared<NeuralNetworkNode>(make_shared<NormalizationLayer>());
                 } else if (node_type == LayerType::dropout) {
                     auto inputShape = inputShapes[0];
-                    if (inputShape[0] > 1) {
+                    if (inputShape[0] > 1 || inputShape[2] > 1) {
                         auto flatten_node = make_shared<NeuralNetworkNode>(make_shared<FlattenLayer>());
                         last_node = appendNode(last_node, flatten_node);
                     }
diff --git a/src/ml/layers/flatten_layer.hpp b/src/ml/layers/flatten_layer.hpp
index 9aab991..2bf8ea6 100644
--- a/src/ml/layers/flatten_layer.hpp
+++ b/src/ml/layers/flatten_layer.hpp
@@ -6,6 +6,8 @@
 #ifndef HAPPYML_FLATTEN_LAYER_HPP
 #define HAPPYML_FLATTEN_LAYER_HPP
 
+#include "../../types/tensor_impls/tensor_from_function.hpp"
+
 
 namespace happyml {
     class FlattenLayer : public BaseLayer {
@@ -18,7 +20,8 @@ namespace happyml {
             const auto &nextInput = input[0];
             originalCols = nextInput->columnCount();
             originalRows = nextInput->rowCount();
-            if (originalRows == 1) {
+            originalChannels = nextInput->channelCount();
+            if (originalRows == 1 && originalChannels == 1) {
                 // This flatten function was added unnecessarily. We could throw an exception.
                 return nextInput;
             }
@@ -27,16 +30,22 @@ namespace happyml {
 
         vector<shared_ptr<BaseTensor>> backward(const shared_ptr<BaseTensor> &output_error) override {
             PROFILE_BLOCK(profileBlock);
-            if (originalRows == output_error->rowCount() && originalCols == output_error->columnCount()) {
+            if (originalRows == output_error->rowCount() && originalCols == output_error->columnCount() &&
+                originalChannels == output_error->channelCount()) {
                 // This flatten function was added unnecessarily. We could throw an exception.
                 return {output_error};
             }
-            return {make_shared<ReshapeTensorView>(output_error, originalRows, originalCols)};
+            const size_t cols = originalCols;
+            const size_t elementsPerChannel = originalRows * originalCols;
+            return {make_shared<TensorFromFunction>([output_error, cols, elementsPerChannel](size_t row, size_t col, size_t channel) {
+                return output_error->getValue(channel * elementsPerChannel + row * cols + col);
+            }, originalRows, originalCols, originalChannels)};
         }
 
     private:
         size_t originalRows{};
         size_t originalCols{};
+        size_t originalChannels{};
     };
 }
 #endif //HAPPYML_FLATTEN_LAYER_HPP
-- 
2.43.0


From e77a08f7efbed03fac0204ddad7fb558625e46fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:43 +0000
Subject: [PATCH 21/91] fix: a concatenation joins its inputs in the order they
 were given

---
 src/ml/happyml_dsl.hpp         | 10 ++++++----
 src/ml/neural_network_node.hpp |  9 +++++++--
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/ml/happyml_dsl.hpp b/src/ml/happyml_dsl.hpp
index e478f76..c024c62 100644
--- a/src/ml/happyml_dsl.hpp
+++ b/src/ml/happyml_dsl.hpp
@@ -272,6 +272,7 @@ namespace happyml {
             struct NNEdge {
                 weak_ptr<NNVertex> from;
                 shared_ptr<NNVertex> to;
+                size_t input_position{}; // which of the inputs of "to" this is
             };
 
             shared_ptr<NNVertex> addOutput(const size_t nodeOutputShape, ActivationType activationType) {
@@ -364,10 +365,11 @@ namespace happyml {
                 return nnv;
             }
 
-            void addEdge(const shared_ptr<NNVertex> &to) {
+            void addEdge(const shared_ptr<NNVertex> &to, size_t input_position = 0) {
                 auto nne = make_shared<NNEdge>();
                 nne->from = shared_from_this();
                 nne->to = to;
+                nne->input_position = input_position;
                 edges.push_back(nne);
             }
 
@@ -522,7 +524,7 @@ namespace happyml {
                 for (const auto &edge: edges) {
                     edgeMetadata.push_back(asString(edge->to->getVertexUniqueId()));
                     auto childNode = edge->to->buildLayer(nn, networkMetadata);
-                    last_node->add(childNode);
+                    last_node->add(childNode, edge->input_position);
                 }
                 if (edgeMetadata.size() > 2) {
                     networkMetadata.push_back(edgeMetadata);
@@ -769,8 +771,8 @@ namespace happyml {
                                                       LayerType::concatenate, input_shapes,
                                                       concat_shape_vector, nextVertexId());
             // connect the input receptors to the concatenator:
-            for (auto &inputReceptor: previous_layers) {
-                inputReceptor->addEdge(concatenator);
+            for (size_t input_position = 0; input_position < previous_layers.size(); input_position++) {
+                previous_layers[input_position]->addEdge(concatenator, input_position);
             }
             // add the dense layer (we only support one layer type right now) that the user asked for:
             return concatenator;
diff --git a/src/ml/neural_network_node.hpp b/src/ml/neural_network_node.hpp
index f3eebcb..89aad51 100644
--- a/src/ml/neural_network_node.hpp
+++ b/src/ml/neural_network_node.hpp
@@ -288,7 +288,9 @@ namespace happyml {
         };
 
 
-        shared_ptr<NeuralNetworkNode> add(const shared_ptr<NeuralNetworkNode> &child) {
+        // The order of the inputs matters to a child that has more than one, and it isn't necessarily the order in which
+        // they are connected.
+        shared_ptr<NeuralNetworkNode> add(const shared_ptr<NeuralNetworkNode> &child, size_t input_position = 0) {
             auto connection = make_shared<NeuralNetworkConnection>();
             // Avoid memory leaks created by circular strong reference chains.
             // We strongly own objects from the start of the graph toward the end,
@@ -296,7 +298,10 @@ namespace happyml {
             connection->to = child; // strong reference to child
             connectionOutputs.push_back(connection); // strong reference to connection to child
             connection->from = shared_from_this(); // weak reference to parent
-            child->connectionInputs.push_back(connection); // weak reference to connection from parent
+            if (child->connectionInputs.size() <= input_position) {
+                child->connectionInputs.resize(input_position + 1);
+            }
+            child->connectionInputs[input_position] = connection; // weak reference to connection from parent
             connection->next_input = nullptr;
             return child; // this lets us chain together calls in a builder format.
         }
-- 
2.43.0


From d3e9cf67260666236edd28119d255482e58632c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:55 +0000
Subject: [PATCH 22/91] fix: a concatenation keeps the rows and channels of its
 inputs

---
 src/ml/happyml_dsl.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ml/happyml_dsl.hpp b/src/ml/happyml_dsl.hpp
index c024c62..a61216a 100644
--- a/src/ml/happyml_dsl.hpp
+++ b/src/ml/happyml_dsl.hpp
@@ -766,7 +766,8 @@ namespace happyml {
                 total_input_width += layer->getOutputShape()[1];
                 input_shapes.push_back(layer->getOutputShape());
             }
-            vector<size_t> concat_shape_vector = {1, total_input_width, 1};
+            // the concatenation is wide: the rows and channels are those of any of the layers
+            vector<size_t> concat_shape_vector = {input_shapes[0][0], total_input_width, input_shapes[0][2]};
             auto concatenator = make_shared<NNVertex>(shared_from_this(),
                                                       LayerType::concatenate, input_shapes,
                                                       concat_shape_vector, nextVertexId());
-- 
2.43.0


From 9d884e5e5418d198ac7e9143f957410e3d689e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:55 +0000
Subject: [PATCH 23/91] fix: the training loss of an epoch is the average over
 its records

---
 src/ml/neural_network.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ml/neural_network.hpp b/src/ml/neural_network.hpp
index 1f68fe6..b78cebe 100644
--- a/src/ml/neural_network.hpp
+++ b/src/ml/neural_network.hpp
@@ -493,7 +493,8 @@ namespace happyml {
                             outputNodes[outputIndex]->apply(optimizer, applied);
                         }
                         batchLoss /= (float) batchOffset;
-                        epochTrainingLoss += (batchLoss - epochTrainingLoss) / (float) currentBatch;
+                        // the last batch may be smaller than the others, so each counts by its number of records
+                        epochTrainingLoss += (batchLoss - epochTrainingLoss) * (float) batchOffset / (float) current_record;
                         batchLoss = 0.f;
 
                         auto elapsedTime = batchTimer.peekMilliseconds();
-- 
2.43.0


From 0e350a07caa70f8e60aeaef7e92af22e30a8aa6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:55 +0000
Subject: [PATCH 24/91] fix: the time limit of training is for the whole
 training, not one epoch

---
 src/ml/neural_network.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ml/neural_network.hpp b/src/ml/neural_network.hpp
index b78cebe..f3169d8 100644
--- a/src/ml/neural_network.hpp
+++ b/src/ml/neural_network.hpp
@@ -557,7 +557,7 @@ namespace happyml {
                 }
                 trainingDataset->restart();
                 epoch++;
-                trainingElapsedTimeInMilliseconds = epochTimer.getMilliseconds();
+                trainingElapsedTimeInMilliseconds = epochTimer.peekMilliseconds();
             } while (!exitStrategy->isDone(epoch, epochTestingLoss, trainingElapsedTimeInMilliseconds));
 
             if (!silentMode) {
-- 
2.43.0


From fa13e8a3de22839bf40b3ce5f1a55aa692e1fcc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:55 +0000
Subject: [PATCH 25/91] fix: a batch size of zero is an error

---
 src/ml/neural_network.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ml/neural_network.hpp b/src/ml/neural_network.hpp
index f3169d8..22a364e 100644
--- a/src/ml/neural_network.hpp
+++ b/src/ml/neural_network.hpp
@@ -422,6 +422,9 @@ namespace happyml {
                 //  set. If they are, give a warning.
             }
             auto total_records = trainingDataset->recordCount();
+            if (batchSize < 1) {
+                throw runtime_error("Batch Size must be at least 1.");
+            }
             if (batchSize > total_records) {
                 throw runtime_error("Batch Size cannot be larger than trainingDataset data set.");
             }
-- 
2.43.0


From 01bd98765dd2e77fe73c811738a58f884e6d178a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:55 +0000
Subject: [PATCH 26/91] fix: binary accuracy compares every value of every
 output

---
 src/ml/neural_network.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ml/neural_network.hpp b/src/ml/neural_network.hpp
index 22a364e..cae5703 100644
--- a/src/ml/neural_network.hpp
+++ b/src/ml/neural_network.hpp
@@ -299,7 +299,7 @@ namespace happyml {
                 for (int i = 0; i < testDataset->getExpectedShapes().size(); i++) {
                     auto best_prediction = prediction[i];
                     auto best_actual = actual[i];
-                    for (int j = 0; j < prediction.size(); j++) {
+                    for (size_t j = 0; j < best_actual->size(); j++) {
                         if (!roughlyEqual(std::round(best_prediction->getValue(j)), std::round(best_actual->getValue(j)))) {
                             matched_all = false;
                             break;
-- 
2.43.0


From 1ed94234b461b160366770d5ddbf12ac6111d928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:18 +0000
Subject: [PATCH 27/91] fix: a training result describes the model that is
 returned

---
 src/ml/neural_network.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/ml/neural_network.hpp b/src/ml/neural_network.hpp
index cae5703..5558bb8 100644
--- a/src/ml/neural_network.hpp
+++ b/src/ml/neural_network.hpp
@@ -539,16 +539,13 @@ namespace happyml {
                         if (lowestLoss < result->final_test_loss) {
                             result->generalized = result->trained;
                             result->final_test_loss = lowestLoss;
-                            result->epochs = lowestLossEpoch;
+                            result->epochs = lowestLossEpoch + 1;
                             result->training_time_ms = totalTimer.peekMilliseconds();
                         }
                         saveKnowledge(knowledgeCheckpointLabel, true);
                     } else {
                         if (lowestLoss < result->final_test_loss) {
                             result->generalized = result->trained;
-                            result->final_test_loss = epochTestingLoss;
-                            result->epochs = epoch;
-                            result->training_time_ms = totalTimer.peekMilliseconds();
                         }
                     }
                     if (!silentMode) {
@@ -558,6 +555,12 @@ namespace happyml {
                                     overwriteOutputLines);
                     }
                 }
+                if (trainingRetentionPolicy != best) {
+                    // the model that is returned is the one of the last epoch
+                    result->final_test_loss = epochTestingLoss;
+                    result->epochs = epoch + 1;
+                    result->training_time_ms = totalTimer.peekMilliseconds();
+                }
                 trainingDataset->restart();
                 epoch++;
                 trainingElapsedTimeInMilliseconds = epochTimer.peekMilliseconds();
@@ -574,9 +577,6 @@ namespace happyml {
                 } else {
                     cout << (elapsed / 60000) << " minutes." << endl;
                 }
-                if (result->epochs == 0) {
-                    result->epochs = epoch;
-                }
                 print_model_facts();
                 cout << "Trained with " << trainingDataset->recordCount() << " records." << endl;
             }
-- 
2.43.0


From f4ee5866ef5446150f038dcd7bf7ee245becbb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:18 +0000
Subject: [PATCH 28/91] fix: a network can be trained again with the same exit
 strategy

---
 src/ml/exit_strategy.hpp  | 8 ++++++++
 src/ml/neural_network.hpp | 1 +
 2 files changed, 9 insertions(+)

diff --git a/src/ml/exit_strategy.hpp b/src/ml/exit_strategy.hpp
index b4d0485..49fd7b4 100644
--- a/src/ml/exit_strategy.hpp
+++ b/src/ml/exit_strategy.hpp
@@ -25,6 +25,9 @@ namespace happyml {
 
     class ExitStrategy {
     public:
+        // called when a training starts, so that one strategy can be used for several trainings
+        virtual void start() {}
+
         virtual bool isDone(size_t currentEpoch, float loss, int64_t trainingElapsedTimeInMilliseconds) = 0;
 
         virtual string whyDone(size_t currentEpoch, float loss, int64_t trainingElapsedTimeInMilliseconds) = 0;
@@ -59,6 +62,11 @@ namespace happyml {
             lowestLoss = INFINITY;
         }
 
+        void start() override {
+            lowestLossEpoch = 0;
+            lowestLoss = INFINITY;
+        }
+
         bool isDone(size_t currentEpoch, float loss, int64_t trainingElapsedTimeInMilliseconds) override {
             if (loss + improvementTolerance <= lowestLoss) {
                 lowestLoss = min(loss, lowestLoss);
diff --git a/src/ml/neural_network.hpp b/src/ml/neural_network.hpp
index 5558bb8..67f7f9a 100644
--- a/src/ml/neural_network.hpp
+++ b/src/ml/neural_network.hpp
@@ -445,6 +445,7 @@ namespace happyml {
             if (!silentMode) {
                 logTraining(0, 0, 0, ceil(total_records / batchSize), batchSize, 0, 0, 0, overwriteOutputLines);
             }
+            exitStrategy->start();
             size_t epoch = 0;
             ElapsedTimer epochTimer;
             float epochTrainingLoss;
-- 
2.43.0


From 1a200c9b47e59805f18adc596c936995cf29c872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:04 +0000
Subject: [PATCH 29/91] fix: a model saved beside another has its knowledge in
 its own folder

---
 src/ml/neural_network.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ml/neural_network.hpp b/src/ml/neural_network.hpp
index 67f7f9a..508fb84 100644
--- a/src/ml/neural_network.hpp
+++ b/src/ml/neural_network.hpp
@@ -238,7 +238,7 @@ namespace happyml {
                 writer->writeRecord(record);
             }
             writer->close();
-            saveKnowledge(modelFolderPath, "default", overwrite);
+            saveKnowledge(modelPath, "default", overwrite);
         }
 
         void saveKnowledgeWithOverwrite(const string &knowledgeLabel) {
-- 
2.43.0


From 19245999c482caa228e0774790abb845bfa36a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:04 +0000
Subject: [PATCH 30/91] fix: saving without overwriting a model may use an
 empty folder

---
 src/ml/neural_network.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ml/neural_network.hpp b/src/ml/neural_network.hpp
index 508fb84..84d8a83 100644
--- a/src/ml/neural_network.hpp
+++ b/src/ml/neural_network.hpp
@@ -212,7 +212,8 @@ namespace happyml {
 
         void saveAs(const string &modelFolderPath, bool overwrite) {
             auto modelPath = modelFolderPath;
-            if (filesystem::is_directory(modelPath)) {
+            // an empty folder (training leaves one behind when it has removed its checkpoint) isn't a model
+            if (filesystem::is_directory(modelPath) && !filesystem::is_empty(modelPath)) {
                 if (!overwrite) {
                     // I don't want to throw an exception here since training a model can take a long time
                     // and people would be upset about losing their work, so we'll just save to a new location.
-- 
2.43.0


From f350cfb52a26f3c266d47f04c9fed86425346056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:42 +0000
Subject: [PATCH 31/91] fix: a loaded model has its vertexes, edges, and
 concatenated inputs in their original order

---
 src/ml/happyml_dsl.hpp | 151 ++++++++++++++++++-----------------------
 1 file changed, 67 insertions(+), 84 deletions(-)

diff --git a/src/ml/happyml_dsl.hpp b/src/ml/happyml_dsl.hpp
index a61216a..8f9f83e 100644
--- a/src/ml/happyml_dsl.hpp
+++ b/src/ml/happyml_dsl.hpp
@@ -365,6 +365,10 @@ namespace happyml {
                 return nnv;
             }
 
+            void setConcatenatedVertexIds(const vector<uint32_t> &vertexIds) {
+                this->concatenatedVertexIds = vertexIds;
+            }
+
             void addEdge(const shared_ptr<NNVertex> &to, size_t input_position = 0) {
                 auto nne = make_shared<NNEdge>();
                 nne->from = shared_from_this();
@@ -414,6 +418,9 @@ namespace happyml {
                 metadata_row.push_back(asString(getNormClippingThreshold()));
                 metadata_row.push_back(asString(getDropoutRate()));
                 metadata_row.push_back(asString(regularization_strength));
+                for (auto inputVertexId: concatenatedVertexIds) {
+                    metadata_row.push_back(asString(inputVertexId));
+                }
                 networkMetadata.push_back(metadata_row);
                 shared_ptr<BaseOptimizer> optimizer = nn->getOptimizer();
                 shared_ptr<NeuralNetworkNode> next_node;
@@ -673,6 +680,7 @@ namespace happyml {
             uint32_t vertexUniqueId;
             float dropout_rate;
             float regularization_strength;
+            vector<uint32_t> concatenatedVertexIds; // the inputs of a concatenate layer, in order
         };
 
         shared_ptr<NNVertex> addInputLayer(const size_t input_shape, const size_t output_shape, LayerType layerType,
@@ -772,9 +780,12 @@ namespace happyml {
                                                       LayerType::concatenate, input_shapes,
                                                       concat_shape_vector, nextVertexId());
             // connect the input receptors to the concatenator:
+            vector<uint32_t> vertex_ids;
             for (size_t input_position = 0; input_position < previous_layers.size(); input_position++) {
                 previous_layers[input_position]->addEdge(concatenator, input_position);
+                vertex_ids.push_back(previous_layers[input_position]->getVertexUniqueId());
             }
+            concatenator->setConcatenatedVertexIds(vertex_ids);
             // add the dense layer (we only support one layer type right now) that the user asked for:
             return concatenator;
         }
@@ -800,51 +811,51 @@ namespace happyml {
         return neuralNetworkBuilder(adam);
     }
 
+    // Vertexes have to be created in the order of their ids, because that is the order in which they were created originally.
+    // Their ids (which name their knowledge), the order of their edges, and the order of the outputs all depend on it.
     void createVertexFromMetadata(const shared_ptr<HappymlDSL> &dsl,
                                   const vector<string> &vertexMetadata,
-                                  const shared_ptr<HappymlDSL::NNVertex> &parent,
                                   map<uint32_t, shared_ptr<HappymlDSL::NNVertex>> &createdVertexes,
-                                  map<uint32_t, vector<string>> &vertexes,
-                                  map<uint32_t, vector<uint32_t>> &edgeFromTo) {
+                                  const map<uint32_t, vector<uint32_t>> &edgeFromTo) {
         // "vertex", id, is input, is output, node type, activation type, materialized, uses bias, bits,
-        // input rows, input columns, input channels, output rows, output columns, output channels, filters, kernels
-        const uint32_t vertexId = stoul(vertexMetadata[1]);
-        const auto acceptsInput = asBool(vertexMetadata[2]);
-        const bool producesOutput = asBool(vertexMetadata[3]);
-        const LayerType layerType = stringToNodeType(vertexMetadata[4]);
-        const ActivationType activationType = stringToActivationType(vertexMetadata[5]);
-        const bool isMaterialized = asBool(vertexMetadata[6]);
-        const bool useBias = asBool(vertexMetadata[7]);
-        const uint8_t bits = stoul(vertexMetadata[8]);
-        const size_t number_of_inputs = stoull(vertexMetadata[9]);
+        // input rows, input columns, input channels, output rows, output columns, output channels, filters, kernels...
+        const uint32_t vertexId = stoul(vertexMetadata.at(1));
+        const auto acceptsInput = asBool(vertexMetadata.at(2));
+        const bool producesOutput = asBool(vertexMetadata.at(3));
+        const LayerType layerType = stringToNodeType(vertexMetadata.at(4));
+        const ActivationType activationType = stringToActivationType(vertexMetadata.at(5));
+        const bool isMaterialized = asBool(vertexMetadata.at(6));
+        const bool useBias = asBool(vertexMetadata.at(7));
+        const uint8_t bits = stoul(vertexMetadata.at(8));
+        const size_t number_of_inputs = stoull(vertexMetadata.at(9));
         size_t current_metadata_offset = 10;
         vector<vector<size_t>> inputShapes;
         for (size_t i = 0; i < number_of_inputs; ++i) {
-            const vector<size_t> inputShape = {stoull(vertexMetadata[current_metadata_offset]),
-                                               stoull(vertexMetadata[current_metadata_offset + 1]),
-                                               stoull(vertexMetadata[current_metadata_offset + 2])};
+            const vector<size_t> inputShape = {stoull(vertexMetadata.at(current_metadata_offset)),
+                                               stoull(vertexMetadata.at(current_metadata_offset + 1)),
+                                               stoull(vertexMetadata.at(current_metadata_offset + 2))};
             inputShapes.push_back(inputShape);
             current_metadata_offset += 3;
         }
-        const vector<size_t> outputShape = {stoull(vertexMetadata[current_metadata_offset]),
-                                            stoull(vertexMetadata[current_metadata_offset + 1]),
-                                            stoull(vertexMetadata[current_metadata_offset + 2])};
+        const vector<size_t> outputShape = {stoull(vertexMetadata.at(current_metadata_offset)),
+                                            stoull(vertexMetadata.at(current_metadata_offset + 1)),
+                                            stoull(vertexMetadata.at(current_metadata_offset + 2))};
         current_metadata_offset += 3;
-        size_t filters = stoull(vertexMetadata[current_metadata_offset]);
+        size_t filters = stoull(vertexMetadata.at(current_metadata_offset));
         current_metadata_offset++;
-        size_t kernels = stoull(vertexMetadata[current_metadata_offset]);
+        size_t kernels = stoull(vertexMetadata.at(current_metadata_offset));
         current_metadata_offset++;
-        bool use_l2_regularization = asBool(vertexMetadata[current_metadata_offset]);
+        bool use_l2_regularization = asBool(vertexMetadata.at(current_metadata_offset));
         current_metadata_offset++;
-        bool use_normalization = asBool(vertexMetadata[current_metadata_offset]);
+        bool use_normalization = asBool(vertexMetadata.at(current_metadata_offset));
         current_metadata_offset++;
-        bool use_clipping = asBool(vertexMetadata[current_metadata_offset]);
+        bool use_clipping = asBool(vertexMetadata.at(current_metadata_offset));
         current_metadata_offset++;
-        float clipping_threshold = stof(vertexMetadata[current_metadata_offset]);
+        float clipping_threshold = stof(vertexMetadata.at(current_metadata_offset));
         current_metadata_offset++;
-        float dropout_rate = stof(vertexMetadata[current_metadata_offset]);
+        float dropout_rate = stof(vertexMetadata.at(current_metadata_offset));
         current_metadata_offset++;
-        float regularization_strength = stof(vertexMetadata[current_metadata_offset]);
+        float regularization_strength = stof(vertexMetadata.at(current_metadata_offset));
         current_metadata_offset++;
 
         if (acceptsInput) {
@@ -869,35 +880,30 @@ namespace happyml {
                 }
             }
         } else {
-            if (!parent) {
-                throw runtime_error("missing parent");
+            // the inputs, in the order of their ids
+            vector<shared_ptr<HappymlDSL::NNVertex>> parents;
+            for (const auto &edge_pair: edgeFromTo) {
+                for (const auto edge_to_id: edge_pair.second) {
+                    if (edge_to_id == vertexId) {
+                        parents.push_back(createdVertexes.at(edge_pair.first));
+                    }
+                }
             }
+            if (parents.size() != number_of_inputs || parents.empty()) {
+                throw runtime_error("Bad model definition. Missing edge to vertex " + asString(vertexId) + ".");
+            }
+            const auto parent = parents[0];
 
             if (layerType == concatenate) {
-                // a concatenated layer has multiple parents.
-
-                // because layers are in the order they were originally created and the concatenation
-                // layer is last, if we are at this point, all parents should exist, we just need to find them
-                // I think the parent order should also be maintained
-                bool all_parents_exist = true;
-                vector<shared_ptr<HappymlDSL::NNVertex>> all_parents;
-                for (const auto &edge_pair: edgeFromTo) {
-                    auto edge_to_ids = edge_pair.second;
-                    // if edge_to_ids contains vertexId, then we need to add the parent to the concatenated layer
-                    if (std::find(edge_to_ids.begin(), edge_to_ids.end(), vertexId) != edge_to_ids.end()) {
-                        auto edge_from_id = edge_pair.first;
-                        if (createdVertexes.count(edge_from_id) == 0) {
-                            all_parents_exist = false;
-                            break;
-                        }
-                        auto edge_from_vertex = createdVertexes[edge_from_id];
-                        all_parents.push_back(edge_from_vertex);
+                // the rest of the fields are the ids of the inputs in the order in which they are concatenated
+                // (older models don't have them)
+                if (current_metadata_offset < vertexMetadata.size()) {
+                    parents.clear();
+                    for (; current_metadata_offset < vertexMetadata.size(); current_metadata_offset++) {
+                        parents.push_back(createdVertexes.at(stoul(vertexMetadata[current_metadata_offset])));
                     }
                 }
-                if (!all_parents_exist) {
-                    return;
-                }
-                createdVertexes[vertexId] = dsl->add_concatenated_layer(all_parents);
+                createdVertexes[vertexId] = dsl->add_concatenated_layer(parents);
             } else if (filters > 0) {
                 createdVertexes[vertexId] = parent->addLayer(filters,
                                                              kernels,
@@ -925,20 +931,8 @@ namespace happyml {
         createdVertexes[vertexId]->setUseNormClipping(use_clipping); // set this second because it could disable clipping if required
         createdVertexes[vertexId]->setDropoutRate(dropout_rate);
 
-        if (edgeFromTo.count(vertexId) > 0) {
-            auto edges = edgeFromTo[vertexId];
-            for (auto nextEdge: edges) {
-                if (vertexes.count(nextEdge) < 1) {
-                    throw runtime_error("Bad model definition. Edge not found!");
-                }
-                auto nextVertexMetadata = vertexes[nextEdge];
-                createVertexFromMetadata(dsl,
-                                         nextVertexMetadata,
-                                         createdVertexes[vertexId],
-                                         createdVertexes,
-                                         vertexes,
-                                         edgeFromTo);
-            }
+        if (createdVertexes[vertexId]->getVertexUniqueId() != vertexId) {
+            throw runtime_error("Bad model definition. Vertex " + asString(vertexId) + " is out of sequence.");
         }
     }
 
@@ -953,45 +947,40 @@ namespace happyml {
         if (optimizerRecord[0] != "optimizer") {
             throw runtime_error("Invalid model.config missing optimizer field.");
         }
-        const OptimizerType optimizerType = stringToOptimizerType(optimizerRecord[1]);
+        const OptimizerType optimizerType = stringToOptimizerType(optimizerRecord.at(1));
 
         auto learningRateRecord = configReader->nextRecord();
         if (learningRateRecord[0] != "learningRate") {
             throw runtime_error("Invalid model.config missing learningRate field.");
         }
-        float learningRate = stof(learningRateRecord[1]);
+        float learningRate = stof(learningRateRecord.at(1));
 
         auto biasLearningRateRecord = configReader->nextRecord();
         if (biasLearningRateRecord[0] != "biasLearningRate") {
             throw runtime_error("Invalid model.config missing biasLearningRate field.");
         }
-        float biasLearningRate = stof(biasLearningRateRecord[1]);
+        float biasLearningRate = stof(biasLearningRateRecord.at(1));
 
         auto lossRecord = configReader->nextRecord();
         if (lossRecord[0] != "loss") {
             throw runtime_error("Invalid model.config missing loss field.");
         }
-        const LossType lossType = stringToLossType(lossRecord[1]);
+        const LossType lossType = stringToLossType(lossRecord.at(1));
 
         auto dsl = neuralNetworkBuilder(optimizerType, modelName, repoRootPath)
                 ->setLossFunction(lossType)
                 ->setLearningRate(learningRate)
                 ->setBiasLearningRate(biasLearningRate);
 
-        set<uint32_t> headVertexes;
         map<uint32_t, vector<string>> vertexes;
         map<uint32_t, vector<uint32_t>> edgeFromTo;
         while (configReader->hasNext()) {
             auto nextRecord = configReader->nextRecord();
             if (nextRecord[0] == "vertex") {
-                uint32_t vertexId = stoul(nextRecord[1]);
+                uint32_t vertexId = stoul(nextRecord.at(1));
                 vertexes[vertexId] = nextRecord;
-                const auto acceptsInput = asBool(nextRecord[2]);
-                if (acceptsInput) {
-                    headVertexes.insert(vertexId);
-                }
             } else {
-                uint32_t fromLabel = stoul(nextRecord[1]);
+                uint32_t fromLabel = stoul(nextRecord.at(1));
                 vector<uint32_t> toLabels;
                 for (size_t index = 2; index < nextRecord.size(); index++) {
                     uint32_t toLabel = stoul(nextRecord[index]);
@@ -1001,14 +990,8 @@ namespace happyml {
             }
         }
         map<uint32_t, shared_ptr<HappymlDSL::NNVertex>> createdVertexes;
-        for (auto headVertexId: headVertexes) {
-            auto vertexMetadata = vertexes[headVertexId];
-            createVertexFromMetadata(dsl,
-                                     vertexMetadata,
-                                     nullptr,
-                                     createdVertexes,
-                                     vertexes,
-                                     edgeFromTo);
+        for (const auto &vertex: vertexes) {
+            createVertexFromMetadata(dsl, vertex.second, createdVertexes, edgeFromTo);
         }
 
         auto resultNeuralNetwork = dsl->build();
-- 
2.43.0


From 4853268dceacff1817b420bc1d555f53eb7365d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:42 +0000
Subject: [PATCH 32/91] fix: a dropout layer uses the rate it is given

---
 src/ml/happyml_dsl.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ml/happyml_dsl.hpp b/src/ml/happyml_dsl.hpp
index 8f9f83e..c50c17c 100644
--- a/src/ml/happyml_dsl.hpp
+++ b/src/ml/happyml_dsl.hpp
@@ -340,6 +340,7 @@ namespace happyml {
                                                  this->outputShape,
                                                  false, false,
                                                  ActivationType::linear, parentObject->nextVertexId());
+                nnv->setDropoutRate(dropout_rate);
                 addEdge(nnv);
                 return nnv;
             }
-- 
2.43.0


From b76c0bcbe9990ad7ecef3c2c282646a3f0902f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:42 +0000
Subject: [PATCH 33/91] fix: a dropout layer keeps the shape of its input

---
 src/ml/happyml_dsl.hpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/ml/happyml_dsl.hpp b/src/ml/happyml_dsl.hpp
index c50c17c..674a81b 100644
--- a/src/ml/happyml_dsl.hpp
+++ b/src/ml/happyml_dsl.hpp
@@ -464,10 +464,6 @@ namespace happyml {
                     next_node = make_shared<NeuralNetworkNode>(make_shared<NormalizationLayer>());
                 } else if (node_type == LayerType::dropout) {
                     auto inputShape = inputShapes[0];
-                    if (inputShape[0] > 1 || inputShape[2] > 1) {
-                        auto flatten_node = make_shared<NeuralNetworkNode>(make_shared<FlattenLayer>());
-                        last_node = appendNode(last_node, flatten_node);
-                    }
                     string dropoutNodeLabel = asString(vertexUniqueId) + "_dropout";
                     next_node = make_shared<NeuralNetworkNode>(make_shared<DropoutLayer>(dropoutNodeLabel, inputShape, dropout_rate));
                 } else if (node_type == LayerType::convolution2dValid) {
-- 
2.43.0


From 44499a569578b9fb9841554ad27813c5358acb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:42 +0000
Subject: [PATCH 34/91] fix: dropout scales what it keeps in training and
 nothing in predictions

---
 src/ml/layers/dropout_layer.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ml/layers/dropout_layer.hpp b/src/ml/layers/dropout_layer.hpp
index 5876c1f..f3850cb 100644
--- a/src/ml/layers/dropout_layer.hpp
+++ b/src/ml/layers/dropout_layer.hpp
@@ -26,16 +26,17 @@ namespace happyml {
                 seed_seq_++;
                 shared_ptr < BaseTensor > random_tensor = make_shared<TensorFromRandom>(input[0]->getShape(), 0.0f, 1.0f, seed_seq_);
                 shared_ptr < BaseTensor > zeros = make_shared<UniformTensor>(input[0]->getShape(), 0.0f);
-                shared_ptr < BaseTensor > ones = make_shared<UniformTensor>(input[0]->getShape(), 1.0f);
+                shared_ptr < BaseTensor > kept = make_shared<UniformTensor>(input[0]->getShape(), forward_scale_);
 
                 // Populate dropout_mask_ with random values from a uniform distribution between 0 and 1
-                // then set to 1 if value > dropout_rate_, else 0
-                dropout_mask_ = make_shared<MaskedSelectTensorView>(random_tensor, ones, zeros, dropout_rate_);
+                // then set to 1 / (1 - dropout_rate_) if value > dropout_rate_, else 0
+                // scaling what is kept makes the expected value the same as without dropout, which is what predictions use
+                dropout_mask_ = make_shared<MaskedSelectTensorView>(random_tensor, kept, zeros, dropout_rate_);
 
                 // Multiply input by dropout_mask_
                 return make_shared<ElementWiseMultiplyTensorView>(input[0], dropout_mask_);
             }
-            return make_shared<ElementWiseMultiplyTensorView>(input[0], make_shared<UniformTensor>(input[0]->getShape(), forward_scale_));
+            return input[0];
         }
 
         std::vector<std::shared_ptr<BaseTensor>> backward(const std::shared_ptr<BaseTensor> &output_error) override {
-- 
2.43.0


From 3c20f491859003049dc2f24842e1515f5bc0c892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:25 +0000
Subject: [PATCH 35/91] fix: inputs that could not be processed are not mixed
 with later ones

---
 src/ml/neural_network_node.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ml/neural_network_node.hpp b/src/ml/neural_network_node.hpp
index 89aad51..b138905 100644
--- a/src/ml/neural_network_node.hpp
+++ b/src/ml/neural_network_node.hpp
@@ -161,10 +161,11 @@ namespace happyml {
                 }
                 inputs.push_back(lockedInput->next_input);
             }
-            doForward(inputs, forTraining);
+            // the inputs are used up, even when they turn out to be unusable, so that they aren't mixed with later ones
             for (const auto &input: connectionInputs) {
                 input.lock()->next_input = nullptr;
             }
+            doForward(inputs, forTraining);
         }
 
         vector<shared_ptr<BaseTensor>> clip(const vector<shared_ptr<BaseTensor>> &errors_from_backward) {
-- 
2.43.0


From d2bcbee547be47b5170e688798f10e197edb8681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:51 +0000
Subject: [PATCH 36/91] fix: text that was not escaped by us is read unchanged

---
 src/util/text_encoder_decoder.hpp | 38 +++++++++++--------------------
 1 file changed, 13 insertions(+), 25 deletions(-)

diff --git a/src/util/text_encoder_decoder.hpp b/src/util/text_encoder_decoder.hpp
index ba58896..460eafe 100644
--- a/src/util/text_encoder_decoder.hpp
+++ b/src/util/text_encoder_decoder.hpp
@@ -34,32 +34,20 @@ namespace happyml {
         static string decodeString(const string &str, const char delimiter) {
             stringstream decoded;
             for (size_t i = 0; i < str.size(); ++i) {
-                if (str[i] == '<' && i + 2 < str.size()) {
-                    ++i;
-                    if (str[i] == '_') {
-                        ++i;
-                        if (str[i] == '<') {
-                            decoded << '<';
-                        } else if (str[i] == '_') {
-                            decoded << "<_";
-                        } else {
-                            decoded << '<' << str[i];
-                        }
-                    } else if (str[i] == '~' && i + 2 < str.size()) {
-                        ++i;
-                        if (str[i] == 'D' && str[i + 1] == '>') {
-                            decoded << delimiter;
-                            ++i; // Move past the '>'
-                        } else if (str[i] == 'N' && str[i + 1] == '>') {
-                            decoded << '\n';
-                            ++i; // Move past the '>'
-                        } else {
-                            decoded << '<' << str[i];
-                        }
-                    } else {
-                        decoded << '<' << str[i];
-                    }
+                if (str.compare(i, 3, "<_<") == 0) {
+                    decoded << '<';
+                    i += 2;
+                } else if (str.compare(i, 3, "<__") == 0) {
+                    decoded << "<_";
+                    i += 2;
+                } else if (str.compare(i, 4, "<~D>") == 0) {
+                    decoded << delimiter;
+                    i += 3;
+                } else if (str.compare(i, 4, "<~N>") == 0) {
+                    decoded << '\n';
+                    i += 3;
                 } else {
+                    // anything else wasn't escaped by us and is what it looks like
                     decoded << str[i];
                 }
             }
-- 
2.43.0


From 73b0c1fe3ee8cba61a8e0e0235c60f9e6f1d93d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:51 +0000
Subject: [PATCH 37/91] fix: text that merely begins with a number is not a
 number

---
 src/training_data/data_encoder.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/training_data/data_encoder.hpp b/src/training_data/data_encoder.hpp
index f23d72d..352f2ef 100644
--- a/src/training_data/data_encoder.hpp
+++ b/src/training_data/data_encoder.hpp
@@ -48,7 +48,7 @@ namespace happyml {
         float value = 0.0f;
         if (!text.empty()) {
             auto [ptr, error_check] = std::from_chars(text.data(), text.data() + text.size(), value);
-            if (error_check != std::errc()) {
+            if (error_check != std::errc() || ptr != text.data() + text.size()) {
                 string message = "Couldn't convert text to float: " + text;
                 throw runtime_error(message.c_str());
             }
@@ -58,13 +58,15 @@ namespace happyml {
 
     bool stringToFloat(const string &text, float &value) {
         auto [ptr, error_check] = std::from_chars(text.data(), text.data() + text.size(), value);
-        return error_check == std::errc();
+        // text that merely begins with a number isn't a number
+        return error_check == std::errc() && ptr == text.data() + text.size();
     }
 
     bool isFloat(const string &text) {
         float value = 0.0;
         auto [ptr, error_check] = std::from_chars(text.data(), text.data() + text.size(), value);
-        return error_check == std::errc();
+        // text that merely begins with a number isn't a number
+        return error_check == std::errc() && ptr == text.data() + text.size();
     }
 
     class HappyMLVariantEncoder {
-- 
2.43.0


From 8be28e03d566f0940ecac357a4f86e09be1a2dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:51 +0000
Subject: [PATCH 38/91] fix: quotes that are part of a field are kept

---
 src/util/file_reader.hpp | 6 ------
 src/util/file_writer.hpp | 7 +------
 2 files changed, 1 insertion(+), 12 deletions(-)

diff --git a/src/util/file_reader.hpp b/src/util/file_reader.hpp
index 68beaa9..46d1820 100644
--- a/src/util/file_reader.hpp
+++ b/src/util/file_reader.hpp
@@ -183,12 +183,6 @@ namespace happyml {
 
         string decode(string &current_word) const {
             auto stripped_column = strip(current_word);
-            auto stripped_column_length = stripped_column.length();
-            if (stripped_column_length > 0 && stripped_column[0] == '"' &&
-                stripped_column[stripped_column_length - 1] == '"') {
-                stripped_column = stripped_column.substr(1, stripped_column_length - 2);
-            }
-            string_replace_all(stripped_column, "\"\"", "\"");
             stripped_column = TextEncoderDecoder::decodeString(stripped_column, delimiter_);
             return stripped_column;
         }
diff --git a/src/util/file_writer.hpp b/src/util/file_writer.hpp
index 5f3d66b..d954916 100644
--- a/src/util/file_writer.hpp
+++ b/src/util/file_writer.hpp
@@ -74,12 +74,7 @@ namespace happyml {
                 auto stripped_column = strip(column);
                 auto stripped_column_length = stripped_column.length();
                 if (stripped_column_length > 0) {
-                    if (stripped_column[0] == '\"' && stripped_column[stripped_column_length - 1] == '\"') {
-                        stripped_column = stripped_column.substr(1, stripped_column_length - 2);
-                        string_replace_all(stripped_column, "\"", "\"\"");
-                        auto encoded_column = TextEncoderDecoder::encodeString(stripped_column, delimiter_);
-                        stripped_column = "\"" + encoded_column + "\"";
-                    } else if (!isFloat(stripped_column)) { // check if it is a number
+                    if (!isFloat(stripped_column)) { // check if it is a number
                         // it is not a number, so we need to encode it
                         string_replace_all(stripped_column, "\"", "\"\"");
                         auto encoded_column = TextEncoderDecoder::encodeString(stripped_column, delimiter_);
-- 
2.43.0


From 56b9586325d562c249c158fde0bed95cc1da2169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:51 +0000
Subject: [PATCH 39/91] fix: reading a folder goes on after a file without
 records

---
 src/util/file_reader.hpp | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/src/util/file_reader.hpp b/src/util/file_reader.hpp
index 46d1820..b93983c 100644
--- a/src/util/file_reader.hpp
+++ b/src/util/file_reader.hpp
@@ -71,27 +71,21 @@ namespace happyml {
                     next_line = "";
                 } else {
                     string line;
-                    if (getline(stream, line)) {
-                        next_line = line;
-                    } else {
+                    while (!getline(stream, line)) {
+                        // a file may be empty or only have a header, in which case we go on to the one after it
                         stream.close();
                         current_file++;
-                        if (current_file < filenames.size()) {
-                            stream.open(filenames[current_file]);
-                            if (skip_header) {
-                                skipHeader();
-                            }
-                            if (getline(stream, line)) {
-                                next_line = line;
-                            } else {
-                                has_next = false;
-                                next_line = "";
-                            }
-                        } else {
+                        if (current_file >= filenames.size()) {
                             has_next = false;
                             next_line = "";
+                            return result;
+                        }
+                        stream.open(filenames[current_file]);
+                        if (skip_header) {
+                            skipHeader();
                         }
                     }
+                    next_line = line;
                 }
             }
             return result;
@@ -104,9 +98,7 @@ namespace happyml {
     private:
         void skipHeader() {
             string line;
-            if (!stream.is_open() || !getline(stream, line)) {
-                has_next = false;
-            }
+            getline(stream, line);
         }
 
         vector<string> filenames;
-- 
2.43.0


From 88024dd65bc974b9ee4a5a0343e0b3fd225f6411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:51 +0000
Subject: [PATCH 40/91] fix: the word that ends a cell of text is not repeated
 in the next cell

---
 src/util/dataset_utils.hpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/util/dataset_utils.hpp b/src/util/dataset_utils.hpp
index c246212..b6bed0f 100644
--- a/src/util/dataset_utils.hpp
+++ b/src/util/dataset_utils.hpp
@@ -98,22 +98,23 @@ namespace happyml {
         std::string cell;
 
         int near_limit = character_limit * 4 / 5;
-        bool write_cell;
         while (std::getline(input_file, token, ' ')) {
             if (cell.length() + token.length() + 1 <= character_limit) {
                 cell += " " + token;
                 auto token_len = token.length();
-                write_cell = (cell.length() > near_limit && token_len > 1 && (token[token_len - 1] == '.' || token[token_len - 2] == '.'));
+                if (cell.length() > near_limit && token_len > 1 && (token[token_len - 1] == '.' || token[token_len - 2] == '.')) {
+                    delimitedTextFileWriter.writeRecord({cell});
+                    cell = "";
+                }
             } else {
-                write_cell = true;
-            }
-            if (write_cell) {
-                delimitedTextFileWriter.writeRecord({cell});
+                if (!strip(cell).empty()) {
+                    delimitedTextFileWriter.writeRecord({cell});
+                }
                 cell = token;
             }
         }
 
-        if (!cell.empty()) {
+        if (!strip(cell).empty()) {
             delimitedTextFileWriter.writeRecord({cell});
         }
 
-- 
2.43.0


From 8ce874ddd2fc02d1871c0f77069b7ca961db2f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:51 +0000
Subject: [PATCH 41/91] fix: a record that lacks a column is an error

---
 src/training_data/training_dataset.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/training_data/training_dataset.hpp b/src/training_data/training_dataset.hpp
index fac1120..7a65bd0 100644
--- a/src/training_data/training_dataset.hpp
+++ b/src/training_data/training_dataset.hpp
@@ -345,11 +345,17 @@ namespace happyml {
             vector<string> new_record;
             for (const auto &column: given_columns) {
                 for (size_t i = 0; i < column->source_column_count_; i++) {
+                    if (column->start_index_ + i >= record.size()) {
+                        throw runtime_error("Record " + to_string(records_updated) + " of " + original_file + " doesn't have a column " + to_string(column->start_index_ + i) + ".");
+                    }
                     new_record.push_back(record[column->start_index_ + i]);
                 }
             }
             for (const auto &column: expected_columns) {
                 for (size_t i = 0; i < column->source_column_count_; i++) {
+                    if (column->start_index_ + i >= record.size()) {
+                        throw runtime_error("Record " + to_string(records_updated) + " of " + original_file + " doesn't have a column " + to_string(column->start_index_ + i) + ".");
+                    }
                     new_record.push_back(record[column->start_index_ + i]);
                 }
             }
-- 
2.43.0


From 7a2d0f4cf8de2ff0aa44abc92270fdfd487669e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:36 +0000
Subject: [PATCH 42/91] fix: sorting does not write over files named
 chunk_N.txt next to the source

---
 src/util/text_file_sorter.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/util/text_file_sorter.hpp b/src/util/text_file_sorter.hpp
index c124f9b..eb478b1 100644
--- a/src/util/text_file_sorter.hpp
+++ b/src/util/text_file_sorter.hpp
@@ -26,7 +26,8 @@ namespace happyml {
         // at least in the case where the given is in the file before the expected
         // values.
         static bool sort(const std::string &file_name, const std::string &result_file_name, bool has_header = true, int chunk_size = 10000, bool delete_duplicates = true) {
-            auto parent_path = std::filesystem::path(file_name).parent_path().string();
+            // named after the result, so that no other file is taken for a chunk, and next to it, so that we can write there.
+            const std::string chunk_prefix = result_file_name + ".chunk_";
 
             std::ifstream input(file_name);
 
@@ -52,7 +53,7 @@ namespace happyml {
                 if (lines.size() >= chunk_size) {
                     sort_chunk(lines);
 
-                    std::string chunk_path = parent_path + "/chunk_" + std::to_string(chunk_counter) + ".txt";
+                    std::string chunk_path = chunk_prefix + std::to_string(chunk_counter);
                     std::ofstream chunk_output(chunk_path);
                     chunk_paths.push_back(chunk_path);
                     for (const auto &sorted_line: lines) {
@@ -68,7 +69,7 @@ namespace happyml {
             if (!lines.empty()) {
                 sort_chunk(lines);
 
-                std::string chunk_path = parent_path + "/chunk_" + std::to_string(chunk_counter) + ".txt";
+                std::string chunk_path = chunk_prefix + std::to_string(chunk_counter);
                 std::ofstream chunk_output(chunk_path);
                 chunk_paths.push_back(chunk_path);
                 for (const auto &sorted_line: lines) {
@@ -79,7 +80,7 @@ namespace happyml {
             }
 
             input.close();
-            merge_chunks(parent_path, result_file_name, chunk_counter, header, has_header, delete_duplicates);
+            merge_chunks(chunk_prefix, result_file_name, chunk_counter, header, has_header, delete_duplicates);
             for (const auto &chunk_path: chunk_paths) {
                 std::filesystem::remove(chunk_path);
             }
@@ -91,14 +92,14 @@ namespace happyml {
             std::sort(lines.begin(), lines.end());
         }
 
-        static void merge_chunks(const std::string &parent_path, const std::string &output_file, size_t num_chunks, const std::string &header, bool has_header, bool delete_duplicates) {
+        static void merge_chunks(const std::string &chunk_prefix, const std::string &output_file, size_t num_chunks, const std::string &header, bool has_header, bool delete_duplicates) {
             auto line_comparator = [](const auto &a, const auto &b) { return a.first > b.first; };
             std::priority_queue<std::pair<std::string, std::ifstream *>, std::vector<std::pair<std::string, std::ifstream *>>, decltype(line_comparator)> min_heap(line_comparator);
 
             std::vector<std::ifstream> chunk_files(num_chunks);
 
             for (size_t i = 0; i < num_chunks; ++i) {
-                std::string chunk_path = parent_path + "/chunk_" + std::to_string(i) + ".txt";
+                std::string chunk_path = chunk_prefix + std::to_string(i);
 
                 chunk_files[i].open(chunk_path);
 
-- 
2.43.0


From 5fc2dddfb3d538ff68f591de53b4b8a2da07e424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:57 +0000
Subject: [PATCH 43/91] fix: sorting a file of many chunks does not lose those
 that could not be opened

---
 src/util/text_file_sorter.hpp | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/util/text_file_sorter.hpp b/src/util/text_file_sorter.hpp
index eb478b1..d1765f9 100644
--- a/src/util/text_file_sorter.hpp
+++ b/src/util/text_file_sorter.hpp
@@ -80,31 +80,46 @@ namespace happyml {
             }
 
             input.close();
-            merge_chunks(chunk_prefix, result_file_name, chunk_counter, header, has_header, delete_duplicates);
+            bool merged = true;
+            // only so many files can be open at once
+            while (merged && chunk_paths.size() > MAX_FILES_PER_MERGE) {
+                std::vector<std::string> group(chunk_paths.begin(), chunk_paths.begin() + MAX_FILES_PER_MERGE);
+                chunk_paths.erase(chunk_paths.begin(), chunk_paths.begin() + MAX_FILES_PER_MERGE);
+                std::string chunk_path = chunk_prefix + std::to_string(chunk_counter++);
+                merged = merge_chunks(group, chunk_path, "", false, delete_duplicates);
+                chunk_paths.push_back(chunk_path);
+                for (const auto &merged_path: group) {
+                    std::filesystem::remove(merged_path);
+                }
+            }
+            merged = merged && merge_chunks(chunk_paths, result_file_name, header, has_header, delete_duplicates);
             for (const auto &chunk_path: chunk_paths) {
                 std::filesystem::remove(chunk_path);
             }
-            return true;
+            if (!merged) {
+                std::cerr << "Error merging sorted lines." << std::endl;
+            }
+            return merged;
         }
 
     private:
+        static constexpr size_t MAX_FILES_PER_MERGE = 64;
+
         static void sort_chunk(std::vector<std::string> &lines) {
             std::sort(lines.begin(), lines.end());
         }
 
-        static void merge_chunks(const std::string &chunk_prefix, const std::string &output_file, size_t num_chunks, const std::string &header, bool has_header, bool delete_duplicates) {
+        static bool merge_chunks(const std::vector<std::string> &chunk_paths, const std::string &output_file, const std::string &header, bool has_header, bool delete_duplicates) {
             auto line_comparator = [](const auto &a, const auto &b) { return a.first > b.first; };
             std::priority_queue<std::pair<std::string, std::ifstream *>, std::vector<std::pair<std::string, std::ifstream *>>, decltype(line_comparator)> min_heap(line_comparator);
 
-            std::vector<std::ifstream> chunk_files(num_chunks);
-
-            for (size_t i = 0; i < num_chunks; ++i) {
-                std::string chunk_path = chunk_prefix + std::to_string(i);
+            std::vector<std::ifstream> chunk_files(chunk_paths.size());
 
-                chunk_files[i].open(chunk_path);
+            for (size_t i = 0; i < chunk_paths.size(); ++i) {
+                chunk_files[i].open(chunk_paths[i]);
 
                 if (!chunk_files[i]) {
-                    break;
+                    return false;
                 }
 
                 std::string line;
@@ -154,6 +169,7 @@ namespace happyml {
             for (auto &chunk_file: chunk_files) {
                 chunk_file.close();
             }
+            return static_cast<bool>(output);
         }
     };
 }
-- 
2.43.0


From 6e3ef2afd6e2644ff341b235a5d93b1797fc495c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:38 +0000
Subject: [PATCH 44/91] fix: column groups that share one column overlap

---
 src/util/dataset_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/dataset_utils.hpp b/src/util/dataset_utils.hpp
index b6bed0f..7a3b5ca 100644
--- a/src/util/dataset_utils.hpp
+++ b/src/util/dataset_utils.hpp
@@ -31,7 +31,7 @@ namespace happyml {
 
             size_t prev_endIndex = prev->start_index_ + prev->source_column_count_ - 1;
 
-            if (prev_endIndex > curr->start_index_) {
+            if (prev_endIndex >= curr->start_index_) {
                 return true;
             }
         }
-- 
2.43.0


From 84ad98989a0f10e165f3f9e56a136320997c52f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:38 +0000
Subject: [PATCH 45/91] fix: records whose tiny numbers print alike are not
 duplicates

---
 src/util/file_writer.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/util/file_writer.hpp b/src/util/file_writer.hpp
index d954916..98d10c0 100644
--- a/src/util/file_writer.hpp
+++ b/src/util/file_writer.hpp
@@ -246,9 +246,13 @@ namespace happyml {
             std::hash<string> hasher;
             size_t result = 0;
             for (const auto &next_tensor: given_tensors) {
-                stringstream ss;
-                next_tensor->print(ss);
-                result ^= hasher(ss.str()) + 0x9e3779b9 + (result << 6) + (result >> 2);
+                // the values themselves, since different ones can look alike when they are printed
+                string values;
+                for (size_t i = 0; i < next_tensor->size(); i++) {
+                    float value = next_tensor->getValue(i);
+                    values.append(reinterpret_cast<const char *>(&value), sizeof(value));
+                }
+                result ^= hasher(values) + 0x9e3779b9 + (result << 6) + (result >> 2);
             }
             return result;
         }
-- 
2.43.0


From 4f52e9b987484674b933a73cb5ac6eb51ec81043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:38 +0000
Subject: [PATCH 46/91] fix: standardized columns are normalized by the range
 of their standardized values

---
 src/util/dataset_utils.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/util/dataset_utils.hpp b/src/util/dataset_utils.hpp
index 7a3b5ca..1fecfe5 100644
--- a/src/util/dataset_utils.hpp
+++ b/src/util/dataset_utils.hpp
@@ -174,6 +174,14 @@ namespace happyml {
         return next_metadata;
     }
 
+    // Values are standardized first and normalized after that, so it is the standardized values that are normalized.
+    void use_standardized_range(const shared_ptr<BinaryColumnMetadata> &metadata) {
+        if (metadata->is_standardized) {
+            metadata->min_value = (metadata->min_value - metadata->mean) / metadata->standard_deviation;
+            metadata->max_value = (metadata->max_value - metadata->mean) / metadata->standard_deviation;
+        }
+    }
+
     void normalize_and_standardize_dataset(const string &raw_binary_file,
                                            const string &dataset_path) {
 
@@ -240,6 +248,7 @@ namespace happyml {
                     given_metadata[i]->is_normalized = is_numeric_value;
                     given_metadata[i]->min_value = (float) given_standardization_values[i]->min_value;
                     given_metadata[i]->max_value = (float) given_standardization_values[i]->max_value;
+                    use_standardized_range(given_metadata[i]);
                 }
             }
             if (expected_has_numbers) {
@@ -251,6 +260,7 @@ namespace happyml {
                     expected_metadata[i]->is_normalized = is_numeric_value;
                     expected_metadata[i]->min_value = (float) expected_standardization_values[i]->min_value;
                     expected_metadata[i]->max_value = (float) expected_standardization_values[i]->max_value;
+                    use_standardized_range(expected_metadata[i]);
                 }
             }
         }
-- 
2.43.0


From eaef48ade7e2dce564fa8e9f7f7f190d35875a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:29 +0000
Subject: [PATCH 47/91] fix: normalizing values that are all equal does not
 give NaN

---
 src/types/tensor_views/normalize_tensor_view.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/types/tensor_views/normalize_tensor_view.hpp b/src/types/tensor_views/normalize_tensor_view.hpp
index 241a05e..912dab8 100644
--- a/src/types/tensor_views/normalize_tensor_view.hpp
+++ b/src/types/tensor_views/normalize_tensor_view.hpp
@@ -27,7 +27,8 @@ namespace happyml {
 
         float getValue(size_t row, size_t column, size_t channel) override {
             const float val = child_->getValue(row, column, channel);
-            return (val - min_val_) / val_range_;
+            // equal values have no range, and are all the lowest one
+            return val_range_ == 0 ? val - min_val_ : (val - min_val_) / val_range_;
         }
 
         void printMaterializationPlan() override {
-- 
2.43.0


From 0bb3a6ba52ceb7b6d8b1c1978ae3c33e16e090b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:29 +0000
Subject: [PATCH 48/91] fix: each column is renormalized by its own metadata

---
 src/util/file_reader.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/util/file_reader.hpp b/src/util/file_reader.hpp
index b93983c..11bf0b1 100644
--- a/src/util/file_reader.hpp
+++ b/src/util/file_reader.hpp
@@ -252,7 +252,9 @@ namespace happyml {
                                                             renormalize_given_metadata_[given_offset]->mean, renormalize_given_metadata_[given_offset]->standard_deviation);
                 }
                 given_tensors.push_back(next_tensor);
+                given_offset++;
             }
+            size_t expected_offset = 0;
             vector<shared_ptr<BaseTensor>> expected_tensors;
             for (const auto &metadata: expected_metadata_) {
                 shared_ptr<BaseTensor> next_tensor = loadTensor(metadata);
@@ -260,11 +262,12 @@ namespace happyml {
                     next_tensor = renormalizeAndStandardize(next_tensor, metadata->is_normalized, metadata->is_standardized,
                                                             metadata->min_value, metadata->max_value,
                                                             metadata->mean, metadata->standard_deviation,
-                                                            renormalize_expected_metadata_[given_offset]->is_normalized, renormalize_expected_metadata_[given_offset]->is_standardized,
-                                                            renormalize_expected_metadata_[given_offset]->min_value, renormalize_expected_metadata_[given_offset]->max_value,
-                                                            renormalize_expected_metadata_[given_offset]->mean, renormalize_expected_metadata_[given_offset]->standard_deviation);
+                                                            renormalize_expected_metadata_[expected_offset]->is_normalized, renormalize_expected_metadata_[expected_offset]->is_standardized,
+                                                            renormalize_expected_metadata_[expected_offset]->min_value, renormalize_expected_metadata_[expected_offset]->max_value,
+                                                            renormalize_expected_metadata_[expected_offset]->mean, renormalize_expected_metadata_[expected_offset]->standard_deviation);
                 }
                 expected_tensors.push_back(next_tensor);
+                expected_offset++;
             }
             return {given_tensors, expected_tensors};
         }
-- 
2.43.0


From 0277bedd5313aacf62a46ad6f749f195dd762c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:29 +0000
Subject: [PATCH 49/91] fix: inputs of a task are encoded the way the records
 of its dataset were

---
 src/training_data/data_encoder.hpp | 87 +++++++++++++-----------------
 1 file changed, 38 insertions(+), 49 deletions(-)

diff --git a/src/training_data/data_encoder.hpp b/src/training_data/data_encoder.hpp
index 352f2ef..525a36e 100644
--- a/src/training_data/data_encoder.hpp
+++ b/src/training_data/data_encoder.hpp
@@ -80,33 +80,12 @@ namespace happyml {
         std::shared_ptr<BaseTensor> encode(const std::vector<HappyMLVariant> &text) {
             // purpose: 'I' (image), 'T' (text), 'N' (number), 'L' (label)
             if (metadata->purpose == 'I') {
-                std::vector<std::vector<std::vector<float>>> floats;
-                floats.resize(metadata->channels);
-                for (size_t channel = 0; channel < metadata->channels; channel++) {
-                    floats[channel].resize(metadata->columns);
-                    for (size_t column = 0; column < metadata->columns; column++) {
-                        floats[channel][column].resize(metadata->rows);
-                        for (size_t row = 0; row < metadata->rows; row++) {
-                            floats[channel][column][row] = text[channel * metadata->columns * metadata->rows + column * metadata->rows + row].as_float();
-                        }
-                    }
-                }
-                return pixelTensor(floats);
+                // we store the value as percentage of 255.
+                return pixelTensor(as_floats(text, 255.f));
             } else if (metadata->purpose == 'T') {
                 throw runtime_error("Text encoding not implemented yet.");
             } else if (metadata->purpose == 'N') {
-                std::vector<std::vector<std::vector<float>>> floats;
-                floats.resize(metadata->channels);
-                for (size_t channel = 0; channel < metadata->channels; channel++) {
-                    floats[channel].resize(metadata->columns);
-                    for (size_t column = 0; column < metadata->columns; column++) {
-                        floats[channel][column].resize(metadata->rows);
-                        for (size_t row = 0; row < metadata->rows; row++) {
-                            floats[channel][column][row] = text[channel * metadata->columns * metadata->rows + column * metadata->rows + row].as_float();
-                        }
-                    }
-                }
-                std::shared_ptr<BaseTensor> base_tensor = tensor(floats);
+                std::shared_ptr<BaseTensor> base_tensor = tensor(as_floats(text, 1.f));
                 if (metadata->is_standardized) {
                     base_tensor = make_shared<StandardizeTensorView>(base_tensor, metadata->mean, metadata->standard_deviation);
                 }
@@ -115,34 +94,18 @@ namespace happyml {
                 }
                 return base_tensor;
             } else if (metadata->purpose == 'L') {
-                for (const auto &next_text: text) {
-                    size_t column_offset = 0;
-                    bool found = false;
-                    for (size_t i = 0; i < metadata->ordered_labels.size(); i++) {
-                        if (metadata->ordered_labels[i] == next_text.to_string()) {
-                            column_offset = i;
-                            found = true;
-                            break;
-                        }
-                    }
-                    if (!found) {
-                        string error_message = "Unknown label " + next_text.to_string() + " for column: " + metadata->name;
+                require_size(text, metadata->rows);
+                vector<vector<vector<float>>> result(1, vector<vector<float>>(metadata->rows, vector<float>(metadata->columns, 0.f)));
+                for (size_t row = 0; row < text.size(); row++) {
+                    auto label = strip(text[row].to_string());
+                    auto found = std::find(metadata->ordered_labels.begin(), metadata->ordered_labels.end(), label);
+                    if (found == metadata->ordered_labels.end()) {
+                        string error_message = "Unknown label " + label + " for column: " + metadata->name;
                         throw runtime_error(error_message);
                     }
-                    vector<vector<vector<float>>> result;
-                    result.resize(metadata->channels);
-                    for (size_t channel = 0; channel < metadata->channels; channel++) {
-                        result[channel].resize(metadata->columns);
-                        for (size_t column = 0; column < metadata->columns; column++) {
-                            result[channel][column].resize(metadata->rows);
-                            for (size_t row = 0; row < metadata->rows; row++) {
-                                result[channel][column][row] = column == column_offset ? 1.f : 0.f;
-                            }
-                        }
-                    }
-
-                    return tensor(result);
+                    result[0][row][found - metadata->ordered_labels.begin()] = 1.f;
                 }
+                return tensor(result);
             }
             string error_message = "Unknown purpose " + string(1, metadata->purpose) + " for column: " + metadata->name;
             throw runtime_error(error_message);
@@ -150,6 +113,32 @@ namespace happyml {
 
     private:
         shared_ptr<BinaryColumnMetadata> metadata;
+
+        void require_size(const std::vector<HappyMLVariant> &text, size_t size) {
+            if (text.size() != size) {
+                string error_message = "Expected " + std::to_string(size) + " values for column: " + metadata->name + ", but got " + std::to_string(text.size());
+                throw runtime_error(error_message);
+            }
+        }
+
+        // in the same order that a dataset has them: by channel, then row, then column
+        std::vector<std::vector<std::vector<float>>> as_floats(const std::vector<HappyMLVariant> &text, float scale) {
+            require_size(text, metadata->channels * metadata->rows * metadata->columns);
+            std::vector<std::vector<std::vector<float>>> floats;
+            floats.resize(metadata->channels);
+            size_t offset = 0;
+            for (size_t channel = 0; channel < metadata->channels; channel++) {
+                floats[channel].resize(metadata->rows);
+                for (size_t row = 0; row < metadata->rows; row++) {
+                    floats[channel][row].resize(metadata->columns);
+                    for (size_t column = 0; column < metadata->columns; column++) {
+                        floats[channel][row][column] = text[offset].as_float() / scale;
+                        offset++;
+                    }
+                }
+            }
+            return floats;
+        }
     };
 
     class DataEncoder {
-- 
2.43.0


From fa95782090dcababba710f04676e497796f71707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:29 +0000
Subject: [PATCH 50/91] fix: a group of labels knows the labels of all of its
 columns

---
 src/util/dataset_utils.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/util/dataset_utils.hpp b/src/util/dataset_utils.hpp
index 1fecfe5..ebd5d8d 100644
--- a/src/util/dataset_utils.hpp
+++ b/src/util/dataset_utils.hpp
@@ -327,11 +327,14 @@ namespace happyml {
             } else if ("number" == column_group->data_type_) {
                 columnGroupEncoders.emplace_back(make_shared<ColumnGroup>(*column_group), make_shared<TextToScalarEncoder>());
             } else if ("label" == column_group->data_type_) {
-                auto distinctValues = get_distinct_values(delimited_file_path,
-                                                          delimiter,
-                                                          column_group->start_index_,
-                                                          header_row,
-                                                          true);
+                unordered_set<string> distinctValues;
+                for (size_t i = 0; i < column_group->source_column_count_; i++) {
+                    distinctValues.merge(get_distinct_values(delimited_file_path,
+                                                             delimiter,
+                                                             column_group->start_index_ + i,
+                                                             header_row,
+                                                             true));
+                }
                 vector<string> distinctValuesVector(distinctValues.begin(), distinctValues.end());
                 columnGroupEncoders.emplace_back(make_shared<ColumnGroup>(column_group, distinctValuesVector), make_shared<TextToUniqueCategoryEncoder>(distinctValuesVector));
             } else if ("text" == column_group->data_type_) {
-- 
2.43.0


From 6877c2398adba9ac40062b3cd22a1382444dfc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:29 +0000
Subject: [PATCH 51/91] fix: the parts of a split dataset are a fair sample of
 it

---
 src/training_data/training_dataset.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/training_data/training_dataset.hpp b/src/training_data/training_dataset.hpp
index 7a65bd0..df24722 100644
--- a/src/training_data/training_dataset.hpp
+++ b/src/training_data/training_dataset.hpp
@@ -136,8 +136,8 @@ namespace happyml {
             auto shuffled_offset = shuffler_ != nullptr ? shuffler_->getShuffledIndex(current_offset_) : current_offset_;
             // we have to shuffle an extra time because we are splitting the dataset and the original data may be ordered
             // we want our split to have a fair distribution of data. The split shuffler is never reshuffled.
-            auto split_shuffled_offset = split_shuffler_->getShuffledIndex(shuffled_offset);
-            auto pair = reader_.readRow(shuffled_offset + first_record_offset_);
+            auto split_shuffled_offset = split_shuffler_->getShuffledIndex(shuffled_offset + first_record_offset_);
+            auto pair = reader_.readRow(split_shuffled_offset);
             current_offset_++;
             auto result = make_shared<TrainingPair>(pair.first, pair.second);
             return result;
-- 
2.43.0


From c1935b98557123830007b4b3f3840aad4e0895e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:55 +0000
Subject: [PATCH 52/91] fix: creating a dataset from tsv or txt works, and
 replaces and leaves behind no other files

---
 .../statements/create_dataset_statement.hpp   | 59 +++++++++++++++----
 1 file changed, 47 insertions(+), 12 deletions(-)

diff --git a/src/lang/statements/create_dataset_statement.hpp b/src/lang/statements/create_dataset_statement.hpp
index 8eda412..8db4cf6 100644
--- a/src/lang/statements/create_dataset_statement.hpp
+++ b/src/lang/statements/create_dataset_statement.hpp
@@ -100,17 +100,25 @@ namespace happyml {
             size_t last_period_offset = location_.find_last_of('.');
             string file_extension = location_.substr(last_period_offset + 1);
             auto index_of_start_of_file_name = location_.find("://") + 3;
-            string base_file_path = location_.substr(index_of_start_of_file_name, last_period_offset - index_of_start_of_file_name);
-            string current_location = base_file_path + ".csv";
+            string source_location = location_.substr(index_of_start_of_file_name);
+            string current_location = source_location;
+            if (!filesystem::exists(source_location)) {
+                return make_shared<ExecutionResult>(false, false,
+                                                    "create dataset could not find the file: " + source_location);
+            }
+            string new_dataset_path = context->get_dataset_path(name_);
+            WorkFolder work_folder(new_dataset_path);
             bool has_header = has_header_;
             if (file_extension == "txt") {
                 has_header = false;
-                if (!convert_txt_to_csv(location_, current_location, 4000)) {
+                current_location = work_folder.file("converted.csv");
+                if (!convert_txt_to_csv(source_location, current_location, 4000)) {
                     return make_shared<ExecutionResult>(false, false,
                                                         "Could not open source or destination file to convert text to csv.");
                 }
             } else if (file_extension == "tsv") {
-                if (!convert_tsv_to_csv(location_, current_location)) {
+                current_location = work_folder.file("converted.csv");
+                if (!convert_tsv_to_csv(source_location, current_location)) {
                     return make_shared<ExecutionResult>(false, false,
                                                         "Could not open source or destination file to convert tsv to csv.");
                 }
@@ -118,10 +126,6 @@ namespace happyml {
                 return make_shared<ExecutionResult>(false, false,
                                                     "create dataset only supports .csv, .txt, and .tsv file types at the moment.");
             }
-            if (!filesystem::exists(current_location)) {
-                return make_shared<ExecutionResult>(false, false,
-                                                    "create dataset could not find the file: " + current_location);
-            }
             vector<shared_ptr<ColumnGroup>>
                     given_column_groups;
             vector<shared_ptr<ColumnGroup>>
@@ -156,7 +160,7 @@ namespace happyml {
             if(verbose_) {
                 cout << "Moving given columns before expected columns and dropping unused columns. This aids in deduping." << endl;
             }
-            auto organized_location = base_file_path + ".given-expected.csv";
+            auto organized_location = work_folder.file("given-expected.csv");
             if (!update_column_positions(current_location, organized_location, given_column_groups, expected_column_groups, has_header)) {
                 return make_shared<ExecutionResult>(false, false,
                                                     "Empty dataset");
@@ -165,7 +169,7 @@ namespace happyml {
             if(verbose_) {
                 cout << "Sorting. This aids in deduping." << endl;
             }
-            auto sorted_location = base_file_path + ".sorted.csv";
+            auto sorted_location = work_folder.file("sorted.csv");
             if (!FileSorter::sort(organized_location, sorted_location, false)) {
                 return make_shared<ExecutionResult>(false, false,
                                                     "Could not sort the given-expected file.");
@@ -175,11 +179,10 @@ namespace happyml {
                                                     "Could not remove the given-expected file.");
             }
 
-            string new_dataset_path = context->get_dataset_path(name_);
-
             if(verbose_) {
                 cout << "Converting to binary and deduping." << endl;
             }
+            work_folder.file("raw.bin");
             auto raw_location = create_binary_dataset_from_delimited_values(new_dataset_path,
                                                                             sorted_location,
                                                                             ',',
@@ -196,8 +199,10 @@ namespace happyml {
                 cout << "Normalizing and standardizing values into final file." << endl;
             }
 
+            work_folder.file("dataset.bin");
             normalize_and_standardize_dataset(raw_location,
                                               new_dataset_path);
+            work_folder.keep("dataset.bin");
             if (!filesystem::remove(raw_location)) {
                 return make_shared<ExecutionResult>(false, false,
                                                     "Could not remove the clean dataset file.");
@@ -206,6 +211,36 @@ namespace happyml {
         }
 
     private:
+        // The files made on the way to a dataset are in its own folder, where they can't replace anybody else's.
+        // In the end, however that is reached, only what was kept remains.
+        class WorkFolder {
+        public:
+            explicit WorkFolder(string path) : path_(std::move(path)) {
+                filesystem::create_directories(path_);
+            }
+
+            ~WorkFolder() {
+                error_code ignored;
+                for (const auto &name: file_names_) {
+                    filesystem::remove(path_ + "/" + name, ignored);
+                }
+                filesystem::remove(path_, ignored); // which fails when there are files in it
+            }
+
+            string file(const string &name) {
+                file_names_.push_back(name);
+                return path_ + "/" + name;
+            }
+
+            void keep(const string &name) {
+                file_names_.erase(std::remove(file_names_.begin(), file_names_.end(), name), file_names_.end());
+            }
+
+        private:
+            string path_;
+            vector<string> file_names_;
+        };
+
         string name_;
         string location_;
         vector<shared_ptr<ColumnGroup>> column_groups_;
-- 
2.43.0


From b4f9501cac70c438e4153a19315970092b630080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:07 +0000
Subject: [PATCH 53/91] fix: a disk that is full while a dataset is written is
 an error

---
 src/util/file_writer.hpp      | 15 ++++++++++++++-
 src/util/text_file_sorter.hpp |  4 +++-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/util/file_writer.hpp b/src/util/file_writer.hpp
index 98d10c0..c600828 100644
--- a/src/util/file_writer.hpp
+++ b/src/util/file_writer.hpp
@@ -43,6 +43,9 @@ namespace happyml {
                 throw runtime_error("File is closed.");
             }
             stream_ << line << endl;
+            if (!stream_) {
+                throw runtime_error("Could not write to file " + filename_);
+            }
         }
 
         bool is_open() {
@@ -132,12 +135,14 @@ namespace happyml {
             } else {
                 lru_cache_ = nullptr;
             }
+            path_ = path;
             binaryFile_.open(path, ios::binary | ios::out);
             writeHeader();
         }
 
         ~BinaryDatasetWriter() {
-            close();
+            // to know that everything was written, close() before this
+            binaryFile_.close();
         }
 
         bool is_open() {
@@ -147,7 +152,11 @@ namespace happyml {
         void close() {
             if (binaryFile_.is_open()) {
                 binaryFile_.flush();
+                bool written = !binaryFile_.fail();
                 binaryFile_.close();
+                if (!written || binaryFile_.fail()) {
+                    throw runtime_error("Could not write to file " + path_);
+                }
             }
         }
 
@@ -172,11 +181,15 @@ namespace happyml {
             for (const auto &tensor: expected_tensors) {
                 tensor->save(binaryFile_, false);
             }
+            if (!binaryFile_) {
+                throw runtime_error("Could not write to file " + path_);
+            }
             return true;
         }
 
     private:
         ofstream binaryFile_;
+        string path_;
         vector<shared_ptr<BinaryColumnMetadata>> given_metadata_;
         vector<shared_ptr<BinaryColumnMetadata>> expected_metadata_;
         shared_ptr<LruCache < size_t, bool>> lru_cache_;
diff --git a/src/util/text_file_sorter.hpp b/src/util/text_file_sorter.hpp
index d1765f9..6629e60 100644
--- a/src/util/text_file_sorter.hpp
+++ b/src/util/text_file_sorter.hpp
@@ -43,6 +43,7 @@ namespace happyml {
                 std::getline(input, header);
             }
 
+            bool merged = true;
             size_t chunk_counter = 0;
             std::vector<std::string> chunk_paths;
             while (std::getline(input, line)) {
@@ -60,6 +61,7 @@ namespace happyml {
                         chunk_output << sorted_line << '\n';
                     }
                     chunk_output.close();
+                    merged = merged && chunk_output;
 
                     ++chunk_counter;
                     lines.clear();
@@ -76,11 +78,11 @@ namespace happyml {
                     chunk_output << sorted_line << '\n';
                 }
                 chunk_output.close();
+                merged = merged && chunk_output;
                 ++chunk_counter;
             }
 
             input.close();
-            bool merged = true;
             // only so many files can be open at once
             while (merged && chunk_paths.size() > MAX_FILES_PER_MERGE) {
                 std::vector<std::string> group(chunk_paths.begin(), chunk_paths.begin() + MAX_FILES_PER_MERGE);
-- 
2.43.0


From a6362dfba45fe9e9887c207b93acb12828a579e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:20 +0000
Subject: [PATCH 54/91] fix: a dataset that is not split is read in the order
 of its file

---
 src/training_data/training_dataset.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/training_data/training_dataset.hpp b/src/training_data/training_dataset.hpp
index df24722..9d4f36b 100644
--- a/src/training_data/training_dataset.hpp
+++ b/src/training_data/training_dataset.hpp
@@ -79,7 +79,9 @@ namespace happyml {
                 throw std::runtime_error("Could not open file: " + file_path);
             }
             split_shuffler_ = make_shared<Shuffler>(reader_.rowCount());
-            split_shuffler_->shuffle_predictably(); // shuffle once to make sure we have a fair distribution in case the original data was sorted.
+            if (split != 1.0f) {
+                split_shuffler_->shuffle_predictably(); // shuffle once to make sure we have a fair distribution in case the original data was sorted.
+            }
             if (split > 0) {
                 // left to right
                 first_record_offset_ = 0;
@@ -97,7 +99,9 @@ namespace happyml {
                 throw std::runtime_error("Could not open file: " + file_path);
             }
             split_shuffler_ = make_shared<Shuffler>(reader_.rowCount());
-            split_shuffler_->shuffle_predictably(); // shuffle once to make sure we have a fair distribution in case the original data was sorted.
+            if (split != 1.0f) {
+                split_shuffler_->shuffle_predictably(); // shuffle once to make sure we have a fair distribution in case the original data was sorted.
+            }
             if (split > 0) {
                 // left to right
                 first_record_offset_ = 0;
-- 
2.43.0


From d5993b4f6475f3ac16610d0254511ac22c21f094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:20 +0000
Subject: [PATCH 55/91] fix: the two parts of a split dataset do not overlap

---
 src/training_data/training_dataset.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/training_data/training_dataset.hpp b/src/training_data/training_dataset.hpp
index 9d4f36b..77e8941 100644
--- a/src/training_data/training_dataset.hpp
+++ b/src/training_data/training_dataset.hpp
@@ -85,10 +85,10 @@ namespace happyml {
             if (split > 0) {
                 // left to right
                 first_record_offset_ = 0;
-                record_count_ = reader_.rowCount() * split;
+                record_count_ = split_offset(split);
             } else {
                 // right to left
-                first_record_offset_ = reader_.rowCount() * (1.0f + split);
+                first_record_offset_ = split_offset(1.0 + split);
                 record_count_ = reader_.rowCount() - first_record_offset_;
             }
             current_offset_ = 0;
@@ -105,10 +105,10 @@ namespace happyml {
             if (split > 0) {
                 // left to right
                 first_record_offset_ = 0;
-                record_count_ = reader_.rowCount() * split;
+                record_count_ = split_offset(split);
             } else {
                 // right to left
-                first_record_offset_ = reader_.rowCount() * (1.0f + split);
+                first_record_offset_ = split_offset(1.0 + split);
                 record_count_ = reader_.rowCount() - first_record_offset_;
             }
             current_offset_ = 0;
@@ -174,6 +174,12 @@ namespace happyml {
 
 
     private:
+        // Allows for fractions that are not exact, so that 0.2 and -0.8 split a dataset at the same record.
+        size_t split_offset(double fraction) {
+            auto rows = static_cast<double>(reader_.rowCount());
+            return static_cast<size_t>(rows * fraction + rows * 1e-7);
+        }
+
         BinaryDatasetReader reader_;
         size_t current_offset_ = 0;
         size_t first_record_offset_ = 0;
-- 
2.43.0


From 666d9124eaa0b97a1f6b02d996f364bd85630306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:45 +0000
Subject: [PATCH 56/91] fix: pixels of equal brightness look alike when an
 image is printed

---
 src/training_data/data_decoder.hpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/training_data/data_decoder.hpp b/src/training_data/data_decoder.hpp
index a3ed2d9..a9b2369 100644
--- a/src/training_data/data_decoder.hpp
+++ b/src/training_data/data_decoder.hpp
@@ -182,16 +182,17 @@ namespace happyml {
                             grayScale += 0.299f * red + 0.587f * green + 0.114f * blue;
                             grayScale /= 2.0f;
                         }
-                    } else if (channels == 1) {
-                        grayScale = tensor->getValue(row, col, 0);
-                        if (row + 1 < rows) {
-                            grayScale += tensor->getValue(row + 1, col, 0);
-                            grayScale /= 2.0f;
+                    } else {
+                        for (size_t channel = 0; channel < channels; channel++) {
+                            grayScale += tensor->getValue(row, col, channel);
+                            if (row + 1 < rows) {
+                                grayScale += tensor->getValue(row + 1, col, channel);
+                            }
                         }
+                        grayScale /= (float) (channels * (row + 1 < rows ? 2 : 1));
                     }
-                    grayScale /= (float) (channels * (row + 1 < rows ? 2 : 1));
                     // Normalize the grayscale value to range [0, 1]
-                    grayScale = (grayScale < 0.0f) ? 0.0f : ((grayScale > 1.0f) ? 1.0f : grayScale);
+                    grayScale = (grayScale > 0.0f) ? ((grayScale > 1.0f) ? 1.0f : grayScale) : 0.0f;
                     largest_value = max(largest_value, grayScale);
                     row_gray_scale_values.push_back(grayScale);
                 }
-- 
2.43.0


From 79df16addf705bdd893beafeaad99b31e4816726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:38 +0000
Subject: [PATCH 57/91] fix: a damaged or incomplete dataset file is reported
 rather than misread

---
 src/util/file_reader.hpp | 148 ++++++++++++++++++++++-----------------
 1 file changed, 83 insertions(+), 65 deletions(-)

diff --git a/src/util/file_reader.hpp b/src/util/file_reader.hpp
index 11bf0b1..eb70b2e 100644
--- a/src/util/file_reader.hpp
+++ b/src/util/file_reader.hpp
@@ -393,12 +393,16 @@ namespace happyml {
         }
 
     private:
+        // dimensions that need more than this are damaged
+        static constexpr size_t MAX_BYTES_PER_COLUMN = size_t{1} << 40;
+
         ifstream binaryFile_;
         size_t row_size_{};
         streampos header_size_;
         std::vector<shared_ptr<BinaryColumnMetadata>> given_metadata_;
         std::vector<shared_ptr<BinaryColumnMetadata>> expected_metadata_;
         size_t number_of_rows_{};
+        size_t file_size_{};
         string path_;
         std::vector<shared_ptr<BinaryColumnMetadata>> renormalize_given_metadata_;
         std::vector<shared_ptr<BinaryColumnMetadata>> renormalize_expected_metadata_;
@@ -406,89 +410,103 @@ namespace happyml {
 
         void readHeader() {
             row_size_ = 0;
-            uint64_t number_of_given;
-            if (!binaryFile_.read(reinterpret_cast<char *>(&number_of_given), sizeof(uint64_t))) {
-                throw runtime_error("Could not read number of given tensors");
-            }
+            file_size_ = filesystem::file_size(path_);
+            const auto number_of_given = readHeaderValue<uint64_t>();
             for (size_t i = 0; i < number_of_given; i++) {
                 shared_ptr<BinaryColumnMetadata> metadata = readColumnMetadata();
-                row_size_ += metadata->rows * metadata->columns * metadata->channels * sizeof(float);
+                row_size_ += bytesPerRow(metadata);
                 given_metadata_.emplace_back(metadata);
             }
-            uint64_t number_of_expected;
-            if (!binaryFile_.read(reinterpret_cast<char *>(&number_of_expected), sizeof(uint64_t))) {
-                throw runtime_error("Could not read number of expected tensors");
-            }
+            const auto number_of_expected = readHeaderValue<uint64_t>();
             for (size_t i = 0; i < number_of_expected; i++) {
                 shared_ptr<BinaryColumnMetadata> metadata = readColumnMetadata();
-                row_size_ += metadata->rows * metadata->columns * metadata->channels * sizeof(float);
+                row_size_ += bytesPerRow(metadata);
                 expected_metadata_.emplace_back(metadata);
             }
             header_size_ = binaryFile_.tellg();
-            number_of_rows_ = static_cast<size_t>(filesystem::file_size(path_) - header_size_) / row_size_;
+            const size_t body_size = bytesLeft();
+            if (row_size_ == 0 || body_size % row_size_ != 0) {
+                throwDamaged();
+            }
+            number_of_rows_ = body_size / row_size_;
         }
 
         shared_ptr<BinaryColumnMetadata> readColumnMetadata() {
             shared_ptr<BinaryColumnMetadata> metadata = make_shared<BinaryColumnMetadata>();
-            binaryFile_.read(reinterpret_cast<char *>(&metadata->purpose), sizeof(char));
-
-            binaryFile_.read(reinterpret_cast<char *>(&metadata->is_standardized), sizeof(bool));
-            uint32_t portableMean;
-            binaryFile_.read(reinterpret_cast<char *>(&portableMean), sizeof(uint32_t));
-            portableMean = portableBytes(portableMean);
-            metadata->mean = *(float *) &portableMean;
-            uint32_t portableStandardDeviation;
-            binaryFile_.read(reinterpret_cast<char *>(&portableStandardDeviation), sizeof(uint32_t));
-            metadata->standard_deviation = portableFloat(portableStandardDeviation);
-
-            binaryFile_.read(reinterpret_cast<char *>(&metadata->is_normalized), sizeof(bool));
-            uint32_t portableMinValue;
-            binaryFile_.read(reinterpret_cast<char *>(&portableMinValue), sizeof(uint32_t));
-            metadata->min_value = portableFloat(portableMinValue);
-            uint32_t portableMaxValue;
-            binaryFile_.read(reinterpret_cast<char *>(&portableMaxValue), sizeof(uint32_t));
-            metadata->max_value = portableFloat(portableMaxValue);
-
-            uint64_t portable_source_column_count;
-            binaryFile_.read(reinterpret_cast<char *>(&portable_source_column_count), sizeof(uint64_t));
-            metadata->source_column_count = portableBytes(portable_source_column_count);
-
-            uint64_t portableRows;
-            binaryFile_.read(reinterpret_cast<char *>(&portableRows), sizeof(uint64_t));
-            metadata->rows = portableBytes(portableRows);
-            uint64_t portableColumns;
-            binaryFile_.read(reinterpret_cast<char *>(&portableColumns), sizeof(uint64_t));
-            metadata->columns = portableBytes(portableColumns);
-            uint64_t portableChannels;
-            binaryFile_.read(reinterpret_cast<char *>(&portableChannels), sizeof(uint64_t));
-            metadata->channels = portableBytes(portableChannels);
-
-            uint64_t portable_label_count;
-            binaryFile_.read(reinterpret_cast<char *>(&portable_label_count), sizeof(uint64_t));
-            size_t label_count = portableBytes(portable_label_count);
+            metadata->purpose = readHeaderValue<char>();
+
+            metadata->is_standardized = readHeaderBool();
+            metadata->mean = portableFloat(readHeaderValue<uint32_t>());
+            metadata->standard_deviation = portableFloat(readHeaderValue<uint32_t>());
+
+            metadata->is_normalized = readHeaderBool();
+            metadata->min_value = portableFloat(readHeaderValue<uint32_t>());
+            metadata->max_value = portableFloat(readHeaderValue<uint32_t>());
+
+            metadata->source_column_count = portableBytes(readHeaderValue<uint64_t>());
+
+            metadata->rows = portableBytes(readHeaderValue<uint64_t>());
+            metadata->columns = portableBytes(readHeaderValue<uint64_t>());
+            metadata->channels = portableBytes(readHeaderValue<uint64_t>());
+
+            const size_t label_count = portableBytes(readHeaderValue<uint64_t>());
             for (size_t next_label = 0; next_label < label_count; next_label++) {
-                uint64_t label_length;
-                binaryFile_.read(reinterpret_cast<char *>(&label_length), sizeof(uint64_t));
-                auto portable_label_length = portableBytes(label_length);
-                auto label_length_streamsize = static_cast<streamsize>(portable_label_length);
-                vector<char> char_array(label_length_streamsize, 0);
-                binaryFile_.read(char_array.data(), label_length_streamsize);
-                string label(char_array.data(), label_length_streamsize);
-                metadata->ordered_labels.push_back(label);
-            }
-
-            uint64_t column_name_length;
-            binaryFile_.read(reinterpret_cast<char *>(&column_name_length), sizeof(uint64_t));
-            auto portable_column_name_length = portableBytes(column_name_length);
-            auto column_name_length_streamsize = static_cast<streamsize>(portable_column_name_length);
-            std::vector<char> column_name_char_array(column_name_length_streamsize, 0);
-            binaryFile_.read(column_name_char_array.data(), column_name_length_streamsize);
-            string column_name(column_name_char_array.begin(), column_name_char_array.end());
-            metadata->name = column_name;
+                metadata->ordered_labels.push_back(readHeaderString());
+            }
+
+            metadata->name = readHeaderString();
 
             return metadata;
         }
 
+        template<typename T>
+        T readHeaderValue() {
+            T value;
+            if (!binaryFile_.read(reinterpret_cast<char *>(&value), sizeof(T))) {
+                throwDamaged();
+            }
+            return value;
+        }
+
+        bool readHeaderBool() {
+            const auto value = readHeaderValue<char>();
+            if (value != 0 && value != 1) {
+                throwDamaged();
+            }
+            return value == 1;
+        }
+
+        string readHeaderString() {
+            const size_t length = portableBytes(readHeaderValue<uint64_t>());
+            if (length > bytesLeft()) {
+                throwDamaged();
+            }
+            string value(length, '\0');
+            if (!binaryFile_.read(value.data(), static_cast<streamsize>(length))) {
+                throwDamaged();
+            }
+            return value;
+        }
+
+        [[nodiscard]] size_t bytesLeft() {
+            return file_size_ - static_cast<size_t>(binaryFile_.tellg());
+        }
+
+        [[nodiscard]] size_t bytesPerRow(const shared_ptr<BinaryColumnMetadata> &metadata) const {
+            size_t result = sizeof(float);
+            for (const size_t dimension: {metadata->rows, metadata->columns, metadata->channels}) {
+                if (dimension == 0 || dimension > MAX_BYTES_PER_COLUMN / result) {
+                    throwDamaged();
+                }
+                result *= dimension;
+            }
+            return result;
+        }
+
+        [[noreturn]] void throwDamaged() const {
+            throw runtime_error("The dataset file is damaged or incomplete: " + path_);
+        }
+
         [[nodiscard]] shared_ptr<BaseTensor> loadTensor(const shared_ptr<BinaryColumnMetadata> &metadata) {
             shared_ptr<BaseTensor> next_tensor;
             if (metadata->purpose == 'I') {
-- 
2.43.0


From 5f840a3467471cc7c7efc938bf05e26dd6cfb2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:38 +0000
Subject: [PATCH 58/91] fix: the best categories of a result with more columns
 than labels is an error

---
 src/training_data/data_decoder.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/training_data/data_decoder.hpp b/src/training_data/data_decoder.hpp
index a9b2369..8a9100b 100644
--- a/src/training_data/data_decoder.hpp
+++ b/src/training_data/data_decoder.hpp
@@ -128,6 +128,10 @@ namespace happyml {
             vector<string> result;
             result.reserve(categoryIndex.size());
             for (const auto &index: categoryIndex) {
+                if (index.getIndex() >= categoryLabels_.size()) {
+                    string message = "Category index out of bounds: " + to_string(index.getIndex());
+                    throw runtime_error(message);
+                }
                 result.push_back(categoryLabels_[index.getIndex()]);
             }
             return result;
-- 
2.43.0


From 22bfa3f58feefda730a1ada752e54ce38834930a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:38 +0000
Subject: [PATCH 59/91] fix: a damaged byte pair encoder file is not loaded,
 and loading replaces the codes there were

---
 src/ml/byte_pair_encoder.hpp | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/ml/byte_pair_encoder.hpp b/src/ml/byte_pair_encoder.hpp
index 1ed6c8e..2905769 100644
--- a/src/ml/byte_pair_encoder.hpp
+++ b/src/ml/byte_pair_encoder.hpp
@@ -555,30 +555,32 @@ namespace happyml {
             }
 
             uint16_t delimiter_code = 0;
-            file.read(reinterpret_cast<char *>(&delimiter_code), sizeof(delimiter_code));
-            setDelimiterCode(delimiter_code);
+            if (!file.read(reinterpret_cast<char *>(&delimiter_code), sizeof(delimiter_code))) {
+                return false;
+            }
 
-            while (!file.eof()) {
+            unordered_map<u16string, u16string> bpe_codes;
+            while (file.peek() != std::ifstream::traits_type::eof()) {
                 pair<u16string, u16string> code_pair;
                 for (auto &str: {&code_pair.first, &code_pair.second}) {
                     uint16_t str_length = 0;
-                    file.read(reinterpret_cast<char *>(&str_length), sizeof(str_length));
-
-                    if (file.eof()) {
-                        break;
+                    if (!file.read(reinterpret_cast<char *>(&str_length), sizeof(str_length))) {
+                        return false;
                     }
 
                     str->resize(str_length);
-                    file.read(const_cast<char *>(reinterpret_cast<const char *>(str->data())),
-                              static_cast<streamsize>(str_length * sizeof(char16_t)));
+                    if (!file.read(reinterpret_cast<char *>(str->data()),
+                                   static_cast<streamsize>(str_length * sizeof(char16_t)))) {
+                        return false;
+                    }
                 }
-
-                if (!file.eof()) {
-                    ordered_bpe_codes_.push_back(std::move(code_pair));
+                if (code_pair.first.empty() || code_pair.second.size() != 1) {
+                    return false;
                 }
+                bpe_codes[code_pair.first] = code_pair.second;
             }
 
-            file.close();
+            configure(bpe_codes, delimiter_code);
             return true;
         }
 
-- 
2.43.0


From 85aacbfb72b0a09791453f85ec4675a115733f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:18 +0000
Subject: [PATCH 60/91] fix: a record with too few columns is an error when a
 delimited file is loaded

---
 src/util/dataset_utils.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/util/dataset_utils.hpp b/src/util/dataset_utils.hpp
index ebd5d8d..81275f4 100644
--- a/src/util/dataset_utils.hpp
+++ b/src/util/dataset_utils.hpp
@@ -472,9 +472,15 @@ namespace happyml {
         auto dataset = make_shared<InMemoryTrainingDataSet>();
 
         DelimitedTextFileReader delimitedTextFileReader(path, delimiter, header_row);
+        if (!delimitedTextFileReader.hasNext() && !filesystem::exists(path)) {
+            throw runtime_error("Could not open file " + path);
+        }
 
         while (delimitedTextFileReader.hasNext()) {
             auto record = delimitedTextFileReader.nextRecord();
+            if (record.size() < given_columns + expected_columns) {
+                throw runtime_error("A record of " + path + " has too few columns: " + to_string(record.size()));
+            }
             auto middleIter(record.begin());
             std::advance(middleIter, expected_first ? expected_columns : given_columns);
             vector<string> firstHalf(record.begin(), middleIter);
-- 
2.43.0


From 951e60916250a1cf6c400ef717aff03cab5f25ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:24 +0000
Subject: [PATCH 61/91] fix: a model definition that lost its output layers is
 an error

---
 src/ml/happyml_dsl.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ml/happyml_dsl.hpp b/src/ml/happyml_dsl.hpp
index 674a81b..c4420b1 100644
--- a/src/ml/happyml_dsl.hpp
+++ b/src/ml/happyml_dsl.hpp
@@ -986,8 +986,14 @@ namespace happyml {
                 edgeFromTo[fromLabel] = toLabels;
             }
         }
+        if (vertexes.empty()) {
+            throw runtime_error("Bad model definition. Missing vertexes.");
+        }
         map<uint32_t, shared_ptr<HappymlDSL::NNVertex>> createdVertexes;
         for (const auto &vertex: vertexes) {
+            if (!asBool(vertex.second.at(3)) && edgeFromTo.count(vertex.first) == 0) {
+                throw runtime_error("Bad model definition. Missing edge from vertex " + asString(vertex.first) + ".");
+            }
             createVertexFromMetadata(dsl, vertex.second, createdVertexes, edgeFromTo);
         }
 
-- 
2.43.0


From f9a09a8577bd09c4d5f15b177ad7e8c157af7aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:06 +0000
Subject: [PATCH 62/91] fix: training a byte pair encoder on an empty token
 doesn't read past its end

---
 src/ml/byte_pair_encoder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ml/byte_pair_encoder.hpp b/src/ml/byte_pair_encoder.hpp
index 2905769..04ad172 100644
--- a/src/ml/byte_pair_encoder.hpp
+++ b/src/ml/byte_pair_encoder.hpp
@@ -451,7 +451,7 @@ namespace happyml {
                 // in a more compact vocabulary the second call to train()
                 // It LOOKS like it works, which is why I'm leaving it in.
                 u16string line16 = encode(token);
-                for (size_t i = 0; i < line16.size() - 1; ++i) {
+                for (size_t i = 0; i + 1 < line16.size(); ++i) {
                     u16string const pair = u16string(1, line16[i]) + u16string(1, line16[i + 1]);
                     // If the character pair is already in the vocab unordered_map, increment its frequency; otherwise, add it to the vocab unordered_map with a frequency of 1.
                     auto exiting_entry = vocab.find(
-- 
2.43.0


From 627de80b3e0a97bd3d01e4670562a053e3402090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:06 +0000
Subject: [PATCH 63/91] fix: a byte pair encoder makes no more merges than
 allowed, and never uses the reserved code

---
 src/ml/byte_pair_encoder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ml/byte_pair_encoder.hpp b/src/ml/byte_pair_encoder.hpp
index 04ad172..8ebeb5a 100644
--- a/src/ml/byte_pair_encoder.hpp
+++ b/src/ml/byte_pair_encoder.hpp
@@ -293,7 +293,7 @@ namespace happyml {
             size_t merge_count = 0;
             int no_improvement_counter = 0;
             ElapsedTimer mergeTimer;
-            while (!vocab.empty() && (merge_count < 1 || merge_count < num_merges)) {
+            while (!vocab.empty() && next_code_ < max_code && (num_merges < 0 || merge_count < (size_t) num_merges)) {
                 auto most_frequent = findMostFrequentPair(vocab, min_frequency);
                 if (most_frequent.second == 0) {
                     break;
-- 
2.43.0


From ff1b5ec9273953b50a2ea61305b45934e3000ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:06 +0000
Subject: [PATCH 64/91] fix: saving a byte pair encoder reports that it could
 not be written

---
 src/ml/byte_pair_encoder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ml/byte_pair_encoder.hpp b/src/ml/byte_pair_encoder.hpp
index 8ebeb5a..d255060 100644
--- a/src/ml/byte_pair_encoder.hpp
+++ b/src/ml/byte_pair_encoder.hpp
@@ -543,7 +543,7 @@ namespace happyml {
             }
 
             file.close();
-            return true;
+            return !file.fail();
         }
 
         bool load(const string &modelFolderPath, const string &knowledgeLabel) {
-- 
2.43.0


From b3883c89530fb537c2836f6b7421843e3b935512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:06 +0000
Subject: [PATCH 65/91] fix: one hot encoding of characters and codes stays
 within the encoding

---
 src/util/one_hot_encoder.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/util/one_hot_encoder.hpp b/src/util/one_hot_encoder.hpp
index 0caf61a..f8d1035 100644
--- a/src/util/one_hot_encoder.hpp
+++ b/src/util/one_hot_encoder.hpp
@@ -39,7 +39,7 @@ namespace happyml {
         for (const auto &token: tokens) {
             for (const auto &c: token) {
                 vector<float> encoded_chars(largest_bpe_code, 0.0);
-                if (c <= largest_bpe_code) {
+                if (c < largest_bpe_code) {
                     encoded_chars[c] = 1.0;
                 }
                 encoded_tokens.push_back(encoded_chars);
@@ -56,7 +56,10 @@ namespace happyml {
         for (const auto &token: tokens) {
             for (const auto &c: token) {
                 vector<float> encoded_chars(255, 0.0);
-                encoded_chars[c] = 1.0;
+                const auto index = static_cast<unsigned char>(c);
+                if (index < encoded_chars.size()) {
+                    encoded_chars[index] = 1.0;
+                }
                 encoded_tokens.push_back(encoded_chars);
             }
         }
-- 
2.43.0


From aaaa1fb54f078524d72f689c77c97b3b18853577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:20 +0000
Subject: [PATCH 66/91] fix: hyperband keeps the best configurations of a round
 rather than the worst

---
 src/ml/hyperband/hyperband.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ml/hyperband/hyperband.hpp b/src/ml/hyperband/hyperband.hpp
index 571cdb4..1027639 100644
--- a/src/ml/hyperband/hyperband.hpp
+++ b/src/ml/hyperband/hyperband.hpp
@@ -74,9 +74,9 @@ namespace happyml {
 
             std::partial_sort(configurations.begin(), configurations.begin() + static_cast<vector<shared_ptr<Hyperparameters>>::difference_type>(num_configurations) / reduction_factor, configurations.end(),
                               [](const shared_ptr<Hyperparameters> &config1, const shared_ptr<Hyperparameters> &config2) {
-                                  // return true if config1 is worse than config2
-                                  return (config1->minimize_metric && config1->evaluation_metric > config2->evaluation_metric) ||
-                                         (!config1->minimize_metric && config1->evaluation_metric < config2->evaluation_metric);
+                                  // return true if config1 is better than config2
+                                  return (config1->minimize_metric && config1->evaluation_metric < config2->evaluation_metric) ||
+                                         (!config1->minimize_metric && config1->evaluation_metric > config2->evaluation_metric);
                               });
 
             configurations.erase(configurations.begin() + static_cast<vector<shared_ptr<Hyperparameters>>::difference_type>(num_configurations) / reduction_factor, configurations.end());
-- 
2.43.0


From f6cc6e3e2c4d6cb30097ee515eeff7a5a8f6719c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:20 +0000
Subject: [PATCH 67/91] fix: evaluating a configuration respects the epochs,
 time, and resources it may use

---
 src/ml/hyperband/configuration_evaluator.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ml/hyperband/configuration_evaluator.hpp b/src/ml/hyperband/configuration_evaluator.hpp
index 64880aa..8b85d11 100644
--- a/src/ml/hyperband/configuration_evaluator.hpp
+++ b/src/ml/hyperband/configuration_evaluator.hpp
@@ -224,6 +224,7 @@ namespace happyml {
                                                                   improvement_tolerance,
                                                                   2,
                                                                   0.25f);
+            model->setExitStrategy(exit_strategy);
             model->setSilentMode(true);
             shared_ptr<BinaryDataSet> data_set = make_shared<BinaryDataSet>(dataset_path_, dataset_split_);
             shared_ptr<BinaryDataSet> test_data_set = make_shared<BinaryDataSet>(test_dataset_path_, test_dataset_split_);
-- 
2.43.0


From ab7c954074bd632079376aaa43b766fbd05a69e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:20 +0000
Subject: [PATCH 68/91] fix: a configuration that can't be evaluated ends the
 search and not the program

---
 src/ml/hyperband/hyperband.hpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/ml/hyperband/hyperband.hpp b/src/ml/hyperband/hyperband.hpp
index 1027639..69e3d20 100644
--- a/src/ml/hyperband/hyperband.hpp
+++ b/src/ml/hyperband/hyperband.hpp
@@ -29,11 +29,22 @@ namespace happyml {
                     int allocated_resources = std::max(2, max_resources / static_cast<int>(pow(reduction_factor, round)));
 
                     std::cout << "Round " << (round + 1) << ": ";
+                    std::exception_ptr failure;
+                    std::mutex failure_mutex;
                     std::for_each(std::execution::par, configurations.begin(), configurations.end(), [&](shared_ptr<Hyperparameters> &configuration) {
-                        cout << "{";
-                        configuration_evaluator_->evaluateConfiguration(configuration, allocated_resources, target_metric);
-                        cout << "}";
+                        try {
+                            cout << "{";
+                            configuration_evaluator_->evaluateConfiguration(configuration, allocated_resources, target_metric);
+                            cout << "}";
+                        } catch (...) {
+                            // an exception that leaves a parallel algorithm would terminate the program
+                            std::lock_guard<std::mutex> guard(failure_mutex);
+                            failure = std::current_exception();
+                        }
                     });
+                    if (failure) {
+                        std::rethrow_exception(failure);
+                    }
                     cout << endl;
                     float best_evaluation_metric = configuration_evaluator_->getBestEvaluationMetric();
                     cout << "Best evaluation metric: " << best_evaluation_metric << endl;
-- 
2.43.0


From 8004e2ac36aa2497f9e6467ae3abf9bcf6e41838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:20 +0000
Subject: [PATCH 69/91] fix: a search among a single configuration evaluates it

---
 src/ml/hyperband/hyperband.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ml/hyperband/hyperband.hpp b/src/ml/hyperband/hyperband.hpp
index 69e3d20..a10f56a 100644
--- a/src/ml/hyperband/hyperband.hpp
+++ b/src/ml/hyperband/hyperband.hpp
@@ -25,7 +25,7 @@ namespace happyml {
                 }
                 std::vector<shared_ptr<Hyperparameters>> configurations = generateInitialConfigurations(num_configurations, bits_per_hyperparameter);
                 std::cout << "Searching for the best configuration among " << num_configurations << " likely options." << endl;
-                for (int round = 0; num_configurations > 1; round++) {
+                for (int round = 0; num_configurations > 1 || round == 0; round++) {
                     int allocated_resources = std::max(2, max_resources / static_cast<int>(pow(reduction_factor, round)));
 
                     std::cout << "Round " << (round + 1) << ": ";
-- 
2.43.0


From dd88fd59773b1737d200185113ee83593fe4d7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:20 +0000
Subject: [PATCH 70/91] fix: option words of statements are case-insensitive

---
 src/lang/parser/parser.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/lang/parser/parser.hpp b/src/lang/parser/parser.hpp
index b3631b5..9ea7fa3 100644
--- a/src/lang/parser/parser.hpp
+++ b/src/lang/parser/parser.hpp
@@ -52,7 +52,7 @@ namespace happyml {
                 return make_shared<ParseResult>(make_shared<HelpStatement>());
             }
             auto next = stream->next();
-            return make_shared<ParseResult>(make_shared<HelpStatement>(next->getValue()));
+            return make_shared<ParseResult>(make_shared<HelpStatement>(asLower(next->getValue())));
         }
 
         static shared_ptr<ParseResult> parsePrintStatement(const shared_ptr<TokenStream> &stream) {
@@ -60,10 +60,10 @@ namespace happyml {
                 return generateError("usage: print <raw|pretty> <name> [limit <x>]", stream->previous());
             }
             auto next = stream->next();
-            if ("raw" != next->getValue() && "pretty" != next->getValue()) {
+            if ("_raw" != next->getLabel() && "_pretty" != next->getLabel()) {
                 return generateError("usage: print <raw|pretty> <name> [limit <x>]", stream->previous());
             }
-            bool raw = "raw" == next->getValue();
+            bool raw = "_raw" == next->getLabel();
             next = stream->next();
             auto dataset_name = next->getValue();
             if (!stream->hasNext() || "_limit" != stream->peek()->getLabel()) {
@@ -93,7 +93,7 @@ namespace happyml {
             if (!stream->hasNext()) {
                 return generateError("with statement data type missing ", stream->previous());
             }
-            columnGroup->data_type_ = stream->next()->getValue();
+            columnGroup->data_type_ = asLower(stream->next()->getValue());
             if (!stream->hasNext()) {
                 return generateError("with statement label missing ", stream->previous());
             }
@@ -194,16 +194,16 @@ namespace happyml {
                         return generateError("create task with statement malformed: ", next);
                     }
                     auto parameterToken = stream->next();
-                    if ("test" == parameterToken->getValue()) {
+                    if ("_test" == parameterToken->getLabel()) {
                         if (!stream->hasNext()) {
                             return generateError("create task with statement malformed: ", parameterToken);
                         }
                         test_dataset_name = stream->next()->getValue();
-                    } else if ("goal" == parameterToken->getValue()) {
+                    } else if ("_goal" == parameterToken->getLabel()) {
                         if (!stream->hasNext()) {
                             return generateError("create task with statement malformed: ", parameterToken);
                         }
-                        goal = stream->next()->getValue();
+                        goal = asLower(stream->next()->getValue());
                     } else {
                         return generateError("create task with statement malformed: ", parameterToken);
                     }
@@ -216,7 +216,7 @@ namespace happyml {
                     return generateError("create task using statement malformed: ", usingToken);
                 }
                 auto datasetName = stream->next();
-                auto createTaskResult = make_shared<CreateTaskStatement>(taskType->getValue(),
+                auto createTaskResult = make_shared<CreateTaskStatement>(asLower(taskType->getValue()),
                                                                          taskName->getValue(),
                                                                          goal,
                                                                          datasetName->getValue(),
@@ -255,7 +255,7 @@ namespace happyml {
                     if (!stream->hasNext()) {
                         return generateError("with statement is incomplete ", stream->previous());
                     }
-                    string withType = stream->next()->getValue();
+                    string withType = asLower(stream->next()->getValue());
                     if ("header" == withType) {
                         has_header = true;
                     } else {
-- 
2.43.0


From fa7f72d57698ddd0fa177ed97003a8991273b2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:20 +0000
Subject: [PATCH 71/91] fix: a location may have keywords in it, and ends where
 it ends

---
 src/lang/parser/parser.hpp | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/lang/parser/parser.hpp b/src/lang/parser/parser.hpp
index 9ea7fa3..15ee95c 100644
--- a/src/lang/parser/parser.hpp
+++ b/src/lang/parser/parser.hpp
@@ -143,26 +143,23 @@ namespace happyml {
         }
 
         static string parseLocation(const shared_ptr<TokenStream> &stream) {
+            if (!stream->hasNext()) {
+                throw runtime_error("Missing url after: " + stream->previous()->render());
+            }
             auto scheme = stream->next();
-            if (!stream->hasNext(3)) {
+            if (!stream->hasNext(4) || "_colon" != stream->peek(1)->getLabel() ||
+                "_slash" != stream->peek(2)->getLabel() || "_slash" != stream->peek(3)->getLabel()) {
                 throw runtime_error("Malformed url at: " + scheme->render());
             }
             stream->consume(3); // :// that follows the https or file
             stringstream url;
-            url << scheme->getValue() << "://";
-            auto nextLabel = stream->peek()->getLabel();
-            // TODO: this is a bit of a hack, but it works for now. Keywords aren't currently allowed in
-            //  the url, which is a problem, since words like "raw' are allowed in the url. I'm going to
-            //  manually allow "raw" to pass, but all of the keywords should be allowed. The problem is
-            //  if we didn't do this check, we'd keep going for the rest of the file.
-            while ("raw" == stream->peek()->getValue() || "_word" == nextLabel || "_slash" == nextLabel || "_backslash" == nextLabel
-                   || "_dot" == nextLabel || "_colon" == nextLabel || "_number" == nextLabel
-                   || "_underscore" == nextLabel) {
-                url << stream->next()->getValue();
-                if (!stream->hasNext()) {
-                    break;
-                }
-                nextLabel = stream->peek()->getLabel();
+            url << asLower(scheme->getValue()) << "://";
+            // the url may have words in it that are keywords elsewhere. It ends at the first whitespace.
+            size_t end = stream->previous()->getOffset() + stream->previous()->getLength();
+            while (stream->hasNext() && stream->peek()->getOffset() == end) {
+                auto next = stream->next();
+                url << next->getValue();
+                end = next->getOffset() + next->getLength();
             }
 
             return url.str();
-- 
2.43.0


From 61982bd1efa0f8815c1912191d7fa7bffabdcf5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:20 +0000
Subject: [PATCH 72/91] fix: help without an option does not swallow the start
 of the next statement

---
 src/lang/parser/parser.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lang/parser/parser.hpp b/src/lang/parser/parser.hpp
index 15ee95c..028c39c 100644
--- a/src/lang/parser/parser.hpp
+++ b/src/lang/parser/parser.hpp
@@ -47,8 +47,13 @@ namespace happyml {
             return make_shared<ParseResult>(error_message.str(), false);
         }
 
+        static bool startsStatement(const string &label) {
+            return "_help" == label || "_print" == label || "_create" == label || "_execute" == label || "_exit" == label;
+        }
+
         static shared_ptr<ParseResult> parseHelpStatement(const shared_ptr<TokenStream> &stream) {
-            if (!stream->hasNext()) {
+            // what follows is only part of this statement if another statement can't start with it
+            if (!stream->hasNext() || startsStatement(stream->peek()->getLabel())) {
                 return make_shared<ParseResult>(make_shared<HelpStatement>());
             }
             auto next = stream->next();
-- 
2.43.0


From bcf105a39c31afe5bddb8297779cdafde251124b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:20 +0000
Subject: [PATCH 73/91] fix: a statement that ends too soon or has an invalid
 number is a parse error

---
 src/lang/parser/parser.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lang/parser/parser.hpp b/src/lang/parser/parser.hpp
index 028c39c..454a72a 100644
--- a/src/lang/parser/parser.hpp
+++ b/src/lang/parser/parser.hpp
@@ -35,7 +35,12 @@ namespace happyml {
 
             // cout << "Lexer: " << lexResult->getMessage() << endl << lexResult->getMatchStream()->render() << endl;
             // then build parsed result.
-            return parseCodeBlock(lexResult->getMatchStream());
+            auto stream = lexResult->getMatchStream();
+            try {
+                return parseCodeBlock(stream);
+            } catch (const exception &e) {
+                return generateError(string("Incomplete or invalid statement (") + e.what() + ") at: ", stream->previous());
+            }
         }
 
     private:
-- 
2.43.0


From 021f07e143698da2daf84faf1db1814c255b6611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:20 +0000
Subject: [PATCH 74/91] fix: no statement runs after exit

---
 src/lang/statements/code_block_statement.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lang/statements/code_block_statement.hpp b/src/lang/statements/code_block_statement.hpp
index 2f03fcd..f18270b 100644
--- a/src/lang/statements/code_block_statement.hpp
+++ b/src/lang/statements/code_block_statement.hpp
@@ -24,7 +24,7 @@ namespace happyml {
                 lastResult = child->execute(context);
                 // We are discarding all results but the last one. This is fine for handling errors, but
                 // I'm not sure if we should use them for anything. I don't need them now, so this is fine.
-                if (!lastResult->isSuccessful()) {
+                if (!lastResult->isSuccessful() || lastResult->exitRequested()) {
                     break;
                 }
             }
-- 
2.43.0


From 47fc206959a99d9d408b484d622539844970bb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:20 +0000
Subject: [PATCH 75/91] fix: an exception in a statement is a failure of the
 statement and not the end of the session

---
 src/lang/statements/code_block_statement.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lang/statements/code_block_statement.hpp b/src/lang/statements/code_block_statement.hpp
index f18270b..24c423c 100644
--- a/src/lang/statements/code_block_statement.hpp
+++ b/src/lang/statements/code_block_statement.hpp
@@ -21,7 +21,11 @@ namespace happyml {
             // default to success if there are no children.
             shared_ptr<ExecutionResult> lastResult = make_shared<ExecutionResult>();
             for (const auto &child: children) {
-                lastResult = child->execute(context);
+                try {
+                    lastResult = child->execute(context);
+                } catch (const exception &e) {
+                    lastResult = make_shared<ExecutionResult>(false, false, e.what());
+                }
                 // We are discarding all results but the last one. This is fine for handling errors, but
                 // I'm not sure if we should use them for anything. I don't need them now, so this is fine.
                 if (!lastResult->isSuccessful() || lastResult->exitRequested()) {
-- 
2.43.0


From e97c416be1c9e2231a72274e610eade6ab7d65d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:20 +0000
Subject: [PATCH 76/91] fix: reading an empty line is well-defined

---
 src/lang/interpreter.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lang/interpreter.hpp b/src/lang/interpreter.hpp
index 48d35d3..5a202fa 100644
--- a/src/lang/interpreter.hpp
+++ b/src/lang/interpreter.hpp
@@ -75,7 +75,7 @@ namespace happyml {
             cout << "> ";
             while (std::getline(std::cin, nextLine)) {
                 nextLine = trimEnd(nextLine);
-                if (nextLine.back() == '\\') {
+                if (!nextLine.empty() && nextLine.back() == '\\') {
                     // Remove the backslash and add the line to the buffer
                     nextLine.pop_back();
                     fullLine += nextLine + '\n';
-- 
2.43.0


From 6b92388fd8fe92c06cd15be6badc98adbe87af46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:20 +0000
Subject: [PATCH 77/91] fix: a script that cannot be read is an error

---
 src/lang/interpreter.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lang/interpreter.hpp b/src/lang/interpreter.hpp
index 5a202fa..af1239b 100644
--- a/src/lang/interpreter.hpp
+++ b/src/lang/interpreter.hpp
@@ -6,6 +6,7 @@
 #ifndef HAPPYML_INTERPRETER_HPP
 #define HAPPYML_INTERPRETER_HPP
 
+#include <filesystem>
 #include <fstream>
 #include <sstream>
 #include "happyml_script_init.hpp"
@@ -50,18 +51,21 @@ namespace happyml {
             try {
                 ifstream stream;
                 stream.open(filePath, ifstream::in);
+                if (!stream.is_open() || filesystem::is_directory(filePath)) {
+                    throw ofstream::failure("The file could not be opened.");
+                }
                 stringstream fullText;
                 fullText << stream.rdbuf();
                 try {
                     done = interpretCommands(fullText.str(), filePath);
                 } catch (const exception &e) {
                     cerr << "Failed to interpret: " << filePath << endl << e.what() << endl;
-                    throw e;
+                    throw;
                 }
                 stream.close();
             } catch (ofstream::failure &e) {
                 cerr << "Failed to load: " << filePath << endl << e.what() << endl;
-                throw e;
+                throw;
             }
             return done;
         }
-- 
2.43.0


From a1c55bc604d331c52991a6081d8a114b733ea9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:17 +0000
Subject: [PATCH 78/91] fix: labels of a dataset that is read with the metadata
 of another are those of the other

---
 src/util/file_reader.hpp | 71 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 65 insertions(+), 6 deletions(-)

diff --git a/src/util/file_reader.hpp b/src/util/file_reader.hpp
index eb70b2e..5bbee77 100644
--- a/src/util/file_reader.hpp
+++ b/src/util/file_reader.hpp
@@ -201,11 +201,11 @@ namespace happyml {
                 throw runtime_error("Could not open file " + path);
             }
             readHeader();
-            if (!renormalize_given_metadata_.empty() && renormalize_given_metadata_.size() != given_metadata_.size()) {
+            if (!isCompatible(given_metadata_, renormalize_given_metadata_)) {
                 close();
                 throw runtime_error("Incompatible given metadata for renormalization");
             }
-            if (!renormalize_expected_metadata_.empty() && renormalize_expected_metadata_.size() != expected_metadata_.size()) {
+            if (!isCompatible(expected_metadata_, renormalize_expected_metadata_)) {
                 close();
                 throw runtime_error("Incompatible expected metadata for renormalization");
             }
@@ -243,7 +243,9 @@ namespace happyml {
             size_t given_offset = 0;
             for (const auto &metadata: given_metadata_) {
                 shared_ptr<BaseTensor> next_tensor = loadTensor(metadata);
-                if (!renormalize_given_metadata_.empty()) {
+                if (!renormalize_given_metadata_.empty() && metadata->purpose == 'L') {
+                    next_tensor = relabel(next_tensor, metadata, renormalize_given_metadata_[given_offset]);
+                } else if (!renormalize_given_metadata_.empty()) {
                     next_tensor = renormalizeAndStandardize(next_tensor, metadata->is_normalized, metadata->is_standardized,
                                                             metadata->min_value, metadata->max_value,
                                                             metadata->mean, metadata->standard_deviation,
@@ -258,7 +260,9 @@ namespace happyml {
             vector<shared_ptr<BaseTensor>> expected_tensors;
             for (const auto &metadata: expected_metadata_) {
                 shared_ptr<BaseTensor> next_tensor = loadTensor(metadata);
-                if (!renormalize_expected_metadata_.empty()) {
+                if (!renormalize_expected_metadata_.empty() && metadata->purpose == 'L') {
+                    next_tensor = relabel(next_tensor, metadata, renormalize_expected_metadata_[expected_offset]);
+                } else if (!renormalize_expected_metadata_.empty()) {
                     next_tensor = renormalizeAndStandardize(next_tensor, metadata->is_normalized, metadata->is_standardized,
                                                             metadata->min_value, metadata->max_value,
                                                             metadata->mean, metadata->standard_deviation,
@@ -291,14 +295,16 @@ namespace happyml {
             if (index >= expected_metadata_.size()) {
                 throw runtime_error("Index out of bounds");
             }
-            return {expected_metadata_[index]->rows, expected_metadata_[index]->columns, expected_metadata_[index]->channels};
+            const auto &metadata = renormalize_expected_metadata_.empty() ? expected_metadata_[index] : renormalize_expected_metadata_[index];
+            return {metadata->rows, metadata->columns, metadata->channels};
         }
 
         vector<size_t> getGivenTensorDims(size_t index) {
             if (index >= given_metadata_.size()) {
                 throw runtime_error("Index out of bounds");
             }
-            return {given_metadata_[index]->rows, given_metadata_[index]->columns, given_metadata_[index]->channels};
+            const auto &metadata = renormalize_given_metadata_.empty() ? given_metadata_[index] : renormalize_given_metadata_[index];
+            return {metadata->rows, metadata->columns, metadata->channels};
         }
 
         size_t get_given_column_count() {
@@ -408,6 +414,59 @@ namespace happyml {
         std::vector<shared_ptr<BinaryColumnMetadata>> renormalize_expected_metadata_;
 
 
+        static bool isCompatible(const std::vector<shared_ptr<BinaryColumnMetadata>> &original_metadata,
+                                 const std::vector<shared_ptr<BinaryColumnMetadata>> &renormalize_metadata) {
+            if (renormalize_metadata.empty()) {
+                return true;
+            }
+            if (renormalize_metadata.size() != original_metadata.size()) {
+                return false;
+            }
+            for (size_t i = 0; i < original_metadata.size(); i++) {
+                const auto &original = original_metadata[i];
+                const auto &renormalized = renormalize_metadata[i];
+                if (original->purpose != renormalized->purpose ||
+                    original->rows != renormalized->rows ||
+                    original->channels != renormalized->channels ||
+                    // the columns of labels depend on which labels there are
+                    (original->purpose != 'L' && original->columns != renormalized->columns)) {
+                    return false;
+                }
+            }
+            return true;
+        }
+
+        // The same labels may be in a different order, or have others among them, in a different dataset.
+        static shared_ptr<BaseTensor> relabel(const shared_ptr<BaseTensor> &original_tensor,
+                                              const shared_ptr<BinaryColumnMetadata> &original_metadata,
+                                              const shared_ptr<BinaryColumnMetadata> &renormalize_metadata) {
+            if (original_metadata->ordered_labels == renormalize_metadata->ordered_labels) {
+                return original_tensor;
+            }
+            const auto &labels = renormalize_metadata->ordered_labels;
+            vector<vector<vector<float>>> values(renormalize_metadata->channels,
+                                                 vector<vector<float>>(renormalize_metadata->rows,
+                                                                       vector<float>(renormalize_metadata->columns, 0.f)));
+            for (size_t channel = 0; channel < original_metadata->channels; channel++) {
+                for (size_t row = 0; row < original_metadata->rows; row++) {
+                    for (size_t column = 0; column < original_metadata->columns; column++) {
+                        const auto value = original_tensor->getValue(row, column, channel);
+                        if (value == 0.f) {
+                            continue;
+                        }
+                        const auto &label = original_metadata->ordered_labels.at(column);
+                        const auto found = std::find(labels.begin(), labels.end(), label);
+                        if (found == labels.end()) {
+                            string message = "Unknown label " + label + " for column: " + renormalize_metadata->name;
+                            throw runtime_error(message);
+                        }
+                        values.at(channel).at(row).at(found - labels.begin()) = value;
+                    }
+                }
+            }
+            return make_shared<FullTensor>(values);
+        }
+
         void readHeader() {
             row_size_ = 0;
             file_size_ = filesystem::file_size(path_);
-- 
2.43.0


From 099fca4234e610846a20c884340b6f0a1948fcfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:17 +0000
Subject: [PATCH 79/91] fix: a task encodes the values of any dataset the way
 it was trained

---
 src/util/task_utils.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/util/task_utils.hpp b/src/util/task_utils.hpp
index 3cc1929..1396a1f 100644
--- a/src/util/task_utils.hpp
+++ b/src/util/task_utils.hpp
@@ -178,20 +178,22 @@ namespace happyml {
         auto loadedNeuralNetwork = loadNeuralNetworkForTraining(task_name,
                                                                 task_folder_path);
 
-        string dataset_full_file_path = dataset_file_path + "/dataset.bin";
-        BinaryDatasetReader reader(dataset_full_file_path);
+        // the values of the dataset need to be encoded the way they were for training, and
+        // the predictions are encoded that way, too.
+        BinaryDatasetReader reader(task_full_path + "/dataset.bin");
         vector<shared_ptr<RawDecoder>> given_decoders = build_given_decoders(false, reader);
         vector<shared_ptr<RawDecoder>> expected_decoders = build_expected_decoders(false, reader);
         vector<string> given_column_names = reader.get_given_names();
         vector<string> expected_column_names = reader.get_expected_names();
         auto given_metadata = reader.get_given_metadata();
-        auto expected_metadata = reader.get_expected_metadata();
         reader.close();
 
         vector<string> merged_headers = pretty_print_merge_headers(expected_column_names, given_column_names);
         vector<size_t> widths;
         cout << "Results: " << endl;
-        auto dataset = make_shared<BinaryDataSet>(dataset_full_file_path, given_metadata, expected_metadata);
+        string dataset_full_file_path = dataset_file_path + "/dataset.bin";
+        vector<shared_ptr<BinaryColumnMetadata>> original_expected_metadata; // we don't need the expected values
+        auto dataset = make_shared<BinaryDataSet>(dataset_full_file_path, given_metadata, original_expected_metadata);
         auto nextRecord = dataset->nextRecord();
         while (nextRecord) {
             auto given_values = nextRecord->getGiven();
-- 
2.43.0


From 5ff5da2fdfa52d38aaf7ef0d4cfd3572f6b15041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:25 +0000
Subject: [PATCH 80/91] fix: an input that merely begins with a number is not a
 number

---
 src/lang/happyml_variant.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/lang/happyml_variant.hpp b/src/lang/happyml_variant.hpp
index 5a6e281..3d550a8 100644
--- a/src/lang/happyml_variant.hpp
+++ b/src/lang/happyml_variant.hpp
@@ -6,6 +6,7 @@
 #ifndef HAPPYML_HAPPYML_VARIANT_HPP
 #define HAPPYML_HAPPYML_VARIANT_HPP
 
+#include <stdexcept>
 #include <string>
 
 namespace happyml {
@@ -86,7 +87,13 @@ namespace happyml {
                 return static_cast<float>(int_value_);
             } else if (type_ == Type::STRING) {
                 try {
-                    return std::stof(string_value_);
+                    size_t length = 0;
+                    const float value = std::stof(string_value_, &length);
+                    // text that merely begins with a number isn't a number
+                    if (string_value_.find_first_not_of(" \t\r\n", length) != std::string::npos) {
+                        throw std::invalid_argument(string_value_);
+                    }
+                    return value;
                 } catch (std::exception &e) {
                     string error = "Cannot convert to float: " + string_value_;
                     throw std::runtime_error(error);
-- 
2.43.0


From 4b5643054d4ac65435c68e1bae225a9fa94be4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:52 +0000
Subject: [PATCH 81/91] fix: all labels of a column are printed

---
 src/util/pretty_print_row.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/util/pretty_print_row.hpp b/src/util/pretty_print_row.hpp
index abe0e45..d78610b 100644
--- a/src/util/pretty_print_row.hpp
+++ b/src/util/pretty_print_row.hpp
@@ -80,8 +80,11 @@ namespace happyml {
                 result.push_back(image_row);
             }
         } else if (decoder->isText()) {
-            string best = decoder->decodeBest(record);
-            result.push_back(best);
+            // there is a label for each row
+            for (size_t display_row = 0; display_row < record->rowCount(); display_row++) {
+                string best = decoder->decodeBest(columnVector(record->getRowValues(display_row)));
+                result.push_back(best);
+            }
         } else {
             auto row_count = record->rowCount();
             auto corrected_tensor = decoder->decode(record);
-- 
2.43.0


From 9a2c356213486053caafc926fc2dac89eb3f2b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:06 +0000
Subject: [PATCH 82/91] fix: an interrupted create dataset does not leave a
 partial dataset behind

---
 src/lang/statements/create_dataset_statement.hpp | 9 ++-------
 src/util/dataset_utils.hpp                       | 6 ++++--
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/lang/statements/create_dataset_statement.hpp b/src/lang/statements/create_dataset_statement.hpp
index 8db4cf6..85f67f6 100644
--- a/src/lang/statements/create_dataset_statement.hpp
+++ b/src/lang/statements/create_dataset_statement.hpp
@@ -199,10 +199,9 @@ namespace happyml {
                 cout << "Normalizing and standardizing values into final file." << endl;
             }
 
-            work_folder.file("dataset.bin");
+            work_folder.file("incomplete.bin");
             normalize_and_standardize_dataset(raw_location,
                                               new_dataset_path);
-            work_folder.keep("dataset.bin");
             if (!filesystem::remove(raw_location)) {
                 return make_shared<ExecutionResult>(false, false,
                                                     "Could not remove the clean dataset file.");
@@ -212,7 +211,7 @@ namespace happyml {
 
     private:
         // The files made on the way to a dataset are in its own folder, where they can't replace anybody else's.
-        // In the end, however that is reached, only what was kept remains.
+        // In the end, however that is reached, they are removed.
         class WorkFolder {
         public:
             explicit WorkFolder(string path) : path_(std::move(path)) {
@@ -232,10 +231,6 @@ namespace happyml {
                 return path_ + "/" + name;
             }
 
-            void keep(const string &name) {
-                file_names_.erase(std::remove(file_names_.begin(), file_names_.end(), name), file_names_.end());
-            }
-
         private:
             string path_;
             vector<string> file_names_;
diff --git a/src/util/dataset_utils.hpp b/src/util/dataset_utils.hpp
index 81275f4..199fb2e 100644
--- a/src/util/dataset_utils.hpp
+++ b/src/util/dataset_utils.hpp
@@ -265,8 +265,9 @@ namespace happyml {
             }
         }
 
-        auto new_dataset_path = dataset_path + "/dataset.bin";
-        BinaryDatasetWriter binaryDatasetWriter(new_dataset_path, given_metadata, expected_metadata, 0);
+        // a dataset that was only partly written must not be mistaken for the dataset
+        auto incomplete_dataset_path = dataset_path + "/incomplete.bin";
+        BinaryDatasetWriter binaryDatasetWriter(incomplete_dataset_path, given_metadata, expected_metadata, 0);
         size_t row_count = binaryDatasetReader.rowCount();
         for (size_t index = 0; index < row_count; ++index) {
             auto row = binaryDatasetReader.readRow(index);
@@ -286,6 +287,7 @@ namespace happyml {
         }
         binaryDatasetWriter.close();
         binaryDatasetReader.close();
+        filesystem::rename(incomplete_dataset_path, dataset_path + "/dataset.bin");
     }
 
 
-- 
2.43.0


From 0e9bc7f7ff68048e73deaa9d749a5c60c2bd393e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:06 +0000
Subject: [PATCH 83/91] fix: a task that was only partly saved is not mistaken
 for a task

---
 src/util/task_utils.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/util/task_utils.hpp b/src/util/task_utils.hpp
index 1396a1f..da350cd 100644
--- a/src/util/task_utils.hpp
+++ b/src/util/task_utils.hpp
@@ -406,8 +406,10 @@ namespace happyml {
 
             string task_full_path = task_folder_path + task_name;
             if (filesystem::exists(task_full_path)) {
+                // the dataset metadata is the last part to be written
                 string config = task_full_path + "/model.config";
-                if (filesystem::exists(config)) {
+                string dataset_metadata = task_full_path + "/dataset.bin";
+                if (filesystem::exists(config) && filesystem::exists(dataset_metadata)) {
                     cout << "Task " << task_name << " already exists. Skipping." << endl;
                     return true;
                 }
@@ -648,8 +650,10 @@ namespace happyml {
             neuralNetwork->saveWithOverwrite();
 
             string task_dataset_metadata_path = task_full_path + "/dataset.bin";
-            BinaryDatasetWriter writer(task_dataset_metadata_path, reader.get_given_metadata(), reader.get_expected_metadata());
+            string incomplete_metadata_path = task_full_path + "/incomplete.bin";
+            BinaryDatasetWriter writer(incomplete_metadata_path, reader.get_given_metadata(), reader.get_expected_metadata());
             writer.close();
+            filesystem::rename(incomplete_metadata_path, task_dataset_metadata_path);
             reader.close();
             log_file.close();
         } catch (exception &e) {
-- 
2.43.0


From 3cff14f582652a3cade69972e26bd3c44dadeedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:06 +0000
Subject: [PATCH 84/91] fix: a search for training parameters that does not
 find any ends

---
 src/util/task_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/task_utils.hpp b/src/util/task_utils.hpp
index da350cd..7a19fb2 100644
--- a/src/util/task_utils.hpp
+++ b/src/util/task_utils.hpp
@@ -512,9 +512,9 @@ namespace happyml {
             cout << "Using batch size " << max_batch_size << endl;
             int attempt = 0;
             float next_search_size = 640.0f;
+            int retries = 0;
 
             while (!found) {
-                int retries = 0;
                 float best_accuracy = 0.0f;
                 string best_attempt_key;
                 shared_ptr<BinaryDataSet> searchDataSource;
-- 
2.43.0


From 9998c81d8f251ca89b804adabc16792bfa93fe41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:06 +0000
Subject: [PATCH 85/91] fix: a task that can't be trained is an error

---
 src/util/task_utils.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/util/task_utils.hpp b/src/util/task_utils.hpp
index 7a19fb2..e497176 100644
--- a/src/util/task_utils.hpp
+++ b/src/util/task_utils.hpp
@@ -384,7 +384,10 @@ namespace happyml {
             log_file << "Generalized: " << (attempt_result->generalized ? "true" : "false") << endl;
             log_file << "Accuracy: " << fixed << setprecision(2) << (attempt_result->accuracy * 100) << "%" << endl;
         } catch (const exception &e) {
+            cout << "Error: " << e.what() << endl;
             attempt_result = make_shared<TrainingResult>();
+            attempt_result->learningRateAdjustmentFactor = learningRateAdjustmentFactor;
+            attempt_result->complexity_modifier = complexity_modifier;
         }
         return attempt_result;
     }
@@ -434,6 +437,10 @@ namespace happyml {
                 testDataSource = make_shared<BinaryDataSet>(dataset_full_file_path, -0.1);
             }
 
+            if (dataSource->recordCount() == 0 || testDataSource->recordCount() == 0) {
+                throw runtime_error("There are too few records to train and test with.");
+            }
+
             BinaryDatasetReader reader(dataset_full_file_path);
 
             int max_batch_size = std::min(128, (int) dataSource->recordCount());
@@ -631,6 +638,8 @@ namespace happyml {
                             next_complexity_lr_pairs.emplace_back(complexity_modifier, learningRateAdjustmentFactor / 2.0f);
                             complexity_lr_pairs = next_complexity_lr_pairs;
                             cout << "Didn't generalize, trying with a lower learning rate and lower complexity." << endl;
+                        } else if (next_results.front()->epochs == 0) {
+                            throw runtime_error("None of the complexity/learning rate pairs could be trained.");
                         } else {
                             cout << "Only one complexity/learning rate pair left.  Using it." << endl;
                             log_file << "Only one complexity/learning rate pair left.  Using it." << endl;
-- 
2.43.0


From f020dce5275f77464ccd1e6271f503e8edf89095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:41 +0000
Subject: [PATCH 86/91] fix: the output of a full layer has the shape that was
 asked for

---
 src/ml/happyml_dsl.hpp          |  6 +++++
 src/ml/layers/reshape_layer.hpp | 45 +++++++++++++++++++++++++++++++++
 2 files changed, 51 insertions(+)
 create mode 100644 src/ml/layers/reshape_layer.hpp

diff --git a/src/ml/happyml_dsl.hpp b/src/ml/happyml_dsl.hpp
index c4420b1..f59d690 100644
--- a/src/ml/happyml_dsl.hpp
+++ b/src/ml/happyml_dsl.hpp
@@ -23,6 +23,7 @@
 #include "neural_network.hpp"
 #include "layers/activation_layer.hpp"
 #include "layers/flatten_layer.hpp"
+#include "layers/reshape_layer.hpp"
 #include "layers/normalization_layer.hpp"
 #include "layers/convolution_2d_valid_layer.hpp"
 #include "layers/concatenate_wide_layer.hpp"
@@ -488,6 +489,11 @@ namespace happyml {
                 }
                 last_node = appendNode(last_node, next_node);
 
+                if (node_type == LayerType::full && (outputShape[0] > 1 || outputShape[2] > 1)) {
+                    // what a full layer calculates is a row, which needs the shape that was asked for
+                    last_node = appendNode(last_node, make_shared<NeuralNetworkNode>(make_shared<ReshapeLayer>(outputShape)));
+                }
+
                 if (use_bias) {
                     string biasLabel = asString(vertexUniqueId) + "_bias";
                     auto b = make_shared<BiasLayer>(biasLabel, outputShape, outputShape, bits, optimizer->registerForBiasChanges());
diff --git a/src/ml/layers/reshape_layer.hpp b/src/ml/layers/reshape_layer.hpp
new file mode 100644
index 0000000..98d5708
--- /dev/null
+++ b/src/ml/layers/reshape_layer.hpp
@@ -0,0 +1,45 @@
+//
+// Created by Erik Hyrkas on 11/26/2022.
+// Copyright 2022. Usable under MIT license.
+//
+
+#ifndef HAPPYML_RESHAPE_LAYER_HPP
+#define HAPPYML_RESHAPE_LAYER_HPP
+
+#include "../../types/tensor_impls/tensor_from_function.hpp"
+
+
+namespace happyml {
+    // The opposite of a flatten layer: gives the values of a row vector the shape that is asked for.
+    class ReshapeLayer : public BaseLayer {
+    public:
+        explicit ReshapeLayer(const vector<size_t> &outputShape) {
+            this->outputShape = outputShape;
+        }
+
+        shared_ptr<BaseTensor> forward(const vector<shared_ptr<BaseTensor>> &input, bool forTraining) override {
+            PROFILE_BLOCK(profileBlock);
+            if (input.size() != 1) {
+                throw runtime_error("Cannot reshape multiple inputs at the same time. Please merge.");
+            }
+            const auto &nextInput = input[0];
+            const size_t cols = outputShape[1];
+            const size_t elementsPerChannel = outputShape[0] * outputShape[1];
+            if (nextInput->size() != elementsPerChannel * outputShape[2]) {
+                throw runtime_error("Cannot reshape an input that has a different number of elements.");
+            }
+            return make_shared<TensorFromFunction>([nextInput, cols, elementsPerChannel](size_t row, size_t col, size_t channel) {
+                return nextInput->getValue(channel * elementsPerChannel + row * cols + col);
+            }, outputShape[0], outputShape[1], outputShape[2]);
+        }
+
+        vector<shared_ptr<BaseTensor>> backward(const shared_ptr<BaseTensor> &output_error) override {
+            PROFILE_BLOCK(profileBlock);
+            return {make_shared<RowFlattenTensorView>(output_error)};
+        }
+
+    private:
+        vector<size_t> outputShape;
+    };
+}
+#endif //HAPPYML_RESHAPE_LAYER_HPP
-- 
2.43.0


From 85bb5ccd05783bea5202f0d1eb1e2769aa808042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:08 +0000
Subject: [PATCH 87/91] fix: images that are smaller than the usual kernel can
 be learned from

---
 src/ml/hyperband/configuration_evaluator.hpp | 11 +++++++++--
 src/util/task_utils.hpp                      |  7 +++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/ml/hyperband/configuration_evaluator.hpp b/src/ml/hyperband/configuration_evaluator.hpp
index 8b85d11..4e6b5e6 100644
--- a/src/ml/hyperband/configuration_evaluator.hpp
+++ b/src/ml/hyperband/configuration_evaluator.hpp
@@ -106,6 +106,11 @@ namespace happyml {
         int max_epochs_;
         int64_t max_time_;
 
+        // the kernel has to fit in the image
+        static size_t kernelSizeFor(const vector<size_t> &shape) {
+            return std::min((size_t) 3, std::min(shape[0], shape[1]));
+        }
+
         shared_ptr<NeuralNetworkForTraining> buildModel(const shared_ptr<Hyperparameters> &configuration) {
             auto neural_network_builder = neuralNetworkBuilder(optimizer_type_);
             auto dsl = neural_network_builder
@@ -156,7 +161,8 @@ namespace happyml {
                     use_cnn = true;
                 }
                 if (use_cnn) {
-                    last_layer = dsl->addInputLayer(data_set->getGivenShape(), number_of_filters, 3, LayerType::convolution2dValid,
+                    last_layer = dsl->addInputLayer(data_set->getGivenShape(), number_of_filters,
+                                                    kernelSizeFor(data_set->getGivenShape()), LayerType::convolution2dValid,
                                                     ActivationType::relu);
                 } else {
                     last_layer = dsl->addInputLayer(data_set->getGivenShape(),
@@ -179,7 +185,8 @@ namespace happyml {
             for (int i = 0; i < configuration->complexity_depth; i++) {
                 // add hidden layers
                 if (use_cnn) {
-                    last_layer = last_layer->addLayer(number_of_filters, 3, LayerType::convolution2dValid, ActivationType::relu);
+                    last_layer = last_layer->addLayer(number_of_filters, kernelSizeFor(last_layer->getOutputShape()),
+                                                      LayerType::convolution2dValid, ActivationType::relu);
                 } else {
                     last_layer = last_layer->addLayer(desired_width, LayerType::full,
                                                       ActivationType::relu);
diff --git a/src/util/task_utils.hpp b/src/util/task_utils.hpp
index e497176..c4f8e59 100644
--- a/src/util/task_utils.hpp
+++ b/src/util/task_utils.hpp
@@ -264,9 +264,12 @@ namespace happyml {
         } else {
             is_convolutional = reader.get_given_metadata(0)->purpose == 'I';
             if (is_convolutional) {
-                layer1 = initial_layers->addInputLayer(dataSource->getGivenShape(), 1, 3, LayerType::convolution2dValid,
+                // the kernel has to fit in the image
+                auto given_shape = dataSource->getGivenShape();
+                size_t kernel_size = std::min((size_t) 3, std::min(given_shape[0], given_shape[1]));
+                layer1 = initial_layers->addInputLayer(given_shape, 1, kernel_size, LayerType::convolution2dValid,
                                                        activationType)->setUseBias(true);
-                cout << "convolutional input layer (1 filter and kernel size 3) -> ";
+                cout << "convolutional input layer (1 filter and kernel size " << kernel_size << ") -> ";
             } else {
                 layer1 = initial_layers->addInputLayer(dataSource->getGivenShape(),
                                                        output_size_given_expected,
-- 
2.43.0


From cfb4e8eb47e38b249f56781f9f1da7f4eaf27c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:45 +0000
Subject: [PATCH 88/91] fix: a network definition that can't be computed is
 refused

---
 src/ml/happyml_dsl.hpp | 42 +++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 41 insertions(+), 1 deletion(-)

diff --git a/src/ml/happyml_dsl.hpp b/src/ml/happyml_dsl.hpp
index f59d690..e7832b7 100644
--- a/src/ml/happyml_dsl.hpp
+++ b/src/ml/happyml_dsl.hpp
@@ -90,7 +90,9 @@ namespace happyml {
         }
 
         shared_ptr<NeuralNetworkForTraining> build() {
-
+            if (inputReceptors.empty()) {
+                throw runtime_error("A neural network needs at least one input.");
+            }
 
             auto neuralNetwork = make_shared<NeuralNetworkForTraining>(this->modelName,
                                                                        repoRootPath,
@@ -119,6 +121,12 @@ namespace happyml {
             return neuralNetwork;
         }
 
+        static void checkShape(const vector<size_t> &shape) {
+            if (shape.size() != 3 || shape[0] < 1 || shape[1] < 1 || shape[2] < 1) {
+                throw runtime_error("A shape needs rows, columns, and channels, and there has to be at least one of each.");
+            }
+        }
+
         uint32_t nextVertexId() {
             // TODO: this isn't thread safe. I may need to think more on concurrent vertex creation
             vertexUniqueSequenceCounter++;
@@ -135,6 +143,17 @@ namespace happyml {
             explicit NNVertex(const weak_ptr<HappymlDSL> &parent, LayerType layerType, const vector<size_t> &input_shape,
                               const vector<size_t> &output_shape, bool for_output, bool givenInput,
                               ActivationType activation_type, uint32_t vertexUniqueId) {
+                checkShape(input_shape);
+                checkShape(output_shape);
+                if (layerType == LayerType::convolution2dValid) {
+                    throw runtime_error("Convolutional layers need filters and a kernel size.");
+                }
+                if (layerType == LayerType::flatten && output_shape != vector<size_t>{1, input_shape[0] * input_shape[1] * input_shape[2], 1}) {
+                    throw runtime_error("The output of a flatten layer is a row of all of the values of its input.");
+                }
+                if ((layerType == LayerType::dropout || layerType == LayerType::normalize) && output_shape != input_shape) {
+                    throw runtime_error("The output of dropout and normalization layers has the shape of the input.");
+                }
                 this->parent = parent;
                 this->node_type = layerType;
                 this->activation_type = activation_type;
@@ -165,6 +184,13 @@ namespace happyml {
             explicit NNVertex(const weak_ptr<HappymlDSL> &parent, LayerType layerType, const vector<size_t> &input_shape,
                               const size_t filters, const size_t kernel_size, bool for_output, bool acceptsInput,
                               ActivationType activation_type, uint32_t vertexUniqueId) {
+                checkShape(input_shape);
+                if (filters < 1 || kernel_size < 1) {
+                    throw runtime_error("Convolutional layers need at least one filter and a kernel size of at least 1.");
+                }
+                if (kernel_size > input_shape[0] || kernel_size > input_shape[1]) {
+                    throw runtime_error("The kernel of a convolutional layer must fit in its input.");
+                }
                 this->parent = parent;
                 this->node_type = layerType;
                 this->activation_type = activation_type;
@@ -286,6 +312,7 @@ namespace happyml {
 
             shared_ptr<NNVertex> addOutput(const vector<size_t> &nodeOutputShape, const size_t outputKernelSize,
                                            LayerType layerType, ActivationType activationType) {
+                checkShape(nodeOutputShape);
                 // todo: support other types of convolution nodes here
                 if (layerType != LayerType::convolution2dValid) {
                     throw runtime_error("Only convolutional nodes have a kernel size.");
@@ -372,6 +399,12 @@ namespace happyml {
             }
 
             void addEdge(const shared_ptr<NNVertex> &to, size_t input_position = 0) {
+                if (producesOutput) {
+                    throw runtime_error("An output can't be the input of another layer.");
+                }
+                if (to->inputShapes.at(input_position) != outputShape) {
+                    throw runtime_error("The input of a layer must have the shape of the output of the layer before it.");
+                }
                 auto nne = make_shared<NNEdge>();
                 nne->from = shared_from_this();
                 nne->to = to;
@@ -393,6 +426,9 @@ namespace happyml {
                     // this node has already been built, don't infinitely recurse.
                     return first_node;
                 }
+                if (edges.empty() && !producesOutput) {
+                    throw runtime_error("Every layer has to lead to an output.");
+                }
                 vector<string> metadata_row;
                 metadata_row.emplace_back("vertex");
                 metadata_row.push_back(asString(getVertexUniqueId()));
@@ -762,6 +798,7 @@ namespace happyml {
             new_input_receptors.reserve(input_shapes.size());
             size_t total_input_width = 0;
             for (auto &input_shape: input_shapes) {
+                checkShape(input_shape);
                 size_t width = input_shape[0] * input_shape[1] * input_shape[2];
                 total_input_width += width;
                 shared_ptr<NNVertex> next_input = addInputLayer(input_shape, width, LayerType::flatten, ActivationType::linear);
@@ -771,6 +808,9 @@ namespace happyml {
         }
 
         shared_ptr<NNVertex> add_concatenated_layer(const vector<shared_ptr<NNVertex>> &previous_layers) {
+            if (previous_layers.size() < 2) {
+                throw runtime_error("add_concatenated_layer requires multiple layers");
+            }
             size_t total_input_width = 0;
             vector<vector<size_t>> input_shapes;
             for (auto &layer: previous_layers) {
-- 
2.43.0


From 2a07fb535c0671aba767b155d92f7d49bd09311b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:22 +0000
Subject: [PATCH 89/91] fix: data that doesn't fit a network is refused

---
 src/ml/happyml_dsl.hpp    |  4 ++--
 src/ml/neural_network.hpp | 41 +++++++++++++++++++++++++++++++++++++--
 2 files changed, 41 insertions(+), 4 deletions(-)

diff --git a/src/ml/happyml_dsl.hpp b/src/ml/happyml_dsl.hpp
index e7832b7..a0632dd 100644
--- a/src/ml/happyml_dsl.hpp
+++ b/src/ml/happyml_dsl.hpp
@@ -114,7 +114,7 @@ namespace happyml {
             // "edge", from id, to id, to id, to id...
 
             for (const auto &head: inputReceptors) {
-                neuralNetwork->addHeadNode(head->buildLayer(neuralNetwork, networkMetadata));
+                neuralNetwork->addHeadNode(head->buildLayer(neuralNetwork, networkMetadata), head->getInputShapes()[0]);
             }
 
             neuralNetwork->setNetworkMetadata(networkMetadata);
@@ -561,7 +561,7 @@ namespace happyml {
                     }
                     last_node = appendNode(last_node, activation_node);
                     if (producesOutput) {
-                        nn->addOutput(activation_node);
+                        nn->addOutput(activation_node, outputShape);
                     }
                     last_node->setMaterialized(materialized);
                 }
diff --git a/src/ml/neural_network.hpp b/src/ml/neural_network.hpp
index 84d8a83..77f5220 100644
--- a/src/ml/neural_network.hpp
+++ b/src/ml/neural_network.hpp
@@ -88,6 +88,11 @@ namespace happyml {
             if (givenInputs.size() != headNodes.size()) {
                 throw runtime_error("infer requires as many input tensors as there are input nodes");
             }
+            for (size_t i = 0; i < headNodes.size(); i++) {
+                if (givenInputs[i]->getShape() != inputShapes[i]) {
+                    throw runtime_error("infer requires input tensors that have the shapes of the input nodes");
+                }
+            }
             for (size_t i = 0; i < headNodes.size(); i++) {
                 headNodes[i]->forwardFromInput(givenInputs[i], forTraining);
             }
@@ -100,12 +105,14 @@ namespace happyml {
             return results;
         }
 
-        void addHeadNode(const shared_ptr<NeuralNetworkNode> &head) {
+        void addHeadNode(const shared_ptr<NeuralNetworkNode> &head, const vector<size_t> &inputShape) {
             headNodes.push_back(head);
+            inputShapes.push_back(inputShape);
         }
 
-        void addOutput(const shared_ptr<NeuralNetworkOutputNode> &output) {
+        void addOutput(const shared_ptr<NeuralNetworkOutputNode> &output, const vector<size_t> &outputShape) {
             outputNodes.push_back(output);
+            outputShapes.push_back(outputShape);
         }
 
         std::string get_name() {
@@ -121,6 +128,8 @@ namespace happyml {
         string repoRootPath;
         vector<shared_ptr<NeuralNetworkNode>> headNodes;
         vector<shared_ptr<NeuralNetworkOutputNode>> outputNodes;
+        vector<vector<size_t>> inputShapes;
+        vector<vector<size_t>> outputShapes;
     };
 
     class NeuralNetworkForTraining : public NeuralNetworkForPrediction {
@@ -430,6 +439,8 @@ namespace happyml {
                 throw runtime_error("Batch Size cannot be larger than trainingDataset data set.");
             }
 
+            checkShapes(trainingDataset);
+
             auto trainingShuffler = make_shared<Shuffler>(trainingDataset->recordCount());
             trainingDataset->setShuffler(trainingShuffler);
 
@@ -469,6 +480,7 @@ namespace happyml {
                     current_record++;
                     auto nextGiven = nextRecord->getGiven();
                     auto nextTruth = nextRecord->getExpected();
+                    checkExpected(nextTruth);
                     auto nextPrediction = predict(nextGiven, true);
                     batchOffset++;
                     float single_prediction_loss = 0.f;
@@ -592,8 +604,32 @@ namespace happyml {
             return result;
         }
 
+        // the data has to fit the network
+        void checkShapes(const shared_ptr<TrainingDataSet> &dataset) {
+            if (dataset->recordCount() == 0) {
+                return;
+            }
+            if (dataset->getGivenShapes() != inputShapes) {
+                throw runtime_error("The given values of the dataset don't have the shapes of the input nodes.");
+            }
+            if (dataset->getExpectedShapes() != outputShapes) {
+                throw runtime_error("The expected values of the dataset don't have the shapes of the output nodes.");
+            }
+        }
+
+        void checkExpected(const vector<shared_ptr<BaseTensor>> &expected) {
+            bool fits = expected.size() == outputShapes.size();
+            for (size_t i = 0; fits && i < expected.size(); i++) {
+                fits = expected[i]->getShape() == outputShapes[i];
+            }
+            if (!fits) {
+                throw runtime_error("The expected values of a record don't have the shapes of the output nodes.");
+            }
+        }
+
         float test(const shared_ptr<TrainingDataSet> &testDataset,
                    bool overwriteOutputLines = true) {
+            checkShapes(testDataset);
             testDataset->restart();
             const size_t outputSize = outputNodes.size();
             float averageLoss = 0;
@@ -604,6 +640,7 @@ namespace happyml {
             while (nextRecord) {
                 const auto nextGiven = nextRecord->getGiven();
                 auto nextTruth = nextRecord->getExpected();
+                checkExpected(nextTruth);
                 auto nextPrediction = predict(nextGiven, false);
                 float totalLoss = 0;
                 for (size_t outputIndex = 0; outputIndex < outputSize; outputIndex++) {
-- 
2.43.0


From 733066caee0bd4d6a5478277178225d7723b3941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:23 +0000
Subject: [PATCH 90/91] fix: a model without a name, which would be saved in
 place of all models, is refused

---
 src/ml/happyml_dsl.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ml/happyml_dsl.hpp b/src/ml/happyml_dsl.hpp
index a0632dd..3dfd17f 100644
--- a/src/ml/happyml_dsl.hpp
+++ b/src/ml/happyml_dsl.hpp
@@ -42,8 +42,8 @@ namespace happyml {
                             const string &repoRootPath = "repo") {
             this->optimizerType = optimizerType;
             this->modelName = modelName;
-            if (!std::all_of(modelName.begin(), modelName.end(),
-                             [](int c) { return std::isalnum(c) || c == '_'; })) {
+            if (modelName.empty() || !std::all_of(modelName.begin(), modelName.end(),
+                                                  [](int c) { return std::isalnum(c) || c == '_'; })) {
                 throw runtime_error("Model name must contain only alphanumeric characters.");
             }
             switch (optimizerType) {
@@ -77,8 +77,8 @@ namespace happyml {
 
         shared_ptr<HappymlDSL> setModelName(const string &modelNameValue) {
             this->modelName = modelNameValue;
-            if (!std::all_of(modelName.begin(), modelName.end(),
-                             [](int c) { return std::isalnum(c) || c == '_'; })) {
+            if (modelName.empty() || !std::all_of(modelName.begin(), modelName.end(),
+                                                  [](int c) { return std::isalnum(c) || c == '_'; })) {
                 throw runtime_error("Model name must contain only alphanumeric characters.");
             }
             return shared_from_this();
-- 
2.43.0


From 27212c0805944618836e77b737ae955e5ab82d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:45 +0000
Subject: [PATCH 91/91] fix: a task with few values doesn't get a layer without
 any

---
 src/util/task_utils.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/util/task_utils.hpp b/src/util/task_utils.hpp
index c4f8e59..8407dae 100644
--- a/src/util/task_utils.hpp
+++ b/src/util/task_utils.hpp
@@ -44,7 +44,8 @@ namespace happyml {
 
         auto max_val = (size_t) ((double) total_output_values * (0.25 + complexity_multiplier));
         total_values = std::min(total_values, max_val);
-        return total_values;
+        // a layer needs to have at least one value
+        return std::max((size_t) 1, total_values);
     }
 
     size_t estimate_layer_output_size(vector<vector<size_t>> expected_shapes, const string &goal, double complexity_multiplier) {
@@ -60,7 +61,8 @@ namespace happyml {
                 throw runtime_error("Unsupported expected shape size");
             }
         }
-        return (size_t) ((double) total_values * complexity_multiplier);
+        // a layer needs to have at least one value
+        return std::max((size_t) 1, (size_t) ((double) total_values * complexity_multiplier));
     }
 
     vector<shared_ptr<BaseTensor>> build_given(const unordered_map<std::string, std::vector<HappyMLVariant>> &user_inputs, const vector<shared_ptr<HappyMLVariantEncoder>> &encoders) {
-- 
2.43.0

