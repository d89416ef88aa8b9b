From 1089c36d290053dc6ee868cd70385b76ec4a47b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:51 +0000
Subject: [PATCH 01/26] Add guarded accessors for accumulated gradients (cfg
 verif_hooks)

---
 src/layer/convolutional.rs   | 8 ++++++++
 src/layer/fully_connected.rs | 7 +++++++
 src/network.rs               | 7 +++++++
 3 files changed, 22 insertions(+)

diff --git a/src/layer/convolutional.rs b/src/layer/convolutional.rs
index da6669c..0daa6e3 100644
--- a/src/layer/convolutional.rs
+++ b/src/layer/convolutional.rs
@@ -138,6 +138,14 @@ impl ConvolutionalLayer {
         self.stride = stride;
         return Ok(());
     }
+
+    // Verification hook: the accumulated kernel and bias gradients
+    #[allow(unexpected_cfgs)]
+    #[cfg(verif_hooks)]
+    pub fn verif_gradients(self: &Self) -> (&[Tensor], &[Tensor]) {
+        return (&self.kernel_gradients, &self.bias_gradients);
+    }
+
     fn load_from_serialized_data(
         self: &mut Self,
         data: &HashMap<ConvolutionalSerialKeys, Vec<u8>>,
diff --git a/src/layer/fully_connected.rs b/src/layer/fully_connected.rs
index 41bf0ed..311f940 100644
--- a/src/layer/fully_connected.rs
+++ b/src/layer/fully_connected.rs
@@ -102,6 +102,13 @@ impl FullyConnectedLayer {
         return Ok(());
     }
 
+    // Verification hook: the accumulated weight and bias gradients
+    #[allow(unexpected_cfgs)]
+    #[cfg(verif_hooks)]
+    pub fn verif_gradients(self: &Self) -> (&Tensor, &Tensor) {
+        return (&self.weights_gradients, &self.bias_gradients);
+    }
+
     pub fn fill_weights_with_value(self: &mut Self, value: f32) {
         self.weights.fill_with_value(value);
     }
diff --git a/src/network.rs b/src/network.rs
index f8e5557..a6f0614 100644
--- a/src/network.rs
+++ b/src/network.rs
@@ -176,6 +176,13 @@ impl Network {
         return Ok(&self.intermediate_states[id]);
     }
 
+    // Verification hook: the gradients stored between the layers
+    #[allow(unexpected_cfgs)]
+    #[cfg(verif_hooks)]
+    pub fn verif_gradients(self: &Self) -> &[Tensor] {
+        return &self.intermediate_gradients;
+    }
+
     pub fn get_layers(self: &Self) -> &Vec<Box<dyn Layer>> {
         return &self.layers;
     }
-- 
2.43.0


From ec3475a807fe832a20953ee2351f4eb562555bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:50 +0000
Subject: [PATCH 02/26] fix: switching a network to inference records the
 inference run state

---
 src/network.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/network.rs b/src/network.rs
index a6f0614..5d79c1e 100644
--- a/src/network.rs
+++ b/src/network.rs
@@ -202,7 +202,7 @@ impl Network {
         }
     }
     pub fn switch_to_inference(&mut self) {
-        self.run_state = NetworkRunState::Training;
+        self.run_state = NetworkRunState::Inference;
         for layer in self.layers.iter_mut() {
             layer.switch_to_inference();
         }
-- 
2.43.0


From e94f1b5a7dfb78be682592f035e7129518c5b69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:17 +0000
Subject: [PATCH 03/26] fix: kernel gradient sums only over the kernel's own
 output channel

---
 src/tensor/operations/convolution.rs | 29 ++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/tensor/operations/convolution.rs b/src/tensor/operations/convolution.rs
index b695c8f..1c967c6 100644
--- a/src/tensor/operations/convolution.rs
+++ b/src/tensor/operations/convolution.rs
@@ -277,20 +277,21 @@ pub fn convolution_backprop_kernel(
                 let mut convolution_result: f32 = 0.0;
 
                 // Loop over incoming gradient dimensions and multiply - add
-                for k in 0..result_shape.dk {
-                    for j in 0..result_shape.dj {
-                        for i in 0..result_shape.di {
-                            let incoming_gradient_id = incoming_gradients
-                                .get_data_index(&TensorIndex { i: i, j: j, k: k })
-                                as usize;
-                            let image_id = image.get_data_index(&TensorIndex {
-                                i: l + i * stride,
-                                j: m + j * stride,
-                                k: n,
-                            }) as usize;
-                            convolution_result += image.data[image_id]
-                                * incoming_gradients.data[incoming_gradient_id];
-                        }
+                // Only the output channel of this kernel depends on it
+                for j in 0..result_shape.dj {
+                    for i in 0..result_shape.di {
+                        let incoming_gradient_id = incoming_gradients.get_data_index(&TensorIndex {
+                            i: i,
+                            j: j,
+                            k: kernel_channel,
+                        }) as usize;
+                        let image_id = image.get_data_index(&TensorIndex {
+                            i: l + i * stride,
+                            j: m + j * stride,
+                            k: n,
+                        }) as usize;
+                        convolution_result +=
+                            image.data[image_id] * incoming_gradients.data[incoming_gradient_id];
                     }
                 }
                 let kernel_gradient_id =
-- 
2.43.0


From 1cd16a40b407ad99ce5f90d188fd274151154d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:18 +0000
Subject: [PATCH 04/26] fix: convolution input gradient visits every output
 position that covers an item

---
 src/tensor/operations/convolution.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/tensor/operations/convolution.rs b/src/tensor/operations/convolution.rs
index 1c967c6..518a4b0 100644
--- a/src/tensor/operations/convolution.rs
+++ b/src/tensor/operations/convolution.rs
@@ -215,15 +215,19 @@ pub fn convolution_backprop_outgoing_gradient(
                 for k in 0..incoming_gradient_shape.dk {
                     let kernel = &(kernels[k as usize]);
                     let kernel_shape = kernel.get_shape();
-                    let i_start = (a as i32 - kernel_shape.di as i32) / stride as i32 + 1;
-                    // Now converting to unsigned
-                    let i_start = i_start.max(0) as u32;
+                    // First and last output positions whose kernel window covers this item
+                    let mut i_start = 0;
+                    if a >= kernel_shape.di {
+                        i_start = (a - kernel_shape.di) / stride + 1;
+                    }
                     let mut i_stop = a / stride + 1;
-                    i_stop = i_stop.min(kernel_shape.di);
-                    let j_start = (b as i32 - kernel_shape.dj as i32) / stride as i32 + 1;
-                    let j_start = j_start.max(0) as u32;
+                    i_stop = i_stop.min(incoming_gradient_shape.di);
+                    let mut j_start = 0;
+                    if b >= kernel_shape.dj {
+                        j_start = (b - kernel_shape.dj) / stride + 1;
+                    }
                     let mut j_stop = b / stride + 1;
-                    j_stop = j_stop.min(kernel_shape.dj);
+                    j_stop = j_stop.min(incoming_gradient_shape.dj);
                     for j in j_start..j_stop {
                         for i in i_start..i_stop {
                             let incoming_gradient_id = incoming_gradients
-- 
2.43.0


From 5e430012a83d374b6ce99ecdef04a5fb029566b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:47 +0000
Subject: [PATCH 05/26] fix: convolutional backward uses the masked gradient,
 fills the bias gradients and accumulates

---
 src/layer/convolutional.rs | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/layer/convolutional.rs b/src/layer/convolutional.rs
index 0daa6e3..b01bf52 100644
--- a/src/layer/convolutional.rs
+++ b/src/layer/convolutional.rs
@@ -1,5 +1,5 @@
 use super::SerializedLayer;
-use crate::tensor::helper::TensorShape;
+use crate::tensor::helper::{TensorIndex, TensorShape};
 use crate::tensor::{self, Tensor};
 use crate::{layer::Layer, network::NetworkRunState};
 use std::collections::HashMap;
@@ -245,24 +245,38 @@ impl Layer for ConvolutionalLayer {
         // This repurposes the relu mask
         tensor::Tensor::multiply_elementwise_self(&mut self.relu_mask, incoming_gradient);
 
-        // Bias gradient
+        // Bias gradient: every item of an output channel adds the bias once
+        for k in 0..self.output_shape.dk {
+            let mut bias_gradient = Tensor::new(TensorShape::new_1d(1));
+            for j in 0..self.output_shape.dj {
+                for i in 0..self.output_shape.di {
+                    let item = self.relu_mask.get_item(&TensorIndex { i: i, j: j, k: k });
+                    let total = bias_gradient.get_item(&TensorIndex::zero()) + item;
+                    bias_gradient.set_item(&TensorIndex::zero(), total);
+                }
+            }
+            Tensor::add_to_self(&mut self.bias_gradients[k as usize], &bias_gradient);
+        }
 
         // Biases don't affect gradient propagation
 
         // kernel gradients
         for i in 0..self.kernels.len() {
+            let mut kernel_gradient = Tensor::new(self.kernels[i].get_shape());
             tensor::operations::convolution::convolution_backprop_kernel(
-                incoming_gradient,
+                &self.relu_mask,
                 input,
                 self.stride,
                 i as u32,
-                &mut self.kernel_gradients[i],
+                &mut kernel_gradient,
             )?;
+            // Gradients add up until they are cleared
+            Tensor::add_to_self(&mut self.kernel_gradients[i], &kernel_gradient);
         }
 
         // Outgoing gradient
         tensor::operations::convolution::convolution_backprop_outgoing_gradient(
-            incoming_gradient,
+            &self.relu_mask,
             &self.kernels,
             self.stride,
             outgoing_gradient,
@@ -290,6 +304,9 @@ impl Layer for ConvolutionalLayer {
         for v in &mut self.kernel_gradients {
             v.fill_with_value(0.0);
         }
+        for v in &mut self.bias_gradients {
+            v.fill_with_value(0.0);
+        }
     }
 
     fn switch_to_inference(self: &mut Self) {
-- 
2.43.0


From 654f9fadce539fe1340452b0abb0e6905e8dd1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:48 +0000
Subject: [PATCH 06/26] fix: convolutional and max pool layers refuse backward
 in inference mode

---
 src/layer/convolutional.rs | 3 +++
 src/layer/max_pool.rs      | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/layer/convolutional.rs b/src/layer/convolutional.rs
index b01bf52..d009185 100644
--- a/src/layer/convolutional.rs
+++ b/src/layer/convolutional.rs
@@ -241,6 +241,9 @@ impl Layer for ConvolutionalLayer {
         incoming_gradient: &Tensor,
         outgoing_gradient: &mut Tensor,
     ) -> Result<(), &'static str> {
+        if self.run_state == NetworkRunState::Inference {
+            return Err("Can only do backprop in training mode");
+        }
         // Relu backprop
         // This repurposes the relu mask
         tensor::Tensor::multiply_elementwise_self(&mut self.relu_mask, incoming_gradient);
diff --git a/src/layer/max_pool.rs b/src/layer/max_pool.rs
index d59b72a..557cb9b 100644
--- a/src/layer/max_pool.rs
+++ b/src/layer/max_pool.rs
@@ -171,6 +171,9 @@ impl Layer for MaxPoolLayer {
         incoming_gradient: &Tensor,
         outgoing_gradient: &mut Tensor,
     ) -> Result<(), &'static str> {
+        if self.run_state == NetworkRunState::Inference {
+            return Err("Can only do backprop in training mode");
+        }
         // Make sure the outgoing gradient is clean
         outgoing_gradient.fill_with_value(0.0);
         // Perform the backprop
-- 
2.43.0


From 45d178fe6b57e82d17c1f0ca00928ec2b6cc1469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:50 +0000
Subject: [PATCH 07/26] fix: loading layer state in training mode also sizes
 the training buffers

---
 src/layer/convolutional.rs | 2 ++
 src/layer/max_pool.rs      | 2 ++
 src/layer/softmax.rs       | 7 ++++---
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/layer/convolutional.rs b/src/layer/convolutional.rs
index d009185..e0bfc3c 100644
--- a/src/layer/convolutional.rs
+++ b/src/layer/convolutional.rs
@@ -136,6 +136,8 @@ impl ConvolutionalLayer {
         self.input_shape = input_shape;
         self.output_shape = output_shape;
         self.stride = stride;
+        // Update the helper tensors
+        self.update_gradient_and_intermediate_tensors();
         return Ok(());
     }
 
diff --git a/src/layer/max_pool.rs b/src/layer/max_pool.rs
index 557cb9b..0673a46 100644
--- a/src/layer/max_pool.rs
+++ b/src/layer/max_pool.rs
@@ -99,6 +99,8 @@ impl MaxPoolLayer {
         self.mask_shape = mask_shape;
         self.stride = stride;
         self.name = name.clone();
+        // Update the helper tensors
+        self.update_gradient_and_intermediate_tensors();
 
         return Ok(());
     }
diff --git a/src/layer/softmax.rs b/src/layer/softmax.rs
index 104f436..5f1ec7a 100644
--- a/src/layer/softmax.rs
+++ b/src/layer/softmax.rs
@@ -91,14 +91,15 @@ impl SoftmaxLayer {
         let shape_data = data
             .get(&SoftMaxSerialKeys::Shape)
             .expect("Cannot access shape data");
-        self.shape = bincode::deserialize(shape_data).expect("Cannot deserialize shape data");
+        let shape: TensorShape =
+            bincode::deserialize(shape_data).expect("Cannot deserialize shape data");
 
         let name_data = data
             .get(&SoftMaxSerialKeys::Name)
             .expect("Cannot access name data");
-        self.name = bincode::deserialize(name_data).expect("Cannot deserialize name data");
+        let name: String = bincode::deserialize(name_data).expect("Cannot deserialize name data");
 
-        return Ok(());
+        return self.fill_from_state(shape, &name);
     }
 }
 
-- 
2.43.0


From 127c7bf6526dd002050033ab4387cc8fd0077325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:20 +0000
Subject: [PATCH 08/26] fix: a window larger than the image or a zero stride is
 refused, not a panic

---
 src/tensor.rs                        | 13 +++++++++++++
 src/tensor/operations/convolution.rs |  6 ++++++
 2 files changed, 19 insertions(+)

diff --git a/src/tensor.rs b/src/tensor.rs
index fa0498a..3e3c5eb 100644
--- a/src/tensor.rs
+++ b/src/tensor.rs
@@ -449,6 +449,13 @@ impl Tensor {
         kernel_shape: &TensorShape,
         stride: u32,
     ) -> bool {
+        // The kernel must be movable and must not be larger than the image
+        if stride == 0 || kernel_shape.di == 0 || kernel_shape.dj == 0 {
+            return false;
+        }
+        if kernel_shape.di > image_shape.di || kernel_shape.dj > image_shape.dj {
+            return false;
+        }
         if (image_shape.di - kernel_shape.di) % stride != 0 {
             return false;
         }
@@ -487,6 +494,12 @@ impl Tensor {
 
         // Check if the mask fitst in the image given the stride
         // We assume that the image is properly padded
+        if stride == 0 || mask_shape.di == 0 || mask_shape.dj == 0 {
+            return false;
+        }
+        if mask_shape.di > image_shape.di || mask_shape.dj > image_shape.dj {
+            return false;
+        }
         if (image_shape.di - mask_shape.di) % stride != 0 {
             return false;
         }
diff --git a/src/tensor/operations/convolution.rs b/src/tensor/operations/convolution.rs
index 518a4b0..8c3ee2c 100644
--- a/src/tensor/operations/convolution.rs
+++ b/src/tensor/operations/convolution.rs
@@ -18,6 +18,12 @@ pub fn check_convolution_dimensions(
 
     // Check if the kernel fitst in the image given the stride
     // We assume that the image is properly padded
+    if stride == 0 || kernel_shape.di == 0 || kernel_shape.dj == 0 {
+        return Err("Stride and kernel dimensions must be at least 1");
+    }
+    if kernel_shape.di > image_shape.di || kernel_shape.dj > image_shape.dj {
+        return Err("Kernel is larger than the image");
+    }
     if (image_shape.di - kernel_shape.di) % stride != 0 {
         return Err("First dimensions of kernel and shape do not match with stride");
     }
-- 
2.43.0


From 0f8fd7c20c14af0f6038666a2bfe213eca9a1bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:21 +0000
Subject: [PATCH 09/26] fix: convolutional layer refuses kernels and biases it
 can never run with

---
 src/layer/convolutional.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/layer/convolutional.rs b/src/layer/convolutional.rs
index e0bfc3c..36c1557 100644
--- a/src/layer/convolutional.rs
+++ b/src/layer/convolutional.rs
@@ -113,6 +113,17 @@ impl ConvolutionalLayer {
                 return Err("All kernels in kernel list should have the same shape");
             }
         }
+        if kernel_shape.dk != input_shape.dk {
+            return Err("Third dimension of kernels and input don't match");
+        }
+        if biases.len() != kernels.len() {
+            return Err("Every kernel should have a bias");
+        }
+        for b in &biases {
+            if b.get_shape() != TensorShape::new_1d(1) {
+                return Err("All biases should be 1x1x1 tensors");
+            }
+        }
         if !Tensor::does_kernel_stride_fit_image(&input_shape, &kernel_shape, stride) {
             return Err("Kernel does not fit in image with given stride");
         }
-- 
2.43.0


From 6a5aa3b310d5f93acc9e04982fa02400a8ddcd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:23 +0000
Subject: [PATCH 10/26] fix: fully connected layer reports an input shape its
 weights can multiply

---
 src/layer/fully_connected.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/layer/fully_connected.rs b/src/layer/fully_connected.rs
index 311f940..ac9fa8c 100644
--- a/src/layer/fully_connected.rs
+++ b/src/layer/fully_connected.rs
@@ -49,11 +49,7 @@ impl FullyConnectedLayer {
     pub fn new(input_size: u32, output_size: u32, name: &String) -> FullyConnectedLayer {
         let mut fcl = FullyConnectedLayer::empty();
         let weights = Tensor::new(TensorShape::new(output_size, input_size, 1));
-        let bias: Tensor = Tensor::new(TensorShape {
-            di: output_size,
-            dj: 1,
-            dk: 1,
-        });
+        let bias: Tensor = Tensor::new(TensorShape::new(output_size, 1, 1));
         fcl.fill_from_state(weights, bias, name).unwrap();
         return fcl;
     }
@@ -216,7 +212,7 @@ impl Layer for FullyConnectedLayer {
         return TensorShape {
             di: self.weights.get_shape().dj,
             dj: 1,
-            dk: 1,
+            dk: self.weights.get_shape().dk,
         };
     }
 
-- 
2.43.0


From 532752f4e17c90d57cee22c16ca1c534af64941d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:54 +0000
Subject: [PATCH 11/26] fix: softmax no longer overflows or underflows for
 large items

---
 src/tensor.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tensor.rs b/src/tensor.rs
index 3e3c5eb..6fb839d 100644
--- a/src/tensor.rs
+++ b/src/tensor.rs
@@ -604,9 +604,12 @@ impl Tensor {
 
     pub fn softmax(input: &Tensor, output: &mut Tensor) {
         if input.get_shape() == output.get_shape() {
+            // Shifting by the largest item does not change the result
+            // but keeps the exponentials from overflowing
+            let max = input.data.iter().cloned().fold(f32::NEG_INFINITY, f32::max);
             let mut sum = 0.0;
             for i in 0..input.data.len() {
-                let exp = input.data[i].exp();
+                let exp = (input.data[i] - max).exp();
                 output.data[i] = exp;
                 sum += exp;
             }
-- 
2.43.0


From f338943e7ad119c36f5bbad7e20b2f794975c301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:30 +0000
Subject: [PATCH 12/26] fix: softmax backward covers all items of tensors of
 any shape

---
 src/layer/softmax.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/layer/softmax.rs b/src/layer/softmax.rs
index 5f1ec7a..e624f52 100644
--- a/src/layer/softmax.rs
+++ b/src/layer/softmax.rs
@@ -4,7 +4,7 @@ use std::collections::HashMap;
 
 use crate::layer::Layer;
 use crate::network::NetworkRunState;
-use crate::tensor::helper::TensorShape;
+use crate::tensor::helper::{TensorIndex, TensorShape};
 use crate::tensor::Tensor;
 
 use super::SerializedLayer;
@@ -118,19 +118,26 @@ impl Layer for SoftmaxLayer {
         if self.run_state == NetworkRunState::Inference {
             return Err("Can only do backprop in training mode");
         }
-        // softmax Transoped @ incoming gradient -> yields 1x1x1 tensors
-        Tensor::matrix_multiply_transpose_first(
-            output,
-            incoming_gradient,
-            &mut self.intermediate1,
-        )?;
+        // Dot product of output and incoming gradient -> yields a 1x1x1 tensor
+        // The softmax runs over all items, whatever the shape of the tensor
+        let mut dot_product = 0.0;
+        for k in 0..self.shape.dk {
+            for j in 0..self.shape.dj {
+                for i in 0..self.shape.di {
+                    let index = TensorIndex { i: i, j: j, k: k };
+                    dot_product += output.get_item(&index) * incoming_gradient.get_item(&index);
+                }
+            }
+        }
+        self.intermediate1.fill_with_value(dot_product);
 
         // Invert
         Tensor::scale_self(&mut self.intermediate1, -1.0);
 
         // Multiply with output
 
-        Tensor::matrix_multiply(output, &self.intermediate1, &mut self.intermediate2);
+        let scalar = self.intermediate1.get_item(&TensorIndex::zero());
+        Tensor::scale(output, scalar, &mut self.intermediate2);
 
         // Element wise multiplication for diagonal elements
         Tensor::multiply_elementwise(&output, incoming_gradient, outgoing_gradient);
-- 
2.43.0


From 2fa477cf997739dbe6e51e5d41c11dc07c5f9479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:31 +0000
Subject: [PATCH 13/26] fix: max pooling origin always lies inside its window

---
 src/tensor.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/tensor.rs b/src/tensor.rs
index 6fb839d..b0ac723 100644
--- a/src/tensor.rs
+++ b/src/tensor.rs
@@ -574,11 +574,17 @@ impl Tensor {
         for k in 0..result_shape.dk {
             for j in 0..result_shape.dj {
                 for i in 0..result_shape.di {
-                    let mut running_max = f32::NEG_INFINITY;
-
                     let output_ti = TensorIndex { i: i, j: j, k: k };
                     let output_index = result.get_data_index(&output_ti);
-                    let mut input_index: u32 = 0;
+
+                    // Start from the first item of the window, so the origin is always inside it
+                    let start_ti = TensorIndex {
+                        i: i * stride,
+                        j: j * stride,
+                        k,
+                    };
+                    let mut running_max = image.get_item(&start_ti);
+                    let mut input_index = image.get_data_index(&start_ti);
 
                     for jj in 0..mask_shape.dj {
                         for ii in 0..mask_shape.di {
-- 
2.43.0


From 72432a3baf582b18dba6c935801e4a9d7b628d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:33 +0000
Subject: [PATCH 14/26] fix: scattered addition with a bad index changes
 nothing

---
 src/tensor.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tensor.rs b/src/tensor.rs
index b0ac723..253e8a8 100644
--- a/src/tensor.rs
+++ b/src/tensor.rs
@@ -159,10 +159,13 @@ impl Tensor {
             return Err("Index list is too long");
         }
         let t2_items = tensor2.get_shape().total_size();
-        for (t1_index, t2_index) in index_list.iter().enumerate() {
+        // Check all indices before changing anything
+        for t2_index in index_list.iter() {
             if *t2_index >= t2_items {
                 return Err("Tensor 2 index out of bounds");
             }
+        }
+        for (t1_index, t2_index) in index_list.iter().enumerate() {
             tensor2.data[*t2_index as usize] += tensor1.data[t1_index]
         }
 
-- 
2.43.0


From b95c697b82dfde9ed85a5dc90d35ffc1d753db84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:34 +0000
Subject: [PATCH 15/26] fix: clearing gradients keeps what the last forward
 pass recorded

---
 src/layer/fully_connected.rs | 1 -
 src/layer/max_pool.rs        | 5 ++---
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/layer/fully_connected.rs b/src/layer/fully_connected.rs
index ac9fa8c..67b1508 100644
--- a/src/layer/fully_connected.rs
+++ b/src/layer/fully_connected.rs
@@ -242,7 +242,6 @@ impl Layer for FullyConnectedLayer {
         self.weights_gradients_intermediate.fill_with_value(0.0);
         self.weights_gradients.fill_with_value(0.0);
         self.bias_gradients.fill_with_value(0.0);
-        self.relu_mask.fill_with_value(0.0);
     }
 
     fn get_serialized(self: &Self) -> SerializedLayer {
diff --git a/src/layer/max_pool.rs b/src/layer/max_pool.rs
index 0673a46..aec9484 100644
--- a/src/layer/max_pool.rs
+++ b/src/layer/max_pool.rs
@@ -230,9 +230,8 @@ impl Layer for MaxPoolLayer {
     }
 
     fn clear_gradients(self: &mut Self) {
-        for v in self.max_pool_origin.iter_mut() {
-            *v = 0;
-        }
+        // Max pooling has no parameters, so there are no gradients to clear
+        // The origins belong to the last forward pass
     }
 
     fn switch_to_inference(self: &mut Self) {
-- 
2.43.0


From 0495397096776a328825ac97cecf07dc3141b9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:32 +0000
Subject: [PATCH 16/26] fix: layers refuse tensors of the wrong shape before
 touching anything

---
 src/layer/convolutional.rs   | 15 +++++++++++++++
 src/layer/fully_connected.rs | 15 +++++++++++++++
 src/layer/max_pool.rs        | 17 ++++++++++++++++-
 src/layer/softmax.rs         | 20 +++++++++++++++++++-
 4 files changed, 65 insertions(+), 2 deletions(-)

diff --git a/src/layer/convolutional.rs b/src/layer/convolutional.rs
index 36c1557..86b9e7e 100644
--- a/src/layer/convolutional.rs
+++ b/src/layer/convolutional.rs
@@ -215,6 +215,12 @@ impl ConvolutionalLayer {
 
 impl Layer for ConvolutionalLayer {
     fn forward(self: &mut Self, input: &Tensor, output: &mut Tensor) -> Result<(), &'static str> {
+        if input.get_shape() != self.get_input_shape() {
+            return Err("Input does not have the input shape of this layer");
+        }
+        if output.get_shape() != self.get_output_shape() {
+            return Err("Output does not have the output shape of this layer");
+        }
         match self.run_state {
             NetworkRunState::Inference => {
                 // Do the fast single function version
@@ -257,6 +263,15 @@ impl Layer for ConvolutionalLayer {
         if self.run_state == NetworkRunState::Inference {
             return Err("Can only do backprop in training mode");
         }
+        if input.get_shape() != self.get_input_shape() {
+            return Err("Input does not have the input shape of this layer");
+        }
+        if incoming_gradient.get_shape() != self.get_output_shape() {
+            return Err("Incoming gradient does not have the output shape of this layer");
+        }
+        if outgoing_gradient.get_shape() != self.get_input_shape() {
+            return Err("Outgoing gradient does not have the input shape of this layer");
+        }
         // Relu backprop
         // This repurposes the relu mask
         tensor::Tensor::multiply_elementwise_self(&mut self.relu_mask, incoming_gradient);
diff --git a/src/layer/fully_connected.rs b/src/layer/fully_connected.rs
index 67b1508..cc894c6 100644
--- a/src/layer/fully_connected.rs
+++ b/src/layer/fully_connected.rs
@@ -150,6 +150,12 @@ impl FullyConnectedLayer {
 
 impl Layer for FullyConnectedLayer {
     fn forward(self: &mut Self, input: &Tensor, output: &mut Tensor) -> Result<(), &'static str> {
+        if input.get_shape() != self.get_input_shape() {
+            return Err("Input does not have the input shape of this layer");
+        }
+        if output.get_shape() != self.get_output_shape() {
+            return Err("Output does not have the output shape of this layer");
+        }
         match self.run_state {
             NetworkRunState::Inference => {
                 // Take the faster multiply add relu in 1 go
@@ -177,6 +183,15 @@ impl Layer for FullyConnectedLayer {
         outgoing_gradient: &mut Tensor,
     ) -> Result<(), &'static str> {
         if self.run_state == NetworkRunState::Training {
+            if input.get_shape() != self.get_input_shape() {
+                return Err("Input does not have the input shape of this layer");
+            }
+            if incoming_gradient.get_shape() != self.get_output_shape() {
+                return Err("Incoming gradient does not have the output shape of this layer");
+            }
+            if outgoing_gradient.get_shape() != self.get_input_shape() {
+                return Err("Outgoing gradient does not have the input shape of this layer");
+            }
             // Apply the relu backrop
             Tensor::multiply_elementwise_self(&mut self.relu_mask, incoming_gradient);
 
diff --git a/src/layer/max_pool.rs b/src/layer/max_pool.rs
index aec9484..35a99f8 100644
--- a/src/layer/max_pool.rs
+++ b/src/layer/max_pool.rs
@@ -149,6 +149,12 @@ impl MaxPoolLayer {
 
 impl Layer for MaxPoolLayer {
     fn forward(self: &mut Self, input: &Tensor, output: &mut Tensor) -> Result<(), &'static str> {
+        if input.get_shape() != self.get_input_shape() {
+            return Err("Input does not have the input shape of this layer");
+        }
+        if output.get_shape() != self.get_output_shape() {
+            return Err("Output does not have the output shape of this layer");
+        }
         match self.run_state {
             NetworkRunState::Inference => {
                 Tensor::max_pool(input, &self.mask_shape, self.stride, output);
@@ -168,7 +174,7 @@ impl Layer for MaxPoolLayer {
 
     fn backward(
         self: &mut Self,
-        _input: &Tensor,
+        input: &Tensor,
         _output: &Tensor,
         incoming_gradient: &Tensor,
         outgoing_gradient: &mut Tensor,
@@ -176,6 +182,15 @@ impl Layer for MaxPoolLayer {
         if self.run_state == NetworkRunState::Inference {
             return Err("Can only do backprop in training mode");
         }
+        if input.get_shape() != self.get_input_shape() {
+            return Err("Input does not have the input shape of this layer");
+        }
+        if incoming_gradient.get_shape() != self.get_output_shape() {
+            return Err("Incoming gradient does not have the output shape of this layer");
+        }
+        if outgoing_gradient.get_shape() != self.get_input_shape() {
+            return Err("Outgoing gradient does not have the input shape of this layer");
+        }
         // Make sure the outgoing gradient is clean
         outgoing_gradient.fill_with_value(0.0);
         // Perform the backprop
diff --git a/src/layer/softmax.rs b/src/layer/softmax.rs
index e624f52..30069c5 100644
--- a/src/layer/softmax.rs
+++ b/src/layer/softmax.rs
@@ -105,12 +105,18 @@ impl SoftmaxLayer {
 
 impl Layer for SoftmaxLayer {
     fn forward(self: &mut Self, input: &Tensor, output: &mut Tensor) -> Result<(), &'static str> {
+        if input.get_shape() != self.get_input_shape() {
+            return Err("Input does not have the input shape of this layer");
+        }
+        if output.get_shape() != self.get_output_shape() {
+            return Err("Output does not have the output shape of this layer");
+        }
         Tensor::softmax(input, output);
         return Ok(());
     }
     fn backward(
         self: &mut Self,
-        _input: &Tensor,
+        input: &Tensor,
         output: &Tensor,
         incoming_gradient: &Tensor,
         outgoing_gradient: &mut Tensor,
@@ -118,6 +124,18 @@ impl Layer for SoftmaxLayer {
         if self.run_state == NetworkRunState::Inference {
             return Err("Can only do backprop in training mode");
         }
+        if input.get_shape() != self.get_input_shape() {
+            return Err("Input does not have the input shape of this layer");
+        }
+        if output.get_shape() != self.get_output_shape() {
+            return Err("Output does not have the output shape of this layer");
+        }
+        if incoming_gradient.get_shape() != self.get_output_shape() {
+            return Err("Incoming gradient does not have the output shape of this layer");
+        }
+        if outgoing_gradient.get_shape() != self.get_input_shape() {
+            return Err("Outgoing gradient does not have the input shape of this layer");
+        }
         // Dot product of output and incoming gradient -> yields a 1x1x1 tensor
         // The softmax runs over all items, whatever the shape of the tensor
         let mut dot_product = 0.0;
-- 
2.43.0


From d757704e66b3500cdf9774244fbbd0d642a5f353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:22 +0000
Subject: [PATCH 17/26] fix: a stored tensor whose parts do not fit together is
 refused

---
 src/tensor.rs        | 28 ++++++++++++++++++++++++++++
 src/tensor/helper.rs |  5 +++++
 2 files changed, 33 insertions(+)

diff --git a/src/tensor.rs b/src/tensor.rs
index 253e8a8..443dbbe 100644
--- a/src/tensor.rs
+++ b/src/tensor.rs
@@ -10,12 +10,40 @@ use std::error::Error;
 use std::fs;
 
 #[derive(Debug, Clone, Serialize, Deserialize)]
+#[serde(try_from = "StoredTensor")]
 pub struct Tensor {
     strides: TensorStride,
     shape: TensorShape,
     data: Vec<f32>,
 }
 
+// A tensor as it was stored, its parts may not fit together
+#[derive(Deserialize)]
+struct StoredTensor {
+    strides: TensorStride,
+    shape: TensorShape,
+    data: Vec<f32>,
+}
+
+impl TryFrom<StoredTensor> for Tensor {
+    type Error = &'static str;
+
+    fn try_from(stored: StoredTensor) -> Result<Self, Self::Error> {
+        match stored.shape.checked_total_size() {
+            Some(total_size) if total_size as usize == stored.data.len() => {}
+            _ => return Err("Stored tensor data does not match its shape"),
+        }
+        if stored.strides != TensorStride::new_from_shape(&stored.shape) {
+            return Err("Stored tensor strides do not match its shape");
+        }
+        return Ok(Tensor {
+            strides: stored.strides,
+            shape: stored.shape,
+            data: stored.data,
+        });
+    }
+}
+
 impl PartialEq for Tensor {
     fn eq(&self, other: &Self) -> bool {
         if self.shape != other.shape {
diff --git a/src/tensor/helper.rs b/src/tensor/helper.rs
index 636e185..ae1c15a 100644
--- a/src/tensor/helper.rs
+++ b/src/tensor/helper.rs
@@ -41,6 +41,11 @@ impl TensorShape {
         return self.di * self.dj * self.dk;
     }
 
+    // Calculate the total size, or nothing if it can't be counted
+    pub fn checked_total_size(self: &Self) -> Option<u32> {
+        return self.di.checked_mul(self.dj)?.checked_mul(self.dk);
+    }
+
     pub fn fits_index(self: &Self, index: &TensorIndex) -> bool {
         // Check if an index fits in a certain shape
         if index.i >= self.di {
-- 
2.43.0


From a7363cdd34a42b115ed3508d676a6a9281ea4a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:52 +0000
Subject: [PATCH 18/26] fix: undecodable stored layer fields are an error, not
 a panic

---
 src/layer/convolutional.rs   | 13 +++++++------
 src/layer/fully_connected.rs |  8 +++++---
 src/layer/max_pool.rs        | 13 +++++++------
 src/layer/softmax.rs         |  5 +++--
 4 files changed, 22 insertions(+), 17 deletions(-)

diff --git a/src/layer/convolutional.rs b/src/layer/convolutional.rs
index 86b9e7e..490b652 100644
--- a/src/layer/convolutional.rs
+++ b/src/layer/convolutional.rs
@@ -184,30 +184,31 @@ impl ConvolutionalLayer {
             .get(&ConvolutionalSerialKeys::Kernels)
             .expect("Cannot access kernels data");
         let kernels: Vec<Tensor> =
-            bincode::deserialize(kernels_data).expect("Cannot deserialize kernels data");
+            bincode::deserialize(kernels_data).map_err(|_| "Cannot deserialize kernels data")?;
 
         let biases_data = data
             .get(&ConvolutionalSerialKeys::Biases)
             .expect("Cannot access biases data");
         let biases: Vec<Tensor> =
-            bincode::deserialize(biases_data).expect("Cannot deserialize biases data");
+            bincode::deserialize(biases_data).map_err(|_| "Cannot deserialize biases data")?;
 
         let input_shape_data = data
             .get(&ConvolutionalSerialKeys::InputShape)
             .expect("Cannot access input shape data");
-        let input_shape: TensorShape =
-            bincode::deserialize(input_shape_data).expect("Cannot deserialize input shape data");
+        let input_shape: TensorShape = bincode::deserialize(input_shape_data)
+            .map_err(|_| "Cannot deserialize input shape data")?;
 
         let stride_data = data
             .get(&ConvolutionalSerialKeys::Stride)
             .expect("Cannot access stride data");
         let stride: u32 =
-            bincode::deserialize(&stride_data).expect("Cannot deserialize stride data");
+            bincode::deserialize(&stride_data).map_err(|_| "Cannot deserialize stride data")?;
 
         let name_data = data
             .get(&ConvolutionalSerialKeys::Name)
             .expect("Cannot access name data");
-        let name: String = bincode::deserialize(name_data).expect("Cannot deserialize name data");
+        let name: String =
+            bincode::deserialize(name_data).map_err(|_| "Cannot deserialize name data")?;
 
         return self.fill_from_state(kernels, biases, input_shape, stride, &name);
     }
diff --git a/src/layer/fully_connected.rs b/src/layer/fully_connected.rs
index cc894c6..391862a 100644
--- a/src/layer/fully_connected.rs
+++ b/src/layer/fully_connected.rs
@@ -132,17 +132,19 @@ impl FullyConnectedLayer {
             .get(&FullyConnectedSerialKeys::Weights)
             .expect("Cannot access weigths shape data");
         let weights: Tensor =
-            bincode::deserialize(weights_data).expect("Cannot deserialize weights data");
+            bincode::deserialize(weights_data).map_err(|_| "Cannot deserialize weights data")?;
 
         let bias_data = data
             .get(&FullyConnectedSerialKeys::Bias)
             .expect("Cannot access input shape data");
-        let bias: Tensor = bincode::deserialize(bias_data).expect("Cannot deserialize bias data");
+        let bias: Tensor =
+            bincode::deserialize(bias_data).map_err(|_| "Cannot deserialize bias data")?;
 
         let name_data = data
             .get(&FullyConnectedSerialKeys::Name)
             .expect("Cannot access name data");
-        let name: String = bincode::deserialize(name_data).expect("Cannot deserialize name data");
+        let name: String =
+            bincode::deserialize(name_data).map_err(|_| "Cannot deserialize name data")?;
 
         return self.fill_from_state(weights, bias, &name);
     }
diff --git a/src/layer/max_pool.rs b/src/layer/max_pool.rs
index 35a99f8..5776153 100644
--- a/src/layer/max_pool.rs
+++ b/src/layer/max_pool.rs
@@ -126,23 +126,24 @@ impl MaxPoolLayer {
         let mask_shape_data = data
             .get(&MaxPoolSerialKeys::MaskShape)
             .expect("Cannot access mask shape data");
-        let mask_shape: TensorShape =
-            bincode::deserialize(mask_shape_data).expect("Cannot deserialize mask shape data");
+        let mask_shape: TensorShape = bincode::deserialize(mask_shape_data)
+            .map_err(|_| "Cannot deserialize mask shape data")?;
         let input_shape_data = data
             .get(&MaxPoolSerialKeys::InputShape)
             .expect("Cannot access input shape data");
-        let input_shape: TensorShape =
-            bincode::deserialize(input_shape_data).expect("Cannot deserialize input shape data");
+        let input_shape: TensorShape = bincode::deserialize(input_shape_data)
+            .map_err(|_| "Cannot deserialize input shape data")?;
         let stride_data = data
             .get(&MaxPoolSerialKeys::Stride)
             .expect("Cannot access stride data");
         let stride: u32 =
-            bincode::deserialize(&stride_data).expect("Cannot deserialize stride data");
+            bincode::deserialize(&stride_data).map_err(|_| "Cannot deserialize stride data")?;
 
         let name_data = data
             .get(&MaxPoolSerialKeys::Name)
             .expect("Cannot access name data");
-        let name: String = bincode::deserialize(name_data).expect("Cannot deserialize name data");
+        let name: String =
+            bincode::deserialize(name_data).map_err(|_| "Cannot deserialize name data")?;
         return self.fill_from_state(input_shape, mask_shape, stride, &name);
     }
 }
diff --git a/src/layer/softmax.rs b/src/layer/softmax.rs
index 30069c5..5b10353 100644
--- a/src/layer/softmax.rs
+++ b/src/layer/softmax.rs
@@ -92,12 +92,13 @@ impl SoftmaxLayer {
             .get(&SoftMaxSerialKeys::Shape)
             .expect("Cannot access shape data");
         let shape: TensorShape =
-            bincode::deserialize(shape_data).expect("Cannot deserialize shape data");
+            bincode::deserialize(shape_data).map_err(|_| "Cannot deserialize shape data")?;
 
         let name_data = data
             .get(&SoftMaxSerialKeys::Name)
             .expect("Cannot access name data");
-        let name: String = bincode::deserialize(name_data).expect("Cannot deserialize name data");
+        let name: String =
+            bincode::deserialize(name_data).map_err(|_| "Cannot deserialize name data")?;
 
         return self.fill_from_state(shape, &name);
     }
-- 
2.43.0


From 68839581e08749c3d423b2c5c1b14f74f80d46f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:53 +0000
Subject: [PATCH 19/26] fix: layers refuse shapes with more items than can be
 counted

---
 src/layer/convolutional.rs | 5 +++++
 src/layer/max_pool.rs      | 5 +++++
 src/layer/softmax.rs       | 3 +++
 3 files changed, 13 insertions(+)

diff --git a/src/layer/convolutional.rs b/src/layer/convolutional.rs
index 490b652..10c04b3 100644
--- a/src/layer/convolutional.rs
+++ b/src/layer/convolutional.rs
@@ -139,6 +139,11 @@ impl ConvolutionalLayer {
             dk: output_depth,
         };
 
+        if input_shape.checked_total_size().is_none() || output_shape.checked_total_size().is_none()
+        {
+            return Err("Input or output shape has too many items");
+        }
+
         // All ready for assignment
 
         self.name = name.clone();
diff --git a/src/layer/max_pool.rs b/src/layer/max_pool.rs
index 5776153..62bbb72 100644
--- a/src/layer/max_pool.rs
+++ b/src/layer/max_pool.rs
@@ -94,6 +94,11 @@ impl MaxPoolLayer {
             dk: input_shape.dk,
         };
 
+        if input_shape.checked_total_size().is_none() || output_shape.checked_total_size().is_none()
+        {
+            return Err("Input or output shape has too many items");
+        }
+
         self.input_shape = input_shape;
         self.output_shape = output_shape;
         self.mask_shape = mask_shape;
diff --git a/src/layer/softmax.rs b/src/layer/softmax.rs
index 5b10353..eea5ae7 100644
--- a/src/layer/softmax.rs
+++ b/src/layer/softmax.rs
@@ -70,6 +70,9 @@ impl SoftmaxLayer {
         shape: TensorShape,
         name: &String,
     ) -> Result<(), &'static str> {
+        if shape.checked_total_size().is_none() {
+            return Err("Shape has too many items");
+        }
         self.shape = shape;
         self.name = name.clone();
         self.update_gradient_and_intermediate_tensors();
-- 
2.43.0


From 8bc98e7805ad5c991e06ad5c1919fb0fcfe61e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:55 +0000
Subject: [PATCH 20/26] fix: a failed network load leaves the network as it was

---
 src/network.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/network.rs b/src/network.rs
index 5d79c1e..fd3e5e7 100644
--- a/src/network.rs
+++ b/src/network.rs
@@ -95,7 +95,21 @@ impl Network {
     pub fn load_from_file(self: &mut Self, filename: &String) -> Result<(), Box<dyn Error>> {
         let file_content = fs::read(filename)?;
         let sn: SerializedNetwork = bincode::deserialize(&file_content)?;
-        sn.populate_network(self)?;
+        // Remember what we had before
+        let number_of_layers = self.layers.len();
+        let number_of_states = self.intermediate_states.len();
+        let number_of_gradients = self.intermediate_gradients.len();
+        let input_shape = self.input_shape;
+        let output_shape = self.output_shape;
+        if let Err(msg) = sn.populate_network(self) {
+            // Drop the layers that were already added
+            self.layers.truncate(number_of_layers);
+            self.intermediate_states.truncate(number_of_states);
+            self.intermediate_gradients.truncate(number_of_gradients);
+            self.input_shape = input_shape;
+            self.output_shape = output_shape;
+            return Err(msg.into());
+        }
         return Ok(());
     }
 
-- 
2.43.0


From 4186aa475bf3f5df042fd652a74fd85714d9a48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:44 +0000
Subject: [PATCH 21/26] fix: convolutional layer can run several backward
 passes after one forward pass

---
 src/layer/convolutional.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/layer/convolutional.rs b/src/layer/convolutional.rs
index 10c04b3..0e70d30 100644
--- a/src/layer/convolutional.rs
+++ b/src/layer/convolutional.rs
@@ -279,15 +279,16 @@ impl Layer for ConvolutionalLayer {
             return Err("Outgoing gradient does not have the input shape of this layer");
         }
         // Relu backprop
-        // This repurposes the relu mask
-        tensor::Tensor::multiply_elementwise_self(&mut self.relu_mask, incoming_gradient);
+        // The relu mask itself is kept for further backward passes
+        let mut masked_gradient = self.relu_mask.clone();
+        tensor::Tensor::multiply_elementwise_self(&mut masked_gradient, incoming_gradient);
 
         // Bias gradient: every item of an output channel adds the bias once
         for k in 0..self.output_shape.dk {
             let mut bias_gradient = Tensor::new(TensorShape::new_1d(1));
             for j in 0..self.output_shape.dj {
                 for i in 0..self.output_shape.di {
-                    let item = self.relu_mask.get_item(&TensorIndex { i: i, j: j, k: k });
+                    let item = masked_gradient.get_item(&TensorIndex { i: i, j: j, k: k });
                     let total = bias_gradient.get_item(&TensorIndex::zero()) + item;
                     bias_gradient.set_item(&TensorIndex::zero(), total);
                 }
@@ -301,7 +302,7 @@ impl Layer for ConvolutionalLayer {
         for i in 0..self.kernels.len() {
             let mut kernel_gradient = Tensor::new(self.kernels[i].get_shape());
             tensor::operations::convolution::convolution_backprop_kernel(
-                &self.relu_mask,
+                &masked_gradient,
                 input,
                 self.stride,
                 i as u32,
@@ -313,7 +314,7 @@ impl Layer for ConvolutionalLayer {
 
         // Outgoing gradient
         tensor::operations::convolution::convolution_backprop_outgoing_gradient(
-            &self.relu_mask,
+            &masked_gradient,
             &self.kernels,
             self.stride,
             outgoing_gradient,
-- 
2.43.0


From cf86dffd1361f1f5063c884a652630ee03dea2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:46 +0000
Subject: [PATCH 22/26] fix: fully connected layer can run several backward
 passes after one forward pass

---
 src/layer/fully_connected.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/layer/fully_connected.rs b/src/layer/fully_connected.rs
index 391862a..4196e01 100644
--- a/src/layer/fully_connected.rs
+++ b/src/layer/fully_connected.rs
@@ -195,13 +195,15 @@ impl Layer for FullyConnectedLayer {
                 return Err("Outgoing gradient does not have the input shape of this layer");
             }
             // Apply the relu backrop
-            Tensor::multiply_elementwise_self(&mut self.relu_mask, incoming_gradient);
+            // The relu mask itself is kept for further backward passes
+            let mut masked_gradient = self.relu_mask.clone();
+            Tensor::multiply_elementwise_self(&mut masked_gradient, incoming_gradient);
 
             // bias gradient
-            Tensor::add_to_self(&mut self.bias_gradients, &self.relu_mask);
+            Tensor::add_to_self(&mut self.bias_gradients, &masked_gradient);
             // weights gradient
             Tensor::matrix_multiply_transpose_second(
-                &self.relu_mask,
+                &masked_gradient,
                 input,
                 &mut self.weights_gradients_intermediate,
             )?;
@@ -212,7 +214,7 @@ impl Layer for FullyConnectedLayer {
             // outgoing gradient
             Tensor::matrix_multiply_transpose_first(
                 &self.weights,
-                &self.relu_mask,
+                &masked_gradient,
                 outgoing_gradient,
             )?;
             return Ok(());
-- 
2.43.0


From cb170f3dac56b6d3d8b10760898f9b76946cbe38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:20 +0000
Subject: [PATCH 23/26] fix: an empty convolutional layer can be used like the
 other empty layers

---
 src/layer/convolutional.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/layer/convolutional.rs b/src/layer/convolutional.rs
index 0e70d30..54aacd7 100644
--- a/src/layer/convolutional.rs
+++ b/src/layer/convolutional.rs
@@ -72,9 +72,10 @@ impl ConvolutionalLayer {
     }
 
     pub fn empty() -> Self {
+        // One empty kernel, to match the output shape
         let cl = ConvolutionalLayer {
-            kernels: vec![],
-            biases: vec![],
+            kernels: vec![Tensor::empty()],
+            biases: vec![Tensor::empty()],
             kernel_gradients: vec![],
             bias_gradients: vec![],
             relu_mask: Tensor::empty(),
-- 
2.43.0


From 220688452e0b0708a43fc1232bc226f02344c89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:28 +0000
Subject: [PATCH 24/26] fix: the norm overflows, vanishes or loses items for
 large, tiny or very many values

---
 src/tensor.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/tensor.rs b/src/tensor.rs
index 443dbbe..02d3ca8 100644
--- a/src/tensor.rs
+++ b/src/tensor.rs
@@ -108,11 +108,13 @@ impl Tensor {
     }
 
     pub fn get_norm(self: &Self) -> f32 {
-        let mut total = 0.;
+        // In double precision no square overflows or vanishes
+        // and the sum keeps its small terms
+        let mut total: f64 = 0.;
         for d in self.data.iter() {
-            total += (*d).powi(2);
+            total += (*d as f64).powi(2);
         }
-        return total.sqrt();
+        return total.sqrt() as f32;
     }
 
     pub fn fill_with_uniform(&mut self, min: f32, max: f32) {
-- 
2.43.0


From aaa0a678a799c186b6f39d73b3611bbfed25321f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:28 +0000
Subject: [PATCH 25/26] fix: softmax of very many items does not sum to one

---
 src/tensor.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/tensor.rs b/src/tensor.rs
index 02d3ca8..635e9dc 100644
--- a/src/tensor.rs
+++ b/src/tensor.rs
@@ -646,14 +646,15 @@ impl Tensor {
             // Shifting by the largest item does not change the result
             // but keeps the exponentials from overflowing
             let max = input.data.iter().cloned().fold(f32::NEG_INFINITY, f32::max);
-            let mut sum = 0.0;
+            // The sum of very many items would lose them in single precision
+            let mut sum: f64 = 0.0;
             for i in 0..input.data.len() {
                 let exp = (input.data[i] - max).exp();
                 output.data[i] = exp;
-                sum += exp;
+                sum += exp as f64;
             }
             for f in output.data.iter_mut() {
-                *f = *f / sum;
+                *f = (*f as f64 / sum) as f32;
             }
         }
     }
-- 
2.43.0


From d02f36f1281f603af1bf8e7df2b1486b39f781c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:28 +0000
Subject: [PATCH 26/26] fix: the softmax gradient of very many items loses some
 of them

---
 src/layer/softmax.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/layer/softmax.rs b/src/layer/softmax.rs
index eea5ae7..dff8d91 100644
--- a/src/layer/softmax.rs
+++ b/src/layer/softmax.rs
@@ -142,16 +142,18 @@ impl Layer for SoftmaxLayer {
         }
         // Dot product of output and incoming gradient -> yields a 1x1x1 tensor
         // The softmax runs over all items, whatever the shape of the tensor
-        let mut dot_product = 0.0;
+        // In double precision, or the sum of very many items would lose them
+        let mut dot_product: f64 = 0.0;
         for k in 0..self.shape.dk {
             for j in 0..self.shape.dj {
                 for i in 0..self.shape.di {
                     let index = TensorIndex { i: i, j: j, k: k };
-                    dot_product += output.get_item(&index) * incoming_gradient.get_item(&index);
+                    dot_product +=
+                        output.get_item(&index) as f64 * incoming_gradient.get_item(&index) as f64;
                 }
             }
         }
-        self.intermediate1.fill_with_value(dot_product);
+        self.intermediate1.fill_with_value(dot_product as f32);
 
         // Invert
         Tensor::scale_self(&mut self.intermediate1, -1.0);
-- 
2.43.0

