From 394727947b83fdb0b0fcbf6f6502998ba76ac82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:33:41 +0000
Subject: [PATCH 01/16] fix: keep the real part until both parts of *= and /=
 are computed

MulAssign and DivAssign overwrote self.x and then used the new value to
compute self.y, so `a *= b` and `a /= b` disagreed with `a * b` and `a / b`
whenever both operands had an imaginary part.
---
 src/math/cfloat/mod.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/math/cfloat/mod.rs b/src/math/cfloat/mod.rs
index 8b2d0e8..65e6e7e 100644
--- a/src/math/cfloat/mod.rs
+++ b/src/math/cfloat/mod.rs
@@ -212,8 +212,9 @@ impl SubAssign for Cf32 {
 
 impl MulAssign for Cf32 {
   fn mul_assign(&mut self, rhs: Self) {
-    self.x = self.x * rhs.x - self.y * rhs.y;
+    let x = self.x * rhs.x - self.y * rhs.y;
     self.y = self.x * rhs.y + self.y * rhs.x;
+    self.x = x;
   }
 }
 
@@ -223,8 +224,9 @@ impl DivAssign for Cf32 {
 
     if den == 0.0 { panic!("Division by zero encountered in complex numbers.") }
 
-    self.x = (self.x * rhs.x + self.y * rhs.y) / den;
+    let x = (self.x * rhs.x + self.y * rhs.y) / den;
     self.y = (self.y * rhs.x - self.x * rhs.y) / den;
+    self.x = x;
   }
 }
 
@@ -347,8 +349,9 @@ impl SubAssign for Cf64 {
 
 impl MulAssign for Cf64 {
   fn mul_assign(&mut self, rhs: Self) {
-    self.x = self.x * rhs.x - self.y * rhs.y;
+    let x = self.x * rhs.x - self.y * rhs.y;
     self.y = self.x * rhs.y + self.y * rhs.x;
+    self.x = x;
   }
 }
 
@@ -358,8 +361,9 @@ impl DivAssign for Cf64 {
 
     if den == 0.0 { panic!("Division by zero encountered in complex numbers.") }
 
-    self.x = (self.x * rhs.x + self.y * rhs.y) / den;
+    let x = (self.x * rhs.x + self.y * rhs.y) / den;
     self.y = (self.y * rhs.x - self.x * rhs.y) / den;
+    self.x = x;
   }
 }
 
-- 
2.43.0


From ea35644ca3b04a0b38ac408491db3ed02d0f9c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:33:41 +0000
Subject: [PATCH 02/16] fix: report an error when the one-hot index equals the
 vector size

gen_pred accepted critical_index == size and then panicked on the
out-of-bounds write instead of returning CriticalIndexOverflow.
---
 src/math/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/math/mod.rs b/src/math/mod.rs
index 81e2fd8..a1eaddf 100644
--- a/src/math/mod.rs
+++ b/src/math/mod.rs
@@ -56,7 +56,7 @@ impl Real for f32 {
   }
 
   fn gen_pred(size: usize, critical_index: usize, pred_method: &PredictModel) -> Result<Vec<Self>, PredicionError> {
-    if size < critical_index { return Err(PredicionError::CriticalIndexOverflow) }
+    if size <= critical_index { return Err(PredicionError::CriticalIndexOverflow) }
 
     match pred_method {
       PredictModel::Sparse => { 
@@ -85,7 +85,7 @@ impl Real for f64 {
   }
 
   fn gen_pred(size: usize, critical_index: usize, pred_method: &PredictModel) -> Result<Vec<Self>, PredicionError> {
-    if size < critical_index { return Err(PredicionError::CriticalIndexOverflow) }
+    if size <= critical_index { return Err(PredicionError::CriticalIndexOverflow) }
 
     match pred_method {
       PredictModel::Sparse => { 
@@ -294,7 +294,7 @@ impl Complex for Cf32 {
   }
 
   fn gen_pred(size: usize, critical_index: usize, pred_method: &PredictModel) -> Result<Vec<Self>, PredicionError> {
-    if size < critical_index { return Err(PredicionError::CriticalIndexOverflow) }
+    if size <= critical_index { return Err(PredicionError::CriticalIndexOverflow) }
 
     match pred_method {
       PredictModel::Sparse => { 
@@ -454,7 +454,7 @@ impl Complex for Cf64 {
   }
 
   fn gen_pred(size: usize, critical_index: usize, pred_method: &PredictModel) -> Result<Vec<Self>, PredicionError> {
-    if size < critical_index { return Err(PredicionError::CriticalIndexOverflow) }
+    if size <= critical_index { return Err(PredicionError::CriticalIndexOverflow) }
 
     match pred_method {
       PredictModel::Sparse => { 
-- 
2.43.0


From 0c10d78eaee5e7e1753e6d47f0a105f4e32b409e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:33:41 +0000
Subject: [PATCH 03/16] fix: reduce the generator seed before multiplying

A large u128 seed overflowed `a * seed`, which panics in debug builds. The
seed is reduced modulo m - 1 first; results for seeds that did not overflow
are unchanged.
---
 src/math/random/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/math/random/mod.rs b/src/math/random/mod.rs
index 768bb8b..7f79ff2 100644
--- a/src/math/random/mod.rs
+++ b/src/math/random/mod.rs
@@ -22,7 +22,7 @@ pub fn lcgf32(seed: &mut u128) -> f32 {
     let b: u128 = 12345;
     let m: u128 = 2u128.pow(31);
 
-    *seed = (a * *seed + b) % (m - 1);
+    *seed = (a * (*seed % (m - 1)) + b) % (m - 1);
     
     (*seed as f32) / (m as f32)
 
@@ -52,7 +52,7 @@ pub fn lcgf64(seed: &mut u128) -> f64 {
     let b: u128 = 12345;
     let m: u128 = 2u128.pow(31);
 
-    *seed = (a * *seed + b) % (m - 1);
+    *seed = (a * (*seed % (m - 1)) + b) % (m - 1);
     
     (*seed as f64) / (m as f64)
 
@@ -86,7 +86,7 @@ pub fn lcgi(seed: &mut u128, limit: u128) -> usize {
     let b: u128 = 12345;
     let m: u128 = 2u128.pow(31);
 
-    *seed = (a * *seed + b) % (m - 1);
+    *seed = (a * (*seed % (m - 1)) + b) % (m - 1);
     
     ( *seed / ( (m-1) / limit ) ) as usize
 }
\ No newline at end of file
-- 
2.43.0


From 4c98e08a0caacdaa8c32344ac84ed68e0dfb9f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:33:41 +0000
Subject: [PATCH 04/16] fix: keep lcgi results below the limit

Dividing by the truncated bucket width (m-1)/limit returned `limit` itself
for the largest seeds, and divided by zero for limits above m-1.
---
 src/math/random/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/random/mod.rs b/src/math/random/mod.rs
index 7f79ff2..d47c43d 100644
--- a/src/math/random/mod.rs
+++ b/src/math/random/mod.rs
@@ -88,5 +88,5 @@ pub fn lcgi(seed: &mut u128, limit: u128) -> usize {
 
     *seed = (a * (*seed % (m - 1)) + b) % (m - 1);
     
-    ( *seed / ( (m-1) / limit ) ) as usize
+    ( *seed * limit / (m-1) ) as usize
 }
\ No newline at end of file
-- 
2.43.0


From 9db284f984ae9cc3943bef9033a895cf427872b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:33:41 +0000
Subject: [PATCH 05/16] fix: accept columns of matching length in add_col

Both guards were inverted: a column of the right length was rejected, and a
column was only ever inserted when the capacity was already used up.
---
 src/math/matrix/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/matrix/mod.rs b/src/math/matrix/mod.rs
index ab73802..e739610 100644
--- a/src/math/matrix/mod.rs
+++ b/src/math/matrix/mod.rs
@@ -258,11 +258,11 @@ impl<T> Matrix<T> {
   /// Not very performant. Use this method outside heavy computation, if possible.
   pub fn add_col(&mut self, col: &mut Vec<T>) -> Result<(), UpdateError> {
     // a row must first be added
-    if col.len() == self.shape[0] {
+    if col.len() != self.shape[0] {
       return Err(UpdateError::InconsistentLength);
     }
 
-    if self.shape[1] < self.capacity[1] {
+    if self.shape[1] >= self.capacity[1] {
       return Err(UpdateError::Overflow);
     }
 
-- 
2.43.0


From b133a03fd06f45f50b86dea12d70fbdc16a9e7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:33:41 +0000
Subject: [PATCH 06/16] fix: apply the add_row guards in add_mut_row

add_mut_row accepted a first row longer than the column capacity, and
accepted a non-empty row on a matrix already holding zero-length rows, which
left the body length different from rows * columns.
---
 src/math/matrix/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/matrix/mod.rs b/src/math/matrix/mod.rs
index e739610..f3c1a6f 100644
--- a/src/math/matrix/mod.rs
+++ b/src/math/matrix/mod.rs
@@ -202,11 +202,11 @@ impl<T> Matrix<T> {
   /// * `row` - mutable reference to a generic `Vec<T>`. 
   ///           Gets flushed after the addition of the row to `Matrix<T>`.
   pub fn add_mut_row(&mut self, row: &mut Vec<T>) -> Result<(), UpdateError> {
-    if !(row.len() == self.shape[1] || self.shape[1] == 0) {
+    if !(row.len() == self.shape[1] || (self.shape == [0, 0])) {
       return Err(UpdateError::InconsistentLength);
     }
     
-    if (self.shape[0] >= self.capacity[0]) || (self.shape[1] > self.capacity[1]) {
+    if (self.shape[0] >= self.capacity[0]) || (row.len() > self.capacity[1]) {
       return Err(UpdateError::Overflow);
     }
 
-- 
2.43.0


From 5f79830547c88e0cd7b1895089312ab4edba3fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:33:41 +0000
Subject: [PATCH 07/16] fix: keep the shape in fractional_upsampling for every
 odd kernel

The left padding of an odd block width used the block height, and the
smoothing padding was only right for 3x3 kernels: 1x1 kernels underflowed,
larger or rectangular ones changed the size of the result.
---
 src/math/matrix/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/matrix/mod.rs b/src/math/matrix/mod.rs
index f3c1a6f..067472f 100644
--- a/src/math/matrix/mod.rs
+++ b/src/math/matrix/mod.rs
@@ -586,7 +586,7 @@ impl<T: BasicOperations<T>> Matrix<T> {
 
     let upper: usize = if block_size[0] % 2 == 0 {(block_size[0] / 2) - 1} else { (block_size[0] - 1) / 2 };
     let bottom: usize = block_size[0] - upper - 1;
-    let left: usize = if block_size[1] % 2 == 0 {(block_size[1] / 2) - 1} else { (block_size[0] - 1) / 2 };
+    let left: usize = if block_size[1] % 2 == 0 {(block_size[1] / 2) - 1} else { (block_size[1] - 1) / 2 };
     let right: usize = block_size[1] - left - 1;
 
     let final_shape = [matrix_shape[0] * block_size[0], matrix_shape[1] * block_size[1]];
@@ -621,7 +621,7 @@ impl<T: BasicOperations<T>> Matrix<T> {
 
     let out = matrix_res
       /* pad to conserve the shap on the convolution */
-      .pad((kernel_shape[0]-2, kernel_shape[0]-2))
+      .pad(((kernel_shape[0]-1) / 2, (kernel_shape[1]-1) / 2))
       .convolution(kernel)
       .unwrap();
 
-- 
2.43.0


From ef48414e5ec51b8c3ab685dc26cccb5365800367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:33:41 +0000
Subject: [PATCH 08/16] fix: return the full-range phase for Cf64

Cf64::phase used atan(y/x), which folds the left half plane onto the right
one and gives NaN at zero. Use atan2 as Cf32 does.
---
 src/math/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/mod.rs b/src/math/mod.rs
index a1eaddf..edd7654 100644
--- a/src/math/mod.rs
+++ b/src/math/mod.rs
@@ -379,7 +379,7 @@ impl Complex for Cf64 {
   }
 
   fn phase(&self) -> Self::Precision {
-    (self.y / self.x).atan()
+    self.y.atan2(self.x)
   }
 
   fn conj(&self) -> Self {
-- 
2.43.0


From ec09698794eb1372ad64e157965d39c94cb0029e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:33:41 +0000
Subject: [PATCH 09/16] fix: correct the Wirtinger derivatives of the cardioid

The partial derivative along y had the wrong sign and the 1/2 factor of
d/dz and d/dz* was missing.
---
 src/act/mod.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/act/mod.rs b/src/act/mod.rs
index 9b46399..7402766 100644
--- a/src/act/mod.rs
+++ b/src/act/mod.rs
@@ -264,11 +264,11 @@ fn d_card_cf32(val: Cf32) -> Cf32 {
   );
 
   let dfdy = Cf32::new(
-    2.0 * y_factor * unfactor_re,
-    -2.0 * y_factor * unfactor_im
+    -2.0 * y_factor * unfactor_re,
+    2.0 * y_factor * unfactor_im
   );
 
-  dfdx - i * dfdy
+  Cf32::new(0.5, 0.0) * (dfdx - i * dfdy)
 }
 
 fn d_card_cf64(val: Cf64) -> Cf64 {
@@ -292,11 +292,11 @@ fn d_card_cf64(val: Cf64) -> Cf64 {
   );
 
   let dfdy = Cf64::new(
-    2.0 * y_factor * unfactor_re,
-    -2.0 * y_factor * unfactor_im
+    -2.0 * y_factor * unfactor_re,
+    2.0 * y_factor * unfactor_im
   );
 
-  dfdx - i * dfdy
+  Cf64::new(0.5, 0.0) * (dfdx - i * dfdy)
 }
 
 fn d_conj_card_cf32(val: Cf32) -> Cf32 {
@@ -320,11 +320,11 @@ fn d_conj_card_cf32(val: Cf32) -> Cf32 {
   );
 
   let dfdy = Cf32::new(
-    2.0 * y_factor * unfactor_re,
-    -2.0 * y_factor * unfactor_im
+    -2.0 * y_factor * unfactor_re,
+    2.0 * y_factor * unfactor_im
   );
 
-  dfdx + i * dfdy
+  Cf32::new(0.5, 0.0) * (dfdx + i * dfdy)
 }
 
 fn d_conj_card_cf64(val: Cf64) -> Cf64 {
@@ -348,11 +348,11 @@ fn d_conj_card_cf64(val: Cf64) -> Cf64 {
   );
 
   let dfdy = Cf64::new(
-    2.0 * y_factor * unfactor_re,
-    -2.0 * y_factor * unfactor_im
+    -2.0 * y_factor * unfactor_re,
+    2.0 * y_factor * unfactor_im
   );
 
-  dfdx + i * dfdy
+  Cf64::new(0.5, 0.0) * (dfdx + i * dfdy)
 }
 
 /* modz */
-- 
2.43.0


From c5c8ba54705d57620fcc869cedf0ea4e5b57db49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:33:41 +0000
Subject: [PATCH 10/16] fix: divide the mean squared error by the number of
 components

The index of the last component was used instead of the count, so the mean
was too large and a single-output prediction divided by zero.
---
 src/opt/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opt/mod.rs b/src/opt/mod.rs
index 5151299..744a1d6 100644
--- a/src/opt/mod.rs
+++ b/src/opt/mod.rs
@@ -46,7 +46,7 @@ fn mean_sq_loss_cf32<'a, T1: Iterator<Item = &'a Cf32>, T2: Iterator<Item = &'a
     .zip(pred)
     .enumerate()
     .fold(0.0,|acc, (id, (t, p))| {
-      len = id;
+      len = id + 1;
       acc + sq_error_cf32(*t, *p)
     });
   
@@ -72,7 +72,7 @@ fn mean_sq_loss_cf64<'a, T1: Iterator<Item = &'a Cf64>, T2: Iterator<Item = &'a
     .zip(pred)
     .enumerate()
     .fold(0.0,|acc, (id, (t, p))| {
-      len = id;
+      len = id + 1;
       acc + sq_error_cf64(*t, *p)
     });
   
-- 
2.43.0


From 3ef1392cce070af84f6f13c0e44dc18125bed6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:33:41 +0000
Subject: [PATCH 11/16] fix: return errors for add and intercept on an empty
 network

Both panicked when no input layer had been added.
---
 src/cvnn/network/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cvnn/network/mod.rs b/src/cvnn/network/mod.rs
index 2d1222f..1bd24d4 100644
--- a/src/cvnn/network/mod.rs
+++ b/src/cvnn/network/mod.rs
@@ -78,6 +78,7 @@ impl<T: Complex + BasicOperations<T>> CNetwork<T> {
     /* also takes care of the shape and size respectively */
     /* still the user has to request a coherent amount of units (input, ouput shape) */
     /* the network will not initialize the layer based previous output */
+    if self.layers.len() == 0 { return Err(LayerAdditionError::MissingInput) }
     let last_layer_out = self.layers.last().unwrap().get_output_shape();
     if last_layer_out != layer.get_input_shape() { return Err(LayerAdditionError::IncompatibleIO) }
 
@@ -121,7 +122,7 @@ impl<T: Complex + BasicOperations<T>> CNetwork<T> {
   /// Not an heavily used function but might be for obtaining the activations in the
   /// back-propagation algorithm.
   pub fn intercept(&self, input_type: IOType<T>, index: usize) -> Result<(IOType<T>, &CLayer<T>), ForwardError> {
-    if index > self.layers.len() - 1 { return Err(ForwardError::InvalidLayerIndex) }
+    if index >= self.layers.len() { return Err(ForwardError::InvalidLayerIndex) }
     
     /* go through hidden layers */
     let layers_iter = self.layers.iter();
-- 
2.43.0


From 051e631a8d88a53f51cd14d84735c9abba41a1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:33:42 +0000
Subject: [PATCH 12/16] fix: reject layer inputs with the wrong number of
 features

Dense layers panicked and reduce and flatten layers silently accepted an
input that does not match their declared input shape. The convolutional
layer made the check only after indexing the first feature.
---
 src/cvnn/layer/conv.rs    | 7 ++++---
 src/cvnn/layer/dense.rs   | 2 ++
 src/cvnn/layer/flatten.rs | 2 ++
 src/cvnn/layer/reduce.rs  | 2 ++
 4 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/cvnn/layer/conv.rs b/src/cvnn/layer/conv.rs
index a225d11..8857343 100644
--- a/src/cvnn/layer/conv.rs
+++ b/src/cvnn/layer/conv.rs
@@ -116,15 +116,16 @@ impl<T: Complex + BasicOperations<T>> ConvCLayer<T> {
         let kernels_shape = self.kernels.get_shape();
         let channels = kernels_shape[1];
         let func = &self.func;
+
+        let input_features_len = input.len();
+        if channels != input_features_len { return Err(LayerForwardError::InvalidInput) }
+
         /* it has to be the same for all */
         let filters_shape = self.kernels.elm(0, 0).unwrap().get_shape();
         let input_shape = input[0].get_shape();
         /* output of the convolutions */
         let output_shape = [input_shape[0]-(filters_shape[0]-1), input_shape[1]-(filters_shape[1]-1)];
 
-        let input_features_len = input.len();
-        if channels != input_features_len { return Err(LayerForwardError::InvalidInput) }
-
         let output_features = self.kernels
           //.rows_as_par_chunks()
           .rows_as_iter()
diff --git a/src/cvnn/layer/dense.rs b/src/cvnn/layer/dense.rs
index 474d566..cde5811 100644
--- a/src/cvnn/layer/dense.rs
+++ b/src/cvnn/layer/dense.rs
@@ -105,6 +105,8 @@ impl<T: Complex + BasicOperations<T>> DenseCLayer<T> {
     match input_type {
       /* dense layer should receive a vector */
       IOType::Scalar(input) => {
+        if input.len() != self.weights.get_shape()[1] { return Err(LayerForwardError::InvalidInput) }
+
         /* instantiate the result (it is going to be a column matrix) */
         let mut res = self.weights
           .mul_slice(input)
diff --git a/src/cvnn/layer/flatten.rs b/src/cvnn/layer/flatten.rs
index bf25368..6b5b426 100644
--- a/src/cvnn/layer/flatten.rs
+++ b/src/cvnn/layer/flatten.rs
@@ -55,6 +55,8 @@ impl Flatten {
   pub fn foward<T: Clone>(&self, input_type: &IOType<T>) -> Result<IOType<T>, LayerForwardError> {
     match input_type {
       IOType::Matrix(features) => {
+        if features.len() != self.input_size.1 { return Err(LayerForwardError::InvalidInput) }
+
         let flatten_features = features
           .into_iter()
           .flat_map(|feature| { feature.get_body().to_vec() })
diff --git a/src/cvnn/layer/reduce.rs b/src/cvnn/layer/reduce.rs
index dc4e4db..2066687 100644
--- a/src/cvnn/layer/reduce.rs
+++ b/src/cvnn/layer/reduce.rs
@@ -75,6 +75,8 @@ impl<T: BasicOperations<T>> Reduce<T> {
   pub fn foward(&self, input_type: &IOType<T>) -> Result<IOType<T>, LayerForwardError> {
     match input_type {
       IOType::Matrix(features) => {
+        if features.len() != self.input_features_len { return Err(LayerForwardError::InvalidInput) }
+
         let mut new_features = Vec::with_capacity(features.len());
         for feature in features.into_iter() {
           let new_feature = feature.block_reduce(
-- 
2.43.0


From 0497c9433fa1bd1e03e8d249db216475f36a4f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:33:42 +0000
Subject: [PATCH 13/16] fix: propagate both Wirtinger terms through
 convolutional layers

The gradient handed to the previous layer only used dL/da * da/dq, and the
conjugate gradient only the other term. As in the dense layer the gradient
is their sum, and the conjugate gradient is its conjugate.
---
 src/cvnn/layer/conv.rs | 25 ++++++++-----------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/src/cvnn/layer/conv.rs b/src/cvnn/layer/conv.rs
index 8857343..53c595d 100644
--- a/src/cvnn/layer/conv.rs
+++ b/src/cvnn/layer/conv.rs
@@ -214,7 +214,6 @@ impl<T: Complex + BasicOperations<T>> ConvCLayer<T> {
         let mut dldk = Vec::new();
         let mut dldb = Vec::new();
         let mut new_dlda = vec![T::default(); input_shape[0] * input_shape[1] * n_input_features];
-        let mut new_dlda_conj = vec![T::default(); input_shape[0] * input_shape[1] * n_input_features];
         let filters = self.kernels.rows_as_iter();
         filters.for_each(|filter| {
           /* collecting loss derivatives to matrices */
@@ -259,42 +258,34 @@ impl<T: Complex + BasicOperations<T>> ConvCLayer<T> {
             })
             .collect::<Vec<_>>();
           /* calculate loss derivative */
-          let dlda_padded = dlda_dadq_feat.clone().pad((padx, pady));
-          let dlda_conj_padded = dlda_conj_da_conj_dq_feat.clone().pad((padx, pady));
+          let mut dldq_feat = dlda_dadq_feat.clone();
+          dldq_feat.add_mut(&dlda_conj_da_conj_dq_feat).unwrap();
+          let dldq_padded = dldq_feat.pad((padx, pady));
 
           let oper_b = || {
             let new_dlda_acc = fliped_filter
               .iter()
               .flat_map(|flip_kernel| {
                 /* CHANGED HERE FOR COMPLEX CONVOLUTION OR NOT */
-                dlda_padded
+                dldq_padded
                   .convolution(flip_kernel)
                   .unwrap()
                   .export_body()
               }).collect::<Vec<_>>();
             
-            let new_dlda_conj_acc = fliped_filter
-              .iter()
-              .flat_map(|flip_kernel| {
-                /* CHANGED HERE FOR COMPLEX CONVOLUTION OR NOT */
-                dlda_conj_padded
-                  .convolution(flip_kernel)
-                  .unwrap()
-                  .export_body()
-              }).collect::<Vec<_>>();
-            
-            (new_dlda_acc, new_dlda_conj_acc)
+            new_dlda_acc
           };
 
           /* using rayon join might be a good addition in the future */
           /* be careful because if it is not, you can change in the future for a more memory efficient approach */
-          let ((dldk_filter, dldb_filter), (new_dlda_acc, new_dlda_conj_acc)) = (oper_a(), oper_b());
+          let ((dldk_filter, dldb_filter), new_dlda_acc) = (oper_a(), oper_b());
           dldk.extend(dldk_filter);
           dldb.push(dldb_filter.into_iter().reduce(|acc, elm| { acc + elm }).unwrap());
           new_dlda.add_slice_mut(&new_dlda_acc).unwrap();
-          new_dlda_conj.add_slice_mut(&new_dlda_conj_acc).unwrap();
         });
 
+        let new_dlda_conj = new_dlda.iter().map(|elm| { elm.conj() }).collect::<Vec<_>>();
+
         Ok((dldk, dldb, new_dlda, new_dlda_conj))
       },
       _ => { panic!("Something went terribily wrong.") }
-- 
2.43.0


From 6fccaa60e44e35c738ad66df22dcdb516bb3829c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:33:42 +0000
Subject: [PATCH 14/16] fix: keep normal initialisation finite when the
 generator yields zero

gen_he and gen_xagn took the logarithm of a draw that can be exactly zero,
which produced infinite or NaN weights.
---
 src/math/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/math/mod.rs b/src/math/mod.rs
index edd7654..ebc3375 100644
--- a/src/math/mod.rs
+++ b/src/math/mod.rs
@@ -247,7 +247,7 @@ impl Complex for Cf32 {
     let float_i_units = i_units as Self::Precision;
     let new_std = (2.0 / float_i_units).sqrt();
 
-    let r1 = lcgf32(seed);
+    let r1 = lcgf32(seed).max(f32::MIN_POSITIVE);
     let phi1 = 2.0 * lcgf32(seed) * PI32;
 
     /* centered in zero and standard deviation of float scale */
@@ -283,7 +283,7 @@ impl Complex for Cf32 {
     let float_io_units = io_units as Self::Precision;
     let new_std = (2.0 / float_io_units).sqrt();
 
-    let r1 = lcgf32(seed);
+    let r1 = lcgf32(seed).max(f32::MIN_POSITIVE);
     let phi1 = 2.0 * lcgf32(seed) * PI32;
 
     /* normal distributed number (centered in 0) with new_std as std */
@@ -406,7 +406,7 @@ impl Complex for Cf64 {
     let float_i_units = i_units as Self::Precision;
     let new_std = (2.0 / float_i_units).sqrt();
 
-    let r1 = lcgf64(seed);
+    let r1 = lcgf64(seed).max(f64::MIN_POSITIVE);
     let phi1 = 2.0 * lcgf64(seed) * PI64;
 
     /* centered in zero and standard deviation of float scale */
@@ -442,7 +442,7 @@ impl Complex for Cf64 {
     let float_io_units = io_units as Self::Precision;
     let new_std = (2.0 / float_io_units).sqrt();
 
-    let r1 = lcgf64(seed);
+    let r1 = lcgf64(seed).max(f64::MIN_POSITIVE);
     let phi1 = 2.0 * lcgf64(seed) * PI64;
 
     /* normal distributed number (centered in 0) with new_std as std */
-- 
2.43.0


From c87e8168812b59bcc3ffe8cf442c26df83bf7b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:25:49 +0000
Subject: [PATCH 15/16] fix: stop loading images when either file has no
 complete point left

---
 src/dataset/mod.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/dataset/mod.rs b/src/dataset/mod.rs
index 0e7955d..2076af3 100644
--- a/src/dataset/mod.rs
+++ b/src/dataset/mod.rs
@@ -119,8 +119,13 @@ impl<T: Real + BasicOperations<T>> Dataset<T, T> {
     let mut data_batch = Dataset::new();
 
     for _ in 0..batch_size {
-      data_file.read(image_buffer).unwrap();
-      *tracker += label_file.read(label_buffer).unwrap();
+      let image_len = data_file.read(image_buffer).unwrap();
+      let label_len = label_file.read(label_buffer).unwrap();
+      *tracker += label_len;
+      /* no complete point left in the files */
+      if image_len < image_buffer.len() || label_len < label_buffer.len() {
+        break;
+      }
       let image = image_buffer.iter().map(|elm| { T::usize_to_real(*elm as usize) / T::usize_to_real(255) }).collect::<Vec<T>>();
       data_batch.add_point((
         IOType::Matrix(vec![Matrix::from_body(image, [28, 28]); 1]),
@@ -154,8 +159,13 @@ impl<T: Complex + BasicOperations<T>> Dataset<T, T> {
     let mut data_batch = Dataset::new();
 
     for _ in 0..batch_size {
-      data_file.read(image_buffer).unwrap();
-      *tracker += label_file.read(label_buffer).unwrap();
+      let image_len = data_file.read(image_buffer).unwrap();
+      let label_len = label_file.read(label_buffer).unwrap();
+      *tracker += label_len;
+      /* no complete point left in the files */
+      if image_len < image_buffer.len() || label_len < label_buffer.len() {
+        break;
+      }
       let image = image_buffer.iter().map(|elm| { T::usize_to_complex(*elm as usize) / T::usize_to_complex(255) }).collect::<Vec<T>>();
       data_batch.add_point((
         IOType::Matrix(vec![Matrix::from_body(image, [28, 28]); 1]),
-- 
2.43.0


From df7391ffb33c5d391719f35531745187b726010f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:25:49 +0000
Subject: [PATCH 16/16] fix: keep the first Box-Muller number positive when
 corrupting signals

---
 src/dataset/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dataset/mod.rs b/src/dataset/mod.rs
index 2076af3..91af7e8 100644
--- a/src/dataset/mod.rs
+++ b/src/dataset/mod.rs
@@ -296,7 +296,7 @@ impl Dataset<Cf32, Cf32> {
         let noise2 = noise_threshold + int_percentage * a2;
 
         // generates random uniform values between 0 and 1
-        let u1 = lcgf32(test_seed);
+        let u1 = lcgf32(test_seed).max(f32::MIN_POSITIVE);
         let u2 = lcgf32(test_seed);
         // Box-Muller transform (normal distribution with noise as std)
         let z1 = ( (-2.0 * u1.ln()).sqrt() * (2.0 * PI32 * u2).cos() ) * noise1;
@@ -318,7 +318,7 @@ impl Dataset<Cf32, Cf32> {
         let noise2 = noise_threshold + int_percentage * a2;
 
         // generates random uniform values between 0 and 1
-        let u1 = lcgf32(test_seed);
+        let u1 = lcgf32(test_seed).max(f32::MIN_POSITIVE);
         let u2 = lcgf32(test_seed);
         // Box-Muller transform (normal distribution with noise as std)
         let z1 = ( (-2.0 * u1.ln()).sqrt() * (2.0 * PI32 * u2).cos() ) * noise1;
-- 
2.43.0

