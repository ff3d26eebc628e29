From 462f527976006c46195ca89b2eb541097d741f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:00:39 +0000
Subject: [PATCH 01/34] fix: use the old real part in complex *= and /=

The compound assignments overwrote the real part before computing the imaginary part.
They now give the same result as the plain operators.
---
 src/math/cfloat/mod.rs | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/src/math/cfloat/mod.rs b/src/math/cfloat/mod.rs
index 8b2d0e8..c669e8c 100644
--- a/src/math/cfloat/mod.rs
+++ b/src/math/cfloat/mod.rs
@@ -212,19 +212,13 @@ impl SubAssign for Cf32 {
 
 impl MulAssign for Cf32 {
   fn mul_assign(&mut self, rhs: Self) {
-    self.x = self.x * rhs.x - self.y * rhs.y;
-    self.y = self.x * rhs.y + self.y * rhs.x;
+    *self = *self * rhs;
   }
 }
 
 impl DivAssign for Cf32 {
   fn div_assign(&mut self, rhs: Self) {
-    let den = rhs.x.powi(2) + rhs.y.powi(2);
-
-    if den == 0.0 { panic!("Division by zero encountered in complex numbers.") }
-
-    self.x = (self.x * rhs.x + self.y * rhs.y) / den;
-    self.y = (self.y * rhs.x - self.x * rhs.y) / den;
+    *self = *self / rhs;
   }
 }
 
@@ -347,19 +341,13 @@ impl SubAssign for Cf64 {
 
 impl MulAssign for Cf64 {
   fn mul_assign(&mut self, rhs: Self) {
-    self.x = self.x * rhs.x - self.y * rhs.y;
-    self.y = self.x * rhs.y + self.y * rhs.x;
+    *self = *self * rhs;
   }
 }
 
 impl DivAssign for Cf64 {
   fn div_assign(&mut self, rhs: Self) {
-    let den = rhs.x.powi(2) + rhs.y.powi(2);
-
-    if den == 0.0 { panic!("Division by zero encountered in complex numbers.") }
-
-    self.x = (self.x * rhs.x + self.y * rhs.y) / den;
-    self.y = (self.y * rhs.x - self.x * rhs.y) / den;
+    *self = *self / rhs;
   }
 }
 
-- 
2.43.0


From 47625517e2b2f2943f6797ae9356d93deff77816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:00:39 +0000
Subject: [PATCH 02/34] fix: compute the Cf64 phase in the right quadrant

The arctangent of y/x loses the quadrant and is NaN for zero.
The single precision version already uses atan2.
---
 src/math/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/mod.rs b/src/math/mod.rs
index 81e2fd8..f106bf5 100644
--- a/src/math/mod.rs
+++ b/src/math/mod.rs
@@ -379,7 +379,7 @@ impl Complex for Cf64 {
   }
 
   fn phase(&self) -> Self::Precision {
-    (self.y / self.x).atan()
+    self.y.atan2(self.x)
   }
 
   fn conj(&self) -> Self {
-- 
2.43.0


From d0724648c791829ba58e4edc55b1279921c65f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:00:39 +0000
Subject: [PATCH 03/34] fix: correct the cardioid derivatives

The derivative with respect to the imaginary part had the wrong sign.
The factor 1/2 of the Wirtinger derivatives was missing.
---
 src/act/mod.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/act/mod.rs b/src/act/mod.rs
index 9b46399..11dfe2a 100644
--- a/src/act/mod.rs
+++ b/src/act/mod.rs
@@ -264,11 +264,11 @@ fn d_card_cf32(val: Cf32) -> Cf32 {
   );
 
   let dfdy = Cf32::new(
-    2.0 * y_factor * unfactor_re,
-    -2.0 * y_factor * unfactor_im
+    -2.0 * y_factor * unfactor_re,
+    2.0 * y_factor * unfactor_im
   );
 
-  dfdx - i * dfdy
+  (dfdx - i * dfdy) * Cf32::new(0.5, 0.0)
 }
 
 fn d_card_cf64(val: Cf64) -> Cf64 {
@@ -292,11 +292,11 @@ fn d_card_cf64(val: Cf64) -> Cf64 {
   );
 
   let dfdy = Cf64::new(
-    2.0 * y_factor * unfactor_re,
-    -2.0 * y_factor * unfactor_im
+    -2.0 * y_factor * unfactor_re,
+    2.0 * y_factor * unfactor_im
   );
 
-  dfdx - i * dfdy
+  (dfdx - i * dfdy) * Cf64::new(0.5, 0.0)
 }
 
 fn d_conj_card_cf32(val: Cf32) -> Cf32 {
@@ -320,11 +320,11 @@ fn d_conj_card_cf32(val: Cf32) -> Cf32 {
   );
 
   let dfdy = Cf32::new(
-    2.0 * y_factor * unfactor_re,
-    -2.0 * y_factor * unfactor_im
+    -2.0 * y_factor * unfactor_re,
+    2.0 * y_factor * unfactor_im
   );
 
-  dfdx + i * dfdy
+  (dfdx + i * dfdy) * Cf32::new(0.5, 0.0)
 }
 
 fn d_conj_card_cf64(val: Cf64) -> Cf64 {
@@ -348,11 +348,11 @@ fn d_conj_card_cf64(val: Cf64) -> Cf64 {
   );
 
   let dfdy = Cf64::new(
-    2.0 * y_factor * unfactor_re,
-    -2.0 * y_factor * unfactor_im
+    -2.0 * y_factor * unfactor_re,
+    2.0 * y_factor * unfactor_im
   );
 
-  dfdx + i * dfdy
+  (dfdx + i * dfdy) * Cf64::new(0.5, 0.0)
 }
 
 /* modz */
-- 
2.43.0


From b8c47602c0597e362da3a72ddb0344d64892a58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:00:39 +0000
Subject: [PATCH 04/34] fix: divide the mean square loss by the number of
 elements

It was divided by the index of the last element.
A single element gave infinity or NaN.
---
 src/opt/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opt/mod.rs b/src/opt/mod.rs
index 5151299..744a1d6 100644
--- a/src/opt/mod.rs
+++ b/src/opt/mod.rs
@@ -46,7 +46,7 @@ fn mean_sq_loss_cf32<'a, T1: Iterator<Item = &'a Cf32>, T2: Iterator<Item = &'a
     .zip(pred)
     .enumerate()
     .fold(0.0,|acc, (id, (t, p))| {
-      len = id;
+      len = id + 1;
       acc + sq_error_cf32(*t, *p)
     });
   
@@ -72,7 +72,7 @@ fn mean_sq_loss_cf64<'a, T1: Iterator<Item = &'a Cf64>, T2: Iterator<Item = &'a
     .zip(pred)
     .enumerate()
     .fold(0.0,|acc, (id, (t, p))| {
-      len = id;
+      len = id + 1;
       acc + sq_error_cf64(*t, *p)
     });
   
-- 
2.43.0


From 15b0e9f18d8a1d91feac065af3d6d3debff6df52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:00:39 +0000
Subject: [PATCH 05/34] fix: implement the derivative of the cross entropy loss

The derivative of the mean square loss was returned in its place.
---
 src/opt/mod.rs | 42 ++++++++++++++++++++++++++++++++++++++----
 1 file changed, 38 insertions(+), 4 deletions(-)

diff --git a/src/opt/mod.rs b/src/opt/mod.rs
index 744a1d6..50cc96e 100644
--- a/src/opt/mod.rs
+++ b/src/opt/mod.rs
@@ -115,8 +115,25 @@ fn norm_ce_loss_cf32<'a, T1: Iterator<Item = &'a Cf32>, T2: Iterator<Item = &'a
 
 /// Derivative of Real Cross Entropy Loss Function
 fn d_norm_ce_loss_cf32<'a, T1: Iterator<Item = &'a Cf32>, T2: Iterator<Item = &'a Cf32>>(targ: T1, pred: T2) -> Vec<Cf32> {
-  // for now until I figure out what is wrong
-  d_mean_sq_loss_cf32(targ, pred)
+  let real_targ = targ.map(|elm| { elm.re() }).collect::<Vec<_>>();
+  let targ_sum = real_targ.iter().fold(0.0, |acc, elm| { acc + *elm });
+
+  // Softmax of the squared norms, shifted by the largest one to avoid overflow
+  let pred = pred.collect::<Vec<_>>();
+  let max = pred.iter().fold(0.0, |acc: f32, elm| { acc.max(elm.norm_sq()) });
+  let exp_map = pred.iter()
+    .map(|elm| { (elm.norm_sq() - max).exp() })
+    .collect::<Vec<_>>();
+  let exp_sum = exp_map.iter()
+    .fold(0.0, |acc, elm| { acc + *elm });
+
+  real_targ
+    .into_iter()
+    .zip(pred)
+    .zip(exp_map)
+    .map(|((t, p), exp)| {
+      p.conj() * Cf32::new(targ_sum * exp / exp_sum - t, 0.0)
+    }).collect()
 }
 
 /// Real Cross Entropy Loss Function.
@@ -145,8 +162,25 @@ fn norm_ce_loss_cf64<'a, T1: Iterator<Item = &'a Cf64>, T2: Iterator<Item = &'a
 
 /// Derivative of Real Cross Entropy Loss Function
 fn d_norm_ce_loss_cf64<'a, T1: Iterator<Item = &'a Cf64>, T2: Iterator<Item = &'a Cf64>>(targ: T1, pred: T2) -> Vec<Cf64> {
-  // for now until I figure out what is wrong
-  d_mean_sq_loss_cf64(targ, pred)
+  let real_targ = targ.map(|elm| { elm.re() }).collect::<Vec<_>>();
+  let targ_sum = real_targ.iter().fold(0.0, |acc, elm| { acc + *elm });
+
+  // Softmax of the squared norms, shifted by the largest one to avoid overflow
+  let pred = pred.collect::<Vec<_>>();
+  let max = pred.iter().fold(0.0, |acc: f64, elm| { acc.max(elm.norm_sq()) });
+  let exp_map = pred.iter()
+    .map(|elm| { (elm.norm_sq() - max).exp() })
+    .collect::<Vec<_>>();
+  let exp_sum = exp_map.iter()
+    .fold(0.0, |acc, elm| { acc + *elm });
+
+  real_targ
+    .into_iter()
+    .zip(pred)
+    .zip(exp_map)
+    .map(|((t, p), exp)| {
+      p.conj() * Cf64::new(targ_sum * exp / exp_sum - t, 0.0)
+    }).collect()
 }
 
 /// List of possible loss function to use.
-- 
2.43.0


From ba83ad9b4b3742ef8cc89ef7305bfaefb1f683b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:00:39 +0000
Subject: [PATCH 06/34] fix: keep the cross entropy loss finite for large
 predictions

The exponential of the squared norms overflowed or underflowed.
The result was infinite or NaN.
---
 src/opt/mod.rs | 42 ++++++++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/src/opt/mod.rs b/src/opt/mod.rs
index 50cc96e..9412a5c 100644
--- a/src/opt/mod.rs
+++ b/src/opt/mod.rs
@@ -95,19 +95,22 @@ fn norm_ce_loss_cf32<'a, T1: Iterator<Item = &'a Cf32>, T2: Iterator<Item = &'a
   // The real part should contain the one-hot-encoding
   let real_targ = targ.map(|elm| { elm.re() });
 
-  // Compute softmax of the prediction
-  let exp_map = pred
-    .map(|elm| { elm.norm_sq().exp() })
+  // Compute the logarithm of the softmax of the prediction,
+  // shifted by the largest squared norm to avoid overflow
+  let norms = pred
+    .map(|elm| { elm.norm_sq() })
     .collect::<Vec<_>>();
-  let exp_sum = exp_map.iter()
-    .fold(0.0, |acc, elm| { acc + *elm });
+  let max = norms.iter()
+    .fold(0.0, |acc: f32, elm| { acc.max(*elm) });
+  let log_sum = norms.iter()
+    .fold(0.0, |acc: f32, elm| { acc + (*elm - max).exp() })
+    .ln();
 
   // Compute Cross entropy with the softmax values
   let loss = real_targ
-    .zip(exp_map)
-    .fold(0.0,|acc, (t, exp)| {
-      let s = exp / exp_sum;
-      acc - t * s.ln() 
+    .zip(norms)
+    .fold(0.0,|acc, (t, norm)| {
+      acc - t * (norm - max - log_sum)
     });
 
   loss
@@ -142,19 +145,22 @@ fn norm_ce_loss_cf64<'a, T1: Iterator<Item = &'a Cf64>, T2: Iterator<Item = &'a
   // The real part should contain the one-hot-encoding
   let real_targ = targ.map(|elm| { elm.re() });
 
-  // Compute softmax of the prediction
-  let exp_map = pred
-    .map(|elm| { elm.norm_sq().exp() })
+  // Compute the logarithm of the softmax of the prediction,
+  // shifted by the largest squared norm to avoid overflow
+  let norms = pred
+    .map(|elm| { elm.norm_sq() })
     .collect::<Vec<_>>();
-  let exp_sum = exp_map.iter()
-    .fold(0.0, |acc, elm| { acc + *elm });
+  let max = norms.iter()
+    .fold(0.0, |acc: f64, elm| { acc.max(*elm) });
+  let log_sum = norms.iter()
+    .fold(0.0, |acc: f64, elm| { acc + (*elm - max).exp() })
+    .ln();
 
   // Compute Cross entropy with the softmax values
   let loss = real_targ
-    .zip(exp_map)
-    .fold(0.0,|acc, (t, exp)| {
-      let s = exp / exp_sum;
-      acc - t * s.ln() 
+    .zip(norms)
+    .fold(0.0,|acc, (t, norm)| {
+      acc - t * (norm - max - log_sum)
     });
 
   loss
-- 
2.43.0


From 9cb1b1d141b7854cf6ae4930a043c943267b41a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:01:31 +0000
Subject: [PATCH 07/34] fix: propagate both gradient terms through
 convolutional layers

The term of the conjugate gradient was left out of the input gradient.
The conjugate input gradient was not the conjugate of the input gradient.
---
 src/cvnn/layer/conv.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cvnn/layer/conv.rs b/src/cvnn/layer/conv.rs
index a225d11..ccb0ac2 100644
--- a/src/cvnn/layer/conv.rs
+++ b/src/cvnn/layer/conv.rs
@@ -294,6 +294,10 @@ impl<T: Complex + BasicOperations<T>> ConvCLayer<T> {
           new_dlda_conj.add_slice_mut(&new_dlda_conj_acc).unwrap();
         });
 
+        /* the loss is real, so both gradients get both terms and are conjugate to each other */
+        new_dlda.add_slice_mut(&new_dlda_conj).unwrap();
+        let new_dlda_conj = new_dlda.iter().map(|elm| { elm.conj() }).collect::<Vec<_>>();
+
         Ok((dldk, dldb, new_dlda, new_dlda_conj))
       },
       _ => { panic!("Something went terribily wrong.") }
-- 
2.43.0


From 514ad3bb8a7a153415803403fe8fdd7b8f7d69c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:01:31 +0000
Subject: [PATCH 08/34] fix: check the channel count of a convolution before
 using the input

An input without feature maps panicked instead of being refused.
---
 src/cvnn/layer/conv.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cvnn/layer/conv.rs b/src/cvnn/layer/conv.rs
index ccb0ac2..4b49d74 100644
--- a/src/cvnn/layer/conv.rs
+++ b/src/cvnn/layer/conv.rs
@@ -116,15 +116,16 @@ impl<T: Complex + BasicOperations<T>> ConvCLayer<T> {
         let kernels_shape = self.kernels.get_shape();
         let channels = kernels_shape[1];
         let func = &self.func;
+
+        let input_features_len = input.len();
+        if channels != input_features_len { return Err(LayerForwardError::InvalidInput) }
+
         /* it has to be the same for all */
         let filters_shape = self.kernels.elm(0, 0).unwrap().get_shape();
         let input_shape = input[0].get_shape();
         /* output of the convolutions */
         let output_shape = [input_shape[0]-(filters_shape[0]-1), input_shape[1]-(filters_shape[1]-1)];
 
-        let input_features_len = input.len();
-        if channels != input_features_len { return Err(LayerForwardError::InvalidInput) }
-
         let output_features = self.kernels
           //.rows_as_par_chunks()
           .rows_as_iter()
-- 
2.43.0


From cae76eb017e0c598d69217055c38e7b90642df9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:01:31 +0000
Subject: [PATCH 09/34] fix: invert the conditions of Matrix::add_col

Columns of the right length were refused and columns of a wrong length accepted.
The capacity check was inverted as well.
---
 src/math/matrix/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/matrix/mod.rs b/src/math/matrix/mod.rs
index ab73802..e739610 100644
--- a/src/math/matrix/mod.rs
+++ b/src/math/matrix/mod.rs
@@ -258,11 +258,11 @@ impl<T> Matrix<T> {
   /// Not very performant. Use this method outside heavy computation, if possible.
   pub fn add_col(&mut self, col: &mut Vec<T>) -> Result<(), UpdateError> {
     // a row must first be added
-    if col.len() == self.shape[0] {
+    if col.len() != self.shape[0] {
       return Err(UpdateError::InconsistentLength);
     }
 
-    if self.shape[1] < self.capacity[1] {
+    if self.shape[1] >= self.capacity[1] {
       return Err(UpdateError::Overflow);
     }
 
-- 
2.43.0


From 3addd2418e7c297585bec202f334920cae08ac30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:01:31 +0000
Subject: [PATCH 10/34] fix: refuse a first row wider than the capacity in
 add_mut_row

add_row already refuses it.
---
 src/math/matrix/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/matrix/mod.rs b/src/math/matrix/mod.rs
index e739610..c6720d2 100644
--- a/src/math/matrix/mod.rs
+++ b/src/math/matrix/mod.rs
@@ -206,7 +206,7 @@ impl<T> Matrix<T> {
       return Err(UpdateError::InconsistentLength);
     }
     
-    if (self.shape[0] >= self.capacity[0]) || (self.shape[1] > self.capacity[1]) {
+    if (self.shape[0] >= self.capacity[0]) || (row.len() > self.capacity[1]) {
       return Err(UpdateError::Overflow);
     }
 
-- 
2.43.0


From c2b54e39a45565edee461a1ceff750d72bfb2cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:01:31 +0000
Subject: [PATCH 11/34] fix: support any block and odd kernel size in
 fractional up-sampling

The column offset used the block height.
The padding only kept the size for 3x3 kernels.
---
 src/math/matrix/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/matrix/mod.rs b/src/math/matrix/mod.rs
index c6720d2..94b3dfa 100644
--- a/src/math/matrix/mod.rs
+++ b/src/math/matrix/mod.rs
@@ -586,7 +586,7 @@ impl<T: BasicOperations<T>> Matrix<T> {
 
     let upper: usize = if block_size[0] % 2 == 0 {(block_size[0] / 2) - 1} else { (block_size[0] - 1) / 2 };
     let bottom: usize = block_size[0] - upper - 1;
-    let left: usize = if block_size[1] % 2 == 0 {(block_size[1] / 2) - 1} else { (block_size[0] - 1) / 2 };
+    let left: usize = if block_size[1] % 2 == 0 {(block_size[1] / 2) - 1} else { (block_size[1] - 1) / 2 };
     let right: usize = block_size[1] - left - 1;
 
     let final_shape = [matrix_shape[0] * block_size[0], matrix_shape[1] * block_size[1]];
@@ -621,7 +621,7 @@ impl<T: BasicOperations<T>> Matrix<T> {
 
     let out = matrix_res
       /* pad to conserve the shap on the convolution */
-      .pad((kernel_shape[0]-2, kernel_shape[0]-2))
+      .pad(((kernel_shape[0]-1) / 2, (kernel_shape[1]-1) / 2))
       .convolution(kernel)
       .unwrap();
 
-- 
2.43.0


From 3290cfa5b434ba4839db8a796b970641207b6149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:01:31 +0000
Subject: [PATCH 12/34] fix: allow iterating, printing and exporting an empty
 matrix

A chunk size of zero panics.
---
 src/math/matrix/mod.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/math/matrix/mod.rs b/src/math/matrix/mod.rs
index 94b3dfa..50303c8 100644
--- a/src/math/matrix/mod.rs
+++ b/src/math/matrix/mod.rs
@@ -284,12 +284,12 @@ impl<T> Matrix<T> {
 
   /// Returns an iterator that goes through the rows of the matrix.
   pub fn rows_as_iter(&self) -> std::slice::Chunks<'_, T> {
-    self.body.chunks(self.shape[1])
+    self.body.chunks(self.shape[1].max(1))
   }
 
   /// Returns an iterator that goes through mutable rows of the matrix.
   pub fn rows_as_iter_mut(&mut self) -> std::slice::ChunksMut<'_, T> {
-    self.body.chunks_mut(self.shape[1])
+    self.body.chunks_mut(self.shape[1].max(1))
   }
 
   /// Returns the i-th slider of matrix with the number of rows of `rows`. 
@@ -311,7 +311,7 @@ impl<T> Matrix<T> {
 impl<T: Sync> Matrix<T> {
   /// Returns rows as parallel chunks with the help of rayon.
   pub fn rows_as_par_chunks(&self) -> rayon::slice::Chunks<'_, T> {
-    self.body.par_chunks(self.shape[1])
+    self.body.par_chunks(self.shape[1].max(1))
   }
 }
 
@@ -793,7 +793,7 @@ impl<T: Copy> SliceToMatrix<T> for [T] {
 impl<T: Debug> Display for Matrix<T> {
 
   fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-    for elm in self.body.chunks(self.shape[1]) {
+    for elm in self.body.chunks(self.shape[1].max(1)) {
       writeln!(f, "{:?}", elm)?;
     }
 
@@ -805,7 +805,7 @@ impl<T: Display + Copy> Matrix<T> {
   pub fn to_csv(&self, path: String) -> std::io::Result<()> {
     let mut file = File::create(path)?;
     
-    let data_row_len = self.get_shape()[1];
+    let data_row_len = self.get_shape()[1].max(1);
     let data_chunks = self.get_body().chunks(data_row_len);
 
     for row in data_chunks {
-- 
2.43.0


From 19cc1f40e02b2cea66484d34c33ac11f2afeda54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:01:31 +0000
Subject: [PATCH 13/34] fix: refuse adding an inner layer to an empty network

It panicked instead of returning the missing input error.
---
 src/cvnn/network/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cvnn/network/mod.rs b/src/cvnn/network/mod.rs
index 2d1222f..0f1b726 100644
--- a/src/cvnn/network/mod.rs
+++ b/src/cvnn/network/mod.rs
@@ -78,7 +78,7 @@ impl<T: Complex + BasicOperations<T>> CNetwork<T> {
     /* also takes care of the shape and size respectively */
     /* still the user has to request a coherent amount of units (input, ouput shape) */
     /* the network will not initialize the layer based previous output */
-    let last_layer_out = self.layers.last().unwrap().get_output_shape();
+    let last_layer_out = self.get_output_shape()?;
     if last_layer_out != layer.get_input_shape() { return Err(LayerAdditionError::IncompatibleIO) }
 
     self.layers.push(layer);
-- 
2.43.0


From 2fe3d75229212ed5f44bd0be278b3f352620a2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:01:31 +0000
Subject: [PATCH 14/34] fix: refuse intercepting an empty network

The index check underflowed.
---
 src/cvnn/network/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cvnn/network/mod.rs b/src/cvnn/network/mod.rs
index 0f1b726..525fab0 100644
--- a/src/cvnn/network/mod.rs
+++ b/src/cvnn/network/mod.rs
@@ -121,7 +121,7 @@ impl<T: Complex + BasicOperations<T>> CNetwork<T> {
   /// Not an heavily used function but might be for obtaining the activations in the
   /// back-propagation algorithm.
   pub fn intercept(&self, input_type: IOType<T>, index: usize) -> Result<(IOType<T>, &CLayer<T>), ForwardError> {
-    if index > self.layers.len() - 1 { return Err(ForwardError::InvalidLayerIndex) }
+    if index >= self.layers.len() { return Err(ForwardError::InvalidLayerIndex) }
     
     /* go through hidden layers */
     let layers_iter = self.layers.iter();
-- 
2.43.0


From d0353ed4eb253e243c1752956bcd08be30145987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:01:31 +0000
Subject: [PATCH 15/34] fix: accept every seed in the random number generators

The product overflowed for seeds of 2^98 and above.
---
 src/math/random/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/math/random/mod.rs b/src/math/random/mod.rs
index 768bb8b..7f79ff2 100644
--- a/src/math/random/mod.rs
+++ b/src/math/random/mod.rs
@@ -22,7 +22,7 @@ pub fn lcgf32(seed: &mut u128) -> f32 {
     let b: u128 = 12345;
     let m: u128 = 2u128.pow(31);
 
-    *seed = (a * *seed + b) % (m - 1);
+    *seed = (a * (*seed % (m - 1)) + b) % (m - 1);
     
     (*seed as f32) / (m as f32)
 
@@ -52,7 +52,7 @@ pub fn lcgf64(seed: &mut u128) -> f64 {
     let b: u128 = 12345;
     let m: u128 = 2u128.pow(31);
 
-    *seed = (a * *seed + b) % (m - 1);
+    *seed = (a * (*seed % (m - 1)) + b) % (m - 1);
     
     (*seed as f64) / (m as f64)
 
@@ -86,7 +86,7 @@ pub fn lcgi(seed: &mut u128, limit: u128) -> usize {
     let b: u128 = 12345;
     let m: u128 = 2u128.pow(31);
 
-    *seed = (a * *seed + b) % (m - 1);
+    *seed = (a * (*seed % (m - 1)) + b) % (m - 1);
     
     ( *seed / ( (m-1) / limit ) ) as usize
 }
\ No newline at end of file
-- 
2.43.0


From 061dfe205bb0d164cdf770f4a5598585313fde60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:01:31 +0000
Subject: [PATCH 16/34] fix: keep random indices below their limit

Limits that do not divide 2^31 - 1 could return the limit itself.
Limits above 2^31 - 1 divided by zero.
---
 src/math/random/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/random/mod.rs b/src/math/random/mod.rs
index 7f79ff2..d47c43d 100644
--- a/src/math/random/mod.rs
+++ b/src/math/random/mod.rs
@@ -88,5 +88,5 @@ pub fn lcgi(seed: &mut u128, limit: u128) -> usize {
 
     *seed = (a * (*seed % (m - 1)) + b) % (m - 1);
     
-    ( *seed / ( (m-1) / limit ) ) as usize
+    ( *seed * limit / (m-1) ) as usize
 }
\ No newline at end of file
-- 
2.43.0


From 19c18e193d4c1257714cb602ce0095923c0f0ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:01:31 +0000
Subject: [PATCH 17/34] fix: keep normal initialisation finite when a draw is
 zero

The logarithm of zero gave infinite or NaN weights.
---
 src/math/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/math/mod.rs b/src/math/mod.rs
index f106bf5..add4e1a 100644
--- a/src/math/mod.rs
+++ b/src/math/mod.rs
@@ -247,7 +247,7 @@ impl Complex for Cf32 {
     let float_i_units = i_units as Self::Precision;
     let new_std = (2.0 / float_i_units).sqrt();
 
-    let r1 = lcgf32(seed);
+    let r1 = lcgf32(seed).max(f32::MIN_POSITIVE);
     let phi1 = 2.0 * lcgf32(seed) * PI32;
 
     /* centered in zero and standard deviation of float scale */
@@ -283,7 +283,7 @@ impl Complex for Cf32 {
     let float_io_units = io_units as Self::Precision;
     let new_std = (2.0 / float_io_units).sqrt();
 
-    let r1 = lcgf32(seed);
+    let r1 = lcgf32(seed).max(f32::MIN_POSITIVE);
     let phi1 = 2.0 * lcgf32(seed) * PI32;
 
     /* normal distributed number (centered in 0) with new_std as std */
@@ -406,7 +406,7 @@ impl Complex for Cf64 {
     let float_i_units = i_units as Self::Precision;
     let new_std = (2.0 / float_i_units).sqrt();
 
-    let r1 = lcgf64(seed);
+    let r1 = lcgf64(seed).max(f64::MIN_POSITIVE);
     let phi1 = 2.0 * lcgf64(seed) * PI64;
 
     /* centered in zero and standard deviation of float scale */
@@ -442,7 +442,7 @@ impl Complex for Cf64 {
     let float_io_units = io_units as Self::Precision;
     let new_std = (2.0 / float_io_units).sqrt();
 
-    let r1 = lcgf64(seed);
+    let r1 = lcgf64(seed).max(f64::MIN_POSITIVE);
     let phi1 = 2.0 * lcgf64(seed) * PI64;
 
     /* normal distributed number (centered in 0) with new_std as std */
-- 
2.43.0


From 8dc1f3dc6725abc0ef42a00d136c553f93fd8aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:01:31 +0000
Subject: [PATCH 18/34] fix: keep signal noise finite when a draw is zero

The logarithm of zero gave infinite or NaN samples.
---
 src/dataset/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dataset/mod.rs b/src/dataset/mod.rs
index 0e7955d..beeed97 100644
--- a/src/dataset/mod.rs
+++ b/src/dataset/mod.rs
@@ -286,7 +286,7 @@ impl Dataset<Cf32, Cf32> {
         let noise2 = noise_threshold + int_percentage * a2;
 
         // generates random uniform values between 0 and 1
-        let u1 = lcgf32(test_seed);
+        let u1 = lcgf32(test_seed).max(f32::MIN_POSITIVE);
         let u2 = lcgf32(test_seed);
         // Box-Muller transform (normal distribution with noise as std)
         let z1 = ( (-2.0 * u1.ln()).sqrt() * (2.0 * PI32 * u2).cos() ) * noise1;
@@ -308,7 +308,7 @@ impl Dataset<Cf32, Cf32> {
         let noise2 = noise_threshold + int_percentage * a2;
 
         // generates random uniform values between 0 and 1
-        let u1 = lcgf32(test_seed);
+        let u1 = lcgf32(test_seed).max(f32::MIN_POSITIVE);
         let u2 = lcgf32(test_seed);
         // Box-Muller transform (normal distribution with noise as std)
         let z1 = ( (-2.0 * u1.ln()).sqrt() * (2.0 * PI32 * u2).cos() ) * noise1;
-- 
2.43.0


From 1a9490a19b527f1f4ba8f2984a85e53970648773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:01:31 +0000
Subject: [PATCH 19/34] fix: refuse a one-hot index equal to the size

It panicked instead of returning the overflow error.
---
 src/math/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/math/mod.rs b/src/math/mod.rs
index add4e1a..ebc3375 100644
--- a/src/math/mod.rs
+++ b/src/math/mod.rs
@@ -56,7 +56,7 @@ impl Real for f32 {
   }
 
   fn gen_pred(size: usize, critical_index: usize, pred_method: &PredictModel) -> Result<Vec<Self>, PredicionError> {
-    if size < critical_index { return Err(PredicionError::CriticalIndexOverflow) }
+    if size <= critical_index { return Err(PredicionError::CriticalIndexOverflow) }
 
     match pred_method {
       PredictModel::Sparse => { 
@@ -85,7 +85,7 @@ impl Real for f64 {
   }
 
   fn gen_pred(size: usize, critical_index: usize, pred_method: &PredictModel) -> Result<Vec<Self>, PredicionError> {
-    if size < critical_index { return Err(PredicionError::CriticalIndexOverflow) }
+    if size <= critical_index { return Err(PredicionError::CriticalIndexOverflow) }
 
     match pred_method {
       PredictModel::Sparse => { 
@@ -294,7 +294,7 @@ impl Complex for Cf32 {
   }
 
   fn gen_pred(size: usize, critical_index: usize, pred_method: &PredictModel) -> Result<Vec<Self>, PredicionError> {
-    if size < critical_index { return Err(PredicionError::CriticalIndexOverflow) }
+    if size <= critical_index { return Err(PredicionError::CriticalIndexOverflow) }
 
     match pred_method {
       PredictModel::Sparse => { 
@@ -454,7 +454,7 @@ impl Complex for Cf64 {
   }
 
   fn gen_pred(size: usize, critical_index: usize, pred_method: &PredictModel) -> Result<Vec<Self>, PredicionError> {
-    if size < critical_index { return Err(PredicionError::CriticalIndexOverflow) }
+    if size <= critical_index { return Err(PredicionError::CriticalIndexOverflow) }
 
     match pred_method {
       PredictModel::Sparse => { 
-- 
2.43.0


From c1c10b13c2b5feb63abd74e8f06a7ee5fe7b8384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:01:31 +0000
Subject: [PATCH 20/34] fix: generate signals with an odd number of samples

The noise is drawn for pairs of samples and panicked on the last one.
---
 src/dataset/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/dataset/mod.rs b/src/dataset/mod.rs
index beeed97..d828d93 100644
--- a/src/dataset/mod.rs
+++ b/src/dataset/mod.rs
@@ -278,7 +278,8 @@ impl Dataset<Cf32, Cf32> {
       // corrupt the signal with gausian noise
       let corrupted_signal = clean_signal.chunks(2).flat_map(|elm| {
         let elm1 = elm[0];
-        let elm2 = elm[1];
+        // the last point has no pair when the number of samples is odd
+        let elm2 = elm[elm.len() - 1];
         // check point amplitude
         let a1 = elm1.norm();
         let noise1 = noise_threshold + int_percentage * a1;
@@ -297,10 +298,11 @@ impl Dataset<Cf32, Cf32> {
         
         // corrupt point
         [elm1 + Cf32::newe(z1, p1), elm2 + Cf32::newe(z2, p2)]
-      }).collect::<Vec<_>>();
+      }).take(samples).collect::<Vec<_>>();
       let corrupted_signal_t = clean_signal_t.chunks(2).flat_map(|elm| {
         let elm1 = elm[0];
-        let elm2 = elm[1];
+        // the last point has no pair when the number of samples is odd
+        let elm2 = elm[elm.len() - 1];
         // check point amplitude
         let a1 = elm1.norm();
         let noise1 = noise_threshold + int_percentage * a1;
@@ -319,7 +321,7 @@ impl Dataset<Cf32, Cf32> {
 
         // corrupt point
         [elm1 + Cf32::newe(z1, p1), elm2 + Cf32::newe(z2, p2)]
-      }).collect::<Vec<_>>();
+      }).take(samples).collect::<Vec<_>>();
 
       // add to the dataset
       train_batch.add_point((IOType::Scalar(corrupted_signal), IOType::Scalar(clean_signal)));
-- 
2.43.0


From 8526a078937e48c4a795c1455f2184a04e4bd231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:01:31 +0000
Subject: [PATCH 21/34] fix: stop reading MNIST batches at the end of the files

Reading past the end repeated the last image and label as further points.
---
 src/dataset/mod.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/dataset/mod.rs b/src/dataset/mod.rs
index d828d93..20d9392 100644
--- a/src/dataset/mod.rs
+++ b/src/dataset/mod.rs
@@ -119,8 +119,10 @@ impl<T: Real + BasicOperations<T>> Dataset<T, T> {
     let mut data_batch = Dataset::new();
 
     for _ in 0..batch_size {
-      data_file.read(image_buffer).unwrap();
-      *tracker += label_file.read(label_buffer).unwrap();
+      /* no more complete points to read */
+      if data_file.read_exact(image_buffer).is_err() { break; }
+      if label_file.read_exact(label_buffer).is_err() { break; }
+      *tracker += label_buffer.len();
       let image = image_buffer.iter().map(|elm| { T::usize_to_real(*elm as usize) / T::usize_to_real(255) }).collect::<Vec<T>>();
       data_batch.add_point((
         IOType::Matrix(vec![Matrix::from_body(image, [28, 28]); 1]),
@@ -154,8 +156,10 @@ impl<T: Complex + BasicOperations<T>> Dataset<T, T> {
     let mut data_batch = Dataset::new();
 
     for _ in 0..batch_size {
-      data_file.read(image_buffer).unwrap();
-      *tracker += label_file.read(label_buffer).unwrap();
+      /* no more complete points to read */
+      if data_file.read_exact(image_buffer).is_err() { break; }
+      if label_file.read_exact(label_buffer).is_err() { break; }
+      *tracker += label_buffer.len();
       let image = image_buffer.iter().map(|elm| { T::usize_to_complex(*elm as usize) / T::usize_to_complex(255) }).collect::<Vec<T>>();
       data_batch.add_point((
         IOType::Matrix(vec![Matrix::from_body(image, [28, 28]); 1]),
-- 
2.43.0


From d72d881bf34a530160ba5babf62df37d1638bfc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:48:22 +0000
Subject: [PATCH 22/34] fix: refuse an input of the wrong length in dense
 layers

Forwarding a vector whose length differs from the declared input panicked
instead of returning the error the function declares.
---
 src/cvnn/layer/dense.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cvnn/layer/dense.rs b/src/cvnn/layer/dense.rs
index 474d566..763735f 100644
--- a/src/cvnn/layer/dense.rs
+++ b/src/cvnn/layer/dense.rs
@@ -108,7 +108,7 @@ impl<T: Complex + BasicOperations<T>> DenseCLayer<T> {
         /* instantiate the result (it is going to be a column matrix) */
         let mut res = self.weights
           .mul_slice(input)
-          .unwrap();
+          .map_err(|_| LayerForwardError::InvalidInput)?;
 
         /* add the biases to the result */
         res
-- 
2.43.0


From 3c20a0614785cf99c469975f9b2fd89b5ba20179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:48:22 +0000
Subject: [PATCH 23/34] fix: refuse features that do not fit in dense
 back-propagation

Feature maps or a vector of the wrong length panicked instead of returning
the error the function declares, as pooling layers do.
---
 src/cvnn/layer/dense.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cvnn/layer/dense.rs b/src/cvnn/layer/dense.rs
index 763735f..6261b73 100644
--- a/src/cvnn/layer/dense.rs
+++ b/src/cvnn/layer/dense.rs
@@ -140,6 +140,8 @@ impl<T: Complex + BasicOperations<T>> DenseCLayer<T> {
 
     match previous_act {
       IOType::Scalar(input) => {
+        if input.len() != weight_shape[1] { return Err(GradientError::InconsistentShape) }
+
         /* determine q (it is an holomorphic function) */
         /* determine q */
         let q = self.compute_q(input);
@@ -210,7 +212,7 @@ impl<T: Complex + BasicOperations<T>> DenseCLayer<T> {
 
         Ok((dldw, dldb, new_dlda, new_dlda_conj))
       },
-      _ => { panic!("Something went terribily wrong.") }
+      _ => { Err(GradientError::InconsistentShape) }
     }
   }
 
-- 
2.43.0


From faf0af39fc67ef4dddde447bd8e23dd41a4da171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:48:22 +0000
Subject: [PATCH 24/34] fix: refuse feature maps smaller than the kernels in
 convolutional layers

The output shape underflowed and forwarding panicked instead of returning
the error the function declares.
---
 src/cvnn/layer/conv.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cvnn/layer/conv.rs b/src/cvnn/layer/conv.rs
index 4b49d74..8a8a64e 100644
--- a/src/cvnn/layer/conv.rs
+++ b/src/cvnn/layer/conv.rs
@@ -123,6 +123,8 @@ impl<T: Complex + BasicOperations<T>> ConvCLayer<T> {
         /* it has to be the same for all */
         let filters_shape = self.kernels.elm(0, 0).unwrap().get_shape();
         let input_shape = input[0].get_shape();
+        /* the kernels have to fit inside the features */
+        if filters_shape[0] > input_shape[0] || filters_shape[1] > input_shape[1] { return Err(LayerForwardError::InvalidInput) }
         /* output of the convolutions */
         let output_shape = [input_shape[0]-(filters_shape[0]-1), input_shape[1]-(filters_shape[1]-1)];
 
-- 
2.43.0


From 82502e46783c53935b0ba59d95b530c646580399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:48:22 +0000
Subject: [PATCH 25/34] fix: refuse features and gradients that do not fit in
 convolutional back-propagation

A vector, another number of maps, maps smaller than the kernels or gradients
of the wrong length panicked or gave meaningless derivatives instead of the
error the function declares.
---
 src/cvnn/layer/conv.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cvnn/layer/conv.rs b/src/cvnn/layer/conv.rs
index 8a8a64e..19eb501 100644
--- a/src/cvnn/layer/conv.rs
+++ b/src/cvnn/layer/conv.rs
@@ -173,6 +173,7 @@ impl<T: Complex + BasicOperations<T>> ConvCLayer<T> {
     match previous_act {
       IOType::Matrix(input) => {
         let n_input_features = input.len();
+        if n_input_features != self.input_features_len { return Err(GradientError::InconsistentShape) }
         /* all of the shapes of the inputs should be the same */
         /* because previous layers always decrease the size equally throughout features */
         let input_shape = input[0].get_shape();
@@ -180,7 +181,10 @@ impl<T: Complex + BasicOperations<T>> ConvCLayer<T> {
         let kernel_shape = self.kernels.elm(0, 0).unwrap().get_shape();
         let padx = kernel_shape[0] - 1;
         let pady = kernel_shape[1] - 1;
+        if padx >= input_shape[0] || pady >= input_shape[1] { return Err(GradientError::InconsistentShape) }
         let output_shape = [input_shape[0] - padx, input_shape[1] - pady];
+        let output_len = output_shape[0] * output_shape[1] * kernels_shape[0];
+        if dlda.len() != output_len || dlda_conj.len() != output_len { return Err(GradientError::InconsistentShape) }
         
         let act_func = &self.func;
 
@@ -303,7 +307,7 @@ impl<T: Complex + BasicOperations<T>> ConvCLayer<T> {
 
         Ok((dldk, dldb, new_dlda, new_dlda_conj))
       },
-      _ => { panic!("Something went terribily wrong.") }
+      _ => { Err(GradientError::InconsistentShape) }
     }
   }
 
-- 
2.43.0


From 13ffd1b6f08567cc7bc7e0c788c47bc98fcf38e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:48:22 +0000
Subject: [PATCH 26/34] fix: refuse feature maps the block does not divide in
 pooling layers

Forwarding panicked instead of returning the error the function declares.
---
 src/cvnn/layer/reduce.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cvnn/layer/reduce.rs b/src/cvnn/layer/reduce.rs
index dc4e4db..1d5a78d 100644
--- a/src/cvnn/layer/reduce.rs
+++ b/src/cvnn/layer/reduce.rs
@@ -80,7 +80,7 @@ impl<T: BasicOperations<T>> Reduce<T> {
           let new_feature = feature.block_reduce(
             self.block_size.as_slice(), 
             &self.block_func
-          ).unwrap();
+          ).map_err(|_| LayerForwardError::InvalidInput)?;
 
           new_features.push(new_feature);
         }
-- 
2.43.0


From 3a7052579d6788b171d44b25243c9a68e4d086a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:48:46 +0000
Subject: [PATCH 27/34] fix: refuse features and gradients that do not fit in
 pooling back-propagation

Maps the block does not divide or gradients of the wrong length panicked or
were cut off instead of giving the error the function declares.
---
 src/cvnn/layer/reduce.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/cvnn/layer/reduce.rs b/src/cvnn/layer/reduce.rs
index 1d5a78d..3653b86 100644
--- a/src/cvnn/layer/reduce.rs
+++ b/src/cvnn/layer/reduce.rs
@@ -102,6 +102,15 @@ impl<T: BasicOperations<T>> Reduce<T> {
     match previous_act {
       IOType::Matrix(features) => {
         let features_len = features.len();
+        if features_len != self.input_features_len { return Err(GradientError::InconsistentShape) }
+        /* the blocks have to divide the features and there is one gradient per block */
+        let mut blocks_len = 0;
+        for feature in features.iter() {
+          let shape = feature.get_shape();
+          if shape[0] % self.block_size[0] != 0 || shape[1] % self.block_size[1] != 0 { return Err(GradientError::InconsistentShape) }
+          blocks_len += (shape[0] / self.block_size[0]) * (shape[1] / self.block_size[1]);
+        }
+        if dlda.len() != blocks_len || dlda_conj.len() != blocks_len { return Err(GradientError::InconsistentShape) }
         let features_chunks = dlda.len() / features_len;
 
         let mut new_dlda = Vec::new();
-- 
2.43.0


From c52695f80805d5a4841f0deeaaac93bed43e377a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:48:46 +0000
Subject: [PATCH 28/34] fix: report an error for the loss of an empty or
 incompatible batch

The loss panicked on a batch without points and on targets of another kind
than the prediction instead of returning the error it declares.
---
 src/cvnn/network/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cvnn/network/mod.rs b/src/cvnn/network/mod.rs
index 525fab0..e650f9b 100644
--- a/src/cvnn/network/mod.rs
+++ b/src/cvnn/network/mod.rs
@@ -179,14 +179,14 @@ impl<T: Complex + BasicOperations<T>> CNetwork<T> {
         .forward(input)
         .unwrap();
       
-      loss_vals.push(T::loss(target, &prediction, &loss_func).unwrap());
+      loss_vals.push(T::loss(target, &prediction, &loss_func)?);
     }
 
     let loss_len = loss_vals.len();
     let total = loss_vals
       .into_iter()
       .reduce(|acc, elm| { acc + elm })
-      .unwrap();
+      .ok_or(LossCalcError::IncompatibleDataset)?;
     let mean = total / T::Precision::usize_to_real(loss_len);
     
     Ok(mean)
-- 
2.43.0


From 37f823909ab994dc68964bec5f35b20a8e671ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:21:57 +0000
Subject: [PATCH 29/34] fix: leave the network unchanged when training on an
 empty batch

The learning rate was divided by the number of points, so training on an
empty batch panicked with a division by zero instead of returning.
---
 src/cvnn/network/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cvnn/network/mod.rs b/src/cvnn/network/mod.rs
index e650f9b..e52d816 100644
--- a/src/cvnn/network/mod.rs
+++ b/src/cvnn/network/mod.rs
@@ -268,6 +268,8 @@ impl<T: Complex + BasicOperations<T>> CNetwork<T> {
     let (inputs, targets) = data.points_into_iter();
 
     let batch_size = inputs.len();
+    // without data points there are no gradients to follow
+    if batch_size == 0 { return Ok(()) }
     for (input, target) in inputs.zip(targets) {
       // collect all activations of the network
       // then reverse them to back-propagate values
-- 
2.43.0


From 9028aa47be1fe3b225a203ce4cb67ff1e26dc8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:51:51 +0000
Subject: [PATCH 30/34] fix: refuse kernels that are too large in the conjugate
 convolution

The size of the result underflowed instead.
---
 src/math/matrix/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/math/matrix/mod.rs b/src/math/matrix/mod.rs
index 50303c8..7607021 100644
--- a/src/math/matrix/mod.rs
+++ b/src/math/matrix/mod.rs
@@ -636,6 +636,11 @@ impl<T: Complex + BasicOperations<T>> Matrix<T> {
 
     let k_shape = kernel.get_shape();
     let initial_shape = self.get_shape();
+
+    if k_shape[0] > initial_shape[0] || k_shape[1] > initial_shape[1] {
+      return Err(OperationError::InvalidRHS)
+    }
+
     let final_shape = [
       initial_shape[0] - (k_shape[0]-1), 
       initial_shape[1] - (k_shape[1]-1)
-- 
2.43.0


From 29d79288d685218555f7923f418051666fff5bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:54:33 +0000
Subject: [PATCH 31/34] fix: layers could carry closures bound to one thread
 into other threads

The layer enumeration declared itself sendable and shareable by hand, whatever
the closure of a pooling layer holds, so safe programs could race on a Cell or
Rc. The closure now has to be sendable and shareable itself and the layer gets
both properties from its parts.
---
 src/cvnn/layer/mod.rs    | 3 ---
 src/cvnn/layer/reduce.rs | 4 ++--
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/cvnn/layer/mod.rs b/src/cvnn/layer/mod.rs
index a56368a..da31de0 100644
--- a/src/cvnn/layer/mod.rs
+++ b/src/cvnn/layer/mod.rs
@@ -27,9 +27,6 @@ pub enum CLayer<T> {
   Flatten(Flatten)
 }
 
-unsafe impl<T: Send> Send for CLayer<T> {}
-unsafe impl<T: Sync> Sync for CLayer<T> {}
-
 impl<T: Complex + BasicOperations<T>> CLayer<T> {
   /// Method that checks if the layer was already initialized.
   /// 
diff --git a/src/cvnn/layer/reduce.rs b/src/cvnn/layer/reduce.rs
index 3653b86..f4f66dc 100644
--- a/src/cvnn/layer/reduce.rs
+++ b/src/cvnn/layer/reduce.rs
@@ -5,7 +5,7 @@ use super::{CLayer, ComplexDerivatives};
 pub struct Reduce<T> {
   input_features_len: usize,
   block_size: [usize; 2],
-  block_func: Box<dyn Fn(&[T]) -> T>,
+  block_func: Box<dyn Fn(&[T]) -> T + Send + Sync>,
   interp_kernel: Matrix<T>
 }
 
@@ -61,7 +61,7 @@ impl<T: BasicOperations<T>> Reduce<T> {
   pub fn init(
     input_features_len: usize, 
     block_size: [usize; 2], 
-    block_func: Box<dyn Fn(&[T]) -> T>, 
+    block_func: Box<dyn Fn(&[T]) -> T + Send + Sync>, 
     interp_kernel: Matrix<T>
   ) -> Reduce<T> {
     Reduce { input_features_len, block_size, block_func, interp_kernel }
-- 
2.43.0


From 83053549913a4ebfbf442b6c28e44e3bf7e7e221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:41:26 +0000
Subject: [PATCH 32/34] fix: refuse feature maps of different sizes in
 convolutional layers

---
 src/cvnn/layer/conv.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cvnn/layer/conv.rs b/src/cvnn/layer/conv.rs
index 19eb501..eee65de 100644
--- a/src/cvnn/layer/conv.rs
+++ b/src/cvnn/layer/conv.rs
@@ -123,6 +123,7 @@ impl<T: Complex + BasicOperations<T>> ConvCLayer<T> {
         /* it has to be the same for all */
         let filters_shape = self.kernels.elm(0, 0).unwrap().get_shape();
         let input_shape = input[0].get_shape();
+        if input.iter().any(|feature| { feature.get_shape() != input_shape }) { return Err(LayerForwardError::InvalidInput) }
         /* the kernels have to fit inside the features */
         if filters_shape[0] > input_shape[0] || filters_shape[1] > input_shape[1] { return Err(LayerForwardError::InvalidInput) }
         /* output of the convolutions */
@@ -177,6 +178,7 @@ impl<T: Complex + BasicOperations<T>> ConvCLayer<T> {
         /* all of the shapes of the inputs should be the same */
         /* because previous layers always decrease the size equally throughout features */
         let input_shape = input[0].get_shape();
+        if input.iter().any(|feature| { feature.get_shape() != input_shape }) { return Err(GradientError::InconsistentShape) }
         let kernels_shape = self.kernels.get_shape();
         let kernel_shape = self.kernels.elm(0, 0).unwrap().get_shape();
         let padx = kernel_shape[0] - 1;
-- 
2.43.0


From ea1831dcc40b9eaab32b12703af31c75d4d7f645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:41:26 +0000
Subject: [PATCH 33/34] fix: back-propagate through pooling of maps with
 different sizes

---
 src/cvnn/layer/reduce.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/cvnn/layer/reduce.rs b/src/cvnn/layer/reduce.rs
index f4f66dc..023ad31 100644
--- a/src/cvnn/layer/reduce.rs
+++ b/src/cvnn/layer/reduce.rs
@@ -101,8 +101,7 @@ impl<T: BasicOperations<T>> Reduce<T> {
     /* perform unpooling or upsampling */
     match previous_act {
       IOType::Matrix(features) => {
-        let features_len = features.len();
-        if features_len != self.input_features_len { return Err(GradientError::InconsistentShape) }
+        if features.len() != self.input_features_len { return Err(GradientError::InconsistentShape) }
         /* the blocks have to divide the features and there is one gradient per block */
         let mut blocks_len = 0;
         for feature in features.iter() {
@@ -111,13 +110,12 @@ impl<T: BasicOperations<T>> Reduce<T> {
           blocks_len += (shape[0] / self.block_size[0]) * (shape[1] / self.block_size[1]);
         }
         if dlda.len() != blocks_len || dlda_conj.len() != blocks_len { return Err(GradientError::InconsistentShape) }
-        let features_chunks = dlda.len() / features_len;
 
         let mut new_dlda = Vec::new();
         let mut new_dlda_conj = Vec::new();
         /* restore derivatives shape */
-        let mut dlda_feats = dlda.chunks(features_chunks);
-        let mut dlda_conj_feats = dlda_conj.chunks(features_chunks);
+        /* the maps may have different sizes */
+        let mut start = 0;
         for feature in features.iter() {
           let original_shape = feature.get_shape();
           let final_shape = original_shape
@@ -125,14 +123,15 @@ impl<T: BasicOperations<T>> Reduce<T> {
             .zip(self.block_size.iter())
             .map(|(elm, block_dim)| { *elm / *block_dim })
             .collect::<Vec<usize>>();
+          let end = start + final_shape[0] * final_shape[1];
           
-          let dlda_upsampled = dlda_feats.next().unwrap()
+          let dlda_upsampled = dlda[start..end]
             .to_matrix([final_shape[0], final_shape[1]])
             .unwrap()
             .fractional_upsampling(&self.block_size, &self.interp_kernel)
             .unwrap();
 
-          let dlda_conj_upsampled = dlda_conj_feats.next().unwrap()
+          let dlda_conj_upsampled = dlda_conj[start..end]
             .to_matrix([final_shape[0], final_shape[1]])
             .unwrap()
             .fractional_upsampling(&self.block_size, &self.interp_kernel)
@@ -140,6 +139,7 @@ impl<T: BasicOperations<T>> Reduce<T> {
           
           new_dlda.extend(dlda_upsampled.export_body());
           new_dlda_conj.extend(dlda_conj_upsampled.export_body());
+          start = end;
         }
 
         Ok((Vec::new(), Vec::new(), new_dlda, new_dlda_conj))
-- 
2.43.0


From 635339ef9e60d971193807b0b9ca8360dfc2f884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:41:26 +0000
Subject: [PATCH 34/34] fix: export datasets of feature maps and of points
 without inputs

---
 src/dataset/mod.rs | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/dataset/mod.rs b/src/dataset/mod.rs
index 20d9392..a802f93 100644
--- a/src/dataset/mod.rs
+++ b/src/dataset/mod.rs
@@ -26,19 +26,15 @@ impl<T: Display + Copy> Dataset<T, T> {
     let mut file = File::create(name)?;
 
     let (inputs_iter, targets_iter) = self.points_as_iter();
-    let mut string_row_input;
-    let mut string_row_target;
+    let fields = |point: &IOType<T>| match point {
+      IOType::Scalar(vec) => { vec.clone() },
+      IOType::Matrix(maps) => { maps.iter().flat_map(|map| { map.get_body().to_vec() }).collect() }
+    };
 
     for (input, target) in inputs_iter.zip(targets_iter) {
-      let mut input_iter = input.as_slice().into_iter();
-      write!(file, "{}", input_iter.next().unwrap())?;
-      for elm_input in input_iter {
-        string_row_input = format!(",{}", elm_input);
-        write!(file, "{}", string_row_input)?;
-      }
-      for elm_input in target.as_slice().into_iter() {
-        string_row_target = format!(",{}", elm_input);
-        write!(file, "{}", string_row_target)?;
+      for (i, elm) in fields(input).into_iter().chain(fields(target)).enumerate() {
+        if i > 0 { write!(file, ",")?; }
+        write!(file, "{}", elm)?;
       }
 
       writeln!(file, "")?;
-- 
2.43.0

