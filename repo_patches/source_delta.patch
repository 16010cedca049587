From 02d580e689895335f6470cf2f08bc946ab9f04e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:31 +0000
Subject: [PATCH 01/32] fix: implement the backward kernel of negation

Back-propagating through a negated node panicked: "neg_bw_impl" was
called but never registered by the naive device.
---
 prima_undine/src/devices/naive.rs     | 1 +
 prima_undine/src/devices/naive/neg.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/prima_undine/src/devices/naive.rs b/prima_undine/src/devices/naive.rs
index d6514c1..a14b32f 100644
--- a/prima_undine/src/devices/naive.rs
+++ b/prima_undine/src/devices/naive.rs
@@ -138,6 +138,7 @@ impl<'dev> Naive {
         // arithmetic
 
         dev.register_fw_impl("neg_fw_impl", neg::NegFwImpl::new());
+        dev.register_bw_impl("neg_bw_impl", neg::NegBwImpl::new());
 
         dev.register_fw_impl("add_fw_impl", add::AddFwImpl::new());
         dev.register_bw_impl("add_bw_a_impl", add::AddBwAImpl::new());
diff --git a/prima_undine/src/devices/naive/neg.rs b/prima_undine/src/devices/naive/neg.rs
index 85fb32d..d65991b 100644
--- a/prima_undine/src/devices/naive/neg.rs
+++ b/prima_undine/src/devices/naive/neg.rs
@@ -1,4 +1,5 @@
 define_naive_fw_x_impl!(NegFwImpl, |x: f32| -x);
+define_naive_bw_x_impl!(NegBwImpl, |_x: f32, _y: f32, gy: f32| -gy);
 
 #[cfg(test)]
 mod tests {
-- 
2.43.0


From 874bd1fa18a3da6522d751deac31f12b6cbcf01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:15 +0000
Subject: [PATCH 02/32] fix: batch_slice backward calls the batch_slice kernel

It called the backward kernel of slice, with too few arguments, which
panicked.
---
 prima_undine/src/functions/basic/device.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prima_undine/src/functions/basic/device.rs b/prima_undine/src/functions/basic/device.rs
index fee6449..c6bf26f 100644
--- a/prima_undine/src/functions/basic/device.rs
+++ b/prima_undine/src/functions/basic/device.rs
@@ -460,7 +460,7 @@ impl<'dev> BasicDeviceFunctions for Device<'dev> {
         assert!(gx.device() == self);
         let sy = gy.shape;
         assert!(shape_ops::batch_slice(gx.shape, lower, lower + sy.batch()) == sy);
-        self.call_bw_impl("slice_bw_impl", &[], &[], &[gy], &[lower], &[], gx);
+        self.call_bw_impl("batch_slice_bw_impl", &[], &[], &[gy], &[lower], &[], gx);
     }
 
     fn batch_pick_bw(&self, gy: &Tensor, ids: &[u32], gx: &mut Tensor) {
-- 
2.43.0


From a008d6f3eaa9ffc0a58307562b10a450e32fd777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:24 +0000
Subject: [PATCH 03/32] fix: batch_pick backward calls the batch_pick kernel

It called the backward kernel of pick, which takes the first index for a
dimension and writes outside the gradient.
---
 prima_undine/src/functions/basic/device.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prima_undine/src/functions/basic/device.rs b/prima_undine/src/functions/basic/device.rs
index c6bf26f..56dadcd 100644
--- a/prima_undine/src/functions/basic/device.rs
+++ b/prima_undine/src/functions/basic/device.rs
@@ -467,7 +467,7 @@ impl<'dev> BasicDeviceFunctions for Device<'dev> {
         assert!(gy.device() == self);
         assert!(gx.device() == self);
         assert!(shape_ops::batch_pick(gx.shape, ids) == gy.shape);
-        self.call_bw_impl("pick_bw_impl", &[], &[], &[gy], ids, &[], gx);
+        self.call_bw_impl("batch_pick_bw_impl", &[], &[], &[gy], ids, &[], gx);
     }
 }
 
-- 
2.43.0


From 661ac882bc0a44387d7d5ba0c7e9c9014bfe059e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:34 +0000
Subject: [PATCH 04/32] fix: batch_split backward uses every output's own
 gradient

All parts received the gradient of the first output.
---
 prima_undine/src/operators/batch_split.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prima_undine/src/operators/batch_split.rs b/prima_undine/src/operators/batch_split.rs
index 257355e..5680a97 100644
--- a/prima_undine/src/operators/batch_split.rs
+++ b/prima_undine/src/operators/batch_split.rs
@@ -33,7 +33,7 @@ impl<'arg, 'dev> Operator<'arg, 'dev> for BatchSplit<'dev> {
         let skip = total / self.n;
         for i in 0..self.n {
             self.device()
-                .batch_slice_bw(gy[0], i * skip, &mut *gx[0].borrow_mut());
+                .batch_slice_bw(gy[i as usize], i * skip, &mut *gx[0].borrow_mut());
         }
     }
 }
-- 
2.43.0


From 2b4364f0d6e60b04c493199cddba0ff9506c60d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:46 +0000
Subject: [PATCH 05/32] fix: the ELU operator computes ELU instead of PReLU

---
 prima_undine/src/operators/elu.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prima_undine/src/operators/elu.rs b/prima_undine/src/operators/elu.rs
index 1d95284..13a8626 100644
--- a/prima_undine/src/operators/elu.rs
+++ b/prima_undine/src/operators/elu.rs
@@ -1,3 +1,3 @@
 use crate::functions::BasicDeviceFunctions;
 
-define_operator_x!(ELU, prelu_fw, prelu_bw, a, f32);
+define_operator_x!(ELU, elu_fw, elu_bw, a, f32);
-- 
2.43.0


From 7d666d19476286fb04e012958a407191153e8e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:55 +0000
Subject: [PATCH 06/32] fix: sum and logsumexp backward along a dimension
 beyond the depth

Such a dimension has extent one; the forward pass accepts it, the
backward pass panicked.
---
 prima_undine/src/operators/logsumexp.rs | 2 +-
 prima_undine/src/operators/sum.rs       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/prima_undine/src/operators/logsumexp.rs b/prima_undine/src/operators/logsumexp.rs
index 5a14d84..2b0e5f5 100644
--- a/prima_undine/src/operators/logsumexp.rs
+++ b/prima_undine/src/operators/logsumexp.rs
@@ -22,7 +22,7 @@ impl<'arg, 'dev> Operator<'arg, 'dev> for Logsumexp<'dev> {
     }
 
     fn backward(&self, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]) {
-        let size = x[0].shape().dims()[self.dim as usize];
+        let size = x[0].shape()[self.dim];
         *gx[0].borrow_mut() +=
             (x[0] - y[0].broadcast(self.dim, size)).exp() * gy[0].broadcast(self.dim, size);
     }
diff --git a/prima_undine/src/operators/sum.rs b/prima_undine/src/operators/sum.rs
index b61f1e5..58a00c3 100644
--- a/prima_undine/src/operators/sum.rs
+++ b/prima_undine/src/operators/sum.rs
@@ -22,7 +22,7 @@ impl<'arg, 'dev> Operator<'arg, 'dev> for Sum<'dev> {
     }
 
     fn backward(&self, x: &[&Tensor], _y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]) {
-        let size = x[0].shape().dims()[self.dim as usize];
+        let size = x[0].shape()[self.dim];
         *gx[0].borrow_mut() += gy[0].broadcast(self.dim, size);
     }
 }
-- 
2.43.0


From d9ab3eb17bcb0aeecd6b3eb82e843733a661ccfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:27 +0000
Subject: [PATCH 07/32] fix: scalar node operators infer shapes with the scalar
 rule

Combining a scalar node with a non-scalar node panicked on construction,
because the operators required equal dimensions.
---
 prima_undine/src/operators/add.rs    | 2 ++
 prima_undine/src/operators/common.rs | 4 ++--
 prima_undine/src/operators/div.rs    | 3 +++
 prima_undine/src/operators/mul.rs    | 2 ++
 prima_undine/src/operators/powf.rs   | 3 +++
 prima_undine/src/operators/sub.rs    | 3 +++
 6 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/prima_undine/src/operators/add.rs b/prima_undine/src/operators/add.rs
index caa30d6..26624a4 100644
--- a/prima_undine/src/operators/add.rs
+++ b/prima_undine/src/operators/add.rs
@@ -6,6 +6,7 @@ use crate::{Device, Tensor};
 define_operator_ab!(
     Add,
     add_fw,
+    elementwise,
     |device: &Device, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         device.add_bw_a(x[0], x[1], y[0], gy[0], &mut *gx[0].borrow_mut());
         device.add_bw_b(x[0], x[1], y[0], gy[0], &mut *gx[1].borrow_mut());
@@ -17,6 +18,7 @@ define_operator_x!(AddConst, add_const_fw, add_const_bw, k, f32);
 define_operator_ab!(
     AddScalar,
     add_scalar_fw,
+    scalar_op,
     |_device: &Device, _x: &[&Tensor], _y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         *gx[0].borrow_mut() += gy[0];
         *gx[1].borrow_mut() += gy[0].flatten().sum(0);
diff --git a/prima_undine/src/operators/common.rs b/prima_undine/src/operators/common.rs
index 4c6ad14..0533fd4 100644
--- a/prima_undine/src/operators/common.rs
+++ b/prima_undine/src/operators/common.rs
@@ -24,7 +24,7 @@ macro_rules! define_operator_struct {
 }
 
 macro_rules! define_operator_ab {
-    ($name:ident, $fw:ident, $bwfunc:expr) => {
+    ($name:ident, $fw:ident, $sop:ident, $bwfunc:expr) => {
         define_operator_struct!($name);
         impl<'arg, 'dev> crate::Operator<'arg, 'dev> for $name<'dev> {
             fn name(&self) -> String {
@@ -34,7 +34,7 @@ macro_rules! define_operator_ab {
                 self.device
             }
             fn forward_shape(&self, x: &[crate::Shape]) -> Vec<crate::Shape> {
-                vec![crate::shape_ops::elementwise(x[0], x[1])]
+                vec![crate::shape_ops::$sop(x[0], x[1])]
             }
             fn forward(&self, x: &[&crate::Tensor], y: &mut [&mut crate::Tensor<'arg>]) {
                 y[0].replace(self.device.$fw(x[0], x[1]));
diff --git a/prima_undine/src/operators/div.rs b/prima_undine/src/operators/div.rs
index 6e6dc29..58b3022 100644
--- a/prima_undine/src/operators/div.rs
+++ b/prima_undine/src/operators/div.rs
@@ -6,6 +6,7 @@ use crate::{Device, Tensor};
 define_operator_ab!(
     Div,
     div_fw,
+    elementwise,
     |device: &Device, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         device.div_bw_a(x[0], x[1], y[0], gy[0], &mut *gx[0].borrow_mut());
         device.div_bw_b(x[0], x[1], y[0], gy[0], &mut *gx[1].borrow_mut());
@@ -18,6 +19,7 @@ define_operator_x!(DivConstR, div_const_r_fw, div_const_r_bw, k, f32);
 define_operator_ab!(
     DivScalarL,
     div_scalar_l_fw,
+    scalar_op,
     |_device: &Device, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         let ref a = gy[0] / x[0];
         *gx[0].borrow_mut() -= &(a * y[0]);
@@ -28,6 +30,7 @@ define_operator_ab!(
 define_operator_ab!(
     DivScalarR,
     div_scalar_r_fw,
+    scalar_op,
     |_device: &Device, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         let ref a = gy[0] / x[1];
         *gx[0].borrow_mut() += a;
diff --git a/prima_undine/src/operators/mul.rs b/prima_undine/src/operators/mul.rs
index 402c629..9707d2e 100644
--- a/prima_undine/src/operators/mul.rs
+++ b/prima_undine/src/operators/mul.rs
@@ -6,6 +6,7 @@ use crate::{Device, Tensor};
 define_operator_ab!(
     Mul,
     mul_fw,
+    elementwise,
     |device: &Device, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         device.mul_bw_a(x[0], x[1], y[0], gy[0], &mut *gx[0].borrow_mut());
         device.mul_bw_b(x[0], x[1], y[0], gy[0], &mut *gx[1].borrow_mut());
@@ -17,6 +18,7 @@ define_operator_x!(MulConst, mul_const_fw, mul_const_bw, k, f32);
 define_operator_ab!(
     MulScalar,
     mul_scalar_fw,
+    scalar_op,
     |_device: &Device, x: &[&Tensor], _y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         *gx[0].borrow_mut() += x[1] * gy[0];
         *gx[1].borrow_mut() += (x[0] * gy[0]).flatten().sum(0);
diff --git a/prima_undine/src/operators/powf.rs b/prima_undine/src/operators/powf.rs
index e826677..719a54e 100644
--- a/prima_undine/src/operators/powf.rs
+++ b/prima_undine/src/operators/powf.rs
@@ -6,6 +6,7 @@ use crate::{Device, Tensor};
 define_operator_ab!(
     Pow,
     powf_fw,
+    elementwise,
     |device: &Device, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         device.powf_bw_a(x[0], x[1], y[0], gy[0], &mut *gx[0].borrow_mut());
         device.powf_bw_b(x[0], x[1], y[0], gy[0], &mut *gx[1].borrow_mut());
@@ -18,6 +19,7 @@ define_operator_x!(PowConstR, powf_const_r_fw, powf_const_r_bw, k, f32);
 define_operator_ab!(
     PowScalarL,
     powf_scalar_l_fw,
+    scalar_op,
     |_device: &Device, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         let a = gy[0] * y[0];
         *gx[0].borrow_mut() += &a * x[1].ln();
@@ -28,6 +30,7 @@ define_operator_ab!(
 define_operator_ab!(
     PowScalarR,
     powf_scalar_r_fw,
+    scalar_op,
     |_device: &Device, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         let a = gy[0] * y[0];
         *gx[0].borrow_mut() += &a * x[1] / x[0];
diff --git a/prima_undine/src/operators/sub.rs b/prima_undine/src/operators/sub.rs
index ea48903..60883cf 100644
--- a/prima_undine/src/operators/sub.rs
+++ b/prima_undine/src/operators/sub.rs
@@ -6,6 +6,7 @@ use crate::{Device, Tensor};
 define_operator_ab!(
     Sub,
     sub_fw,
+    elementwise,
     |device: &Device, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         device.sub_bw_a(x[0], x[1], y[0], gy[0], &mut *gx[0].borrow_mut());
         device.sub_bw_b(x[0], x[1], y[0], gy[0], &mut *gx[1].borrow_mut());
@@ -18,6 +19,7 @@ define_operator_x!(SubConstR, sub_const_r_fw, sub_const_r_bw, k, f32);
 define_operator_ab!(
     SubScalarL,
     sub_scalar_l_fw,
+    scalar_op,
     |_device: &Device, _x: &[&Tensor], _y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         *gx[0].borrow_mut() -= gy[0];
         *gx[1].borrow_mut() += gy[0].flatten().sum(0);
@@ -27,6 +29,7 @@ define_operator_ab!(
 define_operator_ab!(
     SubScalarR,
     sub_scalar_r_fw,
+    scalar_op,
     |_device: &Device, _x: &[&Tensor], _y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
         *gx[0].borrow_mut() += gy[0];
         *gx[1].borrow_mut() -= gy[0].flatten().sum(0);
-- 
2.43.0


From d353f7ba28bd6cf61ad5bed9baf271a6bb30f1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:03 +0000
Subject: [PATCH 08/32] fix: tensor pow accepts a scalar base or exponent like
 node pow

The other binary operations and the node version dispatch to the scalar
kernels; pow on tensors panicked.
---
 prima_undine/src/functions/basic/tensor.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/prima_undine/src/functions/basic/tensor.rs b/prima_undine/src/functions/basic/tensor.rs
index dc0dc7e..a46a5ae 100644
--- a/prima_undine/src/functions/basic/tensor.rs
+++ b/prima_undine/src/functions/basic/tensor.rs
@@ -35,7 +35,14 @@ impl<'arg, 'dev> BasicFunctions for Tensor<'dev> {
     // basic
 
     fn pow<T: Borrow<Self>>(&self, k: T) -> Self {
-        self.device().powf_fw(self, k.borrow())
+        let k = k.borrow();
+        if self.shape.is_scalar() {
+            self.device().powf_scalar_l_fw(k, self)
+        } else if k.shape.is_scalar() {
+            self.device().powf_scalar_r_fw(self, k)
+        } else {
+            self.device().powf_fw(self, k)
+        }
     }
 
     fn powf(&self, k: f32) -> Self {
-- 
2.43.0


From 974ac30e07a9d468c1ebf36f10b11037d2671bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:41 +0000
Subject: [PATCH 09/32] fix: backward handles unused outputs and repeated
 passes

The start of the pass seeded every output of a multi-output operation, an
unused output of a split had no gradient at all (null handle), and a
second backward over the same nodes panicked or propagated the gradients
of the previous pass once more.
---
 prima_undine/src/graph.rs | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/prima_undine/src/graph.rs b/prima_undine/src/graph.rs
index 1f26f8f..65b9abd 100644
--- a/prima_undine/src/graph.rs
+++ b/prima_undine/src/graph.rs
@@ -128,19 +128,21 @@ fn forward<'arg, 'dev>(op_info: Rc<OperatorInfo<'arg, 'dev>>) {
     }
 }
 
-fn backward<'arg, 'dev>(op_info: Rc<OperatorInfo<'arg, 'dev>>) {
+fn backward<'arg, 'dev>(op_info: Rc<OperatorInfo<'arg, 'dev>>, vid: usize) {
     let mut reached = HashSet::new();
     let mut queue = VecDeque::new();
     let mut backward_req = BinaryHeap::new();
-    {
+    queue.push_back(Rc::clone(&op_info));
+    while let Some(op_info) = queue.pop_front() {
+        // Every pass starts from zero gradients: outputs that are not used get no contribution,
+        // and the contributions of previous passes must not be propagated again.
         for ret in &op_info.rets {
             let mut grad = ret.gradient.borrow_mut();
-            grad.alloc();
-            grad.reset(1.);
+            if !grad.valid() {
+                grad.alloc();
+            }
+            grad.reset(0.);
         }
-    }
-    queue.push_back(op_info);
-    while let Some(op_info) = queue.pop_front() {
         for arg in &op_info.args {
             let ptr = &*arg.op as *const OperatorInfo<'arg, 'dev>;
             if !reached.contains(&ptr) {
@@ -150,6 +152,7 @@ fn backward<'arg, 'dev>(op_info: Rc<OperatorInfo<'arg, 'dev>>) {
         }
         backward_req.push(OperatorInfoCmp(op_info));
     }
+    op_info.rets[vid].gradient.borrow_mut().reset(1.);
     while let Some(OperatorInfoCmp(op_info)) = backward_req.pop() {
         let xs = op_info
             .args
@@ -169,14 +172,7 @@ fn backward<'arg, 'dev>(op_info: Rc<OperatorInfo<'arg, 'dev>>) {
         let gxs = op_info
             .args
             .iter()
-            .map(|data| {
-                let mut gx = data.op.rets[data.vid].gradient.borrow_mut();
-                if !gx.valid() {
-                    gx.alloc();
-                    gx.reset(0.);
-                }
-                &data.op.rets[data.vid].gradient
-            })
+            .map(|data| &data.op.rets[data.vid].gradient)
             .collect::<Vec<&RefCell<Tensor<'arg>>>>();
         let xs_ref = xs.iter().map(|x| &**x).collect::<Vec<&Tensor<'arg>>>();
         let ys_ref = ys.iter().map(|y| &**y).collect::<Vec<&Tensor<'arg>>>();
@@ -218,7 +214,7 @@ impl<'arg, 'dev> Node<'arg, 'dev> {
 
     pub fn backward(&self) {
         self.forward();
-        backward(Rc::clone(&self.data.op));
+        backward(Rc::clone(&self.data.op), self.data.vid);
     }
 }
 
-- 
2.43.0


From 6da73c9d42371d9d8fc7c2706c47be93962bf5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:15 +0000
Subject: [PATCH 10/32] fix: dropping a deep graph does not overflow the stack

Operations held their inputs through nested references that were dropped
recursively; a recurrence of a few ten thousand operations aborted the
process when its last node was dropped.
---
 prima_undine/src/graph.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/prima_undine/src/graph.rs b/prima_undine/src/graph.rs
index 65b9abd..57458e9 100644
--- a/prima_undine/src/graph.rs
+++ b/prima_undine/src/graph.rs
@@ -2,6 +2,7 @@ use std::cell::{Cell, Ref, RefCell, RefMut};
 use std::cmp;
 use std::cmp::{Ordering, Reverse};
 use std::collections::{BinaryHeap, HashSet, VecDeque};
+use std::mem;
 use std::rc::Rc;
 
 use crate::operators as op;
@@ -89,6 +90,19 @@ impl<'arg, 'dev> OperatorInfo<'arg, 'dev> {
     }
 }
 
+impl<'arg, 'dev> Drop for OperatorInfo<'arg, 'dev> {
+    fn drop(&mut self) {
+        // Releases the ancestors one by one. Dropping the references recursively would overflow the
+        // stack if the graph is deep.
+        let mut args = mem::replace(&mut self.args, vec![]);
+        while let Some(arg) = args.pop() {
+            if let Ok(mut op_info) = Rc::try_unwrap(arg.op) {
+                args.append(&mut op_info.args);
+            }
+        }
+    }
+}
+
 fn forward<'arg, 'dev>(op_info: Rc<OperatorInfo<'arg, 'dev>>) {
     let mut reached = HashSet::new();
     let mut queue = VecDeque::new();
-- 
2.43.0


From 4183223394f074138a917089b0e738f8738a28d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:57 +0000
Subject: [PATCH 11/32] fix: in-place addition and subtraction check the
 operands' shapes

With a source larger than the destination the kernels wrote beyond the
end of the destination's buffer.
---
 prima_undine/src/functions/arithmetic/device.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/prima_undine/src/functions/arithmetic/device.rs b/prima_undine/src/functions/arithmetic/device.rs
index 104f83a..5d223c1 100644
--- a/prima_undine/src/functions/arithmetic/device.rs
+++ b/prima_undine/src/functions/arithmetic/device.rs
@@ -47,12 +47,14 @@ impl<'dev> ArithmeticDeviceFunctions for Device<'dev> {
     fn add_assign(&self, x: &Tensor, y: &mut Tensor) {
         assert!(x.device() == self);
         assert!(y.device() == self);
+        assert!(x.shape.has_same_dims(y.shape) && x.shape.has_compatible_batch(y.shape));
         self.call_fw_impl("add_assign_impl", &[x], &[], &[], &mut [y]);
     }
 
     fn sub_assign(&self, x: &Tensor, y: &mut Tensor) {
         assert!(x.device() == self);
         assert!(y.device() == self);
+        assert!(x.shape.has_same_dims(y.shape) && x.shape.has_compatible_batch(y.shape));
         self.call_fw_impl("sub_assign_impl", &[x], &[], &[], &mut [y]);
     }
 
-- 
2.43.0


From 2528b2db905cefebef93171b05988cb6457c3ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:26 +0000
Subject: [PATCH 12/32] fix: shapes refuse sizes that do not fit the size type

Volume, size and concatenated extents wrapped around in release builds,
so that small buffers were allocated for large shapes and then written
out of bounds.
---
 prima_undine/src/shape.rs     | 13 +++++++++++--
 prima_undine/src/shape_ops.rs |  4 ++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/prima_undine/src/shape.rs b/prima_undine/src/shape.rs
index 73ba745..8c85d81 100644
--- a/prima_undine/src/shape.rs
+++ b/prima_undine/src/shape.rs
@@ -7,6 +7,11 @@ use serde::{Deserialize, Deserializer, Serialize, Serializer};
 
 const MAX_DEPTH: u32 = 8;
 
+// Sizes are used to allocate and address memory, so that they must not wrap around.
+fn checked_mul(a: u32, b: u32) -> u32 {
+    a.checked_mul(b).expect("the shape is too large")
+}
+
 #[derive(Clone, Copy, PartialEq, Eq)]
 pub struct Shape {
     dims: [u32; MAX_DEPTH as usize],
@@ -28,8 +33,9 @@ impl Shape {
             if dims[i] != 1 {
                 depth = i as u32 + 1;
             }
-            volume *= dims[i];
+            volume = checked_mul(volume, dims[i]);
         }
+        checked_mul(volume, batch);
         Shape {
             dims: dims_filled,
             batch: batch,
@@ -129,6 +135,8 @@ impl Shape {
     pub fn update_dim(&mut self, dim: u32, m: u32) {
         assert!(dim < MAX_DEPTH);
         assert!(m != 0);
+        let volume = checked_mul(self.volume / self[dim], m);
+        checked_mul(volume, self.batch);
         if dim >= self.depth {
             let new_depth = dim + 1;
             for i in self.depth..new_depth {
@@ -136,7 +144,7 @@ impl Shape {
             }
             self.depth = new_depth;
         }
-        self.volume = self.volume / self.dims[dim as usize] * m;
+        self.volume = volume;
         self.dims[dim as usize] = m;
         while self.depth > 0 && self.dims[self.depth as usize - 1] == 1 {
             self.depth -= 1;
@@ -145,6 +153,7 @@ impl Shape {
 
     pub fn update_batch(&mut self, batch: u32) {
         assert!(batch >= 1);
+        checked_mul(self.volume, batch);
         self.batch = batch;
     }
 }
diff --git a/prima_undine/src/shape_ops.rs b/prima_undine/src/shape_ops.rs
index a2ffced..2c6d0be 100644
--- a/prima_undine/src/shape_ops.rs
+++ b/prima_undine/src/shape_ops.rs
@@ -53,7 +53,7 @@ pub fn concat(xs: &[Shape], dim: u32) -> Shape {
         if !s0.has_batch() {
             s0.update_batch(s.batch());
         }
-        sum += s[dim];
+        sum = sum.checked_add(s[dim]).expect("the shape is too large");
     }
     s0.resize_dim(dim, sum)
 }
@@ -80,7 +80,7 @@ pub fn batch_concat(xs: &[Shape]) -> Shape {
     for i in 1..xs.len() {
         let s = xs[i];
         assert!(s0.has_same_dims(s));
-        sum += s.batch();
+        sum = sum.checked_add(s.batch()).expect("the shape is too large");
     }
     s0.resize_batch(sum)
 }
-- 
2.43.0


From b219b30355abf1f7a3cce6a0d9a5f1a7f69b8767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:37 +0000
Subject: [PATCH 13/32] fix: a failing backend allocation does not break the
 device

The pool was locked during the allocation; a panic of the backend
poisoned the lock, so that every later allocation panicked and every
later drop of a tensor aborted the process.
---
 prima_undine/src/memory_pool.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/prima_undine/src/memory_pool.rs b/prima_undine/src/memory_pool.rs
index ca7ba27..327997b 100644
--- a/prima_undine/src/memory_pool.rs
+++ b/prima_undine/src/memory_pool.rs
@@ -54,7 +54,9 @@ impl<'dev> MemoryPool<'dev> {
         let shift = calculate_shifts(size) as usize;
         assert!(shift <= MAX_BITS - 1);
         let mem_size = 1 << shift;
-        let handle = if let Some(handle) = self.pool.lock().unwrap()[shift].pop() {
+        // The lock must not be held while calling the backend, which can fail.
+        let recycled = self.pool.lock().unwrap()[shift].pop();
+        let handle = if let Some(handle) = recycled {
             handle
         } else {
             self.imp.new_handle(mem_size)
-- 
2.43.0


From 1db92e813aa903acddf68e0371ee1795bb28be56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:48 +0000
Subject: [PATCH 14/32] fix: refusing to release an unknown buffer does not
 break the device

The panic happened with the map of live buffers locked and poisoned it.
---
 prima_undine/src/memory_pool.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prima_undine/src/memory_pool.rs b/prima_undine/src/memory_pool.rs
index 327997b..f43948b 100644
--- a/prima_undine/src/memory_pool.rs
+++ b/prima_undine/src/memory_pool.rs
@@ -73,8 +73,8 @@ impl<'dev> MemoryPool<'dev> {
             .mem_shift
             .lock()
             .unwrap()
-            .remove(&(handle.load(Ordering::Acquire) as usize))
-            .unwrap();
+            .remove(&(handle.load(Ordering::Acquire) as usize));
+        let shift = shift.unwrap();
         self.pool.lock().unwrap()[shift].push(AtomicPtr::new(handle.load(Ordering::Acquire)));
     }
 }
-- 
2.43.0


From 554c9a4b7a61beb5054be5e55b07b238cc308b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:15 +0000
Subject: [PATCH 15/32] fix: a tensor cannot take over the buffer of a view

Replacing a tensor by a view made both the tensor and the referent own
the buffer, which was then released twice and handed to two tensors.
---
 prima_undine/src/tensor.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/prima_undine/src/tensor.rs b/prima_undine/src/tensor.rs
index 70d3d1a..5f5e789 100644
--- a/prima_undine/src/tensor.rs
+++ b/prima_undine/src/tensor.rs
@@ -72,6 +72,7 @@ impl<'dev> Tensor<'dev> {
         assert!(!self.valid());
         assert_eq!(self.shape, other.shape);
         assert!(self.host_values.is_none());
+        assert!(other.reference.is_none());
         self.handle
             .store(other.handle.load(Ordering::Acquire), Ordering::Release);
         other.handle.store(ptr::null_mut(), Ordering::Release);
-- 
2.43.0


From 6e28e53e60611fa8360ff7540f33fffff4ce52df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:27 +0000
Subject: [PATCH 16/32] fix: a view needs an allocated referent

Otherwise the view could be allocated later and its buffer was never
released.
---
 prima_undine/src/tensor.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/prima_undine/src/tensor.rs b/prima_undine/src/tensor.rs
index 5f5e789..d19425d 100644
--- a/prima_undine/src/tensor.rs
+++ b/prima_undine/src/tensor.rs
@@ -60,6 +60,7 @@ impl<'dev> Tensor<'dev> {
     pub fn refer(&mut self, other: &'dev Tensor<'dev>) {
         assert_eq!(self.device, other.device);
         assert!(!self.valid());
+        assert!(other.valid());
         assert_eq!(self.shape, other.shape);
         assert!(self.host_values.is_none());
         self.handle
-- 
2.43.0


From df1d787191ba16355bd2c28f774b4faa659546f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:42 +0000
Subject: [PATCH 17/32] fix: kernels never write through a view

In-place updates of a view changed the referent behind a shared borrow,
which is a data race if other threads read the referent.
---
 prima_undine/src/device.rs | 3 +++
 prima_undine/src/tensor.rs | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/prima_undine/src/device.rs b/prima_undine/src/device.rs
index c023879..76400e0 100644
--- a/prima_undine/src/device.rs
+++ b/prima_undine/src/device.rs
@@ -59,6 +59,8 @@ impl<'dev> Device<'dev> {
         f32data: &[f32],
         y: &mut [&mut Tensor],
     ) {
+        // A view shares the buffer of a tensor that is borrowed immutably.
+        assert!(y.iter().all(|y| !y.is_view()));
         if let Some(fw) = self.fw_impl.get(name) {
             fw.call(xs, u32data, f32data, y);
         } else {
@@ -106,6 +108,7 @@ impl<'dev> Device<'dev> {
         f32data: &[f32],
         gx: &mut Tensor,
     ) {
+        assert!(!gx.is_view());
         if let Some(bw) = self.bw_impl.get(name) {
             bw.call(xs, ys, gys, u32data, f32data, gx);
         } else {
diff --git a/prima_undine/src/tensor.rs b/prima_undine/src/tensor.rs
index d19425d..6649ec5 100644
--- a/prima_undine/src/tensor.rs
+++ b/prima_undine/src/tensor.rs
@@ -57,6 +57,10 @@ impl<'dev> Tensor<'dev> {
         !self.handle.load(Ordering::Acquire).is_null()
     }
 
+    pub(crate) fn is_view(&self) -> bool {
+        self.reference.is_some()
+    }
+
     pub fn refer(&mut self, other: &'dev Tensor<'dev>) {
         assert_eq!(self.device, other.device);
         assert!(!self.valid());
-- 
2.43.0


From fe3e9df947c66631eece76d478beef5f8b394ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:06 +0000
Subject: [PATCH 18/32] fix: initialising and reading tensors checks their
 device

A kernel of one backend was called with a buffer of another one.
---
 prima_undine/src/device.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/prima_undine/src/device.rs b/prima_undine/src/device.rs
index 76400e0..d2f1b8e 100644
--- a/prima_undine/src/device.rs
+++ b/prima_undine/src/device.rs
@@ -163,15 +163,18 @@ impl<'dev> Device<'dev> {
     }
 
     pub fn reset_tensor(&self, x: &mut Tensor, k: f32) {
+        assert!(x.device() == self);
         self.call_fw_impl("reset_tensor_impl", &[], &[], &[k], &mut [x]);
     }
 
     pub fn reset_tensor_by_slice(&self, x: &mut Tensor, values: &[f32]) {
+        assert!(x.device() == self);
         assert!(x.shape.size() as usize == values.len());
         self.call_fw_impl("reset_tensor_by_slice_impl", &[], &[], values, &mut [x]);
     }
 
     pub fn reset_tensor_by_tensor(&self, x: &mut Tensor, source: &Tensor) {
+        assert!(x.device() == self);
         assert!(x.valid());
         assert!(source.valid());
         assert!(x.shape.size() == source.shape.size());
@@ -179,12 +182,14 @@ impl<'dev> Device<'dev> {
     }
 
     pub fn tensor_to_vector(&self, x: &Tensor) -> Vec<f32> {
+        assert!(x.device() == self);
         let mut ret = vec![0.; x.shape.size() as usize];
         self.call_fw_f32_impl("tensor_to_vector_impl", &[x], &[], &[], ret.as_mut_slice());
         ret
     }
 
     pub fn tensor_to_float(&self, x: &Tensor) -> f32 {
+        assert!(x.device() == self);
         assert!(x.shape.size() == 1);
         let mut ret = [0.];
         self.call_fw_f32_impl("tensor_to_vector_impl", &[x], &[], &[], &mut ret);
-- 
2.43.0


From ebe844ff5dcc1dffa769fd87f5cddffdeffe0922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:25 +0000
Subject: [PATCH 19/32] fix: refused random parameters do not break the random
 generator

The panic poisoned the generator's lock, so that every later random
operation of the device panicked, too.
---
 prima_undine/src/devices/naive/random.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/prima_undine/src/devices/naive/random.rs b/prima_undine/src/devices/naive/random.rs
index c7e2fe4..809ebf8 100644
--- a/prima_undine/src/devices/naive/random.rs
+++ b/prima_undine/src/devices/naive/random.rs
@@ -26,7 +26,7 @@ impl FunctionFwImpl for RandomBernoulliImpl {
             let mut yslice = slice::from_raw_parts_mut(py, y.shape.size() as usize);
             self.randomizer
                 .lock()
-                .unwrap()
+                .unwrap_or_else(|e| e.into_inner())
                 .fill_bernoulli(p, &mut yslice)
         }
     }
@@ -54,7 +54,7 @@ impl FunctionFwImpl for RandomNormalImpl {
             let mut yslice = slice::from_raw_parts_mut(py, y.shape.size() as usize);
             self.randomizer
                 .lock()
-                .unwrap()
+                .unwrap_or_else(|e| e.into_inner())
                 .fill_normal(mean, sd, &mut yslice)
         }
     }
@@ -82,7 +82,7 @@ impl FunctionFwImpl for RandomUniformImpl {
             let mut yslice = slice::from_raw_parts_mut(py, y.shape.size() as usize);
             self.randomizer
                 .lock()
-                .unwrap()
+                .unwrap_or_else(|e| e.into_inner())
                 .fill_uniform(lower, upper, &mut yslice)
         }
     }
-- 
2.43.0


From 3334cb7a4ba6e33638ebd21528033837d8fee8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:35 +0000
Subject: [PATCH 20/32] fix: triangular matrices with an offset near the
 integer limit

The index sum wrapped around and kept elements that must be zero.
---
 prima_undine/src/devices/naive/triangular_l.rs | 2 +-
 prima_undine/src/devices/naive/triangular_u.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/prima_undine/src/devices/naive/triangular_l.rs b/prima_undine/src/devices/naive/triangular_l.rs
index ad7d0e5..c3cd93d 100644
--- a/prima_undine/src/devices/naive/triangular_l.rs
+++ b/prima_undine/src/devices/naive/triangular_l.rs
@@ -17,7 +17,7 @@ impl FunctionFwImpl for TriangularLFwImpl {
             for _ in 0..bs {
                 for j in 0..size {
                     for i in 0..size {
-                        *py.add(p) = if i >= j + k { *px.add(p) } else { 0. };
+                        *py.add(p) = if i >= j.saturating_add(k) { *px.add(p) } else { 0. };
                         p += 1;
                     }
                 }
diff --git a/prima_undine/src/devices/naive/triangular_u.rs b/prima_undine/src/devices/naive/triangular_u.rs
index ba5ad0f..77e1aba 100644
--- a/prima_undine/src/devices/naive/triangular_u.rs
+++ b/prima_undine/src/devices/naive/triangular_u.rs
@@ -17,7 +17,7 @@ impl FunctionFwImpl for TriangularUFwImpl {
             for _ in 0..bs {
                 for j in 0..size {
                     for i in 0..size {
-                        *py.add(p) = if j >= i + k { *px.add(p) } else { 0. };
+                        *py.add(p) = if j >= i.saturating_add(k) { *px.add(p) } else { 0. };
                         p += 1;
                     }
                 }
-- 
2.43.0


From b96581a12dc43215fce0ec3dbf4a78cc392a4366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:46 +0000
Subject: [PATCH 21/32] fix: an operation whose evaluation failed is not
 considered evaluated

After a caught panic, e.g. of the backend's allocation, evaluating the
node again skipped the operation and panicked for the missing value.
---
 prima_undine/src/graph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prima_undine/src/graph.rs b/prima_undine/src/graph.rs
index 57458e9..86b614c 100644
--- a/prima_undine/src/graph.rs
+++ b/prima_undine/src/graph.rs
@@ -122,7 +122,6 @@ fn forward<'arg, 'dev>(op_info: Rc<OperatorInfo<'arg, 'dev>>) {
         if op_info.forwarded.get() {
             continue;
         }
-        op_info.forwarded.set(true);
         let xs = op_info
             .args
             .iter()
@@ -139,6 +138,7 @@ fn forward<'arg, 'dev>(op_info: Rc<OperatorInfo<'arg, 'dev>>) {
             .map(|y| &mut **y)
             .collect::<Vec<&mut Tensor<'arg>>>();
         op_info.operator.forward(&xs_ref, &mut ys_ref);
+        op_info.forwarded.set(true);
     }
 }
 
-- 
2.43.0


From 32d7f67cc4ef6098a5802a4c47b632591011baf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:09 +0000
Subject: [PATCH 22/32] fix: deserialising an invalid shape returns an error

It panicked for zero extents, a zero batch, too many dimensions and sizes
that do not fit the size type.
---
 prima_undine/src/shape.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/prima_undine/src/shape.rs b/prima_undine/src/shape.rs
index 8c85d81..773cc6a 100644
--- a/prima_undine/src/shape.rs
+++ b/prima_undine/src/shape.rs
@@ -2,6 +2,7 @@ use std::cmp;
 use std::fmt;
 use std::ops::Index;
 
+use serde::de::Error;
 use serde::ser::SerializeStruct;
 use serde::{Deserialize, Deserializer, Serialize, Serializer};
 
@@ -187,6 +188,13 @@ impl<'de> Deserialize<'de> for Shape {
         D: Deserializer<'de>,
     {
         let s: ShapeSerde = Deserialize::deserialize(deserializer)?;
+        let size = s
+            .dims
+            .iter()
+            .fold(Some(s.batch), |size, &d| size.and_then(|x| x.checked_mul(d)));
+        if s.dims.len() > MAX_DEPTH as usize || size.unwrap_or(0) == 0 {
+            return Err(D::Error::custom("invalid shape"));
+        }
         Ok(Shape::new(&s.dims, s.batch))
     }
 }
-- 
2.43.0


From a8670d8f082a7543b99b8830c5f33f41a6902843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:19 +0000
Subject: [PATCH 23/32] fix: deserialising a tensor checks the number of values

A tensor whose values do not fit its shape was accepted and failed only
when it was moved to a device, losing the values.
---
 prima_undine/src/tensor.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/prima_undine/src/tensor.rs b/prima_undine/src/tensor.rs
index 6649ec5..fc4a722 100644
--- a/prima_undine/src/tensor.rs
+++ b/prima_undine/src/tensor.rs
@@ -2,6 +2,7 @@ use std::ffi::c_void;
 use std::ptr;
 use std::sync::atomic::{AtomicPtr, Ordering};
 
+use serde::de::Error;
 use serde::ser::SerializeStruct;
 use serde::{Deserialize, Deserializer, Serialize, Serializer};
 
@@ -121,6 +122,12 @@ impl<'de, 'dev> Deserialize<'de> for Tensor<'dev> {
         D: Deserializer<'de>,
     {
         let t: TensorSerde = Deserialize::deserialize(deserializer)?;
+        if t.values.len() != t.shape.size() as usize {
+            return Err(D::Error::invalid_length(
+                t.values.len(),
+                &"as many values as the size of the shape",
+            ));
+        }
         Ok(Tensor::new_host_tensor(t.shape, t.values))
     }
 }
-- 
2.43.0


From 4c4b606e796242937c110a328d214acaad8f5d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:29 +0000
Subject: [PATCH 24/32] fix: tensors that were not moved to a device yet can be
 serialised

Saving a freshly loaded tensor, parameter or model panicked.
---
 prima_undine/src/tensor.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/prima_undine/src/tensor.rs b/prima_undine/src/tensor.rs
index fc4a722..3233dcd 100644
--- a/prima_undine/src/tensor.rs
+++ b/prima_undine/src/tensor.rs
@@ -139,7 +139,10 @@ impl<'dev> Serialize for Tensor<'dev> {
     {
         let mut s = serializer.serialize_struct("Tensor", 2)?;
         s.serialize_field("shape", &self.shape)?;
-        s.serialize_field("values", &self.device().tensor_to_vector(self))?;
+        match &self.host_values {
+            Some(values) => s.serialize_field("values", values)?,
+            None => s.serialize_field("values", &self.device().tensor_to_vector(self))?,
+        }
         s.end()
     }
 }
-- 
2.43.0


From 349bf05a0d041ecec92944355c66ecf773fc363c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:22 +0000
Subject: [PATCH 25/32] verification hooks: exact buffers and kernel names (cfg
 undine_verif)

Compiled only with RUSTFLAGS="--cfg undine_verif".
---
 prima_undine/src/device.rs      | 17 +++++++++++++++++
 prima_undine/src/memory_pool.rs | 30 ++++++++++++++++++++++++++++++
 2 files changed, 47 insertions(+)

diff --git a/prima_undine/src/device.rs b/prima_undine/src/device.rs
index d2f1b8e..53cbf16 100644
--- a/prima_undine/src/device.rs
+++ b/prima_undine/src/device.rs
@@ -116,6 +116,23 @@ impl<'dev> Device<'dev> {
         }
     }
 
+    /// Verification hook: names of the registered kernels (fw, fw_u32, fw_f32, bw).
+    #[cfg(undine_verif)]
+    pub fn verif_kernel_names(&self) -> [Vec<String>; 4] {
+        [
+            self.fw_impl.keys().cloned().collect(),
+            self.fw_u32_impl.keys().cloned().collect(),
+            self.fw_f32_impl.keys().cloned().collect(),
+            self.bw_impl.keys().cloned().collect(),
+        ]
+    }
+
+    /// Verification hook: see `memory_pool::VERIF_EXACT`.
+    #[cfg(undine_verif)]
+    pub fn verif_set_exact_buffers(exact: bool) {
+        crate::memory_pool::VERIF_EXACT.store(exact, std::sync::atomic::Ordering::SeqCst);
+    }
+
     pub fn identifier(&self) -> String {
         self.imp.identifier()
     }
diff --git a/prima_undine/src/memory_pool.rs b/prima_undine/src/memory_pool.rs
index f43948b..b10212f 100644
--- a/prima_undine/src/memory_pool.rs
+++ b/prima_undine/src/memory_pool.rs
@@ -29,6 +29,13 @@ fn calculate_shifts(x: u32) -> u32 {
     return b - (1u32 << (b - 1) == x) as u32;
 }
 
+/// Verification hook: with exact buffers, every buffer is obtained from the backend with exactly the
+/// requested size and returned to it as soon as it is released, so that memory checkers see every
+/// access outside of a live buffer.
+#[cfg(undine_verif)]
+pub(crate) static VERIF_EXACT: std::sync::atomic::AtomicBool =
+    std::sync::atomic::AtomicBool::new(false);
+
 pub struct MemoryPool<'dev>
 where
     Self: Send + Sync,
@@ -36,6 +43,8 @@ where
     imp: Arc<Box<dyn DeviceImpl + 'dev>>,
     pool: Mutex<Vec<Vec<AtomicPtr<c_void>>>>,
     mem_shift: Mutex<HashMap<usize, usize>>,
+    #[cfg(undine_verif)]
+    verif_exact: Mutex<std::collections::HashSet<usize>>,
 }
 
 impl<'dev> MemoryPool<'dev> {
@@ -44,11 +53,24 @@ impl<'dev> MemoryPool<'dev> {
             imp: imp,
             pool: Mutex::new((0..MAX_BITS).map(|_| vec![]).collect()),
             mem_shift: Mutex::new(HashMap::new()),
+            #[cfg(undine_verif)]
+            verif_exact: Mutex::new(std::collections::HashSet::new()),
         }
     }
 
     pub fn new_handle(&self, size: u32) -> AtomicPtr<c_void> {
         assert!(size != 0);
+        #[cfg(undine_verif)]
+        {
+            if VERIF_EXACT.load(Ordering::SeqCst) {
+                let handle = self.imp.new_handle(size);
+                self.verif_exact
+                    .lock()
+                    .unwrap()
+                    .insert(handle.load(Ordering::Acquire) as usize);
+                return handle;
+            }
+        }
         const MINIMUM_SIZE: u32 = 64;
         let size = cmp::max(size, MINIMUM_SIZE);
         let shift = calculate_shifts(size) as usize;
@@ -69,6 +91,14 @@ impl<'dev> MemoryPool<'dev> {
     }
 
     pub fn drop_handle(&self, handle: &AtomicPtr<c_void>) {
+        #[cfg(undine_verif)]
+        {
+            let ptr = handle.load(Ordering::Acquire) as usize;
+            if self.verif_exact.lock().unwrap().remove(&ptr) {
+                self.imp.drop_handle(handle);
+                return;
+            }
+        }
         let shift = self
             .mem_shift
             .lock()
-- 
2.43.0


From 9fc351970a0b5f122cbe1dc28cf2bc5e39cfccd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:14 +0000
Subject: [PATCH 26/32] fix: softmax cross entropy of tensors requires targets
 of the same dimensions

---
 prima_undine/src/functions/basic/tensor.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/prima_undine/src/functions/basic/tensor.rs b/prima_undine/src/functions/basic/tensor.rs
index a46a5ae..6d96669 100644
--- a/prima_undine/src/functions/basic/tensor.rs
+++ b/prima_undine/src/functions/basic/tensor.rs
@@ -128,7 +128,9 @@ impl<'arg, 'dev> BasicFunctions for Tensor<'dev> {
     }
 
     fn softmax_cross_entropy<T: Borrow<Self>>(&self, t: T, dim: u32) -> Self {
-        -(t.borrow() * self.ln_softmax(dim)).sum(dim)
+        let t = t.borrow();
+        assert!(self.shape.has_same_dims(t.shape));
+        -(t * self.ln_softmax(dim)).sum(dim)
     }
 
     fn sparse_softmax_cross_entropy(&self, ids: &[u32], dim: u32) -> Self {
-- 
2.43.0


From f3474f15076874cbf2ce5faae26f4cac2335071d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:48 +0000
Subject: [PATCH 27/32] fix: copying a tensor requires a source on the same
 device

---
 prima_undine/src/device.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/prima_undine/src/device.rs b/prima_undine/src/device.rs
index 53cbf16..362fdbb 100644
--- a/prima_undine/src/device.rs
+++ b/prima_undine/src/device.rs
@@ -192,6 +192,7 @@ impl<'dev> Device<'dev> {
 
     pub fn reset_tensor_by_tensor(&self, x: &mut Tensor, source: &Tensor) {
         assert!(x.device() == self);
+        assert!(source.device() == self);
         assert!(x.valid());
         assert!(source.valid());
         assert!(x.shape.size() == source.shape.size());
-- 
2.43.0


From 594c327d18534a45fb8e518d0f681763b8176774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:48 +0000
Subject: [PATCH 28/32] fix: deriving models with generic parameters in any
 order and with defaults

---
 prima_undine_derive/src/lib.rs | 23 +++--------------------
 1 file changed, 3 insertions(+), 20 deletions(-)

diff --git a/prima_undine_derive/src/lib.rs b/prima_undine_derive/src/lib.rs
index dbbefe1..33ef7ba 100644
--- a/prima_undine_derive/src/lib.rs
+++ b/prima_undine_derive/src/lib.rs
@@ -13,24 +13,7 @@ pub fn derive_model(input: TokenStream) -> TokenStream {
     let ast: DeriveInput = syn::parse(input).unwrap();
     let name = ast.ident;
     let generics = ast.generics;
-    let gparams = &generics.params;
-    let gwhere = generics.where_clause;
-    let mut gtypes = vec![];
-    let mut glifetimes = vec![];
-    let mut gconsts = vec![];
-    for param in generics.params.iter() {
-        match param {
-            syn::GenericParam::Type(x) => {
-                gtypes.push(&x.ident);
-            }
-            syn::GenericParam::Lifetime(x) => {
-                glifetimes.push(&x.lifetime);
-            }
-            syn::GenericParam::Const(x) => {
-                gconsts.push(&x.ident);
-            }
-        }
-    }
+    let (impl_generics, ty_generics, gwhere) = generics.split_for_impl();
     if let Data::Struct(data) = ast.data {
         if let Fields::Named(fields) = data.fields {
             let mut field_updater = vec![];
@@ -52,9 +35,9 @@ pub fn derive_model(input: TokenStream) -> TokenStream {
                 }
                 field_updater.push(field.ident.as_ref().unwrap());
             }
-            let first_lifetime = glifetimes[0];
+            let first_lifetime = &generics.lifetimes().next().unwrap().lifetime;
             let tokens = quote! {
-                impl<#gparams> prima_undine::Model<#first_lifetime> for #name<#(#glifetimes ,)* #(#gtypes ,)* #({#gconsts} ,)*> #gwhere {
+                impl #impl_generics prima_undine::Model<#first_lifetime> for #name #ty_generics #gwhere {
                     fn parameters(&self) -> Vec<&prima_undine::Parameter<#first_lifetime>> {
                         let mut params = vec![];
                         #( params.append(&mut self.#field_updater.parameters()); )*
-- 
2.43.0


From 56a71f100525711b4cd18e37869469ae8240a037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:02 +0000
Subject: [PATCH 29/32] fix: comparing shapes except for the last possible
 dimension number does not overflow

---
 prima_undine/src/shape.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/prima_undine/src/shape.rs b/prima_undine/src/shape.rs
index 773cc6a..00199d7 100644
--- a/prima_undine/src/shape.rs
+++ b/prima_undine/src/shape.rs
@@ -102,7 +102,7 @@ impl Shape {
     }
 
     pub fn has_same_loo_dims(&self, rhs: Shape, dim: u32) -> bool {
-        let mut nl = if self.depth == dim + 1 {
+        let mut nl = if self.depth.checked_sub(1) == Some(dim) {
             dim
         } else {
             self.depth
@@ -110,7 +110,11 @@ impl Shape {
         while nl > 0 && self.dims[nl - 1] == 1 {
             nl -= 1;
         }
-        let mut nr = if rhs.depth == dim + 1 { dim } else { rhs.depth } as usize;
+        let mut nr = if rhs.depth.checked_sub(1) == Some(dim) {
+            dim
+        } else {
+            rhs.depth
+        } as usize;
         while nr > 0 && rhs.dims[nr - 1] == 1 {
             nr -= 1;
         }
-- 
2.43.0


From 35686af822d1f305d41cdcf01dd6818b33307a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 30/32] fix: an evaluation that failed half-way can be retried

The failed operation left its allocated or even replaced outputs behind, so that
evaluating the node again panicked, e.g. after a failed backend allocation.
---
 prima_undine/src/graph.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/prima_undine/src/graph.rs b/prima_undine/src/graph.rs
index 86b614c..7de1139 100644
--- a/prima_undine/src/graph.rs
+++ b/prima_undine/src/graph.rs
@@ -132,6 +132,12 @@ fn forward<'arg, 'dev>(op_info: Rc<OperatorInfo<'arg, 'dev>>) {
             .iter()
             .map(|ret| ret.value.borrow_mut())
             .collect::<Vec<RefMut<Tensor<'arg>>>>();
+        for y in &mut ys {
+            // Discards what a failed evaluation has left behind.
+            if y.valid() {
+                **y = op_info.operator.device().new_tensor(y.shape);
+            }
+        }
         let xs_ref = xs.iter().map(|x| &**x).collect::<Vec<&Tensor<'arg>>>();
         let mut ys_ref = ys
             .iter_mut()
-- 
2.43.0


From c693747590ffa7bb434c7c5d932a065fc7621083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:50 +0000
Subject: [PATCH 31/32] fix: the derivative of the zeroth power is zero at zero
 as well

---
 prima_undine/src/devices/naive/powf.rs | 7 ++++++-
 prima_undine/src/devices/naive/powi.rs | 4 ++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/prima_undine/src/devices/naive/powf.rs b/prima_undine/src/devices/naive/powf.rs
index e6a811e..1decea3 100644
--- a/prima_undine/src/devices/naive/powf.rs
+++ b/prima_undine/src/devices/naive/powf.rs
@@ -81,7 +81,12 @@ define_naive_bw_const_impl!(PowfConstLBwImpl, |_x: f32, y: f32, gy: f32, k: f32|
 });
 define_naive_fw_const_impl!(PowfConstRFwImpl, |x: f32, k: f32| { x.powf(k) });
 define_naive_bw_const_impl!(PowfConstRBwImpl, |x: f32, _y: f32, gy: f32, k: f32| {
-    gy * k * x.powf(k - 1.)
+    if k == 0. {
+        // The zeroth power is constant, at zero as well.
+        0.
+    } else {
+        gy * k * x.powf(k - 1.)
+    }
 });
 define_naive_fw_scalar_impl!(PowfScalarLFwImpl, |x: f32, k: f32| { k.powf(x) });
 define_naive_fw_scalar_impl!(PowfScalarRFwImpl, |x: f32, k: f32| { x.powf(k) });
diff --git a/prima_undine/src/devices/naive/powi.rs b/prima_undine/src/devices/naive/powi.rs
index 20f801c..7744a02 100644
--- a/prima_undine/src/devices/naive/powi.rs
+++ b/prima_undine/src/devices/naive/powi.rs
@@ -32,6 +32,10 @@ impl FunctionBwImpl for PowiBwImpl {
         let x = xs[0];
         let gy = gys[0];
         let n = u32data[0] as i32;
+        if n == 0 {
+            // The zeroth power is constant, at zero as well.
+            return;
+        }
         let size = gy.shape.size() as usize;
         unsafe {
             let px = const_ptr!(x);
-- 
2.43.0


From df92eadb34742490a4b6033146de5a7e4aea739c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:01 +0000
Subject: [PATCH 32/32] fix: the derivative of a power with a scalar operand at
 a zero base is not NaN

---
 prima_undine/src/operators/powf.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/prima_undine/src/operators/powf.rs b/prima_undine/src/operators/powf.rs
index 719a54e..289c054 100644
--- a/prima_undine/src/operators/powf.rs
+++ b/prima_undine/src/operators/powf.rs
@@ -21,9 +21,10 @@ define_operator_ab!(
     powf_scalar_l_fw,
     scalar_op,
     |_device: &Device, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
-        let a = gy[0] * y[0];
-        *gx[0].borrow_mut() += &a * x[1].ln();
-        *gx[1].borrow_mut() += (a * x[0] / x[1]).flatten().sum(0);
+        // The derivative at a zero base must not be obtained by a division.
+        let da = gy[0] * x[0] * x[1].pow(x[0] - 1.);
+        *gx[0].borrow_mut() += gy[0] * y[0] * x[1].ln();
+        *gx[1].borrow_mut() += da.flatten().sum(0);
     }
 );
 
@@ -32,8 +33,8 @@ define_operator_ab!(
     powf_scalar_r_fw,
     scalar_op,
     |_device: &Device, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]| {
-        let a = gy[0] * y[0];
-        *gx[0].borrow_mut() += &a * x[1] / x[0];
-        *gx[1].borrow_mut() += (a * x[0].ln()).flatten().sum(0);
+        // The derivative at a zero base must not be obtained by a division.
+        *gx[0].borrow_mut() += gy[0] * x[1] * x[0].pow(x[1] - 1.);
+        *gx[1].borrow_mut() += (gy[0] * y[0] * x[0].ln()).flatten().sum(0);
     }
 );
-- 
2.43.0

