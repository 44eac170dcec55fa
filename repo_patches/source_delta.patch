From df8a8a28d275c4bf0670e7e208fb232a46ef23e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:44 +0000
Subject: [PATCH 01/11] fix: mixed Jacobian + Affine addition compares y with y
 when the x coordinates agree

---
 algebra/elliptic-curve/src/jacobian.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebra/elliptic-curve/src/jacobian.rs b/algebra/elliptic-curve/src/jacobian.rs
index 0dc9d4f..a6a761c 100644
--- a/algebra/elliptic-curve/src/jacobian.rs
+++ b/algebra/elliptic-curve/src/jacobian.rs
@@ -193,7 +193,7 @@ impl AddAssign<&Affine> for Jacobian {
                 let u2 = x * &z1z1;
                 let s2 = y * &self.z * &z1z1;
                 if self.x == u2 {
-                    return if self.x == s2 {
+                    return if self.y == s2 {
                         self.double_assign()
                     } else {
                         *self = Self::ZERO
-- 
2.43.0


From cc7438fdd5870c2d5d28d06c7291c0cf6593b2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:44 +0000
Subject: [PATCH 02/11] fix: double_mul tests the sign of the digit of its own
 scalar

---
 algebra/elliptic-curve/src/wnaf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebra/elliptic-curve/src/wnaf.rs b/algebra/elliptic-curve/src/wnaf.rs
index c3e2f76..b451bd0 100644
--- a/algebra/elliptic-curve/src/wnaf.rs
+++ b/algebra/elliptic-curve/src/wnaf.rs
@@ -171,7 +171,7 @@ pub fn double_mul(
         r.double_assign();
         if snaf_expansion_a[i] > 0 {
             r += &naf_table_a[(snaf_expansion_a[i] >> 1) as usize];
-        } else if snaf_expansion_b[i] < 0 {
+        } else if snaf_expansion_a[i] < 0 {
             r -= &naf_table_a[(-snaf_expansion_a[i] >> 1) as usize];
         }
         if snaf_expansion_b[i] > 0 {
-- 
2.43.0


From 2a7643c8e5e733237feff4675be4d52c1a0b7343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:44 +0000
Subject: [PATCH 03/11] fix: GeometricIter::step_by keeps the last partial step
 and skip past the end is empty

---
 algebra/primefield/src/geometric_series.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/algebra/primefield/src/geometric_series.rs b/algebra/primefield/src/geometric_series.rs
index cb785d1..4ae0a02 100644
--- a/algebra/primefield/src/geometric_series.rs
+++ b/algebra/primefield/src/geometric_series.rs
@@ -33,7 +33,7 @@ where
 
     pub fn skip(mut self, n: usize) -> Self {
         self.current *= self.step.pow(n);
-        self.length -= n;
+        self.length = self.length.saturating_sub(n);
         self
     }
 
@@ -46,7 +46,9 @@ where
     pub fn step_by(mut self, step: usize) -> Self {
         assert!(step > 0);
         self.step = self.step.pow(step);
-        self.length /= step;
+        // The series starts with the first element, so round up.
+        let partial = self.length % step != 0;
+        self.length = self.length / step + if partial { 1 } else { 0 };
         self
     }
 }
-- 
2.43.0


From 74060885a57de47052e1d23f275716c9146d10fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:44 +0000
Subject: [PATCH 04/11] fix: from_decimal_str rejects values that overflow by a
 multiple of ten

---
 algebra/u256/src/encoding.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebra/u256/src/encoding.rs b/algebra/u256/src/encoding.rs
index b810af5..de172fb 100644
--- a/algebra/u256/src/encoding.rs
+++ b/algebra/u256/src/encoding.rs
@@ -26,7 +26,7 @@ impl U256 {
         // OPT: Convert 19 digits at a time using u64.
         let mut result = Self::ZERO;
         for (i, _c) in s.chars().enumerate() {
-            if result > max10 {
+            if result >= max10 {
                 return Err(ParseError::Overflow);
             }
             result *= Self::from(10_u64);
-- 
2.43.0


From 32a2b1aa181c5e34609bf800d00faaea9ffc4905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:44 +0000
Subject: [PATCH 05/11] fix: check_specific_constraint evaluates at the point
 of the requested row

---
 crypto/stark/src/constraint_check.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/crypto/stark/src/constraint_check.rs b/crypto/stark/src/constraint_check.rs
index 27a7367..70f3893 100644
--- a/crypto/stark/src/constraint_check.rs
+++ b/crypto/stark/src/constraint_check.rs
@@ -71,12 +71,7 @@ pub(crate) fn check_specific_constraint(
     which_constraint: usize,
 ) -> bool {
     let trace_generator = FieldElement::root(table.num_rows()).unwrap();
-    let x;
-    if row == 0 {
-        x = FieldElement::one();
-    } else {
-        x = trace_generator.pow(row - 1)
-    }
+    let x = trace_generator.pow(row);
     let len = table.num_rows();
 
     let trace = |i: usize, j: isize| {
-- 
2.43.0


From b02a3c0d4c06fa860e238b5599e3dae55aa89db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:44 +0000
Subject: [PATCH 06/11] fix: peak allocation includes the allocation that
 reaches it

---
 utils/logging-allocator/src/logging_allocator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/logging-allocator/src/logging_allocator.rs b/utils/logging-allocator/src/logging_allocator.rs
index f9720cf..15870a0 100644
--- a/utils/logging-allocator/src/logging_allocator.rs
+++ b/utils/logging-allocator/src/logging_allocator.rs
@@ -111,7 +111,7 @@ unsafe impl GlobalAlloc for LoggingAllocator {
             let _ = self.total_allocated.fetch_add(layout.size(), Relaxed);
             let _ = self.num_allocations.fetch_add(1, Relaxed);
             // HACK: Using `allocated` here again is not completely fool proof
-            let _ = fetch_max(&self.peak_allocated, allocated);
+            let _ = fetch_max(&self.peak_allocated, allocated + layout.size());
             let _ = fetch_max(&self.largest_allocated, layout.size());
         }
         result
-- 
2.43.0


From 06bee3591ae11bf7b9bc52f34cf32afc83ac4a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:44 +0000
Subject: [PATCH 07/11] fix: prefetching past the end of a slice does not form
 an out of bounds reference

---
 algebra/primefield/src/fft/prefetch.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebra/primefield/src/fft/prefetch.rs b/algebra/primefield/src/fft/prefetch.rs
index 6ea1898..8ce7177 100644
--- a/algebra/primefield/src/fft/prefetch.rs
+++ b/algebra/primefield/src/fft/prefetch.rs
@@ -94,7 +94,7 @@ impl<T> PrefetchIndex<usize> for [T] {
         #[allow(unsafe_code)]
         unsafe {
             #[allow(trivial_casts)] // False positive
-            let ptr = self.get_unchecked(index) as *const T as *const i8;
+            let ptr = self.as_ptr().wrapping_add(index) as *const i8;
             _mm_prefetch(ptr, _MM_HINT_T0);
         }
     }
-- 
2.43.0


From c8f341c0539f94eef55522cff1a47bdb8f3f567d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:44 +0000
Subject: [PATCH 08/11] fix: MmapVec::with_capacity does not map too little
 memory when the size overflows

---
 utils/mmap-vec/src/mmap_vec.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utils/mmap-vec/src/mmap_vec.rs b/utils/mmap-vec/src/mmap_vec.rs
index 3affb39..c21c24a 100644
--- a/utils/mmap-vec/src/mmap_vec.rs
+++ b/utils/mmap-vec/src/mmap_vec.rs
@@ -34,7 +34,10 @@ impl<T: Clone> MmapVec<T> {
     pub fn with_capacity(capacity: usize) -> Self {
         // TODO: Round up to nearest 4KB
         // Note: mmaped files can not be empty, so we use at leas one byte.
-        let size = max(1, capacity * size_of::<T>());
+        let size = capacity
+            .checked_mul(size_of::<T>())
+            .expect("MmapVec capacity overflow");
+        let size = max(1, size);
         trace!("Allocating {} MB in anonymous mmap", size / 1_000_000);
         let mmap = MmapOptions::new()
             .len(size)
-- 
2.43.0


From 574a0b1901fc04431afe6093d201f835a9a72fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:54 +0000
Subject: [PATCH 09/11] fix: security_bits counts the bits of the blowup
 factor, not one more per query pair

---
 crypto/stark/src/constraints.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto/stark/src/constraints.rs b/crypto/stark/src/constraints.rs
index e8140e0..96070d6 100644
--- a/crypto/stark/src/constraints.rs
+++ b/crypto/stark/src/constraints.rs
@@ -211,7 +211,7 @@ impl Constraints {
     pub fn security_bits(&self) -> usize {
         // Our conservative formula is (1/2^blowup_log)^(queries/2)*(1/2^pow_bits)
         // So the bit security should be blowup_log*(queries/2) + pow_bits
-        let blowup_log = (64 - (self.blowup as u64).leading_zeros()) as usize;
+        let blowup_log = self.blowup.trailing_zeros() as usize;
         blowup_log * (self.num_queries / 2) + self.pow_bits
     }
 
-- 
2.43.0


From adfeed90da2f0022daa7ea82348e617e6ccb8c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:28 +0000
Subject: [PATCH 10/11] fix: the sum of no U256 values is zero, so sums are not
 one too large

---
 algebra/u256/src/additive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebra/u256/src/additive.rs b/algebra/u256/src/additive.rs
index 822111f..ad9a87d 100644
--- a/algebra/u256/src/additive.rs
+++ b/algebra/u256/src/additive.rs
@@ -104,7 +104,7 @@ impl Neg for &U256 {
 
 impl core::iter::Sum for U256 {
     fn sum<I: Iterator<Item = U256>>(iter: I) -> Self {
-        iter.fold(Self::ONE, Add::add)
+        iter.fold(Self::ZERO, Add::add)
     }
 }
 
-- 
2.43.0


From 9c0bd561ab3aac34c1409c2e3dbfa5152e4ee7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:57 +0000
Subject: [PATCH 11/11] fix: the degree of a polynomial of an expression bounds
 the numerator when the denominator is larger

---
 crypto/stark/src/rational_expression.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crypto/stark/src/rational_expression.rs b/crypto/stark/src/rational_expression.rs
index 5f2bdec..b438499 100644
--- a/crypto/stark/src/rational_expression.rs
+++ b/crypto/stark/src/rational_expression.rs
@@ -171,11 +171,11 @@ impl RationalExpression {
             Trace(..) => (trace_degree, 0),
             Polynomial(p, a) => {
                 let (n, d) = a.degree_impl(x_degree, trace_degree);
-                (p.degree() * n, p.degree() * d)
+                (p.degree() * std::cmp::max(n, d), p.degree() * d)
             }
             ClaimPolynomial(_, degree_bound, a, _) => {
                 let (n, d) = a.degree_impl(x_degree, trace_degree);
-                (degree_bound * n, degree_bound * d)
+                (degree_bound * std::cmp::max(n, d), degree_bound * d)
             }
             Add(a, b) => {
                 let (a_numerator, a_denominator) = a.degree_impl(x_degree, trace_degree);
-- 
2.43.0

