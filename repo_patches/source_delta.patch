From be35dd9a5af97bfd6ce5424921a2ac1a1550b46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:13 +0000
Subject: [PATCH 1/4] fix: complex packing must not double strides (overflow
 for strides of unit dimensions)

pack_complex computed 2 * stride, which overflows (a panic with overflow
checks enabled) when a dimension of size one has a stride beyond
isize::MAX / 2, although such strides are irrelevant and allowed.
Offset in units of complex elements instead.
---
 src/cgemm_common.rs | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/cgemm_common.rs b/src/cgemm_common.rs
index 59d37d5..40ea958 100644
--- a/src/cgemm_common.rs
+++ b/src/cgemm_common.rs
@@ -145,8 +145,6 @@ pub(crate) unsafe fn pack_complex<MR, T, TReal>(kc: usize, mc: usize, pack: &mut
 {
     // use pointers as pointer to TReal
     let pack = pack.as_mut_ptr() as *mut TReal;
-    let areal = a as *const TReal;
-    let aimag = areal.add(1);
 
     assert_eq!(mem::size_of::<T>(), 2 * mem::size_of::<TReal>());
 
@@ -159,16 +157,16 @@ pub(crate) unsafe fn pack_complex<MR, T, TReal>(kc: usize, mc: usize, pack: &mut
         for j in 0..kc {
             // real row
             for i in 0..mr {
-                let a_elt = areal.stride_offset(2 * rsa, i + row_offset)
-                                 .stride_offset(2 * csa, j);
+                let a_elt = a.stride_offset(rsa, i + row_offset)
+                             .stride_offset(csa, j) as *const TReal;
                 copy_nonoverlapping(a_elt, pack.add(p), 1);
                 p += 1;
             }
             // imag row
             for i in 0..mr {
-                let a_elt = aimag.stride_offset(2 * rsa, i + row_offset)
-                                 .stride_offset(2 * csa, j);
-                copy_nonoverlapping(a_elt, pack.add(p), 1);
+                let a_elt = a.stride_offset(rsa, i + row_offset)
+                             .stride_offset(csa, j) as *const TReal;
+                copy_nonoverlapping(a_elt.add(1), pack.add(p), 1);
                 p += 1;
             }
         }
@@ -184,8 +182,8 @@ pub(crate) unsafe fn pack_complex<MR, T, TReal>(kc: usize, mc: usize, pack: &mut
             // real row
             for i in 0..mr {
                 if i < rest {
-                    let a_elt = areal.stride_offset(2 * rsa, i + row_offset)
-                                     .stride_offset(2 * csa, j);
+                    let a_elt = a.stride_offset(rsa, i + row_offset)
+                                 .stride_offset(csa, j) as *const TReal;
                     copy_nonoverlapping(a_elt, pack.add(p), 1);
                 } else {
                     *pack.add(p) = zero;
@@ -195,9 +193,9 @@ pub(crate) unsafe fn pack_complex<MR, T, TReal>(kc: usize, mc: usize, pack: &mut
             // imag row
             for i in 0..mr {
                 if i < rest {
-                    let a_elt = aimag.stride_offset(2 * rsa, i + row_offset)
-                                     .stride_offset(2 * csa, j);
-                    copy_nonoverlapping(a_elt, pack.add(p), 1);
+                    let a_elt = a.stride_offset(rsa, i + row_offset)
+                                 .stride_offset(csa, j) as *const TReal;
+                    copy_nonoverlapping(a_elt.add(1), pack.add(p), 1);
                 } else {
                     *pack.add(p) = zero;
                 }
-- 
2.43.0


From 3c89321d59421bad91e12d731b38e74abbc4a1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:13 +0000
Subject: [PATCH 2/4] fix: dgemm NEON kernel must use the dgemm block sizes

The aarch64 kernel for f64 used the SGEMM parameters, so with constconf
MATMUL_DGEMM_{NC,KC,MC} had no effect there (not even validated) and
MATMUL_SGEMM_* changed dgemm.
---
 src/dgemm_kernel.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dgemm_kernel.rs b/src/dgemm_kernel.rs
index a5c3eb9..c38a7c9 100644
--- a/src/dgemm_kernel.rs
+++ b/src/dgemm_kernel.rs
@@ -247,11 +247,11 @@ impl GemmKernel for KernelNeon {
     fn always_masked() -> bool { false }
 
     #[inline(always)]
-    fn nc() -> usize { archparam::S_NC }
+    fn nc() -> usize { archparam::D_NC }
     #[inline(always)]
-    fn kc() -> usize { archparam::S_KC }
+    fn kc() -> usize { archparam::D_KC }
     #[inline(always)]
-    fn mc() -> usize { archparam::S_MC }
+    fn mc() -> usize { archparam::D_MC }
 
     #[inline(always)]
     unsafe fn kernel(
-- 
2.43.0


From 759a2c966f9564bf72292c7088e51054529c3bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:13 +0000
Subject: [PATCH 3/4] fix: constconf values that do not fit usize must fail to
 compile

parse wrapped around, so for example 18446744073709551680 (2^64 + 64) was
silently accepted as 64.
---
 src/constparse.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/constparse.rs b/src/constparse.rs
index f6de70a..67e5178 100644
--- a/src/constparse.rs
+++ b/src/constparse.rs
@@ -12,6 +12,7 @@
 #[derive(Clone, Copy)]
 pub(crate) enum ParseIntError {
     InvalidDigit,
+    Overflow,
 }
 
 const fn parse_byte(b: u8, pow10: usize) -> Result<usize, ParseIntError> {
@@ -20,7 +21,13 @@ const fn parse_byte(b: u8, pow10: usize) -> Result<usize, ParseIntError> {
     if r > 9 {
         Err(ParseIntError::InvalidDigit)
     } else {
-        Ok((r as usize) * pow10)
+        let (value, overflow) = (r as usize).overflowing_mul(pow10);
+        // pow10 is zero for the powers of 10 that usize can not represent
+        if overflow || (pow10 == 0 && r != 0) {
+            Err(ParseIntError::Overflow)
+        } else {
+            Ok(value)
+        }
     }
 }
 
@@ -78,7 +85,11 @@ pub(crate) const fn parse(b: &str) -> Result<usize, ParseIntError> {
             Ok(d) => d,
         };
 
-        result = result.wrapping_add(r);
+        let (sum, overflow) = result.overflowing_add(r);
+        if overflow {
+            return Err(ParseIntError::Overflow);
+        }
+        result = sum;
 
         index += 1;
         index_const_table += 1;
-- 
2.43.0


From 5ead4810bba80e9a2b96ab5037a39a5843949631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:49 +0000
Subject: [PATCH 4/4] fix: overflow in the choice of the number of threads

With two or more threads available, m * k + k * n overflowed for very large
dimensions (which need no memory with zero strides), so that such a product
panicked in builds with overflow checks and was taken for a small one
otherwise.
---
 src/threading.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/threading.rs b/src/threading.rs
index 128c89c..3e12dfd 100644
--- a/src/threading.rs
+++ b/src/threading.rs
@@ -123,7 +123,7 @@ impl LoopThreadConfig {
     #[cfg(feature="threading")]
     fn new_impl(m: usize, k: usize, n: usize, max_threads: usize, kmc: usize) -> Self {
         // use a heuristic to try not to use too many threads for smaller matrices
-        let size_factor = m * k + k * n;
+        let size_factor = m.saturating_mul(k).saturating_add(k.saturating_mul(n));
         let thread_factor = 1 << 14;
         // pure guesswork in terms of what the default should be
         let arch_factor = if cfg!(target_arch="arm") {
-- 
2.43.0

