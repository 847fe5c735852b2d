From 71923ace2a48f88dcb2fdd46448f74d43b83e9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:21 +0000
Subject: [PATCH 1/4] fix: cfg_{has,no}_atomic_cas on x86 without cmpxchg

---
 src/arch/cfgs/x86.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/arch/cfgs/x86.rs b/src/arch/cfgs/x86.rs
index bb374de..3c89a77 100644
--- a/src/arch/cfgs/x86.rs
+++ b/src/arch/cfgs/x86.rs
@@ -78,11 +78,23 @@ macro_rules! cfg_has_atomic_128 {
 macro_rules! cfg_no_atomic_128 {
     ($($tt:tt)*) => {};
 }
+#[cfg(not(all(target_arch = "x86", atomic_maybe_uninit_no_cmpxchg)))]
 #[macro_export]
 macro_rules! cfg_has_atomic_cas {
     ($($tt:tt)*) => { $($tt)* };
 }
+#[cfg(not(all(target_arch = "x86", atomic_maybe_uninit_no_cmpxchg)))]
 #[macro_export]
 macro_rules! cfg_no_atomic_cas {
     ($($tt:tt)*) => {};
 }
+#[cfg(all(target_arch = "x86", atomic_maybe_uninit_no_cmpxchg))]
+#[macro_export]
+macro_rules! cfg_has_atomic_cas {
+    ($($tt:tt)*) => {};
+}
+#[cfg(all(target_arch = "x86", atomic_maybe_uninit_no_cmpxchg))]
+#[macro_export]
+macro_rules! cfg_no_atomic_cas {
+    ($($tt:tt)*) => { $($tt)* };
+}
-- 
2.43.0


From 3f17d221499bcf0d00076b8352594e7c9ed677f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:21 +0000
Subject: [PATCH 2/4] fix: do not take the Armv8 code on Armv7 when rustc
 implies the "v8m" target feature

---
 src/arch/mod.rs        | 2 --
 src/arch_legacy/mod.rs | 2 --
 2 files changed, 4 deletions(-)

diff --git a/src/arch/mod.rs b/src/arch/mod.rs
index 7ad4b26..71bb18d 100644
--- a/src/arch/mod.rs
+++ b/src/arch/mod.rs
@@ -64,7 +64,6 @@ mod aarch64;
     not(any(
         target_feature = "v8",
         atomic_maybe_uninit_target_feature = "v8",
-        target_feature = "v8m",
         atomic_maybe_uninit_target_feature = "v8m",
     )),
 ))]
@@ -79,7 +78,6 @@ mod arm_linux;
 #[cfg(any(
     target_feature = "v8",
     atomic_maybe_uninit_target_feature = "v8",
-    target_feature = "v8m",
     atomic_maybe_uninit_target_feature = "v8m",
 ))]
 mod armv8;
diff --git a/src/arch_legacy/mod.rs b/src/arch_legacy/mod.rs
index 7713b0e..1a91e3d 100644
--- a/src/arch_legacy/mod.rs
+++ b/src/arch_legacy/mod.rs
@@ -32,7 +32,6 @@ mod aarch64;
     not(any(
         target_feature = "v8",
         atomic_maybe_uninit_target_feature = "v8",
-        target_feature = "v8m",
         atomic_maybe_uninit_target_feature = "v8m",
     )),
 ))]
@@ -47,7 +46,6 @@ mod arm_linux;
 #[cfg(any(
     target_feature = "v8",
     atomic_maybe_uninit_target_feature = "v8",
-    target_feature = "v8m",
     atomic_maybe_uninit_target_feature = "v8m",
 ))]
 mod armv8;
-- 
2.43.0


From fafebb3945afb09ffe78671b5762a7c4c4cfd123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:41 +0000
Subject: [PATCH 3/4] fix: sign-extend `old` in 32-bit compare_exchange on
 riscv64 and loongarch64

---
 src/arch/loongarch.rs | 14 +++++++++++++-
 src/arch/riscv.rs     | 23 ++++++++++++++++++++++-
 2 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/src/arch/loongarch.rs b/src/arch/loongarch.rs
index e8fe47f..fc0be79 100644
--- a/src/arch/loongarch.rs
+++ b/src/arch/loongarch.rs
@@ -21,6 +21,17 @@ use core::{
 
 use crate::raw::{AtomicCompareExchange, AtomicLoad, AtomicStore, AtomicSwap};
 
+// On LA64, LL.W sign-extends the loaded value, but the upper bits of the register that holds a
+// 32-bit operand are unspecified.
+macro_rules! sign_extend {
+    ("w", $reg:tt) => {
+        concat!("slli.w ", $reg, ", ", $reg, ", 0")
+    };
+    ("d", $reg:tt) => {
+        ""
+    };
+}
+
 #[rustfmt::skip]
 macro_rules! atomic_load {
     ($ty:ident, $size:tt) => {
@@ -137,6 +148,7 @@ macro_rules! atomic {
                     macro_rules! cmpxchg {
                         ($failure_fence:tt) => {
                             asm!(
+                                sign_extend!($size, "{old}"),                  // old = sign_extend(old)
                                 "2:", // 'retry:
                                     concat!("ll.", $size, " {out}, {dst}, 0"), // atomic { out = *dst; LL = dst }
                                     "bne {out}, {old}, 3f",                    // if out != old { jump 'cmp-fail }
@@ -149,7 +161,7 @@ macro_rules! atomic {
                                     "move {tmp}, $zero",                       // tmp = 0
                                 "4:", // 'success:
                                 dst = in(reg) ptr_reg!(dst),
-                                old = in(reg) old,
+                                old = inout(reg) old => _,
                                 new = in(reg) new,
                                 out = out(reg) out,
                                 tmp = out(reg) r,
diff --git a/src/arch/riscv.rs b/src/arch/riscv.rs
index a7392e2..28cb00f 100644
--- a/src/arch/riscv.rs
+++ b/src/arch/riscv.rs
@@ -58,6 +58,26 @@ macro_rules! w {
     };
 }
 
+// On RV64, LR.W sign-extends the loaded value, but the upper bits of the register that holds a
+// 32-bit operand are unspecified.
+#[cfg(any(target_feature = "a", atomic_maybe_uninit_target_feature = "a"))]
+#[cfg(target_arch = "riscv32")]
+macro_rules! sign_extend {
+    ("w", $reg:tt) => {
+        ""
+    };
+}
+#[cfg(any(target_feature = "a", atomic_maybe_uninit_target_feature = "a"))]
+#[cfg(target_arch = "riscv64")]
+macro_rules! sign_extend {
+    ("w", $reg:tt) => {
+        concat!("sext.w ", $reg, ", ", $reg)
+    };
+    ("d", $reg:tt) => {
+        ""
+    };
+}
+
 #[cfg(any(
     target_feature = "a",
     atomic_maybe_uninit_target_feature = "a",
@@ -227,6 +247,7 @@ macro_rules! atomic {
                     macro_rules! cmpxchg {
                         ($acquire:tt, $release:tt) => {
                             asm!(
+                                sign_extend!($size, "{old}"),                                 // old = sign_extend(old)
                                 "2:", // 'retry:
                                     concat!("lr.", $size, $acquire, " {out}, 0({dst})"),      // atomic { out = *dst; RS = dst }
                                     "bne {out}, {old}, 3f",                                   // if out != old { jump 'cmp-fail }
@@ -236,7 +257,7 @@ macro_rules! atomic {
                                 "xor {r}, {out}, {old}",                                      // r = out ^ old
                                 "seqz {r}, {r}",                                              // if r == 0 { r = 1 } else { r = 0 }
                                 dst = in(reg) ptr_reg!(dst),
-                                old = in(reg) old,
+                                old = inout(reg) old => _,
                                 new = in(reg) new,
                                 out = out(reg) out,
                                 r = out(reg) r,
-- 
2.43.0


From 5c18d7c3d2ffe70b3ae6020bf9d01608d3a8a511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:41 +0000
Subject: [PATCH 4/4] fix: m68k compare_exchange no longer assumes that seq
 yields 0 or 1

Scc sets all bits of its destination when the condition holds, so the
assumption (r == 0 || r == 1) was false for every successful exchange.
---
 src/arch/m68k.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arch/m68k.rs b/src/arch/m68k.rs
index 23511d5..d9fcb84 100644
--- a/src/arch/m68k.rs
+++ b/src/arch/m68k.rs
@@ -117,7 +117,7 @@ macro_rules! atomic {
                         // Do not use `preserves_flags` because CAS modifies N, Z, V, and C bits in the condition codes.
                         options(nostack),
                     );
-                    crate::utils::assert_unchecked(r == 0 || r == 1); // may help remove extra test
+                    crate::utils::assert_unchecked(r == 0 || r == !0); // seq sets all bits; may help remove extra test
                     (out, r != 0)
                 }
             }
-- 
2.43.0

