From 612406f46b5afc72e22a1bf8a1f98ff0d1cc6a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:48 +0000
Subject: [PATCH 01/12] fix: do not read the RDT leaves before checking that
 they are supported

---
 src/lib.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 36fabf0..3caaf4e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -632,9 +632,8 @@ impl<R: CpuIdReader> CpuId<R> {
     /// # Platforms
     /// ❌ AMD ✅ Intel
     pub fn get_rdt_monitoring_info(&self) -> Option<RdtMonitoringInfo<R>> {
-        let res = self.read.cpuid1(EAX_RDT_MONITORING);
-
         if self.leaf_is_supported(EAX_RDT_MONITORING) {
+            let res = self.read.cpuid1(EAX_RDT_MONITORING);
             Some(RdtMonitoringInfo {
                 read: self.read.clone(),
                 ebx: res.ebx,
@@ -650,9 +649,8 @@ impl<R: CpuIdReader> CpuId<R> {
     /// # Platforms
     /// ❌ AMD ✅ Intel
     pub fn get_rdt_allocation_info(&self) -> Option<RdtAllocationInfo<R>> {
-        let res = self.read.cpuid1(EAX_RDT_ALLOCATION);
-
         if self.leaf_is_supported(EAX_RDT_ALLOCATION) {
+            let res = self.read.cpuid1(EAX_RDT_ALLOCATION);
             Some(RdtAllocationInfo {
                 read: self.read.clone(),
                 ebx: res.ebx,
-- 
2.43.0


From e65fbd84fcd463653b71d6fe9575f5162801d968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:48 +0000
Subject: [PATCH 02/12] fix: CacheInfoIter goes on after a descriptor that is
 not in the table

---
 src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3caaf4e..5f26e5a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1244,7 +1244,9 @@ impl Iterator for CacheInfoIter {
             }
         }
 
-        None
+        // Not in the table: skip it, more descriptors may follow.
+        self.current += 1;
+        self.next()
     }
 }
 
-- 
2.43.0


From 2894da2151f6c5a036ebd098f239925539ee4a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:48 +0000
Subject: [PATCH 03/12] fix: FeatureInfo::family_id does not overflow

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5f26e5a..47eba64 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1965,7 +1965,7 @@ impl FeatureInfo {
         if just_use_base {
             base_family_id
         } else {
-            base_family_id + extended_family_id
+            base_family_id.saturating_add(extended_family_id)
         }
     }
 
-- 
2.43.0


From 2cfd1e16eab22dbe12447e2d501d9cd0afa2b2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:48 +0000
Subject: [PATCH 04/12] fix: CacheParameter::sets does not overflow

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 47eba64..9ba22e6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2833,7 +2833,7 @@ impl CacheParameter {
     /// # Platforms
     /// ✅ AMD ✅ Intel
     pub fn sets(&self) -> usize {
-        (self.ecx + 1) as usize
+        (self.ecx as usize).saturating_add(1)
     }
 
     /// Write-Back Invalidate/Invalidate (Bit 0)
-- 
2.43.0


From a5674a3f5937973e00ae4bcd674b005564e2ff91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:48 +0000
Subject: [PATCH 05/12] fix: ProcessorTopologyInfo::threads_per_core does not
 overflow

---
 src/extended.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extended.rs b/src/extended.rs
index d79df32..231a821 100644
--- a/src/extended.rs
+++ b/src/extended.rs
@@ -1723,7 +1723,7 @@ impl ProcessorTopologyInfo {
     /// # Note
     /// `Threads per Core` means `Cores per Compute Unit` if AMD Family 15h-16h Processors.
     pub fn threads_per_core(&self) -> u8 {
-        get_bits(self.ebx, 8, 15) as u8 + 1
+        (get_bits(self.ebx, 8, 15) as u8).saturating_add(1)
     }
 
     /// Node ID
-- 
2.43.0


From 2dcffbba8bc0edfc553274731ee8a384f91c3b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:48 +0000
Subject: [PATCH 06/12] fix: ExtendedFeatures::mawau_value is no longer always
 0

The bits were dropped when the register was converted to flags.
---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 9ba22e6..9973a8c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4131,7 +4131,8 @@ bitflags! {
         /// Bit 16: Supports 57-bit linear addresses and five-level paging if 1.
         const LA57 = 1 << 16;
 
-        // Bits 21 - 17: The value of MAWAU used by the BNDLDX and BNDSTX instructions in 64-bit mode
+        /// Bits 21 - 17: The value of MAWAU used by the BNDLDX and BNDSTX instructions in 64-bit mode
+        const MAWAU = 0x1f << 17;
 
         /// Bit 22: RDPID. RDPID and IA32_TSC_AUX are available if 1.
         const RDPID = 1 << 22;
-- 
2.43.0


From 9a9acac65381e58c553d50d895f7334ba7370d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:48 +0000
Subject: [PATCH 07/12] fix: ExtendedTopologyLevel::level_type does not panic
 on reserved level types

---
 src/lib.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 9973a8c..3b14141 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4434,7 +4434,8 @@ impl ExtendedTopologyLevel {
             3 => TopologyType::Module,
             4 => TopologyType::Tile,
             5 => TopologyType::Die,
-            _ => unreachable!(),
+            // Reserved encodings
+            _ => TopologyType::Invalid,
         }
     }
 
@@ -4495,8 +4496,9 @@ impl<R: CpuIdReader> Iterator for ExtendedTopologyIter<R> {
             edx: res.edx,
         };
 
-        match et.level_type() {
-            TopologyType::Invalid => None,
+        // Only type 0 ends the enumeration, levels of a reserved type do not.
+        match get_bits(et.ecx, 8, 15) {
+            0 => None,
             _ => Some(et),
         }
     }
-- 
2.43.0


From d8bc9fcfd1a0d51ec5f66c1cb3567af28ec07aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:48 +0000
Subject: [PATCH 08/12] fix: ExtendedStateIter does not lose a component when
 the reader panics

---
 src/lib.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3b14141..6b57396 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4772,22 +4772,25 @@ impl<R: CpuIdReader> Iterator for ExtendedStateIter<R> {
     type Item = ExtendedState;
 
     fn next(&mut self) -> Option<ExtendedState> {
-        self.level += 1;
-        if self.level > 31 {
+        let level = self.level + 1;
+        if level > 31 {
             return None;
         }
 
-        let bit = 1 << self.level;
+        let bit = 1 << level;
         if (self.supported_xcr0 & bit > 0) || (self.supported_xss & bit > 0) {
-            let res = self.read.cpuid2(EAX_EXTENDED_STATE_INFO, self.level);
+            let res = self.read.cpuid2(EAX_EXTENDED_STATE_INFO, level);
+            // Advance only once the read succeeded.
+            self.level = level;
             return Some(ExtendedState {
-                subleaf: self.level,
+                subleaf: level,
                 eax: res.eax,
                 ebx: res.ebx,
                 ecx: res.ecx,
             });
         }
 
+        self.level = level;
         self.next()
     }
 }
-- 
2.43.0


From 7f3ded3fe75c641ac06a55780b11c76a0f831c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:48 +0000
Subject: [PATCH 09/12] fix: SoCVendorAttributesIter yields sub-leafs 4 up to
 MaxSOCID_Index

It advanced the limit instead of the position, read sub-leafs past the
limit and never ended.
---
 src/lib.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 6b57396..59d964f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -5898,11 +5898,12 @@ impl<R: CpuIdReader> Iterator for SoCVendorAttributesIter<R> {
 
     /// Iterate over all SoC vendor specific attributes.
     fn next(&mut self) -> Option<CpuIdResult> {
-        if self.current > self.count {
+        if self.current >= self.count {
             return None;
         }
-        self.count += 1;
-        Some(self.read.cpuid2(EAX_SOC_VENDOR_INFO, self.count))
+        let res = self.read.cpuid2(EAX_SOC_VENDOR_INFO, self.current + 1);
+        self.current += 1;
+        Some(res)
     }
 }
 
-- 
2.43.0


From 675cd60eb3565b107090e13a45ae49eaf86f32e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:48 +0000
Subject: [PATCH 10/12] fix: display::raw includes the highest leaf of each
 range

---
 src/display.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/display.rs b/src/display.rs
index 7ff6d3d..e108d67 100644
--- a/src/display.rs
+++ b/src/display.rs
@@ -11,18 +11,18 @@ pub fn raw<R: crate::CpuIdReader>(cpuid: R) {
     let _leafs_with_subleafs = &[0x04, 0x0d, 0x0f, 0x10, 0x12];
 
     let max_leafs = cpuid.cpuid1(0x0).eax;
-    for idx in 0..max_leafs {
+    for idx in 0..=max_leafs {
         let res = cpuid.cpuid1(idx);
         println!("({:#x}, {:#x}) => {:?}", idx, 0x0, res);
     }
 
     let max_hypervisor_leafs = cpuid.cpuid1(0x4000_0000).eax;
-    for idx in 0x4000_0000..max_hypervisor_leafs {
+    for idx in 0x4000_0000..=max_hypervisor_leafs {
         println!("({:#x}, {:#x}) => {:?}", idx, 0x0, cpuid.cpuid1(idx));
     }
 
     let max_extended_leafs = cpuid.cpuid1(0x8000_0000).eax;
-    for idx in 0x8000_0000..max_extended_leafs {
+    for idx in 0x8000_0000..=max_extended_leafs {
         println!("({:#x}, {:#x}) => {:?}", idx, 0x0, cpuid.cpuid1(idx));
     }
 }
-- 
2.43.0


From 28946e49c9a51bac9cdb68281ca67b6274173fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:48 +0000
Subject: [PATCH 11/12] fix: display::markdown does not overflow computing a
 cache's size

---
 src/display.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/display.rs b/src/display.rs
index e108d67..38744fd 100644
--- a/src/display.rs
+++ b/src/display.rs
@@ -372,10 +372,10 @@ pub fn markdown<R: crate::CpuIdReader>(cpuid: crate::CpuId<R>) {
         for cache in iter {
             print_subtitle(&skin, format!("L{} Cache:", cache.level()).as_str());
 
-            let size = (cache.associativity()
-                * cache.physical_line_partitions()
-                * cache.coherency_line_size()
-                * cache.sets()) as u64;
+            let size = (cache.associativity() as u64)
+                .saturating_mul(cache.physical_line_partitions() as u64)
+                .saturating_mul(cache.coherency_line_size() as u64)
+                .saturating_mul(cache.sets() as u64);
 
             table2(
                 &skin,
-- 
2.43.0


From 426cd00e606e25305b28b6f630a8fc188bd64636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:48 +0000
Subject: [PATCH 12/12] fix: display::markdown reports AMX_INT8 in the AMX_INT8
 row

---
 src/display.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/display.rs b/src/display.rs
index 38744fd..d2dadcd 100644
--- a/src/display.rs
+++ b/src/display.rs
@@ -545,7 +545,7 @@ pub fn markdown<R: crate::CpuIdReader>(cpuid: crate::CpuId<R>) {
                 RowGen::tuple("AMX_TILE: Tile Architecture support", info.has_amx_tile()),
                 RowGen::tuple(
                     "AMX_INT8: Tile Computational Operation on 8-bit integers",
-                    info.has_amx_tile(),
+                    info.has_amx_int8(),
                 ),
                 RowGen::tuple(
                     "AVX512DQ: double & quadword instructions",
-- 
2.43.0

