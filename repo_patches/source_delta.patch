From fb04498913192e173c127a4e8d088c369529a30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:33 +0000
Subject: [PATCH 01/14] verif: cfg-guarded hooks for the verification harness
 (off by default)

---
 src/cuckoo/mod.rs | 4 ++++
 src/lib.rs        | 9 +++++++++
 2 files changed, 13 insertions(+)

diff --git a/src/cuckoo/mod.rs b/src/cuckoo/mod.rs
index 66a5b8d..6435aee 100644
--- a/src/cuckoo/mod.rs
+++ b/src/cuckoo/mod.rs
@@ -6,7 +6,11 @@ mod scalable_cuckoo_filter;
 
 const DEFAULT_ENTRIES_PER_INDEX: usize = 4;
 const DEFAULT_FINGERPRINT_BIT_COUNT: usize = 8;
+#[cfg(not(pcrs_verif))]
 const DEFAULT_MAX_KICKS: usize = 512;
+// Verification builds bound the kick loop so that the overflow path is within reach.
+#[cfg(pcrs_verif)]
+const DEFAULT_MAX_KICKS: usize = 3;
 
 pub use self::cuckoo_filter::CuckooFilter;
 pub use self::scalable_cuckoo_filter::ScalableCuckooFilter;
diff --git a/src/lib.rs b/src/lib.rs
index 24ca05e..89ee9b6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -105,3 +105,12 @@ mod util;
 
 pub use self::util::SipHasherBuilder;
 use self::util::{DoubleHasher, HashIter};
+
+/// Access to internals for the verification harness; compiled only with `--cfg pcrs_verif`.
+#[cfg(pcrs_verif)]
+#[doc(hidden)]
+pub mod verif_hooks {
+    pub use crate::bit_vec::BitVec;
+    pub use crate::bitstring_vec::BitstringVec;
+    pub use crate::util::{DoubleHasher, HashIter};
+}
-- 
2.43.0


From bdfea3964cc853ca0c671fd0cd988dbd57336ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:33 +0000
Subject: [PATCH 02/14] fix: quotient filter: removing an item that was never
 inserted must not delete another item

remove() only returned early on an empty canonical slot. When the slot held a
shifted item of another run, get_run_start() returned that other run and an
item with the same remainder was deleted from it.
---
 src/quotient.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/quotient.rs b/src/quotient.rs
index 6a598c8..e9a9645 100644
--- a/src/quotient.rs
+++ b/src/quotient.rs
@@ -442,8 +442,8 @@ where
         let (quotient, remainder) =
             self.get_quotient_and_remainder(util::hash(&self.hash_builder, &item));
 
-        // empty slot
-        if self.slot_vec.get(quotient) & METADATA_MASK == 0 {
+        // no such run exists
+        if self.slot_vec.get(quotient) & OCCUPIED_MASK == 0 {
             return;
         }
 
-- 
2.43.0


From 86695190199ec01dc98863268be6e92b194eeff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:41 +0000
Subject: [PATCH 03/14] fix: quotient filter: clear the occupied bit when the
 last run of a cluster is removed

Removing the only item of a shifted run left the occupied bit of its canonical
slot set when the item was the last one of its cluster, so later operations saw
a run that does not exist.
---
 src/quotient.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/quotient.rs b/src/quotient.rs
index e9a9645..40a1b03 100644
--- a/src/quotient.rs
+++ b/src/quotient.rs
@@ -525,6 +525,13 @@ where
             next_slot = self.slot_vec.get(next_index);
         }
 
+        // the removed item was the only item of its run and the last item of its cluster, so its
+        // canonical slot is no longer occupied
+        if is_run_start {
+            let canonical_slot = self.slot_vec.get(quotient) & !OCCUPIED_MASK;
+            self.slot_vec.set(quotient, canonical_slot);
+        }
+
         self.len -= 1;
     }
 
-- 
2.43.0


From 8a443b496fe85c43edec3de75f63465446f3aece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:07 +0000
Subject: [PATCH 04/14] fix: quotient filter: reject parameter pairs whose sum
 wraps or whose slots do not fit in 64 bits

quotient_bits + remainder_bits was summed in u8, so 200 + 100 passed the
documented limit of 64; remainders of 62 and 63 bits need slots of more than
64 bits, which the slot vector cannot store.
---
 src/quotient.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/quotient.rs b/src/quotient.rs
index 40a1b03..f72eed7 100644
--- a/src/quotient.rs
+++ b/src/quotient.rs
@@ -78,8 +78,8 @@ impl<T> QuotientFilter<T> {
     ///
     /// # Panics
     ///
-    /// Panics if `quotient_bits` is 0, `remainder_bits` is 0, or if `quotient_bits +
-    /// remainder_bits` is greater than 64.
+    /// Panics if `quotient_bits` is 0, `remainder_bits` is 0, if `quotient_bits +
+    /// remainder_bits` is greater than 64, or if `remainder_bits` is greater than 61.
     ///
     /// # Examples
     ///
@@ -216,8 +216,8 @@ where
     ///
     /// # Panics
     ///
-    /// Panics if `quotient_bits` is 0, `remainder_bits` is 0, or if `quotient_bits +
-    /// remainder_bits` is greater than 64.
+    /// Panics if `quotient_bits` is 0, `remainder_bits` is 0, if `quotient_bits +
+    /// remainder_bits` is greater than 64, or if `remainder_bits` is greater than 61.
     ///
     /// # Examples
     ///
@@ -230,7 +230,8 @@ where
     pub fn with_hasher(quotient_bits: u8, remainder_bits: u8, hash_builder: B) -> Self {
         assert!(quotient_bits > 0);
         assert!(remainder_bits > 0);
-        assert!(quotient_bits + remainder_bits <= 64);
+        assert!(u16::from(quotient_bits) + u16::from(remainder_bits) <= 64);
+        assert!(remainder_bits <= 64 - METADATA_BITS);
         let slot_bits = remainder_bits + METADATA_BITS;
         let slot_vec_len = u64::from(slot_bits) * (1u64 << quotient_bits);
         QuotientFilter {
-- 
2.43.0


From 1bebcfff4888032fa73bede0883eac48c1179081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:38 +0000
Subject: [PATCH 05/14] fix: quotient filter: from_fpp accepts every fpp in (0,
 1) and meets it at capacity

The remainder was sized for a half full filter although the filter is up to
1/1.33 full at capacity, so estimated_fpp() at capacity could exceed fpp; and
an fpp of 0.394 or more asked for 0 remainder bits and panicked.
---
 src/quotient.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/quotient.rs b/src/quotient.rs
index f72eed7..02e1f2c 100644
--- a/src/quotient.rs
+++ b/src/quotient.rs
@@ -268,8 +268,11 @@ where
     /// );
     /// ```
     pub fn from_fpp_with_hasher(capacity: usize, fpp: f64, hash_builder: B) -> Self {
+        assert!(capacity > 0);
+        assert!(fpp > 0.0 && fpp < 1.0);
         let quotient_bits = (capacity as f64 * 1.33).log2().ceil() as u8;
-        let remainder_bits = (1.0 / -2.0 / (1.0 - fpp).ln()).log2().ceil() as u8;
+        // the filter is at most `1 / 1.33` full when it contains `capacity` items
+        let remainder_bits = (1.0 / -1.33 / (-fpp).ln_1p()).log2().ceil().max(1.0) as u8;
         Self::with_hasher(quotient_bits, remainder_bits, hash_builder)
     }
 
-- 
2.43.0


From 750f1d07aac584cac13cc3fb2129241065ed92f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:14 +0000
Subject: [PATCH 06/14] fix: hyperloglog: estimate is the harmonic mean, not
 its reciprocal, and is always finite

get_estimate() returned the reciprocal of the raw estimate, so len() always
used linear counting and was infinite once every register was in use. The
32 bit large range correction (NaN for estimates above 2^32) does not apply to
64 bit hashes.
---
 src/hyperloglog.rs | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/src/hyperloglog.rs b/src/hyperloglog.rs
index eece6a9..1027d81 100644
--- a/src/hyperloglog.rs
+++ b/src/hyperloglog.rs
@@ -20,7 +20,7 @@ use std::marker::PhantomData;
 /// distributed items can be estimated by calculating the maximum number of leading zeros in the
 /// hash of each item in the multiset. It also buckets each item in a register and takes the
 /// harmonic mean of the count in order to reduce the variance. Finally, it uses linear counting
-/// for small cardinalities and small correction for large cardinalities.
+/// for small cardinalities. Hashes have 64 bits, so large cardinalities need no correction.
 ///
 /// # Examples
 ///
@@ -176,14 +176,12 @@ where
 
     fn get_estimate(&self) -> f64 {
         let len = self.registers.len() as f64;
-        1.0 / (self.alpha
-            * len
-            * len
-            * self
+        self.alpha * len * len
+            / self
                 .registers
                 .iter()
                 .map(|value| 1.0 / 2.0f64.powi(i32::from(*value)))
-                .sum::<f64>())
+                .sum::<f64>()
     }
 
     /// Returns the estimated number of distinct items in the `HyperLogLog<T>`.
@@ -202,17 +200,14 @@ where
     /// ```
     pub fn len(&self) -> f64 {
         let len = self.registers.len() as f64;
+        let zeros = self
+            .registers
+            .iter()
+            .map(|value| u64::from(*value == 0))
+            .sum::<u64>();
         match self.get_estimate() {
-            x if x <= 2.5 * len => {
-                let zeros = self
-                    .registers
-                    .iter()
-                    .map(|value| u64::from(*value == 0))
-                    .sum::<u64>();
-                len * (len / zeros as f64).ln()
-            }
-            x if x <= 1.0 / 3.0 * 2.0f64.powi(32) => x,
-            x => -(2.0f64.powi(32)) * (1.0 - x / 2.0f64.powi(32)).ln(),
+            x if x <= 2.5 * len && zeros > 0 => len * (len / zeros as f64).ln(),
+            x => x,
         }
     }
 
-- 
2.43.0


From 6abd7d8c0f3d767ab442a423a15e6668e7dca09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:32 +0000
Subject: [PATCH 07/14] fix: hyperloglog: choose the number of registers from
 the error with log2

The number of index bits was the natural logarithm of (1.04 / error)^2, so the
standard error 1.04 / sqrt(m) was well above the requested one, and an error
below 0.00035 panicked although every error in (0, 1) is documented to work.
---
 src/hyperloglog.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/hyperloglog.rs b/src/hyperloglog.rs
index 1027d81..0b42756 100644
--- a/src/hyperloglog.rs
+++ b/src/hyperloglog.rs
@@ -77,12 +77,11 @@ where
     B: BuildHasher,
 {
     fn get_alpha(p: usize) -> f64 {
-        assert!((..=16).contains(&p));
         match p {
             4 => 0.673,
             5 => 0.697,
             6 => 0.709,
-            p => 0.7213 / (1.0 + 1.079 / f64::from(1 << p)),
+            p => 0.7213 / (1.0 + 1.079 / (1u64 << p) as f64),
         }
     }
 
@@ -102,7 +101,7 @@ where
     /// ```
     pub fn with_hasher(error_probability: f64, hash_builder: B) -> Self {
         assert!(0.0 < error_probability && error_probability < 1.0);
-        let p = (1.04 / error_probability).powi(2).ln().ceil() as usize;
+        let p = (1.04 / error_probability).powi(2).log2().ceil() as usize;
         let alpha = Self::get_alpha(p);
         let registers_len = 1 << p;
         HyperLogLog {
-- 
2.43.0


From 26248a29df64c7c2663224a2b5a8e3a167e940ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:45 +0000
Subject: [PATCH 08/14] fix: shingle iterator: fewer tokens than a shingle
 yield no shingle instead of a panic

tokens.len() - token_count underflowed.
---
 src/similarity/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/similarity/mod.rs b/src/similarity/mod.rs
index 9976323..1e60902 100644
--- a/src/similarity/mod.rs
+++ b/src/similarity/mod.rs
@@ -65,7 +65,7 @@ where
     type Item = Vec<&'a T>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.index > self.tokens.len() - self.token_count {
+        if self.index + self.token_count > self.tokens.len() {
             return None;
         }
         self.index += 1;
-- 
2.43.0


From b22801f1b36cf497ebb147255d271dcf14443672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:45 +0000
Subject: [PATCH 09/14] fix: simhash: report_similarities with fewer items than
 the window size must not underflow

---
 src/similarity/sim_hash.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/similarity/sim_hash.rs b/src/similarity/sim_hash.rs
index dff83fb..cddf1d1 100644
--- a/src/similarity/sim_hash.rs
+++ b/src/similarity/sim_hash.rs
@@ -161,6 +161,8 @@ where
             .map(|(index, shingles)| (self.get_sim_hash(shingles), index))
             .collect();
 
+        // fewer items than the window size fit in a single, smaller window
+        let window_size = cmp::min(window_size, sim_hashes.len());
         let mut similarities = HashSet::new();
 
         for _ in 0..64 {
-- 
2.43.0


From 3e932fd82e814dbc8e66617bd9f318d894c91884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:19 +0000
Subject: [PATCH 10/14] fix: cuckoo filter: capacity is the number of entries,
 not the bits the allocation happens to hold

The backing vector rounds its storage up to whole blocks, so a filter with 4
entries claimed a capacity of 8, and a full scalable filter did not grow.
---
 src/cuckoo/cuckoo_filter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cuckoo/cuckoo_filter.rs b/src/cuckoo/cuckoo_filter.rs
index 9d3545a..002450b 100644
--- a/src/cuckoo/cuckoo_filter.rs
+++ b/src/cuckoo/cuckoo_filter.rs
@@ -649,7 +649,7 @@ where
     /// assert_eq!(filter.capacity(), 128);
     /// ```
     pub fn capacity(&self) -> usize {
-        self.fingerprint_vec.capacity()
+        self.fingerprint_vec.len()
     }
 
     /// Returns the length of each bucket in the cuckoo filter.
-- 
2.43.0


From 1d493560c1ef397b96a8512401674c3997069086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:34 +0000
Subject: [PATCH 11/14] fix: bit vec: truncate must recount the ones that are
 left

---
 src/bit_vec.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bit_vec.rs b/src/bit_vec.rs
index ce7f1b8..e87fa2c 100644
--- a/src/bit_vec.rs
+++ b/src/bit_vec.rs
@@ -199,6 +199,7 @@ impl BitVec {
             self.len = len;
             self.blocks.truncate(Self::get_block_count(len));
             self.clear_extra_bits();
+            self.one_count = self.blocks().map(|block| block.count_ones() as usize).sum();
         }
     }
 
-- 
2.43.0


From a5c91d9dd543b608b2ceac223b7860d7092ba433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:34 +0000
Subject: [PATCH 12/14] fix: bit vec: flip_all must not set the unused bits of
 the last block

They made equal vectors compare unequal and showed up in to_bytes().
---
 src/bit_vec.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bit_vec.rs b/src/bit_vec.rs
index e87fa2c..e17cbcb 100644
--- a/src/bit_vec.rs
+++ b/src/bit_vec.rs
@@ -156,6 +156,7 @@ impl BitVec {
         for block in &mut self.blocks {
             *block = !*block;
         }
+        self.clear_extra_bits();
     }
 
     fn apply<F>(&mut self, other: &BitVec, mut op: F)
-- 
2.43.0


From 76d2b0cefd6f46e0b2271d6ba49b8642a88fa98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:34 +0000
Subject: [PATCH 13/14] fix: bit vec: clone_from must copy the number of ones

---
 src/bit_vec.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bit_vec.rs b/src/bit_vec.rs
index e17cbcb..daded1f 100644
--- a/src/bit_vec.rs
+++ b/src/bit_vec.rs
@@ -294,6 +294,7 @@ impl Clone for BitVec {
     fn clone_from(&mut self, source: &Self) {
         self.len = source.len;
         self.blocks.clone_from(&source.blocks);
+        self.one_count = source.one_count;
     }
 }
 
-- 
2.43.0


From 5bc522bc4d5626dc652dc49559369efab6b1cde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:25 +0000
Subject: [PATCH 14/14] fix: packed vector: pop leaves no stale bits behind

After a pop the bits stayed in a block still in use; pushing 0 afterwards made set
subtract one from the occupied count, which overflowed when it was zero, and vectors
with equal contents compared unequal.
---
 src/bitstring_vec.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/bitstring_vec.rs b/src/bitstring_vec.rs
index 6ffd09e..5357d4f 100644
--- a/src/bitstring_vec.rs
+++ b/src/bitstring_vec.rs
@@ -144,12 +144,11 @@ impl BitstringVec {
         assert!(!self.is_empty());
         let ret = self.get(self.len - 1);
         let len = self.len;
+        // leave no trace of the popped bitstring in a block that other bitstrings still use
+        self.set(len - 1, 0);
         let new_blocks_len = Self::get_block_count(self.bit_count, len - 1);
         self.blocks.truncate(new_blocks_len);
         self.len -= 1;
-        if ret != 0 {
-            self.occupied_len -= 1;
-        }
         ret
     }
 
-- 
2.43.0

