From 198437339e1f5c1b83ccfb267449550e3f7f1bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:44 +0000
Subject: [PATCH 1/8] fix: deserialize string collections from owned strings

FzStringMap and FzStringSet deserialized their keys as borrowed &'de str, so
any input with an escaped string, and any non-borrowing source such as a
reader, was rejected.
---
 frozen-collections-core/src/fz_maps/fz_string_map.rs | 2 +-
 frozen-collections-core/src/fz_sets/fz_string_set.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/frozen-collections-core/src/fz_maps/fz_string_map.rs b/frozen-collections-core/src/fz_maps/fz_string_map.rs
index c33cdf7..a91dd2f 100644
--- a/frozen-collections-core/src/fz_maps/fz_string_map.rs
+++ b/frozen-collections-core/src/fz_maps/fz_string_map.rs
@@ -524,7 +524,7 @@ where
     where
         M: MapAccess<'de>,
     {
-        let mut v: Vec<(&'de str, _)> = Vec::with_capacity(map.size_hint().unwrap_or(0));
+        let mut v: Vec<(Box<str>, _)> = Vec::with_capacity(map.size_hint().unwrap_or(0));
         while let Some(x) = map.next_entry()? {
             v.push(x);
         }
diff --git a/frozen-collections-core/src/fz_sets/fz_string_set.rs b/frozen-collections-core/src/fz_sets/fz_string_set.rs
index 6acc3e8..a842ecb 100644
--- a/frozen-collections-core/src/fz_sets/fz_string_set.rs
+++ b/frozen-collections-core/src/fz_sets/fz_string_set.rs
@@ -299,7 +299,7 @@ where
     where
         M: SeqAccess<'de>,
     {
-        let mut v: Vec<(&str, ())> = Vec::with_capacity(seq.size_hint().unwrap_or(0));
+        let mut v: Vec<(Box<str>, ())> = Vec::with_capacity(seq.size_hint().unwrap_or(0));
         while let Some(x) = seq.next_element()? {
             v.push((x, ()));
         }
-- 
2.43.0


From 7b1b778982f0d2cb0c0d10a80e8d973e44db8c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:04 +0000
Subject: [PATCH 2/8] fix: don't trust size hints when deserializing
 collections

The visitors reserved whatever capacity the input's size hint claimed, so a
corrupt or hostile hint led to a capacity overflow panic or a huge allocation.
---
 frozen-collections-core/src/fz_maps/fz_hash_map.rs    | 2 +-
 frozen-collections-core/src/fz_maps/fz_ordered_map.rs | 2 +-
 frozen-collections-core/src/fz_maps/fz_scalar_map.rs  | 2 +-
 frozen-collections-core/src/fz_maps/fz_string_map.rs  | 2 +-
 frozen-collections-core/src/fz_sets/fz_hash_set.rs    | 2 +-
 frozen-collections-core/src/fz_sets/fz_ordered_set.rs | 2 +-
 frozen-collections-core/src/fz_sets/fz_scalar_set.rs  | 2 +-
 frozen-collections-core/src/fz_sets/fz_string_set.rs  | 2 +-
 frozen-collections-core/src/utils/capacity.rs         | 8 ++++++++
 frozen-collections-core/src/utils/mod.rs              | 4 ++++
 10 files changed, 20 insertions(+), 8 deletions(-)
 create mode 100644 frozen-collections-core/src/utils/capacity.rs

diff --git a/frozen-collections-core/src/fz_maps/fz_hash_map.rs b/frozen-collections-core/src/fz_maps/fz_hash_map.rs
index 847e9a6..4aca982 100644
--- a/frozen-collections-core/src/fz_maps/fz_hash_map.rs
+++ b/frozen-collections-core/src/fz_maps/fz_hash_map.rs
@@ -401,7 +401,7 @@ where
     where
         M: MapAccess<'de>,
     {
-        let mut v = Vec::with_capacity(map.size_hint().unwrap_or(0));
+        let mut v = Vec::with_capacity(crate::utils::cautious_capacity(map.size_hint()));
         while let Some(x) = map.next_entry()? {
             v.push(x);
         }
diff --git a/frozen-collections-core/src/fz_maps/fz_ordered_map.rs b/frozen-collections-core/src/fz_maps/fz_ordered_map.rs
index 0574d2a..e121599 100644
--- a/frozen-collections-core/src/fz_maps/fz_ordered_map.rs
+++ b/frozen-collections-core/src/fz_maps/fz_ordered_map.rs
@@ -338,7 +338,7 @@ where
     where
         M: MapAccess<'de>,
     {
-        let mut v = Vec::with_capacity(map.size_hint().unwrap_or(0));
+        let mut v = Vec::with_capacity(crate::utils::cautious_capacity(map.size_hint()));
         while let Some(x) = map.next_entry()? {
             v.push(x);
         }
diff --git a/frozen-collections-core/src/fz_maps/fz_scalar_map.rs b/frozen-collections-core/src/fz_maps/fz_scalar_map.rs
index 7ab287f..628f9df 100644
--- a/frozen-collections-core/src/fz_maps/fz_scalar_map.rs
+++ b/frozen-collections-core/src/fz_maps/fz_scalar_map.rs
@@ -423,7 +423,7 @@ where
     where
         M: MapAccess<'de>,
     {
-        let mut v = Vec::with_capacity(map.size_hint().unwrap_or(0));
+        let mut v = Vec::with_capacity(crate::utils::cautious_capacity(map.size_hint()));
         while let Some(x) = map.next_entry()? {
             v.push(x);
         }
diff --git a/frozen-collections-core/src/fz_maps/fz_string_map.rs b/frozen-collections-core/src/fz_maps/fz_string_map.rs
index a91dd2f..58d81b7 100644
--- a/frozen-collections-core/src/fz_maps/fz_string_map.rs
+++ b/frozen-collections-core/src/fz_maps/fz_string_map.rs
@@ -524,7 +524,7 @@ where
     where
         M: MapAccess<'de>,
     {
-        let mut v: Vec<(Box<str>, _)> = Vec::with_capacity(map.size_hint().unwrap_or(0));
+        let mut v: Vec<(Box<str>, _)> = Vec::with_capacity(crate::utils::cautious_capacity(map.size_hint()));
         while let Some(x) = map.next_entry()? {
             v.push(x);
         }
diff --git a/frozen-collections-core/src/fz_sets/fz_hash_set.rs b/frozen-collections-core/src/fz_sets/fz_hash_set.rs
index 16a7f87..de5a223 100644
--- a/frozen-collections-core/src/fz_sets/fz_hash_set.rs
+++ b/frozen-collections-core/src/fz_sets/fz_hash_set.rs
@@ -315,7 +315,7 @@ where
     where
         M: SeqAccess<'de>,
     {
-        let mut v = Vec::with_capacity(seq.size_hint().unwrap_or(0));
+        let mut v = Vec::with_capacity(crate::utils::cautious_capacity(seq.size_hint()));
         while let Some(x) = seq.next_element()? {
             v.push((x, ()));
         }
diff --git a/frozen-collections-core/src/fz_sets/fz_ordered_set.rs b/frozen-collections-core/src/fz_sets/fz_ordered_set.rs
index 54081ef..398d020 100644
--- a/frozen-collections-core/src/fz_sets/fz_ordered_set.rs
+++ b/frozen-collections-core/src/fz_sets/fz_ordered_set.rs
@@ -261,7 +261,7 @@ where
     where
         M: SeqAccess<'de>,
     {
-        let mut v = Vec::with_capacity(seq.size_hint().unwrap_or(0));
+        let mut v = Vec::with_capacity(crate::utils::cautious_capacity(seq.size_hint()));
         while let Some(x) = seq.next_element()? {
             v.push((x, ()));
         }
diff --git a/frozen-collections-core/src/fz_sets/fz_scalar_set.rs b/frozen-collections-core/src/fz_sets/fz_scalar_set.rs
index f03e289..0d4a695 100644
--- a/frozen-collections-core/src/fz_sets/fz_scalar_set.rs
+++ b/frozen-collections-core/src/fz_sets/fz_scalar_set.rs
@@ -255,7 +255,7 @@ where
     where
         M: SeqAccess<'de>,
     {
-        let mut v = Vec::with_capacity(seq.size_hint().unwrap_or(0));
+        let mut v = Vec::with_capacity(crate::utils::cautious_capacity(seq.size_hint()));
         while let Some(x) = seq.next_element()? {
             v.push((x, ()));
         }
diff --git a/frozen-collections-core/src/fz_sets/fz_string_set.rs b/frozen-collections-core/src/fz_sets/fz_string_set.rs
index a842ecb..ea7cf0e 100644
--- a/frozen-collections-core/src/fz_sets/fz_string_set.rs
+++ b/frozen-collections-core/src/fz_sets/fz_string_set.rs
@@ -299,7 +299,7 @@ where
     where
         M: SeqAccess<'de>,
     {
-        let mut v: Vec<(Box<str>, ())> = Vec::with_capacity(seq.size_hint().unwrap_or(0));
+        let mut v: Vec<(Box<str>, ())> = Vec::with_capacity(crate::utils::cautious_capacity(seq.size_hint()));
         while let Some(x) = seq.next_element()? {
             v.push((x, ()));
         }
diff --git a/frozen-collections-core/src/utils/capacity.rs b/frozen-collections-core/src/utils/capacity.rs
new file mode 100644
index 0000000..36092d0
--- /dev/null
+++ b/frozen-collections-core/src/utils/capacity.rs
@@ -0,0 +1,8 @@
+/// The capacity to reserve up front when deserializing a collection.
+///
+/// The size hint comes straight from the input and can't be trusted, so this puts a cap on it.
+pub fn cautious_capacity(size_hint: Option<usize>) -> usize {
+    const MAX_UPFRONT_CAPACITY: usize = 1024;
+
+    size_hint.unwrap_or(0).min(MAX_UPFRONT_CAPACITY)
+}
diff --git a/frozen-collections-core/src/utils/mod.rs b/frozen-collections-core/src/utils/mod.rs
index 27a3813..85ab6c1 100644
--- a/frozen-collections-core/src/utils/mod.rs
+++ b/frozen-collections-core/src/utils/mod.rs
@@ -1,11 +1,15 @@
 //! Utility functions and types for internal use.
 
 pub use bitvec::*;
+#[cfg(feature = "serde")]
+pub use capacity::*;
 pub use dedup::*;
 pub use eytzinger::*;
 pub use hints::*;
 
 mod bitvec;
+#[cfg(feature = "serde")]
+mod capacity;
 mod dedup;
 mod eytzinger;
 mod hints;
-- 
2.43.0


From 18bf95a7b9e75912eef83e2f95f341e70a96751e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:38 +0000
Subject: [PATCH 3/8] fix: handle scalar keys spanning the full usize range

Computing the size of the key range overflowed when the smallest and largest
keys were usize::MAX apart, making construction panic.
---
 .../src/analyzers/scalar_key_analyzer.rs                 | 9 +++++----
 .../src/maps/dense_scalar_lookup_map.rs                  | 2 +-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/frozen-collections-core/src/analyzers/scalar_key_analyzer.rs b/frozen-collections-core/src/analyzers/scalar_key_analyzer.rs
index db83611..60ef72e 100644
--- a/frozen-collections-core/src/analyzers/scalar_key_analyzer.rs
+++ b/frozen-collections-core/src/analyzers/scalar_key_analyzer.rs
@@ -21,7 +21,7 @@ pub fn analyze_scalar_keys(keys: impl Iterator<Item: Scalar>) -> ScalarKeyAnalys
 
     let mut min = usize::MAX;
     let mut max = usize::MIN;
-    let mut count = 0;
+    let mut count: usize = 0;
     for key in keys {
         min = min.min(key.index());
         max = max.max(key.index());
@@ -32,10 +32,11 @@ pub fn analyze_scalar_keys(keys: impl Iterator<Item: Scalar>) -> ScalarKeyAnalys
         return ScalarKeyAnalysisResult::General;
     }
 
-    let needed_count = max - min + 1;
-    if needed_count == count {
+    // the number of extra lookup slots needed past the first one, the full count can overflow
+    let range = max - min;
+    if range == count - 1 {
         ScalarKeyAnalysisResult::DenseRange
-    } else if needed_count <= ALWAYS_SPARSE_THRESHOLD || needed_count < count.saturating_mul(MAX_SPARSE_MULTIPLIER) {
+    } else if range < ALWAYS_SPARSE_THRESHOLD || range < count.saturating_mul(MAX_SPARSE_MULTIPLIER) - 1 {
         ScalarKeyAnalysisResult::SparseRange
     } else {
         ScalarKeyAnalysisResult::General
diff --git a/frozen-collections-core/src/maps/dense_scalar_lookup_map.rs b/frozen-collections-core/src/maps/dense_scalar_lookup_map.rs
index a3ced24..6c8628b 100644
--- a/frozen-collections-core/src/maps/dense_scalar_lookup_map.rs
+++ b/frozen-collections-core/src/maps/dense_scalar_lookup_map.rs
@@ -51,7 +51,7 @@ impl<K, V> DenseScalarLookupMap<K, V> {
         let min = entries[0].0.index();
         let max = entries[entries.len() - 1].0.index();
 
-        if entries.len() == max - min + 1 {
+        if entries.len() - 1 == max - min {
             Ok(Self::from_sorted_and_dedupped(entries))
         } else {
             Err("keys must be in a contiguous range <= usize::MAX in size".to_string())
-- 
2.43.0


From 4cdff77b1d431437abd3607a865b8a2e4e2e496d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:38 +0000
Subject: [PATCH 4/8] fix: keep the size hint of Union accurate during
 iteration

Once the larger set was exhausted, the lower bound kept counting the items of
the smaller set, even though those may already have been produced.
---
 frozen-collections-core/src/sets/iterators.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/frozen-collections-core/src/sets/iterators.rs b/frozen-collections-core/src/sets/iterators.rs
index 8e09c62..58e2016 100644
--- a/frozen-collections-core/src/sets/iterators.rs
+++ b/frozen-collections-core/src/sets/iterators.rs
@@ -1,5 +1,5 @@
 use crate::traits::{Set, SetIteration, SetOps};
-use core::cmp::{max, min};
+use core::cmp::min;
 use core::fmt::{Debug, Formatter};
 use core::iter::{Chain, FusedIterator};
 
@@ -178,7 +178,10 @@ where
             }
         }
 
-        (max(h1.0, h2.0), max_bound)
+        // everything left in the larger set is produced, what's left in the smaller set may all be duplicates
+        let min_bound = if self.s1.len() > self.s2.len() { h1.0 } else { h2.0 };
+
+        (min_bound, max_bound)
     }
 }
 
-- 
2.43.0


From 6963dade9d06fffd824d54c8d345ec4271901daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:40 +0000
Subject: [PATCH 5/8] fix: get_disjoint_mut must never return aliasing
 references

Only the query keys were compared with one another. Query keys which differ but
are equivalent to the same map key yielded several mutable references to the
same value.
---
 .../src/maps/decl_macros.rs                   | 15 +++++++++++++--
 frozen-collections-core/src/utils/dedup.rs    | 19 +++++++++++++++++++
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/frozen-collections-core/src/maps/decl_macros.rs b/frozen-collections-core/src/maps/decl_macros.rs
index cfdaac1..5c3c46e 100644
--- a/frozen-collections-core/src/maps/decl_macros.rs
+++ b/frozen-collections-core/src/maps/decl_macros.rs
@@ -258,8 +258,19 @@ macro_rules! get_disjoint_mut_funcs {
             panic!("duplicate keys found");
         }
 
-        // SAFETY: We've validated that the caller isn't asking for duplicate keys
-        return unsafe { $self.get_disjoint_unchecked_mut($keys) };
+        let ptrs: [Option<::core::ptr::NonNull<V>>; N] =
+            ::core::array::from_fn(|i| $self.get_mut($keys[i]).map(::core::ptr::NonNull::from));
+
+        // Query keys can be different from one another and still be equivalent to the same map key.
+        if crate::utils::has_aliases(&ptrs) {
+            crate::utils::cold();
+            panic!("duplicate keys found");
+        }
+
+        return ptrs.map(|ptr| ptr.map(|mut ptr|
+            // SAFETY: pointers all safely acquired above, and we've validated that they're distinct
+            unsafe { ptr.as_mut() }
+        ));
     };
 
     (@unsafe_body, $self:ident, $keys:ident) => {
diff --git a/frozen-collections-core/src/utils/dedup.rs b/frozen-collections-core/src/utils/dedup.rs
index e823914..ce449d1 100644
--- a/frozen-collections-core/src/utils/dedup.rs
+++ b/frozen-collections-core/src/utils/dedup.rs
@@ -2,6 +2,7 @@
 
 use core::cmp::Ordering;
 use core::ops::Index;
+use core::ptr::NonNull;
 use hashbrown::HashSet as HashbrownSet;
 use hashbrown::HashTable as HashbrownTable;
 
@@ -185,6 +186,24 @@ where
     false
 }
 
+/// Determines whether any two pointers designate the same value (assumes `ptrs` is a relatively small array).
+pub fn has_aliases<T>(ptrs: &[Option<NonNull<T>>]) -> bool {
+    // distinct zero-sized values can share an address, and aliasing those is harmless
+    if size_of::<T>() == 0 {
+        return false;
+    }
+
+    for i in 0..ptrs.len() {
+        for j in 0..i {
+            if ptrs[i].is_some() && ptrs[j] == ptrs[i] {
+                return true;
+            }
+        }
+    }
+
+    false
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 4fbe4d3f16a92cb925d290c268acbc5800e05be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:41 +0000
Subject: [PATCH 6/8] fix: don't depend on Scalar::index being consistent for
 memory safety

The lookup bounds of dense scalar maps came from calling the user-provided
Scalar::index function again. An implementation which returned a different
value from before led to out of bounds accesses.
---
 .../src/maps/dense_scalar_lookup_map.rs                   | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/frozen-collections-core/src/maps/dense_scalar_lookup_map.rs b/frozen-collections-core/src/maps/dense_scalar_lookup_map.rs
index 6c8628b..82c4f45 100644
--- a/frozen-collections-core/src/maps/dense_scalar_lookup_map.rs
+++ b/frozen-collections-core/src/maps/dense_scalar_lookup_map.rs
@@ -67,9 +67,13 @@ impl<K, V> DenseScalarLookupMap<K, V> {
     where
         K: Scalar,
     {
+        let min = entries[0].0.index();
+
         Self {
-            min: entries[0].0.index(),
-            max: entries[entries.len() - 1].0.index(),
+            min,
+
+            // Lookups rely on this for memory safety, so it can't depend on the behavior of `Scalar::index`.
+            max: min.saturating_add(entries.len() - 1),
             entries: entries.into_boxed_slice(),
         }
     }
-- 
2.43.0


From b9513aed0b10232fbf1cc5566c338d463378f3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:15 +0000
Subject: [PATCH 7/8] fix: get_disjoint_mut must not return two references to
 one zero-sized value

The check for keys that designate the same entry skipped zero-sized values,
although the values of distinct entries have distinct addresses as long as
the entries themselves have a size.
---
 frozen-collections-core/src/utils/dedup.rs | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/frozen-collections-core/src/utils/dedup.rs b/frozen-collections-core/src/utils/dedup.rs
index ce449d1..0a955e2 100644
--- a/frozen-collections-core/src/utils/dedup.rs
+++ b/frozen-collections-core/src/utils/dedup.rs
@@ -188,11 +188,6 @@ where
 
 /// Determines whether any two pointers designate the same value (assumes `ptrs` is a relatively small array).
 pub fn has_aliases<T>(ptrs: &[Option<NonNull<T>>]) -> bool {
-    // distinct zero-sized values can share an address, and aliasing those is harmless
-    if size_of::<T>() == 0 {
-        return false;
-    }
-
     for i in 0..ptrs.len() {
         for j in 0..i {
             if ptrs[i].is_some() && ptrs[j] == ptrs[i] {
-- 
2.43.0


From fabadf2cee0d5b6539da0608036b93861c627cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:19 +0000
Subject: [PATCH 8/8] fix: tell zero-sized values apart by their keys in
 get_disjoint_mut

The values of a BTreeMap share an address when they have no size.
---
 frozen-collections-core/src/maps/decl_macros.rs | 11 ++++++++++-
 frozen-collections-core/src/utils/dedup.rs      |  2 +-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/frozen-collections-core/src/maps/decl_macros.rs b/frozen-collections-core/src/maps/decl_macros.rs
index 5c3c46e..2359a6c 100644
--- a/frozen-collections-core/src/maps/decl_macros.rs
+++ b/frozen-collections-core/src/maps/decl_macros.rs
@@ -262,7 +262,16 @@ macro_rules! get_disjoint_mut_funcs {
             ::core::array::from_fn(|i| $self.get_mut($keys[i]).map(::core::ptr::NonNull::from));
 
         // Query keys can be different from one another and still be equivalent to the same map key.
-        if crate::utils::has_aliases(&ptrs) {
+        let aliased = if size_of::<V>() == 0 {
+            // distinct zero-sized values can share an address, so look at the keys instead
+            let keys: [Option<::core::ptr::NonNull<K>>; N] =
+                ::core::array::from_fn(|i| $self.get_key_value($keys[i]).map(|(key, _)| ::core::ptr::NonNull::from(key)));
+            crate::utils::has_aliases(&keys)
+        } else {
+            crate::utils::has_aliases(&ptrs)
+        };
+
+        if aliased {
             crate::utils::cold();
             panic!("duplicate keys found");
         }
diff --git a/frozen-collections-core/src/utils/dedup.rs b/frozen-collections-core/src/utils/dedup.rs
index 0a955e2..4669dcb 100644
--- a/frozen-collections-core/src/utils/dedup.rs
+++ b/frozen-collections-core/src/utils/dedup.rs
@@ -186,7 +186,7 @@ where
     false
 }
 
-/// Determines whether any two pointers designate the same value (assumes `ptrs` is a relatively small array).
+/// Determines whether any two pointers are the same (assumes `ptrs` is a relatively small array).
 pub fn has_aliases<T>(ptrs: &[Option<NonNull<T>>]) -> bool {
     for i in 0..ptrs.len() {
         for j in 0..i {
-- 
2.43.0

