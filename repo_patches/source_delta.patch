From fb02ab078c058a6c67141bf2209fc1be833b0fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:44 +0000
Subject: [PATCH 01/14] fix: count all 256 possible elements when making a byte
 array sparse

The histogram had only 8 entries, so any element above 7 panicked.
---
 src/array/owned.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/array/owned.rs b/src/array/owned.rs
index 0ae51bc..2440e9b 100644
--- a/src/array/owned.rs
+++ b/src/array/owned.rs
@@ -490,7 +490,7 @@ impl From<&DenseArrayValue> for SparseArrayValue {
             }
             DenseArrayImpl::U8(data) => {
                 // find default value
-                let mut count = [0usize; u8::BITS as usize];
+                let mut count = [0usize; u8::MAX as usize + 1];
                 for bit in 0..value.num_elements() {
                     count[data[bit] as usize] += 1;
                 }
-- 
2.43.0


From a54e03dbde430649b609b9741c8b6d05e4d04492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:44 +0000
Subject: [PATCH 02/14] fix: use the index width for indices when making a wide
 sparse array dense

---
 src/array/owned.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/array/owned.rs b/src/array/owned.rs
index 2440e9b..7302716 100644
--- a/src/array/owned.rs
+++ b/src/array/owned.rs
@@ -449,7 +449,7 @@ impl From<&SparseArrayValue> for DenseArrayValue {
                 }
             }
             SparseArrayImpl::U64Big(_, m) => {
-                let mut index_bv = BitVecValue::zero(value.data_width);
+                let mut index_bv = BitVecValue::zero(value.index_width);
                 for (k, v) in m.iter() {
                     index_bv.assign_from_u64(*k);
                     dense.store(&index_bv, v);
-- 
2.43.0


From 7955badc19961cf761f73738e9e80eccd8b17526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:44 +0000
Subject: [PATCH 03/14] fix: look up wide sparse array indices with an owned
 key

The lookup by BitVecValueRef goes through a Borrow implementation that is a todo!().
---
 src/array/owned.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/array/owned.rs b/src/array/owned.rs
index 7302716..bd0f04f 100644
--- a/src/array/owned.rs
+++ b/src/array/owned.rs
@@ -785,6 +785,7 @@ impl ArrayOps for SparseArrayValue {
                 value
             }
             SparseArrayImpl::BigBig(default, map) => {
+                let index = BitVecValue::from(index);
                 let value = map.get(&index).cloned().unwrap_or_else(|| default.clone());
                 value
             }
@@ -823,11 +824,12 @@ impl ArrayMutOps for SparseArrayValue {
                 }
             }
             SparseArrayImpl::BigBig(default, map) => {
+                let index = BitVecValue::from(index);
                 if data.is_equal(default) {
                     // ensures that the default value is used for the given index
                     map.remove(&index);
                 } else {
-                    map.insert(index.into(), data.into());
+                    map.insert(index, data.into());
                 }
             }
         }
-- 
2.43.0


From b862e31d90ec934a79987a9efa5599983ca84c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:44 +0000
Subject: [PATCH 04/14] fix: compare sparse arrays with different defaults by
 their contents

---
 src/array/owned.rs | 66 +++++++++++++++++++++++++++-------------------
 1 file changed, 39 insertions(+), 27 deletions(-)

diff --git a/src/array/owned.rs b/src/array/owned.rs
index bd0f04f..476d4ec 100644
--- a/src/array/owned.rs
+++ b/src/array/owned.rs
@@ -9,6 +9,7 @@ use crate::{
 };
 use std::collections::HashMap;
 use std::fmt::{Debug, Formatter};
+use std::hash::Hash;
 
 /// Owned Array Container.
 #[derive(Clone)]
@@ -117,6 +118,29 @@ impl PartialEq<ArrayValue> for ArrayValue {
     }
 }
 
+/// Checks whether two sparse arrays of the same type have the same contents.
+fn is_equal_maps<K: Eq + Hash, V: PartialEq>(
+    index_width: WidthInt,
+    (default_a, map_a): (&V, &HashMap<K, V>),
+    (default_b, map_b): (&V, &HashMap<K, V>),
+) -> bool {
+    if default_a == default_b {
+        // here we rely on the fact that the default value may never appear in the map
+        return map_a.len() == map_b.len() && map_a == map_b;
+    }
+    // With different defaults, the contents can only be the same when there is no index left at
+    // which both arrays use their default.
+    let only_in_b = map_b.keys().filter(|k| !map_a.contains_key(k)).count();
+    let num_stored = map_a.len() + only_in_b;
+    1usize.checked_shl(index_width) == Some(num_stored)
+        && map_a
+            .iter()
+            .all(|(k, v)| map_b.get(k).unwrap_or(default_b) == v)
+        && map_b
+            .iter()
+            .all(|(k, v)| map_a.get(k).unwrap_or(default_a) == v)
+}
+
 fn is_equal_mixed(dense: &DenseArrayValue, sparse: &SparseArrayValue) -> Option<bool> {
     // check early to avoid costly computations
     if dense.index_width != sparse.index_width || dense.data_width != sparse.data_width {
@@ -619,39 +643,27 @@ impl SparseArrayValue {
             (
                 SparseArrayImpl::U64U64(default_a, map_a),
                 SparseArrayImpl::U64U64(default_b, map_b),
-            ) => {
-                if default_a == default_b {
-                    // here we rely on the fact that the default value may never appear in the map
-                    if map_a.len() == map_b.len() {
-                        return Some(map_a == map_b);
-                    }
-                }
-                Some(false)
-            }
+            ) => Some(is_equal_maps(
+                self.index_width,
+                (default_a, map_a),
+                (default_b, map_b),
+            )),
             (
                 SparseArrayImpl::U64Big(default_a, map_a),
                 SparseArrayImpl::U64Big(default_b, map_b),
-            ) => {
-                if default_a == default_b {
-                    // here we rely on the fact that the default value may never appear in the map
-                    if map_a.len() == map_b.len() {
-                        return Some(map_a == map_b);
-                    }
-                }
-                Some(false)
-            }
+            ) => Some(is_equal_maps(
+                self.index_width,
+                (default_a, map_a),
+                (default_b, map_b),
+            )),
             (
                 SparseArrayImpl::BigBig(default_a, map_a),
                 SparseArrayImpl::BigBig(default_b, map_b),
-            ) => {
-                if default_a == default_b {
-                    // here we rely on the fact that the default value may never appear in the map
-                    if map_a.len() == map_b.len() {
-                        return Some(map_a == map_b);
-                    }
-                }
-                Some(false)
-            }
+            ) => Some(is_equal_maps(
+                self.index_width,
+                (default_a, map_a),
+                (default_b, map_b),
+            )),
             _ => unreachable!(
                 "the representation for two arrays of the same type should always be the same!"
             ),
-- 
2.43.0


From 43672b4e4d8883f7d30fc7c6f63c514c2f99c053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:44 +0000
Subject: [PATCH 05/14] fix: refuse dense arrays whose number of elements
 cannot be represented

In release builds the shift wrapped around and a tiny array was created instead.
---
 src/array/owned.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/array/owned.rs b/src/array/owned.rs
index 476d4ec..670eb76 100644
--- a/src/array/owned.rs
+++ b/src/array/owned.rs
@@ -220,7 +220,9 @@ fn index_width_from_len(len: usize) -> WidthInt {
 
 #[inline]
 fn num_elements_from_index_width(index_width: WidthInt) -> usize {
-    1usize << index_width
+    1usize
+        .checked_shl(index_width)
+        .expect("index width is too large for a dense array")
 }
 
 impl From<&[bool]> for DenseArrayValue {
@@ -286,7 +288,7 @@ enum DenseArrayImpl {
 const DENSE_ARRAY_MAX_BYTES: usize = 1024 * 1024 * 1024;
 
 fn approx_dense_storage_size(index_width: WidthInt, data_width: WidthInt) -> usize {
-    let elements = 1usize << index_width;
+    let elements = num_elements_from_index_width(index_width);
     if data_width == 1 {
         // using the Bit representation
         elements.div_ceil(u8::BITS as usize)
@@ -312,13 +314,14 @@ impl DenseArrayValue {
             "array would take up too much space: {storage_size} bytes"
         );
 
-        let elements = 1usize << index_width;
+        let elements = num_elements_from_index_width(index_width);
         let data = if data_width == 1 {
+            let width = WidthInt::try_from(elements).expect("too many elements for a dense array");
             if default.is_tru() {
-                DenseArrayImpl::Bit(BitVecValue::ones(elements as WidthInt))
+                DenseArrayImpl::Bit(BitVecValue::ones(width))
             } else {
                 debug_assert!(default.is_fals());
-                DenseArrayImpl::Bit(BitVecValue::zero(elements as WidthInt))
+                DenseArrayImpl::Bit(BitVecValue::zero(width))
             }
         } else if data_width <= u8::BITS {
             let default = default.to_u64().unwrap() as u8;
@@ -327,7 +330,10 @@ impl DenseArrayValue {
             let default = default.to_u64().unwrap();
             DenseArrayImpl::U64(vec![default; elements])
         } else {
-            let mut v = Vec::with_capacity(elements * default.words().len());
+            let num_words = elements
+                .checked_mul(default.words().len())
+                .expect("too many elements for a dense array");
+            let mut v = Vec::with_capacity(num_words);
             for _ in 0..elements {
                 v.extend_from_slice(default.words());
             }
-- 
2.43.0


From 0ea40a5acf1f2b335f8a8f6e4c138e2cf392bd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:44 +0000
Subject: [PATCH 06/14] fix: allow assigning zero to a zero-width value

Indices of arrays with a single element have no bits.
---
 src/bv/ops.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/bv/ops.rs b/src/bv/ops.rs
index 8063b3e..672cb1a 100644
--- a/src/bv/ops.rs
+++ b/src/bv/ops.rs
@@ -423,11 +423,13 @@ pub trait BitVecMutOps: BitVecOps {
         // clear all words
         self.clear();
         // assign lsb
-        self.words_mut()[0] = value;
-        // make sure the value agrees with the bit width
-        self.mask_msb();
+        if let Some(lsb) = self.words_mut().first_mut() {
+            *lsb = value;
+            // make sure the value agrees with the bit width
+            self.mask_msb();
+        }
         debug_assert_eq!(
-            self.words()[0],
+            self.words().first().copied().unwrap_or(0),
             value,
             "value {value} does not fit into {} bits",
             self.width()
-- 
2.43.0


From d3affbf049c0ec86e6a0c75e4d9d3b18157326fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:16 +0000
Subject: [PATCH 07/14] fix: assigning from a string replaces the whole value
 or nothing

Short numerals left stale upper words behind and a parse error left a partially
overwritten value.
---
 src/bv/ops.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bv/ops.rs b/src/bv/ops.rs
index 672cb1a..aa284d1 100644
--- a/src/bv/ops.rs
+++ b/src/bv/ops.rs
@@ -482,7 +482,11 @@ pub trait BitVecMutOps: BitVecOps {
 
     fn assign_from_str_radix(&mut self, value: &str, radix: u32) -> Result<(), ParseIntError> {
         let width = self.width();
-        crate::bv::io::strings::from_str_radix(value, radix, self.words_mut(), width)
+        // parse into a fresh value: neither old words nor a failed attempt may show in the result
+        let mut words = value_vec_zeros(width);
+        crate::bv::io::strings::from_str_radix(value, radix, &mut words, width)?;
+        self.words_mut().copy_from_slice(&words);
+        Ok(())
     }
 
     fn set_bit(&mut self, pos: WidthInt) {
-- 
2.43.0


From cce6fd30eaef71acd88b519265a444817733125d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:07 +0000
Subject: [PATCH 08/14] fix: refuse numerals that do not fit into the requested
 width

Values were accepted with bits set beyond the width, and too many hex digits
panicked. Leading zeros do not count.
---
 src/bv/io/strings.rs | 40 +++++++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/src/bv/io/strings.rs b/src/bv/io/strings.rs
index 830b575..f0a5742 100644
--- a/src/bv/io/strings.rs
+++ b/src/bv/io/strings.rs
@@ -2,7 +2,7 @@
 // released under BSD 3-Clause License
 // author: Kevin Laeufer <laeufer@berkeley.edu>
 
-use crate::bv::arithmetic::{is_neg, negate_in_place};
+use crate::bv::arithmetic::{is_neg, mask, negate_in_place};
 use crate::{WidthInt, Word};
 use std::fmt::Write;
 
@@ -282,21 +282,19 @@ pub(crate) fn from_str_radix(
             match radix {
                 2 => parse_base_2(digits, out, width)?,
                 10 => parse_base_10(digits, out, width)?,
-                16 => parse_base_16(digits, out)?,
+                16 => parse_base_16(digits, out, width)?,
                 _ => todo!("Implement support for base {radix}. Currently the following bases are available: 2, 10, 16"),
             };
         }
     }
 
-    // TODO: check width
-    // let m = super::super::arithmetic::mask(width);
-    // if *out != *out & m {
-    //     Err(ParseIntError {
-    //         kind: IntErrorKind::ExceedsWidth,
-    //     })
-    // } else {
-    //     Ok(())
-    // }
+    // check width
+    let unused_msbs = !mask(width % Word::BITS);
+    if out.last().is_some_and(|msb| msb & unused_msbs != 0) {
+        return Err(ParseIntError {
+            kind: IntErrorKind::ExceedsWidth,
+        });
+    }
 
     if is_negative {
         negate_in_place(out, width)
@@ -304,8 +302,24 @@ pub(crate) fn from_str_radix(
     Ok(())
 }
 
-fn parse_base_16(digits: &[u8], out: &mut [Word]) -> Result<WidthInt, ParseIntError> {
+/// Removes leading zeros, but always leaves at least one digit.
+fn strip_leading_zeros(digits: &[u8]) -> &[u8] {
+    let zeros = digits.iter().take_while(|d| **d == b'0').count();
+    &digits[zeros.min(digits.len().saturating_sub(1))..]
+}
+
+fn parse_base_16(
+    digits: &[u8],
+    out: &mut [Word],
+    max_width: WidthInt,
+) -> Result<WidthInt, ParseIntError> {
+    let digits = strip_leading_zeros(digits);
     let num_digits = digits.len();
+    if num_digits > max_width.div_ceil(BITS_PER_HEX_DIGIT) as usize {
+        return Err(ParseIntError {
+            kind: IntErrorKind::ExceedsWidth,
+        });
+    }
     let words = (num_digits as u32 * BITS_PER_HEX_DIGIT).div_ceil(Word::BITS);
     let mut word = 0 as Word;
     let mut out_ii = (words - 1) as usize;
@@ -340,8 +354,8 @@ fn parse_base_2(
     out: &mut [Word],
     max_width: WidthInt,
 ) -> Result<WidthInt, ParseIntError> {
+    let digits = strip_leading_zeros(digits);
     let width = digits.len() as WidthInt;
-    // TODO: ignore zeros
     if width > max_width {
         return Err(ParseIntError {
             kind: IntErrorKind::ExceedsWidth,
-- 
2.43.0


From 95019b7271cb65e3f0c007eda809632c4bbdc5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:07 +0000
Subject: [PATCH 09/14] fix: print all digits of the smallest negative number

The sign bit of its absolute value was cut off. Also do not read the wrong words
when the sign bit has a word of its own.
---
 src/bv/io/strings.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/bv/io/strings.rs b/src/bv/io/strings.rs
index f0a5742..9de89be 100644
--- a/src/bv/io/strings.rs
+++ b/src/bv/io/strings.rs
@@ -26,9 +26,20 @@ pub(crate) fn to_bit_str_signed(values: &[Word], width: WidthInt) -> String {
         negate_in_place(&mut copy, width);
         let mut out = String::with_capacity(width as usize + 1);
         out.push('-');
-        to_bit_str_internal(&copy, width - 1, out)
+        let width = magnitude_width(&copy, width);
+        to_bit_str_internal(select_words_for_width(&copy, width), width, out)
     } else {
-        to_bit_str(values, width - 1)
+        to_bit_str(select_words_for_width(values, width - 1), width - 1)
+    }
+}
+
+/// The number of bits needed for the absolute value of a negative number. All of them for the
+/// smallest negative number, which is its own negation.
+fn magnitude_width(negated: &[Word], width: WidthInt) -> WidthInt {
+    if is_neg(negated, width) {
+        width
+    } else {
+        width - 1
     }
 }
 
@@ -76,7 +87,8 @@ pub(crate) fn to_hex_str_signed(values: &[Word], width: WidthInt) -> String {
         negate_in_place(&mut copy, width);
         let mut out = String::with_capacity(width as usize + 1);
         out.push('-');
-        to_hex_str_internal(select_words_for_width(&copy, width - 1), width - 1, out)
+        let width = magnitude_width(&copy, width);
+        to_hex_str_internal(select_words_for_width(&copy, width), width, out)
     } else {
         to_hex_str(select_words_for_width(values, width - 1), width - 1)
     }
-- 
2.43.0


From 54836095b25d855f2da9a0df62c6606ef6d62700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:07 +0000
Subject: [PATCH 10/14] fix: equal values of more than one word are greater or
 equal

---
 src/bv/ops.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bv/ops.rs b/src/bv/ops.rs
index aa284d1..a1dd7a9 100644
--- a/src/bv/ops.rs
+++ b/src/bv/ops.rs
@@ -244,7 +244,7 @@ pub trait BitVecOps {
             // specialized for 1-word case
             crate::bv::arithmetic::cmp_greater_equal(&self.words()[0..1], &rhs.words()[0..1])
         } else {
-            crate::bv::arithmetic::cmp_greater(self.words(), rhs.words())
+            crate::bv::arithmetic::cmp_greater_equal(self.words(), rhs.words())
         }
     }
 
-- 
2.43.0


From 7237bd7c0454b2d7e7119e7d1894df2d24de99e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:07 +0000
Subject: [PATCH 11/14] fix: convert small negative numbers of any width to i64

---
 src/bv/ops.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/bv/ops.rs b/src/bv/ops.rs
index a1dd7a9..7517538 100644
--- a/src/bv/ops.rs
+++ b/src/bv/ops.rs
@@ -166,7 +166,12 @@ pub trait BitVecOps {
         } else {
             let all_zero_msbs = self.words().iter().skip(1).all(|w| *w == 0);
             let word_0 = self.words()[0];
-            let all_max_msbs = self.words().iter().skip(1).all(|w| *w == Word::MAX);
+            // all upper bits are one, the most significant word might not use all of its bits
+            let msb = crate::bv::arithmetic::mask(self.width() % Word::BITS);
+            let upper = &self.words()[1..];
+            let all_max_msbs = upper
+                .split_last()
+                .is_some_and(|(last, rest)| *last == msb && rest.iter().all(|w| *w == Word::MAX));
             match (
                 all_zero_msbs,
                 all_max_msbs,
-- 
2.43.0


From 8aa73a71db239599c04a311ac640c1d1bcee69b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:41 +0000
Subject: [PATCH 12/14] fix: refuse negative numerals that do not fit into the
 requested width

---
 src/bv/io/strings.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/bv/io/strings.rs b/src/bv/io/strings.rs
index 9de89be..84a531c 100644
--- a/src/bv/io/strings.rs
+++ b/src/bv/io/strings.rs
@@ -309,7 +309,14 @@ pub(crate) fn from_str_radix(
     }
 
     if is_negative {
-        negate_in_place(out, width)
+        let is_zero = out.iter().all(|w| *w == 0);
+        negate_in_place(out, width);
+        // the absolute value may not exceed that of the smallest negative number
+        if !is_zero && !is_neg(out, width) {
+            return Err(ParseIntError {
+                kind: IntErrorKind::ExceedsWidth,
+            });
+        }
     }
     Ok(())
 }
-- 
2.43.0


From 503f271cd0729ea57b0bdf36daf6857728e2ead5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:59 +0000
Subject: [PATCH 13/14] fix: left shifts by whole words leave no bits beyond
 the width

---
 src/bv/arithmetic.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/bv/arithmetic.rs b/src/bv/arithmetic.rs
index ceebf69..1203c58 100644
--- a/src/bv/arithmetic.rs
+++ b/src/bv/arithmetic.rs
@@ -319,9 +319,8 @@ pub(crate) fn shift_left(dst: &mut [Word], a: &[Word], b: &[Word], width: WidthI
             prev = *s >> shift_right;
         }
     }
-    if shift_left > 0 {
-        mask_msb(dst, width);
-    }
+    // also needed when shifting by whole words: they might end up beyond the width
+    mask_msb(dst, width);
 }
 
 #[inline]
-- 
2.43.0


From 187a8b3789abd57eb831c3d7c875e4488560fc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:27 +0000
Subject: [PATCH 14/14] fix: fixed-point numbers with 64 or more fraction bits
 are refused instead of misread

---
 src/bv/ops.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bv/ops.rs b/src/bv/ops.rs
index 7517538..0b82d3c 100644
--- a/src/bv/ops.rs
+++ b/src/bv/ops.rs
@@ -120,7 +120,8 @@ pub trait BitVecOps {
     #[cfg(feature = "fraction1")]
     fn to_unsigned_fixed_point(&self, fraction_width: WidthInt) -> Option<fraction::Fraction> {
         debug_assert!(fraction_width <= self.width());
-        let denom = 1u64 << fraction_width;
+        // denominators of more than 64 bits cannot be represented
+        let denom = 1u64.checked_shl(fraction_width)?;
         self.to_u64().map(|v| fraction::Fraction::new(v, denom))
     }
 
-- 
2.43.0

