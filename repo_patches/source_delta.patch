From 6a6a3d39acb25db84e5fd53b9128da9622e6081b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:46 +0000
Subject: [PATCH 01/25] fix: is_greater_or_equal (and is_less_or_equal) of
 equal multi-word values is true

---
 src/bv/ops.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bv/ops.rs b/src/bv/ops.rs
index 8063b3e..edcfa0d 100644
--- a/src/bv/ops.rs
+++ b/src/bv/ops.rs
@@ -244,7 +244,7 @@ pub trait BitVecOps {
             // specialized for 1-word case
             crate::bv::arithmetic::cmp_greater_equal(&self.words()[0..1], &rhs.words()[0..1])
         } else {
-            crate::bv::arithmetic::cmp_greater(self.words(), rhs.words())
+            crate::bv::arithmetic::cmp_greater_equal(self.words(), rhs.words())
         }
     }
 
-- 
2.43.0


From d2fa488f4c8e3e9c23f4efbc6e61ab7489657e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:56 +0000
Subject: [PATCH 02/25] fix: shift_left by a multiple of the word size masks
 bits above the width

---
 src/bv/arithmetic.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/bv/arithmetic.rs b/src/bv/arithmetic.rs
index ceebf69..7a703ea 100644
--- a/src/bv/arithmetic.rs
+++ b/src/bv/arithmetic.rs
@@ -319,9 +319,7 @@ pub(crate) fn shift_left(dst: &mut [Word], a: &[Word], b: &[Word], width: WidthI
             prev = *s >> shift_right;
         }
     }
-    if shift_left > 0 {
-        mask_msb(dst, width);
-    }
+    mask_msb(dst, width);
 }
 
 #[inline]
-- 
2.43.0


From 70454ecea71bec4ed2e481975482b7472952c7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:05 +0000
Subject: [PATCH 03/25] fix: converting a dense byte array to a sparse one
 counts all 256 byte values

---
 src/array/owned.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/array/owned.rs b/src/array/owned.rs
index 0ae51bc..2440e9b 100644
--- a/src/array/owned.rs
+++ b/src/array/owned.rs
@@ -490,7 +490,7 @@ impl From<&DenseArrayValue> for SparseArrayValue {
             }
             DenseArrayImpl::U8(data) => {
                 // find default value
-                let mut count = [0usize; u8::BITS as usize];
+                let mut count = [0usize; u8::MAX as usize + 1];
                 for bit in 0..value.num_elements() {
                     count[data[bit] as usize] += 1;
                 }
-- 
2.43.0


From 63d30d9617d10ed308b2cce703809b69b1db2ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:10 +0000
Subject: [PATCH 04/25] fix: make_dense of a sparse array with wide data uses
 an index of the index width

---
 src/array/owned.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/array/owned.rs b/src/array/owned.rs
index 2440e9b..7302716 100644
--- a/src/array/owned.rs
+++ b/src/array/owned.rs
@@ -449,7 +449,7 @@ impl From<&SparseArrayValue> for DenseArrayValue {
                 }
             }
             SparseArrayImpl::U64Big(_, m) => {
-                let mut index_bv = BitVecValue::zero(value.data_width);
+                let mut index_bv = BitVecValue::zero(value.index_width);
                 for (k, v) in m.iter() {
                     index_bv.assign_from_u64(*k);
                     dense.store(&index_bv, v);
-- 
2.43.0


From ed32e5876a28ad0a234e00976d03201c8c465164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:28 +0000
Subject: [PATCH 05/25] fix: dense array size limit counts bytes, not words,
 for data wider than 64 bits

---
 src/array/owned.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/array/owned.rs b/src/array/owned.rs
index 7302716..f019e88 100644
--- a/src/array/owned.rs
+++ b/src/array/owned.rs
@@ -274,7 +274,7 @@ fn approx_dense_storage_size(index_width: WidthInt, data_width: WidthInt) -> usi
         elements * (u64::BITS / u8::BITS) as usize
     } else {
         // using the Big representation
-        elements * data_width.div_ceil(Word::BITS) as usize
+        elements * data_width.div_ceil(Word::BITS) as usize * (Word::BITS / u8::BITS) as usize
     }
 }
 
-- 
2.43.0


From 2d232b2d3280e9fe6c258bfc89ab385193c863b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:44 +0000
Subject: [PATCH 06/25] fix: select and store on sparse arrays with indices
 wider than 64 bits

---
 src/array/owned.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/array/owned.rs b/src/array/owned.rs
index f019e88..fc252f1 100644
--- a/src/array/owned.rs
+++ b/src/array/owned.rs
@@ -785,6 +785,7 @@ impl ArrayOps for SparseArrayValue {
                 value
             }
             SparseArrayImpl::BigBig(default, map) => {
+                let index = BitVecValue::from(index);
                 let value = map.get(&index).cloned().unwrap_or_else(|| default.clone());
                 value
             }
@@ -823,11 +824,12 @@ impl ArrayMutOps for SparseArrayValue {
                 }
             }
             SparseArrayImpl::BigBig(default, map) => {
+                let index = BitVecValue::from(index);
                 if data.is_equal(default) {
                     // ensures that the default value is used for the given index
                     map.remove(&index);
                 } else {
-                    map.insert(index.into(), data.into());
+                    map.insert(index, data.into());
                 }
             }
         }
-- 
2.43.0


From ceccd6dd3eef84c8ffc1d50179c6437ecf23d3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:09 +0000
Subject: [PATCH 07/25] fix: implement multiplication of values wider than 64
 bits

---
 src/bv/arithmetic.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/bv/arithmetic.rs b/src/bv/arithmetic.rs
index 7a703ea..42219c2 100644
--- a/src/bv/arithmetic.rs
+++ b/src/bv/arithmetic.rs
@@ -228,10 +228,17 @@ pub(crate) fn mul(dst: &mut [Word], a: &[Word], b: &[Word], width: WidthInt) {
         let (res, _) = a[0].overflowing_mul(b[0]);
         dst[0] = res & mask(width);
     } else {
-        todo!(
-            "implement multiplication for bit vectors larger {}",
-            Word::BITS
-        );
+        // schoolbook multiplication which discards all words that do not fit into the result
+        clear(dst);
+        for (ii, aa) in a.iter().enumerate() {
+            let mut carry = 0 as DoubleWord;
+            for (dd, bb) in dst[ii..].iter_mut().zip(b.iter()) {
+                let sum = (*aa as DoubleWord) * (*bb as DoubleWord) + *dd as DoubleWord + carry;
+                *dd = sum as Word;
+                carry = sum >> Word::BITS;
+            }
+        }
+        mask_msb(dst, width);
     }
 }
 
-- 
2.43.0


From 707938feade955456006033773742e0b7159e20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:17 +0000
Subject: [PATCH 08/25] fix: fixed-point conversion with 64 or more fraction
 bits returns None instead of a wrong number

---
 src/bv/ops.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bv/ops.rs b/src/bv/ops.rs
index edcfa0d..ac05602 100644
--- a/src/bv/ops.rs
+++ b/src/bv/ops.rs
@@ -120,7 +120,8 @@ pub trait BitVecOps {
     #[cfg(feature = "fraction1")]
     fn to_unsigned_fixed_point(&self, fraction_width: WidthInt) -> Option<fraction::Fraction> {
         debug_assert!(fraction_width <= self.width());
-        let denom = 1u64 << fraction_width;
+        // the denominator needs to fit into 64 bits
+        let denom = 1u64.checked_shl(fraction_width)?;
         self.to_u64().map(|v| fraction::Fraction::new(v, denom))
     }
 
-- 
2.43.0


From 8631f75c913cf2d72444afd02ba47fa7dee642e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:26 +0000
Subject: [PATCH 09/25] fix: to_i64 of small negative values wider than 64 bits

---
 src/bv/ops.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bv/ops.rs b/src/bv/ops.rs
index ac05602..f9630c4 100644
--- a/src/bv/ops.rs
+++ b/src/bv/ops.rs
@@ -167,7 +167,11 @@ pub trait BitVecOps {
         } else {
             let all_zero_msbs = self.words().iter().skip(1).all(|w| *w == 0);
             let word_0 = self.words()[0];
-            let all_max_msbs = self.words().iter().skip(1).all(|w| *w == Word::MAX);
+            // the unused bits of the most significant word are always zero
+            let last = self.words().len() - 1;
+            let last_max = crate::bv::arithmetic::mask(self.width() % Word::BITS);
+            let all_max_msbs = self.words()[last] == last_max
+                && self.words()[1..last].iter().all(|w| *w == Word::MAX);
             match (
                 all_zero_msbs,
                 all_max_msbs,
-- 
2.43.0


From 23880c97dc06c160fa2db4029744baaf6e969224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:34 +0000
Subject: [PATCH 10/25] fix: signed binary and hex strings of the most negative
 value and of widths one above a word

---
 src/bv/io/strings.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/bv/io/strings.rs b/src/bv/io/strings.rs
index 830b575..010e45c 100644
--- a/src/bv/io/strings.rs
+++ b/src/bv/io/strings.rs
@@ -26,9 +26,21 @@ pub(crate) fn to_bit_str_signed(values: &[Word], width: WidthInt) -> String {
         negate_in_place(&mut copy, width);
         let mut out = String::with_capacity(width as usize + 1);
         out.push('-');
-        to_bit_str_internal(&copy, width - 1, out)
+        let width = magnitude_width(&copy, width);
+        to_bit_str_internal(select_words_for_width(&copy, width), width, out)
     } else {
-        to_bit_str(values, width - 1)
+        to_bit_str(select_words_for_width(values, width - 1), width - 1)
+    }
+}
+
+/// Number of bits needed for the absolute value of a negative number: one less than the width, except
+/// for the most negative number, which is its own two's complement.
+#[inline]
+fn magnitude_width(negated: &[Word], width: WidthInt) -> WidthInt {
+    if is_neg(negated, width) {
+        width
+    } else {
+        width - 1
     }
 }
 
@@ -76,7 +88,8 @@ pub(crate) fn to_hex_str_signed(values: &[Word], width: WidthInt) -> String {
         negate_in_place(&mut copy, width);
         let mut out = String::with_capacity(width as usize + 1);
         out.push('-');
-        to_hex_str_internal(select_words_for_width(&copy, width - 1), width - 1, out)
+        let width = magnitude_width(&copy, width);
+        to_hex_str_internal(select_words_for_width(&copy, width), width, out)
     } else {
         to_hex_str(select_words_for_width(values, width - 1), width - 1)
     }
-- 
2.43.0


From 3a51c585d0d720af2eced1d710b97db47f30828a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:43 +0000
Subject: [PATCH 11/25] fix: implement decimal strings for values wider than
 128 bits

---
 src/bv/io/strings.rs | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/bv/io/strings.rs b/src/bv/io/strings.rs
index 010e45c..805ce31 100644
--- a/src/bv/io/strings.rs
+++ b/src/bv/io/strings.rs
@@ -167,8 +167,29 @@ fn to_dec_str_internal(values: &[Word], mut out: String) -> String {
     out
 }
 
-fn to_dec_str_wide(_words: &[Word], _out: &mut str) {
-    todo!()
+/// largest power of ten that fits into a single word
+const DEC_CHUNK: Word = 10_000_000_000_000_000_000;
+const DEC_CHUNK_DIGITS: usize = 19;
+
+fn to_dec_str_wide(words: &[Word], out: &mut String) {
+    // repeatedly divide by the chunk size, collecting the digits from least to most significant
+    let mut words = Vec::from(words);
+    let mut chunks = vec![];
+    while !words.is_empty() {
+        let mut remainder = 0u128;
+        for word in words.iter_mut().rev() {
+            let value = (remainder << Word::BITS) | *word as u128;
+            *word = (value / DEC_CHUNK as u128) as Word;
+            remainder = value % DEC_CHUNK as u128;
+        }
+        chunks.push(remainder);
+        words.truncate(words_used(&words));
+    }
+    let mut chunks = chunks.iter().rev();
+    write!(out, "{}", chunks.next().unwrap()).unwrap();
+    for chunk in chunks {
+        write!(out, "{chunk:0DEC_CHUNK_DIGITS$}").unwrap();
+    }
 }
 
 pub(crate) fn determine_width_from_str_radix(value: &str, radix: u32) -> WidthInt {
-- 
2.43.0


From b4119eda747f416f38843ebe9c53841300d2d303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:53 +0000
Subject: [PATCH 12/25] fix: implement parsing of decimal numerals for widths
 above 128 bits

---
 src/bv/io/strings.rs | 46 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 36 insertions(+), 10 deletions(-)

diff --git a/src/bv/io/strings.rs b/src/bv/io/strings.rs
index 805ce31..3d4004e 100644
--- a/src/bv/io/strings.rs
+++ b/src/bv/io/strings.rs
@@ -314,9 +314,9 @@ pub(crate) fn from_str_radix(
             };
 
             match radix {
-                2 => parse_base_2(digits, out, width)?,
-                10 => parse_base_10(digits, out, width)?,
-                16 => parse_base_16(digits, out)?,
+                2 => _ = parse_base_2(digits, out, width)?,
+                10 => parse_base_10(digits, out)?,
+                16 => _ = parse_base_16(digits, out)?,
                 _ => todo!("Implement support for base {radix}. Currently the following bases are available: 2, 10, 16"),
             };
         }
@@ -360,13 +360,39 @@ fn parse_base_16(digits: &[u8], out: &mut [Word]) -> Result<WidthInt, ParseIntEr
     Ok(num_digits as u32 * BITS_PER_HEX_DIGIT)
 }
 
-fn parse_base_10(
-    _digits: &[u8],
-    _out: &mut [Word],
-    _max_width: WidthInt,
-) -> Result<WidthInt, ParseIntError> {
-    // let other = BitVecValue::
-    todo!()
+fn parse_base_10(digits: &[u8], out: &mut [Word]) -> Result<(), ParseIntError> {
+    crate::bv::arithmetic::clear(out);
+    // read from left to right
+    for chunk in digits.chunks(DEC_CHUNK_DIGITS) {
+        // accumulate as many digits as fit into a word
+        let mut scale: Word = 1;
+        let mut value: Word = 0;
+        for cc in chunk {
+            let digit = match cc {
+                b'0'..=b'9' => cc - b'0',
+                _ => {
+                    return Err(ParseIntError {
+                        kind: IntErrorKind::InvalidDigit,
+                    })
+                }
+            };
+            scale *= 10;
+            value = value * 10 + digit as Word;
+        }
+        // out = out * scale + value
+        let mut carry = value as u128;
+        for word in out.iter_mut() {
+            let product = *word as u128 * scale as u128 + carry;
+            *word = product as Word;
+            carry = product >> Word::BITS;
+        }
+        if carry > 0 {
+            return Err(ParseIntError {
+                kind: IntErrorKind::ExceedsWidth,
+            });
+        }
+    }
+    Ok(())
 }
 
 fn parse_base_2(
-- 
2.43.0


From 33ca8600663f4defef1ed978969b60f91d867365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:18 +0000
Subject: [PATCH 13/25] fix: parsing wide binary and hex numerals ignores
 leading zeros and does not panic on too many digits

---
 src/bv/io/strings.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/bv/io/strings.rs b/src/bv/io/strings.rs
index 3d4004e..e45849e 100644
--- a/src/bv/io/strings.rs
+++ b/src/bv/io/strings.rs
@@ -338,8 +338,21 @@ pub(crate) fn from_str_radix(
     Ok(())
 }
 
+/// leading zeros do not count towards the width of a number
+fn strip_leading_zeros(digits: &[u8]) -> &[u8] {
+    let zeros = digits.iter().take_while(|c| **c == b'0').count();
+    // keep at least one digit
+    &digits[zeros.min(digits.len() - 1)..]
+}
+
 fn parse_base_16(digits: &[u8], out: &mut [Word]) -> Result<WidthInt, ParseIntError> {
+    let digits = strip_leading_zeros(digits);
     let num_digits = digits.len();
+    if num_digits > out.len() * WORD_HEX_DIGITS as usize {
+        return Err(ParseIntError {
+            kind: IntErrorKind::ExceedsWidth,
+        });
+    }
     let words = (num_digits as u32 * BITS_PER_HEX_DIGIT).div_ceil(Word::BITS);
     let mut word = 0 as Word;
     let mut out_ii = (words - 1) as usize;
@@ -400,8 +413,8 @@ fn parse_base_2(
     out: &mut [Word],
     max_width: WidthInt,
 ) -> Result<WidthInt, ParseIntError> {
+    let digits = strip_leading_zeros(digits);
     let width = digits.len() as WidthInt;
-    // TODO: ignore zeros
     if width > max_width {
         return Err(ParseIntError {
             kind: IntErrorKind::ExceedsWidth,
-- 
2.43.0


From faeed83266e72fc156567fd72a65e9e5c7518f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:27 +0000
Subject: [PATCH 14/25] fix: assign_from_str_radix leaves nothing of the
 previous value

---
 src/bv/io/strings.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bv/io/strings.rs b/src/bv/io/strings.rs
index e45849e..cabf8ba 100644
--- a/src/bv/io/strings.rs
+++ b/src/bv/io/strings.rs
@@ -235,6 +235,9 @@ pub(crate) fn from_str_radix(
     out: &mut [Word],
     width: WidthInt,
 ) -> Result<(), ParseIntError> {
+    // make sure that nothing of the previous value remains
+    crate::bv::arithmetic::clear(out);
+
     // The empty string becomes a 0-bit vector.
     if value.is_empty() {
         return Ok(());
-- 
2.43.0


From fa387d4c85e456a67edb5f2f254c3ce678d08c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:36 +0000
Subject: [PATCH 15/25] fix: parsing a numeral which does not fit the width is
 an error

---
 src/bv/io/strings.rs | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/bv/io/strings.rs b/src/bv/io/strings.rs
index cabf8ba..dbcfe17 100644
--- a/src/bv/io/strings.rs
+++ b/src/bv/io/strings.rs
@@ -325,20 +325,21 @@ pub(crate) fn from_str_radix(
         }
     }
 
-    // TODO: check width
-    // let m = super::super::arithmetic::mask(width);
-    // if *out != *out & m {
-    //     Err(ParseIntError {
-    //         kind: IntErrorKind::ExceedsWidth,
-    //     })
-    // } else {
-    //     Ok(())
-    // }
-
-    if is_negative {
-        negate_in_place(out, width)
+    // check that the number can be represented with the given width
+    let unused_msbs = !crate::bv::arithmetic::mask(width % Word::BITS);
+    let mut fits = out.last().unwrap() & unused_msbs == 0;
+    if is_negative && fits && out.iter().any(|w| *w != 0) {
+        negate_in_place(out, width);
+        fits = is_neg(out, width);
+    }
+    if fits {
+        Ok(())
+    } else {
+        crate::bv::arithmetic::clear(out);
+        Err(ParseIntError {
+            kind: IntErrorKind::ExceedsWidth,
+        })
     }
-    Ok(())
 }
 
 /// leading zeros do not count towards the width of a number
-- 
2.43.0


From 59d47eb0cf33a0b6f26138f97e8411f3f4c85054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:58 +0000
Subject: [PATCH 16/25] fix: failing to parse a wide numeral does not leave a
 partial number behind

---
 src/bv/io/strings.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/bv/io/strings.rs b/src/bv/io/strings.rs
index dbcfe17..505a1eb 100644
--- a/src/bv/io/strings.rs
+++ b/src/bv/io/strings.rs
@@ -316,12 +316,17 @@ pub(crate) fn from_str_radix(
                 _ => digits,
             };
 
-            match radix {
-                2 => _ = parse_base_2(digits, out, width)?,
-                10 => parse_base_10(digits, out)?,
-                16 => _ = parse_base_16(digits, out)?,
+            let result = match radix {
+                2 => parse_base_2(digits, out, width).map(|_| ()),
+                10 => parse_base_10(digits, out),
+                16 => parse_base_16(digits, out).map(|_| ()),
                 _ => todo!("Implement support for base {radix}. Currently the following bases are available: 2, 10, 16"),
             };
+            if result.is_err() {
+                // do not leave a partial number
+                crate::bv::arithmetic::clear(out);
+                return result;
+            }
         }
     }
 
-- 
2.43.0


From 7b71d180548360521b6cc3c25aedd6e66cb20748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:07 +0000
Subject: [PATCH 17/25] fix: from_u64 and assign_from_u64 with width zero, used
 for arrays with a single element

---
 src/bv/ops.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bv/ops.rs b/src/bv/ops.rs
index f9630c4..10e7b35 100644
--- a/src/bv/ops.rs
+++ b/src/bv/ops.rs
@@ -425,6 +425,10 @@ pub trait BitVecMutOps: BitVecOps {
 
     fn assign_from_u64(&mut self, value: u64) {
         debug_assert_eq!(Word::BITS, u64::BITS, "basic assumption of this function");
+        if self.width() == 0 {
+            debug_assert_eq!(value, 0, "value {value} does not fit into 0 bits");
+            return;
+        }
         // clear all words
         self.clear();
         // assign lsb
-- 
2.43.0


From 55e3e676ff3d089378ad490751568e4a9f71edd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:29 +0000
Subject: [PATCH 18/25] fix: sparse arrays with the same elements but different
 defaults are equal

---
 src/array/owned.rs | 40 +++++++++++++++++++++++++++++++++++++---
 1 file changed, 37 insertions(+), 3 deletions(-)

diff --git a/src/array/owned.rs b/src/array/owned.rs
index fc252f1..a18268d 100644
--- a/src/array/owned.rs
+++ b/src/array/owned.rs
@@ -9,6 +9,7 @@ use crate::{
 };
 use std::collections::HashMap;
 use std::fmt::{Debug, Formatter};
+use std::hash::Hash;
 
 /// Owned Array Container.
 #[derive(Clone)]
@@ -592,6 +593,24 @@ enum SparseArrayImpl {
     BigBig(BitVecValue, HashMap<BitVecValue, BitVecValue>),
 }
 
+/// Two sparse arrays with different default values can only be the same if every index is stored
+/// explicitly in at least one of them.
+fn is_equal_with_different_defaults<K: Eq + Hash, V: Eq>(
+    index_width: WidthInt,
+    (default_a, map_a): (&V, &HashMap<K, V>),
+    (default_b, map_b): (&V, &HashMap<K, V>),
+) -> bool {
+    let only_in_b = map_b.keys().filter(|k| !map_a.contains_key(k)).count();
+    let all_stored = 1usize.checked_shl(index_width) == Some(map_a.len() + only_in_b);
+    all_stored
+        && map_a
+            .iter()
+            .all(|(k, v)| v == map_b.get(k).unwrap_or(default_b))
+        && map_b
+            .iter()
+            .all(|(k, v)| v == map_a.get(k).unwrap_or(default_a))
+}
+
 impl SparseArrayValue {
     pub fn new<'a>(index_width: WidthInt, default: impl Into<BitVecValueRef<'a>>) -> Self {
         let default = default.into();
@@ -625,8 +644,13 @@ impl SparseArrayValue {
                     if map_a.len() == map_b.len() {
                         return Some(map_a == map_b);
                     }
+                    return Some(false);
                 }
-                Some(false)
+                Some(is_equal_with_different_defaults(
+                    self.index_width,
+                    (default_a, map_a),
+                    (default_b, map_b),
+                ))
             }
             (
                 SparseArrayImpl::U64Big(default_a, map_a),
@@ -637,8 +661,13 @@ impl SparseArrayValue {
                     if map_a.len() == map_b.len() {
                         return Some(map_a == map_b);
                     }
+                    return Some(false);
                 }
-                Some(false)
+                Some(is_equal_with_different_defaults(
+                    self.index_width,
+                    (default_a, map_a),
+                    (default_b, map_b),
+                ))
             }
             (
                 SparseArrayImpl::BigBig(default_a, map_a),
@@ -649,8 +678,13 @@ impl SparseArrayValue {
                     if map_a.len() == map_b.len() {
                         return Some(map_a == map_b);
                     }
+                    return Some(false);
                 }
-                Some(false)
+                Some(is_equal_with_different_defaults(
+                    self.index_width,
+                    (default_a, map_a),
+                    (default_b, map_b),
+                ))
             }
             _ => unreachable!(
                 "the representation for two arrays of the same type should always be the same!"
-- 
2.43.0


From 98d665a7dcae938ce30b8b7597d3805ab6619376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:49 +0000
Subject: [PATCH 19/25] fix: dense arrays of 2^32 and more bits do not overflow
 the width of a bit-vector

---
 src/array/owned.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/array/owned.rs b/src/array/owned.rs
index a18268d..208363f 100644
--- a/src/array/owned.rs
+++ b/src/array/owned.rs
@@ -204,6 +204,15 @@ impl From<&[bool]> for DenseArrayValue {
     fn from(values: &[bool]) -> Self {
         let index_width = index_width_from_len(values.len());
         let num_elements = num_elements_from_index_width(index_width);
+        if !uses_bit_representation(index_width, 1) {
+            let mut data: Vec<u8> = values.iter().map(|v| *v as u8).collect();
+            data.resize(num_elements, 0);
+            return Self {
+                index_width,
+                data_width: 1,
+                data: DenseArrayImpl::U8(data),
+            };
+        }
         let mut data = BitVecValue::zero(num_elements as WidthInt);
         for (ii, v) in values.iter().enumerate() {
             if *v {
@@ -262,9 +271,14 @@ enum DenseArrayImpl {
 /// 1 GiB max for a dense array, otherwise something is fishy!
 const DENSE_ARRAY_MAX_BYTES: usize = 1024 * 1024 * 1024;
 
+/// A bit-vector is limited to `WidthInt::MAX` bits, larger arrays of bits use the U8 representation.
+fn uses_bit_representation(index_width: WidthInt, data_width: WidthInt) -> bool {
+    data_width == 1 && index_width < WidthInt::BITS
+}
+
 fn approx_dense_storage_size(index_width: WidthInt, data_width: WidthInt) -> usize {
     let elements = 1usize << index_width;
-    if data_width == 1 {
+    if uses_bit_representation(index_width, data_width) {
         // using the Bit representation
         elements.div_ceil(u8::BITS as usize)
     } else if data_width <= u8::BITS {
@@ -290,7 +304,7 @@ impl DenseArrayValue {
         );
 
         let elements = 1usize << index_width;
-        let data = if data_width == 1 {
+        let data = if uses_bit_representation(index_width, data_width) {
             if default.is_tru() {
                 DenseArrayImpl::Bit(BitVecValue::ones(elements as WidthInt))
             } else {
-- 
2.43.0


From bd1f67cb4c9ebc1dce6ca4dbb487dcfce0d2349e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:37 +0000
Subject: [PATCH 20/25] fix: decimal strings of values with more than 2^32 / 3
 bits

---
 src/bv/io/strings.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bv/io/strings.rs b/src/bv/io/strings.rs
index 505a1eb..7aefef4 100644
--- a/src/bv/io/strings.rs
+++ b/src/bv/io/strings.rs
@@ -130,7 +130,7 @@ fn to_hex_str_internal(values: &[Word], width: WidthInt, mut out: String) -> Str
 }
 
 pub(crate) fn to_dec_str(values: &[Word], width: WidthInt) -> String {
-    let out = String::with_capacity((width * 3 / 10) as usize);
+    let out = String::with_capacity(width as usize * 3 / 10);
     to_dec_str_internal(values, out)
 }
 
-- 
2.43.0


From e00e1e690631825959d782ff9bda6e91fa5a3061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:57 +0000
Subject: [PATCH 21/25] fix: slices that reach one bit beyond the value are
 refused by the debug assertion

---
 src/bv/ops.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bv/ops.rs b/src/bv/ops.rs
index 10e7b35..1d37a1d 100644
--- a/src/bv/ops.rs
+++ b/src/bv/ops.rs
@@ -304,7 +304,7 @@ pub trait BitVecOps {
     }
 
     fn slice(&self, msb: WidthInt, lsb: WidthInt) -> BitVecValue {
-        debug_assert!(msb <= self.width());
+        debug_assert!(msb < self.width());
         debug_assert!(msb >= lsb);
         let out_width = msb - lsb + 1;
         let mut out = value_vec_zeros(out_width);
-- 
2.43.0


From c109310e7b8c0f3b4478ef1ded4562c7cdd8fa7f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 01:17:55 +0000
Subject: [PATCH 22/25] fix: compare the full number of binary digits with the
 width

---
 src/bv/io/strings.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bv/io/strings.rs b/src/bv/io/strings.rs
index 7aefef4..ebd2b76 100644
--- a/src/bv/io/strings.rs
+++ b/src/bv/io/strings.rs
@@ -423,12 +423,12 @@ fn parse_base_2(
     max_width: WidthInt,
 ) -> Result<WidthInt, ParseIntError> {
     let digits = strip_leading_zeros(digits);
-    let width = digits.len() as WidthInt;
-    if width > max_width {
+    if digits.len() > max_width as usize {
         return Err(ParseIntError {
             kind: IntErrorKind::ExceedsWidth,
         });
     }
+    let width = digits.len() as WidthInt;
 
     let words = width.div_ceil(Word::BITS);
     let mut word = 0 as Word;
-- 
2.43.0


From 60d3bf3c02b1115284d2a89a9b8c7cfa098a2692 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 01:17:55 +0000
Subject: [PATCH 23/25] fix: reject texts with more digits than a width can
 express

---
 src/bv/io/strings.rs | 17 ++++++++++++++---
 src/bv/owned.rs      |  4 ++--
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/bv/io/strings.rs b/src/bv/io/strings.rs
index ebd2b76..86f865a 100644
--- a/src/bv/io/strings.rs
+++ b/src/bv/io/strings.rs
@@ -192,7 +192,16 @@ fn to_dec_str_wide(words: &[Word], out: &mut String) {
     }
 }
 
+#[cfg(test)]
 pub(crate) fn determine_width_from_str_radix(value: &str, radix: u32) -> WidthInt {
+    try_determine_width_from_str_radix(value, radix).unwrap()
+}
+
+/// Returns an error if there are more digits than the largest width has room for.
+pub(crate) fn try_determine_width_from_str_radix(
+    value: &str,
+    radix: u32,
+) -> Result<WidthInt, ParseIntError> {
     debug_assert!(
         radix == 2 || radix == 16,
         "only works for 2 or 16 bit basis"
@@ -201,8 +210,8 @@ pub(crate) fn determine_width_from_str_radix(value: &str, radix: u32) -> WidthIn
     let num_digits = match value.as_bytes() {
         [] => 0,
         [b'+' | b'-'] => 0,
-        [b'+' | b'-', digits @ ..] => digits.len() as WidthInt,
-        digits => digits.len() as WidthInt,
+        [b'+' | b'-', digits @ ..] => digits.len() as u64,
+        digits => digits.len() as u64,
     };
 
     let base_width = match radix {
@@ -210,7 +219,9 @@ pub(crate) fn determine_width_from_str_radix(value: &str, radix: u32) -> WidthIn
         16 => num_digits * 4,
         _ => todo!(),
     };
-    base_width + starts_with_minus as WidthInt
+    WidthInt::try_from(base_width + starts_with_minus as u64).map_err(|_| ParseIntError {
+        kind: IntErrorKind::ExceedsWidth,
+    })
 }
 
 #[inline]
diff --git a/src/bv/owned.rs b/src/bv/owned.rs
index 072151e..e7dce0d 100644
--- a/src/bv/owned.rs
+++ b/src/bv/owned.rs
@@ -21,13 +21,13 @@ pub struct BitVecValue {
 impl BitVecValue {
     /// Parse a string of 1s and 0s. The width of the resulting value is the number of digits.
     pub fn from_bit_str(value: &str) -> Result<Self, ParseIntError> {
-        let width = crate::bv::io::strings::determine_width_from_str_radix(value, 2);
+        let width = crate::bv::io::strings::try_determine_width_from_str_radix(value, 2)?;
         Self::from_str_radix(value, 2, width)
     }
 
     /// Parse a string of hex digits. The width of the resulting value is the number of digits times 4.
     pub fn from_hex_str(value: &str) -> Result<Self, ParseIntError> {
-        let width = crate::bv::io::strings::determine_width_from_str_radix(value, 16);
+        let width = crate::bv::io::strings::try_determine_width_from_str_radix(value, 16)?;
         Self::from_str_radix(value, 16, width)
     }
 
-- 
2.43.0


From 7597080714e36081689ef13e19f844e6e57f3a7c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 01:17:55 +0000
Subject: [PATCH 24/25] fix: infer the width of numbers that need more than
 2^32 - 64 bits

---
 src/bv/io/bigint.rs | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/src/bv/io/bigint.rs b/src/bv/io/bigint.rs
index 82ff091..1c13af2 100644
--- a/src/bv/io/bigint.rs
+++ b/src/bv/io/bigint.rs
@@ -92,24 +92,12 @@ fn iter_to_word(iter: impl Iterator<Item = Word>, width: WidthInt, out: &mut [Wo
 }
 
 pub(crate) fn count_big_uint_bits(value: &num_bigint::BigUint) -> WidthInt {
-    let words = value.iter_u64_digits().count() as u32;
-    if words == 0 {
-        0
-    } else {
-        let msb = value.iter_u64_digits().last().unwrap();
-        words * Word::BITS - msb.leading_zeros()
-    }
+    WidthInt::try_from(value.bits()).expect("number is too large for any bit-vector")
 }
 
 pub(crate) fn count_big_int_bits(value: &num_bigint::BigInt) -> WidthInt {
-    let words = value.iter_u64_digits().count() as u32;
     // +1 for the sign bit
-    if words == 0 {
-        1
-    } else {
-        let msb = value.iter_u64_digits().last().unwrap();
-        words * Word::BITS - msb.leading_zeros() + 1
-    }
+    WidthInt::try_from(value.bits() + 1).expect("number is too large for any bit-vector")
 }
 
 #[cfg(test)]
-- 
2.43.0


From de13641b6a9bcb6b0e4f49b2d3a786a39098a447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:48 +0000
Subject: [PATCH 25/25] fix: parse hex texts of 2^30 digits

The number of bits was computed in 32 bits.
---
 src/bv/io/strings.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/bv/io/strings.rs b/src/bv/io/strings.rs
index 86f865a..caae157 100644
--- a/src/bv/io/strings.rs
+++ b/src/bv/io/strings.rs
@@ -330,7 +330,7 @@ pub(crate) fn from_str_radix(
             let result = match radix {
                 2 => parse_base_2(digits, out, width).map(|_| ()),
                 10 => parse_base_10(digits, out),
-                16 => parse_base_16(digits, out).map(|_| ()),
+                16 => parse_base_16(digits, out),
                 _ => todo!("Implement support for base {radix}. Currently the following bases are available: 2, 10, 16"),
             };
             if result.is_err() {
@@ -365,7 +365,7 @@ fn strip_leading_zeros(digits: &[u8]) -> &[u8] {
     &digits[zeros.min(digits.len() - 1)..]
 }
 
-fn parse_base_16(digits: &[u8], out: &mut [Word]) -> Result<WidthInt, ParseIntError> {
+fn parse_base_16(digits: &[u8], out: &mut [Word]) -> Result<(), ParseIntError> {
     let digits = strip_leading_zeros(digits);
     let num_digits = digits.len();
     if num_digits > out.len() * WORD_HEX_DIGITS as usize {
@@ -373,9 +373,10 @@ fn parse_base_16(digits: &[u8], out: &mut [Word]) -> Result<WidthInt, ParseIntEr
             kind: IntErrorKind::ExceedsWidth,
         });
     }
-    let words = (num_digits as u32 * BITS_PER_HEX_DIGIT).div_ceil(Word::BITS);
+    // the number of bits might exceed 32-bit, thus we count the digits
+    let words = num_digits.div_ceil(WORD_HEX_DIGITS as usize);
     let mut word = 0 as Word;
-    let mut out_ii = (words - 1) as usize;
+    let mut out_ii = words - 1;
 
     // read from right to left
     for (ii, cc) in digits.iter().enumerate() {
@@ -390,7 +391,7 @@ fn parse_base_16(digits: &[u8], out: &mut [Word]) -> Result<WidthInt, ParseIntEr
     }
     debug_assert_eq!(out_ii, 0);
     out[0] = word;
-    Ok(num_digits as u32 * BITS_PER_HEX_DIGIT)
+    Ok(())
 }
 
 fn parse_base_10(digits: &[u8], out: &mut [Word]) -> Result<(), ParseIntError> {
-- 
2.43.0

