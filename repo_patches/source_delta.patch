From 2a4126d077b273ab914ee7febb75cafc2bb0c291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:50 +0000
Subject: [PATCH 01/13] fix: build TryFromIntError without transmuting from ()

The transmute depends on the private layout of core::num::TryFromIntError and
is rejected (E0512) by toolchains where it is not zero-sized.
---
 src/error.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index be09e79..f158f76 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -12,8 +12,14 @@ pub const fn pie(kind: IntErrorKind) -> ParseIntError {
 }
 
 /// Returns a `TryFromIntError`.
-pub const fn tfie() -> TryFromIntError {
-    unsafe { mem::transmute(()) }
+pub fn tfie() -> TryFromIntError {
+    // NOTE: The layout of `TryFromIntError` is an implementation detail of the
+    // standard library (it is not a zero-sized type in all of its versions), so
+    // use an error that was produced by it.
+    match u8::try_from(-1_i32) {
+        Err(err) => err,
+        Ok(_) => unreachable!(),
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 99118ca961c62d0c962462a65ef807b676d3b9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:01 +0000
Subject: [PATCH 02/13] fix: rotate by more than 256 without overflowing

---
 src/intrinsics/native/rot.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/intrinsics/native/rot.rs b/src/intrinsics/native/rot.rs
index 8a584bc..7405cd4 100644
--- a/src/intrinsics/native/rot.rs
+++ b/src/intrinsics/native/rot.rs
@@ -6,10 +6,10 @@ use core::mem::MaybeUninit;
 
 #[inline]
 pub fn rol3(r: &mut MaybeUninit<U256>, a: &U256, b: u32) {
-    r.write((a << (b & 0xff)) | (a >> ((256 - b) & 0xff)));
+    r.write((a << (b & 0xff)) | (a >> (b.wrapping_neg() & 0xff)));
 }
 
 #[inline]
 pub fn ror3(r: &mut MaybeUninit<U256>, a: &U256, b: u32) {
-    r.write((a >> (b & 0xff)) | (a << ((256 - b) & 0xff)));
+    r.write((a >> (b & 0xff)) | (a << (b.wrapping_neg() & 0xff)));
 }
-- 
2.43.0


From 5cd1d02947b9e83bc40ada9f61a7d54afe94b003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:01 +0000
Subject: [PATCH 03/13] fix: mask the shift amount when overflow checks are off

---
 src/macros/ops.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/macros/ops.rs b/src/macros/ops.rs
index e735359..2c8b718 100644
--- a/src/macros/ops.rs
+++ b/src/macros/ops.rs
@@ -269,7 +269,7 @@ macro_rules! __impl_ops_shift {
                 }
 
                 let mut result = ::core::mem::MaybeUninit::uninit();
-                $op3(&mut result, self, rhs);
+                $op3(&mut result, self, rhs & 0xff);
 
                 unsafe { result.assume_init() }
             }
@@ -457,7 +457,7 @@ macro_rules! __impl_ops_shift_assign {
             fn $method(&mut self, rhs: u32) {
                 #[cfg(not(debug_assertions))]
                 {
-                    $op2(self, rhs);
+                    $op2(self, rhs & 0xff);
                 }
                 #[cfg(debug_assertions)]
                 {
-- 
2.43.0


From 425fe987354a129c9332a6231d95e355931a43df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:46 +0000
Subject: [PATCH 04/13] fix: saturate when converting an infinite f32

---
 src/int/convert.rs  | 2 +-
 src/uint/convert.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/int/convert.rs b/src/int/convert.rs
index a013240..400672b 100644
--- a/src/int/convert.rs
+++ b/src/int/convert.rs
@@ -141,7 +141,7 @@ macro_rules! impl_as_i256_float {
                     let mantissa = (bits & MAN_MASK) | MAN_ONE;
                     if exponent <= M {
                         (I256::from(mantissa >> (M - exponent))) * sign
-                    } else if exponent < 255 {
+                    } else if exponent < 255 && self.is_finite() {
                         (I256::from(mantissa) << (exponent - M)) * sign
                     } else if sign > 0 {
                         I256::MAX
diff --git a/src/uint/convert.rs b/src/uint/convert.rs
index da2bdd3..b543081 100644
--- a/src/uint/convert.rs
+++ b/src/uint/convert.rs
@@ -142,7 +142,7 @@ macro_rules! impl_as_u256_float {
                     let mantissa = (bits & MAN_MASK) | MAN_ONE;
                     if exponent <= M {
                         U256::from(mantissa >> (M - exponent))
-                    } else if exponent < 256 {
+                    } else if exponent < 256 && self.is_finite() {
                         U256::from(mantissa) << (exponent - M)
                     } else {
                         U256::MAX
-- 
2.43.0


From 1dab85523e6744c5743de1c5b4e4344ad1f27f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:46 +0000
Subject: [PATCH 05/13] fix: carry between words when parsing integer literals

---
 src/parse.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index dca813c..3c25414 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -158,9 +158,8 @@ pub(crate) const fn const_from_str_prefixed(bytes: &[u8], start: usize) -> U256
         let (hi, overflow) = hi.overflowing_mul(r);
         check(overflow);
 
-        let (lo, overflow) = ll.overflowing_add(lh << 64);
-        check(overflow);
-        let (hi, overflow) = hi.overflowing_add(lh >> 64);
+        let (lo, carry) = ll.overflowing_add(lh << 64);
+        let (hi, overflow) = hi.overflowing_add((lh >> 64) + carry as u128);
         check(overflow);
 
         U256::from_words(hi, lo)
-- 
2.43.0


From 0744f15318d8334dc0b4b6fbd529c6fb6c6e97f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:47 +0000
Subject: [PATCH 06/13] fix: Euclidean division of a negative number by MIN

---
 src/int.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/int.rs b/src/int.rs
index ff9d35d..8901f90 100644
--- a/src/int.rs
+++ b/src/int.rs
@@ -538,8 +538,9 @@ impl I256 {
 
         let adjust_remainder = dividend_sign && remainder != 0;
         if adjust_remainder {
-            remainder = abs_divisor.as_i256() - remainder;
-            // cannot overflow
+            // Cannot overflow as an unsigned subtraction, but the divisor may be
+            // `MIN`, whose absolute value is not a signed integer.
+            remainder = abs_divisor.as_i256().wrapping_sub(remainder);
         }
         if remainder.is_negative() || remainder.as_u256() >= abs_divisor {
             debug_assert!(false);
-- 
2.43.0


From 9c98783ba352f9f1997f25aa711be9fcde970c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:47 +0000
Subject: [PATCH 07/13] fix: round only once when converting to floating point

---
 src/int.rs  |  3 ++-
 src/uint.rs | 19 +++++++++++++++----
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/int.rs b/src/int.rs
index 8901f90..96bdfbb 100644
--- a/src/int.rs
+++ b/src/int.rs
@@ -263,7 +263,8 @@ impl I256 {
     /// Cast to a primitive `f32`.
     #[inline]
     pub fn as_f32(self) -> f32 {
-        self.as_f64() as _
+        let sign = self.signum128() as f32;
+        self.unsigned_abs().as_f32() * sign
     }
 
     /// Cast to a primitive `f64`.
diff --git a/src/uint.rs b/src/uint.rs
index 3a1e89f..240110d 100644
--- a/src/uint.rs
+++ b/src/uint.rs
@@ -269,11 +269,22 @@ impl U256 {
     /// Cast to a primitive `f64`.
     #[inline]
     pub fn as_f64(self) -> f64 {
-        // NOTE: Binary representation of 2**128. This is used because `powi` is
-        // neither `const` nor `no_std`.
-        const HI: u64 = 0x47f0000000000000;
         let (hi, lo) = self.into_words();
-        (hi as f64) * f64::from_bits(HI) + (lo as f64)
+        if hi == 0 {
+            return lo as _;
+        }
+
+        // Keep the 128 most significant bits, and make the last of them sticky
+        // so that the result is rounded exactly once.
+        let n = hi.leading_zeros();
+        let (top, rest) = match n {
+            0 => (hi, lo),
+            _ => ((hi << n) | (lo >> (128 - n)), lo << n),
+        };
+        // NOTE: Binary representation of 2**(128 - n). This is used because
+        // `powi` is neither `const` nor `no_std`.
+        let scale = f64::from_bits(((1023 + 128 - n) as u64) << 52);
+        ((top | (rest != 0) as u128) as f64) * scale
     }
 
     /// Performs integer and division and returns the quotient and the remainder as a tuple. This is faster than computing the quotient and remainder separately.
-- 
2.43.0


From 26be83668e9b18e6f6ca36f3f1e75381a32d41e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:47 +0000
Subject: [PATCH 08/13] fix: report overflow of prefixed integers as an
 overflow

---
 src/parse.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 3c25414..3e21302 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -128,10 +128,13 @@ pub(crate) fn from_str_radix<T: FromStrRadixHelper>(
 }
 
 pub(crate) fn from_str_prefixed<T: FromStrRadixHelper>(src: &str) -> Result<T, ParseIntError> {
-    from_str_radix(src, 2, Some("0b"))
-        .or_else(|_| from_str_radix(src, 8, Some("0o")))
-        .or_else(|_| from_str_radix(src, 16, Some("0x")))
-        .or_else(|_| from_str_radix(src, 10, None))
+    let digits = src.strip_prefix(['+', '-']).unwrap_or(src);
+    match digits.as_bytes() {
+        [b'0', b'b', ..] => from_str_radix(src, 2, Some("0b")),
+        [b'0', b'o', ..] => from_str_radix(src, 8, Some("0o")),
+        [b'0', b'x', ..] => from_str_radix(src, 16, Some("0x")),
+        _ => from_str_radix(src, 10, None),
+    }
 }
 
 pub(crate) const fn const_from_str_prefixed(bytes: &[u8], start: usize) -> U256 {
-- 
2.43.0


From 3d9344b379fa653e78a937cd0c7936930267d9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:47 +0000
Subject: [PATCH 09/13] fix: widen the bit count ranges in the LLVM template

---
 intrinsics/build/main.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/intrinsics/build/main.rs b/intrinsics/build/main.rs
index 3df9168..2839b28 100644
--- a/intrinsics/build/main.rs
+++ b/intrinsics/build/main.rs
@@ -40,7 +40,9 @@ fn main() -> Result<(), Box<dyn Error>> {
         let source = template
             .replace("i128", "i256")
             .replace(" 127", " 255")
-            .replace("dereferenceable(16)", "dereferenceable(32)");
+            .replace("dereferenceable(16)", "dereferenceable(32)")
+            // Bit counts range over `0..=256` instead of `0..=128`.
+            .replace(" 0, 129)", " 0, 257)");
 
         let path = out_dir.join("intrinsics.ll");
         fs::write(&path, source)?;
-- 
2.43.0


From 0e5d75c9d103086f6d7afd7966955586e036d2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:20 +0000
Subject: [PATCH 10/13] fix: panic when a signed division overflows

---
 src/macros/ops.rs | 53 ++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 43 insertions(+), 10 deletions(-)

diff --git a/src/macros/ops.rs b/src/macros/ops.rs
index 2c8b718..f542f37 100644
--- a/src/macros/ops.rs
+++ b/src/macros/ops.rs
@@ -30,10 +30,12 @@ macro_rules! impl_ops {
             for $int | $prim
 
             impl Div {
-                / div => $div3; "divide by zero"
+                / div => $div3; "divide by zero", "divide with overflow"
             }
             impl Rem {
-                % rem => $rem3; "calculate the remainder with a divisor of zero"
+                % rem => $rem3;
+                "calculate the remainder with a divisor of zero",
+                "calculate the remainder with overflow"
             }
         }
 
@@ -77,20 +79,25 @@ macro_rules! impl_ops {
             impl AddAssign {
                 += add_assign => $add2, +;
             }
-            impl DivAssign {
-                /= div_assign => $div2, /;
-            }
             impl MulAssign {
                 *= mul_assign => $mul2, *;
             }
-            impl RemAssign {
-                %= rem_assign => $rem2, %;
-            }
             impl SubAssign {
                 -= sub_assign => $sub2, -;
             }
         }
 
+        __impl_ops_divmod_assign! {
+            for $int | $prim
+
+            impl DivAssign {
+                /= div_assign => /;
+            }
+            impl RemAssign {
+                %= rem_assign => %;
+            }
+        }
+
         __impl_ops_shift_assign! {
             for $int
 
@@ -224,7 +231,7 @@ macro_rules! __impl_ops_divmod {
         for $int:ident | $prim:ident
         $(
             impl $op:ident {
-                $x:tt $method:ident => $op3:path; $msg:expr
+                $x:tt $method:ident => $op3:path; $zero_msg:expr, $overflow_msg:expr
             }
         )*
     ) => {$(
@@ -234,7 +241,11 @@ macro_rules! __impl_ops_divmod {
             #[inline]
             fn $method(self, rhs: Self) -> Self::Output {
                 if *rhs == 0 {
-                    panic!(concat!("attempt to ", $msg));
+                    panic!(concat!("attempt to ", $zero_msg));
+                }
+                // Only `MIN / -1` for the signed type.
+                if <$prim>::MIN != 0 && *self == $int::MIN && *rhs == !$int::ZERO {
+                    panic!(concat!("attempt to ", $overflow_msg));
                 }
 
                 let mut result = ::core::mem::MaybeUninit::uninit();
@@ -412,6 +423,28 @@ macro_rules! __impl_ops_binop_assign {
     )*};
 }
 
+macro_rules! __impl_ops_divmod_assign {
+    (
+        for $int:ident | $prim:ident
+        $(
+            impl $op:ident {
+                $x:tt $method:ident => $y:tt;
+            }
+        )*
+    ) => {$(
+        impl ::core::ops::$op<&'_ $int> for $int {
+            #[inline]
+            fn $method(&mut self, rhs: &'_ $int) {
+                *self = &*self $y rhs;
+            }
+        }
+
+        __impl_ops_binop_assign_extra_variants! {
+            impl $op for $int | $prim { $method = $x }
+        }
+    )*};
+}
+
 macro_rules! __impl_ops_binop_assign_extra_variants {
     (
         impl $op:ident for $int:ident | $prim:ident { $method:ident = $x:tt }
-- 
2.43.0


From 7bca9f15e7f822f0020544da0061f56441d3a2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:03 +0000
Subject: [PATCH 11/13] fix: keep the sign of compressed signed integers

---
 src/serde.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/serde.rs b/src/serde.rs
index 2df9aff..8db05f5 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -472,8 +472,10 @@ pub mod compressed_bytes {
     impl CompressedBytes for I256 {
         fn leading_bits(&self) -> u32 {
             match self.is_negative() {
+                _ if *self == I256::ZERO => I256::BITS,
+                // Keep a sign bit.
                 true => self.leading_ones() - 1,
-                false => self.leading_zeros(),
+                false => self.leading_zeros() - 1,
             }
         }
 
@@ -493,7 +495,7 @@ pub mod compressed_bytes {
     }
 
     macro_rules! endianness {
-        ($name:literal; $parent:ident, |$tb:ident| $to:block, |$fb:ident| $from:block) => {
+        ($name:literal; $parent:ident, $msb:ident, |$tb:ident| $to:block, |$fb:ident| $from:block) => {
             use super::CompressedBytes;
             use crate::serde::bytes::$parent::Bytes;
             use core::{
@@ -538,7 +540,7 @@ pub mod compressed_bytes {
                         return Err(E::invalid_length(v.len(), &self));
                     }
 
-                    let extend = T::extend(v.last().copied().unwrap_or_default());
+                    let extend = T::extend(v.$msb().copied().unwrap_or_default());
                     let mut bytes = [extend; 32];
                     let $fb = v.len();
                     let index = { $from };
@@ -594,7 +596,7 @@ pub mod compressed_bytes {
     /// integer types. This will serialize integer types with as few bytes as
     /// possible.
     pub mod le {
-        endianness!("little"; le, |l| { ..32 - l }, |l| { ..l });
+        endianness!("little"; le, last, |l| { ..32 - l }, |l| { ..l });
     }
 
     /// Module for `#[serde(with = "ethnum::serde::compressed_bytes::be")]`
@@ -602,7 +604,7 @@ pub mod compressed_bytes {
     /// integer types. This will serialize integer types with as few bytes as
     /// possible.
     pub mod be {
-        endianness!("big"; be, |l| { l.. }, |l| { 32 - l.. });
+        endianness!("big"; be, first, |l| { l.. }, |l| { 32 - l.. });
     }
 
     /// Module for `#[serde(with = "ethnum::serde::compressed_bytes::ne")]`
-- 
2.43.0


From a6e808a45e99e9dda8657986cd3bcead0ad05e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:03 +0000
Subject: [PATCH 12/13] fix: refuse negative numbers when deserializing
 unsigned integers permissively

---
 src/serde.rs | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/serde.rs b/src/serde.rs
index 8db05f5..06a1764 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -197,18 +197,26 @@ pub mod permissive {
 
     #[doc(hidden)]
     pub trait Permissive: Prefixed {
-        fn cast(value: I256) -> Self;
+        fn cast<E>(value: I256) -> Result<Self, E>
+        where
+            E: de::Error;
     }
 
     impl Permissive for I256 {
-        fn cast(value: I256) -> Self {
-            value
+        fn cast<E>(value: I256) -> Result<Self, E>
+        where
+            E: de::Error,
+        {
+            Ok(value)
         }
     }
 
     impl Permissive for U256 {
-        fn cast(value: I256) -> Self {
-            value.as_u256()
+        fn cast<E>(value: I256) -> Result<Self, E>
+        where
+            E: de::Error,
+        {
+            value.try_into().map_err(E::custom)
         }
     }
 
@@ -237,28 +245,28 @@ pub mod permissive {
         where
             E: de::Error,
         {
-            Ok(T::cast(v.as_i256()))
+            T::cast(v.as_i256())
         }
 
         fn visit_u64<E>(self, v: u64) -> Result<Self::Value, E>
         where
             E: de::Error,
         {
-            Ok(T::cast(v.as_i256()))
+            T::cast(v.as_i256())
         }
 
         fn visit_i128<E>(self, v: i128) -> Result<Self::Value, E>
         where
             E: de::Error,
         {
-            Ok(T::cast(v.as_i256()))
+            T::cast(v.as_i256())
         }
 
         fn visit_u128<E>(self, v: u128) -> Result<Self::Value, E>
         where
             E: de::Error,
         {
-            Ok(T::cast(v.as_i256()))
+            T::cast(v.as_i256())
         }
 
         fn visit_f32<E>(self, v: f32) -> Result<Self::Value, E>
@@ -299,7 +307,7 @@ pub mod permissive {
                 ));
             }
 
-            Ok(T::cast(i.as_i256()))
+            T::cast(i.as_i256())
         }
 
         fn visit_str<E>(self, v: &str) -> Result<Self::Value, E>
-- 
2.43.0


From 139711bc4dad11f07548fb65d466ab8926c2e123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:29 +0000
Subject: [PATCH 13/13] fix: derive digit buffer pointers from the whole buffer

---
 src/fmt.rs   | 4 ++--
 src/serde.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fmt.rs b/src/fmt.rs
index 730e159..b5d2748 100644
--- a/src/fmt.rs
+++ b/src/fmt.rs
@@ -36,7 +36,7 @@ pub(crate) trait GenericRadix: Sized {
         // valid UTF-8
         let buf = unsafe {
             str::from_utf8_unchecked(slice::from_raw_parts(
-                &buf[0] as *const _ as *const u8,
+                buf.as_ptr() as *const u8,
                 buf.len(),
             ))
         };
@@ -91,7 +91,7 @@ pub(crate) fn fmt_u256(mut n: U256, is_nonnegative: bool, f: &mut fmt::Formatter
     // 2^256 is about 1*10^78, so 79 gives an extra byte of space
     let mut buf = [MaybeUninit::<u8>::uninit(); 79];
     let mut curr = buf.len() as isize;
-    let buf_ptr = &mut buf[0] as *mut _ as *mut u8;
+    let buf_ptr = buf.as_mut_ptr() as *mut u8;
     let lut_ptr = DEC_DIGITS_LUT.as_ptr();
 
     // SAFETY: Since `d1` and `d2` are always less than or equal to `198`, we
diff --git a/src/serde.rs b/src/serde.rs
index 06a1764..c3cb6ce 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -685,7 +685,7 @@ impl<const N: usize> FormatBuffer<N> {
         // SAFETY: We only ever write valid UTF-8 strings to the buffer, so the
         // resulting string will always be valid.
         unsafe {
-            let buffer = slice::from_raw_parts(self.buffer[0].as_ptr(), self.offset);
+            let buffer = slice::from_raw_parts(self.buffer.as_ptr().cast(), self.offset);
             str::from_utf8_unchecked(buffer)
         }
     }
@@ -722,7 +722,7 @@ impl<const N: usize> Write for FormatBuffer<N> {
         // overlap with `buffer` because we have a mutable reference to `self`
         // and by extension `buffer`).
         unsafe {
-            let buffer = self.buffer[0].as_mut_ptr().add(self.offset);
+            let buffer = self.buffer.as_mut_ptr().cast::<u8>().add(self.offset);
             ptr::copy_nonoverlapping(s.as_ptr(), buffer, s.len());
         }
         self.offset = end;
-- 
2.43.0

