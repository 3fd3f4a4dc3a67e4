From 5092a88c85c126e06eb06dd056b213f05f6a040b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:24 +0000
Subject: [PATCH 01/13] fix: rdiv by a large fixed-point divisor overflowed in
 the Nearest mode

---
 src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5351f2c..60ab6d0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -332,8 +332,9 @@ macro_rules! impl_fixed_point {
                     let sign = self.inner.signum() * rhs.inner.signum();
 
                     let add_signed_one = if mode == RoundMode::Nearest {
-                        let loss_abs = loss.abs();
-                        loss_abs + loss_abs >= rhs.inner.abs()
+                        // Avoid overflow of `2 * |loss|` and `|MIN|`.
+                        let loss_abs = loss.unsigned_abs();
+                        loss_abs >= rhs.inner.unsigned_abs() - loss_abs
                     } else {
                         mode as i32 == sign as i32
                     };
-- 
2.43.0


From 7703d5595b9898f06510feb9bde6d86e460521a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:24 +0000
Subject: [PATCH 02/13] fix: integer rdiv panicked on MIN / -1 and overflowed
 for large divisors in the Nearest mode

---
 src/ops/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ops/mod.rs b/src/ops/mod.rs
index 81f41c3..4668c70 100644
--- a/src/ops/mod.rs
+++ b/src/ops/mod.rs
@@ -452,15 +452,16 @@ macro_rules! impl_for_ints {
                     return Err(ArithmeticError::DivisionByZero);
                 }
 
-                let mut result = self / rhs;
+                let mut result = self.checked_div(rhs).ok_or(ArithmeticError::Overflow)?;
                 let loss = self - result * rhs;
 
                 if loss != 0 {
                     let sign = self.signum() * rhs.signum();
 
                     let add_signed_one = if mode == RoundMode::Nearest {
-                        let loss_abs = loss.abs();
-                        loss_abs + loss_abs >= rhs.abs()
+                        // Avoid overflow of `2 * |loss|` and `|MIN|`.
+                        let loss_abs = loss.unsigned_abs();
+                        loss_abs >= rhs.unsigned_abs() - loss_abs
                     } else {
                         mode as i32 == sign as i32
                     };
-- 
2.43.0


From 39db9d9ca4860a90aa86b171acf53e3fad36b8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:24 +0000
Subject: [PATCH 03/13] fix: integral overflowed for MIN and for high
 precisions in the Nearest mode

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 60ab6d0..8444f0c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -501,10 +501,10 @@ macro_rules! impl_fixed_point {
             #[inline]
             pub fn integral(self, mode: RoundMode) -> $layout {
                 let sign = self.inner.signum();
-                let (mut int, frac) = (self.inner / Self::COEF, self.inner.abs() % Self::COEF);
+                let (mut int, frac) = (self.inner / Self::COEF, (self.inner % Self::COEF).abs());
 
                 let add_signed_one = if mode == RoundMode::Nearest {
-                    frac + frac >= Self::COEF
+                    frac >= Self::COEF - frac
                 } else {
                     mode as i32 == sign as i32 && frac > 0
                 };
-- 
2.43.0


From 7de8eda569c3d2877b56af7d8005ee1e49b2bc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:24 +0000
Subject: [PATCH 04/13] fix: rmul overflowed for the highest i128 precision in
 the Nearest mode

---
 src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8444f0c..ffe6df6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -289,8 +289,9 @@ macro_rules! impl_fixed_point {
                 let sign = self.inner.signum() * rhs.inner.signum();
 
                 let add_signed_one = if mode == RoundMode::Nearest {
-                    sign as i32 >= 0 && loss + loss >= Self::COEF
-                                     || loss + loss <= Self::NEG_COEF
+                    // Avoid overflow of `2 * loss`.
+                    sign as i32 >= 0 && loss >= Self::COEF - loss
+                                     || loss <= Self::NEG_COEF - loss
                 } else {
                     loss != 0 && mode as i32 == sign as i32
                 };
-- 
2.43.0


From 95f2a8c2614997f0431e836d58c519b9f331b31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:24 +0000
Subject: [PATCH 05/13] fix: stringification overflowed for the highest i128
 precision and the buffer for zero precision

---
 src/string.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/string.rs b/src/string.rs
index 6e59efc..c0f25f1 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -108,14 +108,14 @@ macro_rules! impl_for {
                     let _ = buf.push('-');
                 }
 
-                let integral = (self.inner / Self::COEF).abs();
-                let fractional = (self.inner % Self::COEF).abs();
+                let integral = (self.inner / Self::COEF).unsigned_abs();
+                let fractional = (self.inner % Self::COEF).unsigned_abs();
 
                 let _ = buf.push_str(fmt.format(integral));
                 let _ = buf.push('.');
 
                 if fractional > 0 {
-                    let fractional_with_leading_one = fractional + Self::COEF;
+                    let fractional_with_leading_one = fractional + Self::COEF.unsigned_abs();
                     let s = &fmt.format(fractional_with_leading_one)[1..];
                     let _ = buf.push_str(s.trim_end_matches('0'));
                 } else {
@@ -127,9 +127,9 @@ macro_rules! impl_for {
 }
 
 // Serialize as a string in case of human readable formats.
-// The maximum length can be calculated as `len(str(-2**bits)) + 1`,
-// where `1` is reserved for `.` after integral part.
-const MAX_LEN: usize = if cfg!(feature = "i128") { 41 } else { 21 };
+// The maximum length can be calculated as `len(str(-2**bits)) + 2`,
+// where `2` is reserved for `.0` after integral part.
+const MAX_LEN: usize = if cfg!(feature = "i128") { 42 } else { 22 };
 
 // TODO: try `staticvec` after stabilization.
 // Now it works faster than `arrayvec`.
-- 
2.43.0


From 9ab7aab5a8d4154063f58a30c7b388081133212e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:24 +0000
Subject: [PATCH 06/13] fix: parsing rejected representable values whose
 fraction is longer than the precision

---
 src/string.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/string.rs b/src/string.rs
index c0f25f1..5a81420 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -46,7 +46,7 @@ macro_rules! impl_for {
                     .parse()
                     .map_err(|_| ConvertError::new("can't parse integral part"))?;
 
-                if !fractional_str.chars().all(|c| c.is_digit(10)) {
+                if fractional_str.is_empty() || !fractional_str.chars().all(|c| c.is_digit(10)) {
                     return Err(ConvertError::new(
                         "can't parse fractional part: must contain digits only",
                     ));
@@ -55,13 +55,12 @@ macro_rules! impl_for {
                 let signum = if str.as_bytes()[0] == b'-' { -1 } else { 1 };
                 let prec = Self::PRECISION as usize; // TODO: negative precision?
 
-                if EXACT {
-                    if fractional_str.len() > Self::PRECISION.abs() as usize {
-                        return Err(ConvertError::new("requested precision is too high"));
-                    }
+                // Trailing zeros don't affect the value, so they are allowed.
+                if EXACT && fractional_str.trim_end_matches('0').len() > prec {
+                    return Err(ConvertError::new("requested precision is too high"));
                 }
 
-                let round = if !EXACT && fractional_str.len() > prec {
+                let round = if fractional_str.len() > prec {
                     let extra = fractional_str.as_bytes()[prec];
                     fractional_str = &fractional_str[..prec];
                     Some(signum).filter(|_| extra >= b'5')
@@ -78,9 +77,13 @@ macro_rules! impl_for {
 
                 debug_assert!(exp <= Self::COEF);
 
-                let fractional: $layout = fractional_str
-                    .parse()
-                    .map_err(|_| ConvertError::new("can't parse fractional part"))?;
+                let fractional: $layout = if fractional_str.is_empty() {
+                    0 // `PRECISION` is zero
+                } else {
+                    fractional_str
+                        .parse()
+                        .map_err(|_| ConvertError::new("can't parse fractional part"))?
+                };
 
                 let final_integral = integral
                     .checked_mul(Self::COEF)
-- 
2.43.0


From 23db14e1d883ffc1de769504f4f8fb61cc202ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:24 +0000
Subject: [PATCH 07/13] fix: from_decimal overflowed while computing the
 multiplier for a big exponent

---
 src/lib.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ffe6df6..2f05648 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -673,10 +673,8 @@ macro_rules! impl_fixed_point {
                 }
 
                 let ten: $layout = 10;
-                let multiplier = ten.pow((exponent + Self::PRECISION) as u32);
-
-                mantissa
-                    .checked_mul(multiplier)
+                ten.checked_pow((exponent + Self::PRECISION) as u32)
+                    .and_then(|multiplier| mantissa.checked_mul(multiplier))
                     .map(Self::from_bits)
                     .map_or_else(|| Err(ConvertError::new("too big mantissa")), Ok)
             }
-- 
2.43.0


From ee9869979272db88e3cf1edbdcf966851a45c538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:24 +0000
Subject: [PATCH 08/13] fix: conversion from f64 rejected MIN

---
 src/float.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/float.rs b/src/float.rs
index e833677..db1cc59 100644
--- a/src/float.rs
+++ b/src/float.rs
@@ -168,6 +168,11 @@ macro_rules! impl_try_from_f64 {
                     bits = rdiv_by_exponent_10(bits, (-Self::PRECISION - exponent10) as u32);
                 }
 
+                // `|MIN|` is greater than `MAX` by one.
+                if !positive && bits == $layout::MIN.unsigned_abs() as u128 {
+                    return Ok(Self::from_bits($layout::MIN));
+                }
+
                 let bits: $layout = bits
                     .try_into()
                     .map_err(|_| ConvertError::new("too big number"))?;
-- 
2.43.0


From 22de654bbdcf4126136dccc35958322d309a9aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:24 +0000
Subject: [PATCH 09/13] fix: fixnum_const silently truncated literals that
 don't fit in the layout

---
 src/macros.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/macros.rs b/src/macros.rs
index 34ab741..1b40208 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -181,7 +181,9 @@ macro_rules! fixnum_const {
         use $crate::FixedPoint;
         use $crate::_priv::*;
         const VALUE_INNER: Int = parse_fixed(stringify!($value), pow10($precision));
-        FixedPoint::from_bits(VALUE_INNER as _)
+        let raw = VALUE_INNER as _;
+        ::core::assert!(raw as Int == VALUE_INNER, "the literal is out of range");
+        FixedPoint::from_bits(raw)
     }};
 }
 
-- 
2.43.0


From 9acea0f89939f795d52a75a6624b961d5b56a104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:24 +0000
Subject: [PATCH 10/13] fix: fixnum_const failed to compile for MIN

---
 src/const_fn.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/const_fn.rs b/src/const_fn.rs
index 997ac30..55414a5 100644
--- a/src/const_fn.rs
+++ b/src/const_fn.rs
@@ -70,14 +70,14 @@ const fn parse_digit(byte: u8) -> Int {
     digit as _
 }
 
-const fn parse_int(bytes: &[u8], start: usize, end: usize) -> Int {
+const fn parse_int(bytes: &[u8], start: usize, end: usize, signum: Int) -> Int {
     let mut result: Int = 0;
     let mut i = start;
 
     while i < end {
         let digit = parse_digit(bytes[i]);
         i += 1;
-        result += digit * pow10((end - i) as i32);
+        result += signum * digit * pow10((end - i) as i32);
     }
 
     result
@@ -97,20 +97,20 @@ pub const fn parse_fixed(str: &str, coef: Int) -> Int {
     let point = match find(bytes, b'.') {
         Some(point) => point,
         None => {
-            let integral = parse_int(bytes, start, bytes.len());
-            return signum * integral * coef;
+            let integral = parse_int(bytes, start, bytes.len(), signum);
+            return integral * coef;
         }
     };
 
-    let integral = parse_int(bytes, start, point);
+    let integral = parse_int(bytes, start, point, signum);
     let exp = pow10((bytes.len() - point - 1) as i32);
     const_assert!(exp <= coef);
 
-    let fractional = parse_int(bytes, point + 1, bytes.len());
+    let fractional = parse_int(bytes, point + 1, bytes.len(), signum);
     let final_integral = integral * coef;
     let final_fractional = coef / exp * fractional;
 
-    signum * (final_integral + final_fractional)
+    final_integral + final_fractional
 }
 
 #[test]
-- 
2.43.0


From bbde415f46d4168aed3486775e08d5ba1cbabe57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:49 +0000
Subject: [PATCH 11/13] fix: serde::str and serde::str_option failed to
 deserialize from non-borrowed strings

---
 src/serde.rs | 54 +++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 37 insertions(+), 17 deletions(-)

diff --git a/src/serde.rs b/src/serde.rs
index a233906..1c8153e 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -145,6 +145,40 @@ where
     // TODO: support serde_json/arbitrary_precision.
 }
 
+// Deserializes from both borrowed and transient strings.
+struct FromString<I, P>(FixedPoint<I, P>);
+
+impl<'de, I, P> Deserialize<'de> for FromString<I, P>
+where
+    FixedPoint<I, P>: FromStr,
+{
+    fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+    where
+        D: Deserializer<'de>,
+    {
+        deserializer.deserialize_str(FromStringVisitor(PhantomData))
+    }
+}
+
+struct FromStringVisitor<I, P>(PhantomData<(I, P)>);
+
+impl<'de, I, P> de::Visitor<'de> for FromStringVisitor<I, P>
+where
+    FixedPoint<I, P>: FromStr,
+{
+    type Value = FromString<I, P>;
+
+    fn expecting(&self, formatter: &mut fmt::Formatter<'_>) -> fmt::Result {
+        formatter.write_str("string containing a fixed-point number")
+    }
+
+    fn visit_str<E: de::Error>(self, s: &str) -> Result<Self::Value, E> {
+        s.parse()
+            .map(FromString)
+            .map_err(|_| E::invalid_value(de::Unexpected::Str(s), &self))
+    }
+}
+
 /// (De)serializes `FixedPoint` as inner representation.
 pub mod repr {
     use super::*;
@@ -228,13 +262,7 @@ pub mod str {
         D: Deserializer<'de>,
         FixedPoint<I, P>: FromStr,
     {
-        let s = <&str>::deserialize(deserializer)?;
-        s.parse().map(F::from).map_err(|_| {
-            D::Error::invalid_value(
-                de::Unexpected::Str(s),
-                &"string containing a fixed-point number",
-            )
-        })
+        FromString::deserialize(deserializer).map(|s| F::from(s.0))
     }
 }
 
@@ -265,16 +293,8 @@ pub mod str_option {
         D: Deserializer<'de>,
         FixedPoint<I, P>: FromStr,
     {
-        let s = Option::<&str>::deserialize(deserializer)?;
-        s.map(|s| {
-            s.parse().map(F::from).map_err(|_| {
-                D::Error::invalid_value(
-                    de::Unexpected::Str(s),
-                    &"string containing a fixed-point number",
-                )
-            })
-        })
-        .transpose()
+        let s = Option::<FromString<I, P>>::deserialize(deserializer)?;
+        Ok(s.map(|s| F::from(s.0)))
     }
 }
 
-- 
2.43.0


From 6f95d8d87f95f81b0cc7b5e521ab0406a1393062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:22 +0000
Subject: [PATCH 12/13] fix: from_decimal rejected zero mantissas with a big
 exponent

---
 src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 2f05648..6dc7242 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -672,6 +672,11 @@ macro_rules! impl_fixed_point {
                     return Err(ConvertError::new("unsupported exponent"));
                 }
 
+                // The multiplier may not fit in the layout, but zero always does.
+                if mantissa == 0 {
+                    return Ok(Self::ZERO);
+                }
+
                 let ten: $layout = 10;
                 ten.checked_pow((exponent + Self::PRECISION) as u32)
                     .and_then(|multiplier| mantissa.checked_mul(multiplier))
-- 
2.43.0


From fd5c66083743b1de3c3e5b06e77e33e06e737ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:07 +0000
Subject: [PATCH 13/13] fix: the schemars feature failed to compile without std

---
 src/schemars.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/schemars.rs b/src/schemars.rs
index 3944389..397b0ea 100644
--- a/src/schemars.rs
+++ b/src/schemars.rs
@@ -1,3 +1,7 @@
+extern crate alloc;
+
+use alloc::{borrow::ToOwned, string::String};
+
 use schemars::{
     gen::SchemaGenerator,
     schema::{InstanceType, Schema, SchemaObject},
-- 
2.43.0

