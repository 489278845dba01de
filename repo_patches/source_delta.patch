From ed41fda2f6f00d2d263c488265a077b0d3e16f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:08 +0000
Subject: [PATCH 01/12] fix: report the right line and column for an unexpected
 character that starts a line

---
 src/parser.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 8fab0df..a921be2 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -411,13 +411,16 @@ impl<'a> Parser<'a> {
                      .next()
                      .expect("Must have a character");
 
-        let (lineno, col) = self.source[..at]
-                                .lines()
-                                .enumerate()
-                                .last()
-                                .unwrap_or((0, ""));
+        let before = &self.source[..at];
 
-        let colno = col.chars().count();
+        // Not using `str::lines` here, as it doesn't yield the (empty) last
+        // line when the character in question is the first one on its line.
+        let lineno = before.matches('\n').count();
+
+        let colno = match before.rfind('\n') {
+            Some(newline) => before[newline + 1..].chars().count(),
+            None          => before.chars().count(),
+        };
 
         Err(Error::UnexpectedCharacter {
             ch: ch,
-- 
2.43.0


From 5cd65cda20c7581b39b805ac7244e374fa3fdbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:25 +0000
Subject: [PATCH 02/12] fix: don't overflow or saturate the exponent of a
 number before it is fully read

---
 src/parser.rs | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index a921be2..43a96b4 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -250,7 +250,7 @@ macro_rules! expect_number {
                     num = num * 10 + (ch - b'0') as u64;
                 },
                 _             => {
-                    let mut e = 0;
+                    let mut e = 0i64;
                     result = allow_number_extensions!($parser, num, e, ch);
                     break;
                 }
@@ -287,7 +287,7 @@ macro_rules! allow_number_extensions {
             0.into()
         } else {
             let mut num = 0;
-            let mut e = 0;
+            let mut e = 0i64;
             let ch = $parser.read_byte();
             allow_number_extensions!($parser, num, e, ch)
         }
@@ -325,7 +325,7 @@ macro_rules! expect_fraction {
 
         loop {
             if $parser.is_eof() {
-                result = unsafe { Number::from_parts_unchecked(true, $num, $e) };
+                result = number_from_parts($num, $e);
                 break;
             }
             let ch = $parser.read_byte();
@@ -354,7 +354,7 @@ macro_rules! expect_fraction {
                     break;
                 }
                 _ => {
-                    result = unsafe { Number::from_parts_unchecked(true, $num, $e) };
+                    result = number_from_parts($num, $e);
                     break;
                 }
             }
@@ -557,10 +557,10 @@ impl<'a> Parser<'a> {
     // the exponent. Note that no digits are actually read here, as we already
     // exceeded the precision range of f64 anyway.
     fn read_big_number(&mut self, mut num: u64) -> Result<Number> {
-        let mut e = 0i16;
+        let mut e = 0i64;
         loop {
             if self.is_eof() {
-                return Ok(unsafe { Number::from_parts_unchecked(true, num, e) });
+                return Ok(number_from_parts(num, e));
             }
             let ch = self.read_byte();
             match ch {
@@ -570,7 +570,8 @@ impl<'a> Parser<'a> {
                         num.checked_add((ch - b'0') as u64)
                     }) {
                         Some(result) => num = result,
-                        None         => e = e.checked_add(1).ok_or_else(|| Error::ExceededDepthLimit)?,
+                        None if e == i16::max_value() as i64 => return Err(Error::ExceededDepthLimit),
+                        None         => e += 1,
                     }
                 },
                 b'.' => {
@@ -585,12 +586,12 @@ impl<'a> Parser<'a> {
             }
         }
 
-        Ok(unsafe { Number::from_parts_unchecked(true, num, e) })
+        Ok(number_from_parts(num, e))
     }
 
     // Called in the rare case that a number with `e` notation has been
     // encountered. This is pretty straight forward, I guess.
-    fn expect_exponent(&mut self, num: u64, big_e: i16) -> Result<Number> {
+    fn expect_exponent(&mut self, num: u64, big_e: i64) -> Result<Number> {
         let mut ch = expect_byte!(self);
         let sign = match ch {
             b'-' => {
@@ -605,7 +606,7 @@ impl<'a> Parser<'a> {
         };
 
         let mut e = match ch {
-            b'0' ..= b'9' => (ch - b'0') as i16,
+            b'0' ..= b'9' => (ch - b'0') as i64,
             _ => return self.unexpected_character(),
         };
 
@@ -617,13 +618,13 @@ impl<'a> Parser<'a> {
             match ch {
                 b'0' ..= b'9' => {
                     self.bump();
-                    e = e.saturating_mul(10).saturating_add((ch - b'0') as i16);
+                    e = e.saturating_mul(10).saturating_add((ch - b'0') as i64);
                 },
                 _  => break
             }
         }
 
-        Ok(unsafe { Number::from_parts_unchecked(true, num, big_e.saturating_add(e * sign)) })
+        Ok(number_from_parts(num, big_e.saturating_add(e * sign)))
     }
 
     // Parse away!
@@ -759,6 +760,18 @@ impl<'a> Parser<'a> {
 
 struct StackBlock(JsonValue, usize);
 
+// The exponent is tracked as `i64` while parsing, since the position of the
+// decimal point and the `e` notation can each exceed `i16` even if they cancel
+// each other out. Only the final sum is clamped to what `Number` can hold.
+#[inline]
+fn number_from_parts(mantissa: u64, exponent: i64) -> Number {
+    let exponent = exponent
+        .max(i16::min_value() as i64)
+        .min(i16::max_value() as i64) as i16;
+
+    unsafe { Number::from_parts_unchecked(true, mantissa, exponent) }
+}
+
 // All that hard work, and in the end it's just a single function in the API.
 #[inline]
 pub fn parse(source: &str) -> Result<JsonValue> {
-- 
2.43.0


From 27d5be18184c7f12d2497918a7a7819813398174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:03 +0000
Subject: [PATCH 03/12] fix: compute fixed point integers without overflowing
 on large or distant exponents

---
 src/number.rs | 36 ++++++++++++++++--------------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/src/number.rs b/src/number.rs
index 808190a..c059c74 100644
--- a/src/number.rs
+++ b/src/number.rs
@@ -147,15 +147,7 @@ impl Number {
             return None;
         }
 
-        let e_diff = point as i16 + self.exponent;
-
-        Some(if e_diff == 0 {
-            self.mantissa
-        } else if e_diff < 0 {
-            self.mantissa.wrapping_div(decimal_power(-e_diff as u16))
-        } else {
-            self.mantissa.wrapping_mul(decimal_power(e_diff as u16))
-        })
+        Some(self.fixed_point_magnitude(point))
     }
 
     /// Analog to `as_fixed_point_u64`, except returning a signed
@@ -174,22 +166,26 @@ impl Number {
             return None;
         }
 
-        let num = if self.is_sign_positive() {
-            self.mantissa as i64
-        } else {
-            -(self.mantissa as i64)
-        };
-
-        let e_diff = point as i16 + self.exponent;
+        let num = self.fixed_point_magnitude(point) as i64;
 
-        Some(if e_diff == 0 {
+        Some(if self.is_sign_positive() {
             num
-        } else if e_diff < 0 {
-            num.wrapping_div(decimal_power(-e_diff as u16) as i64)
         } else {
-            num.wrapping_mul(decimal_power(e_diff as u16) as i64)
+            num.wrapping_neg()
         })
     }
+
+    // Integer at a fixed decimal point, ignoring the sign of the number.
+    fn fixed_point_magnitude(&self, point: u16) -> u64 {
+        let e_diff = point as i32 + self.exponent as i32;
+
+        if e_diff < 0 {
+            // Dividing by a power that doesn't fit in `u64` leaves nothing
+            10u64.checked_pow(-e_diff as u32).map_or(0, |power| self.mantissa / power)
+        } else {
+            self.mantissa.wrapping_mul(10u64.wrapping_pow(e_diff as u32))
+        }
+    }
 }
 
 impl PartialEq for Number {
-- 
2.43.0


From 5ccca387d1639d4881615b8f720066c82b8074d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:05 +0000
Subject: [PATCH 04/12] fix: compare numbers whose exponents are far apart by
 value

---
 src/number.rs | 33 +++++++++++----------------------
 1 file changed, 11 insertions(+), 22 deletions(-)

diff --git a/src/number.rs b/src/number.rs
index c059c74..1d380d4 100644
--- a/src/number.rs
+++ b/src/number.rs
@@ -200,20 +200,18 @@ impl PartialEq for Number {
             return false;
         }
 
-        let e_diff = self.exponent - other.exponent;
+        let e_diff = self.exponent as i32 - other.exponent as i32;
 
-        if e_diff == 0 {
-            return self.mantissa == other.mantissa;
-        } else if e_diff > 0 {
-            let power = decimal_power(e_diff as u16);
+        // Scaling that overflows `u64` can't match the other mantissa.
+        let scale = |mantissa: u64, e: i32| {
+            decimal_power(e as u32).and_then(|power| mantissa.checked_mul(power))
+        };
 
-            self.mantissa.wrapping_mul(power) == other.mantissa
+        if e_diff >= 0 {
+            scale(self.mantissa, e_diff) == Some(other.mantissa)
         } else {
-            let power = decimal_power(-e_diff as u16);
-
-            self.mantissa == other.mantissa.wrapping_mul(power)
+            scale(other.mantissa, -e_diff) == Some(self.mantissa)
         }
-
     }
 }
 
@@ -538,7 +536,7 @@ impl ops::Neg for Number {
 // }
 
 #[inline]
-fn decimal_power(mut e: u16) -> u64 {
+fn decimal_power(e: u32) -> Option<u64> {
     static CACHED: [u64; 20] = [
         1,
         10,
@@ -562,15 +560,6 @@ fn decimal_power(mut e: u16) -> u64 {
         10000000000000000000,
     ];
 
-    if e < 20 {
-        CACHED[e as usize]
-    } else {
-        let mut pow = 1u64;
-        while e >= 20 {
-            pow = pow.saturating_mul(CACHED[(e % 20) as usize]);
-            e /= 20;
-        }
-
-        pow
-    }
+    // Anything above 10^19 doesn't fit in `u64`
+    CACHED.get(e as usize).copied()
 }
-- 
2.43.0


From a1e616820e67b707ec2c075354cd77e8d6b94ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:06 +0000
Subject: [PATCH 05/12] fix: convert the minimum value of signed integer types
 to the right number

---
 src/number.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/number.rs b/src/number.rs
index 1d380d4..5af7b88 100644
--- a/src/number.rs
+++ b/src/number.rs
@@ -434,7 +434,7 @@ macro_rules! impl_signed {
                     Number {
                         category: NEGATIVE,
                         exponent: 0,
-                        mantissa: -num as u64,
+                        mantissa: (num as i64).wrapping_neg() as u64,
                     }
                 } else {
                     Number {
-- 
2.43.0


From eca4b10bceab341691f3ead3e17ead6e8aee1804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:07 +0000
Subject: [PATCH 06/12] fix: don't wrap out of range numbers, or accept NaN,
 when converting to signed integers

---
 src/number.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/number.rs b/src/number.rs
index 5af7b88..6fe6351 100644
--- a/src/number.rs
+++ b/src/number.rs
@@ -452,17 +452,17 @@ macro_rules! impl_signed {
             fn try_from(num: Number) -> Result<Self, Self::Error> {
                 let (positive, mantissa, exponent) = num.as_parts();
 
-                if exponent != 0 {
+                if num.is_nan() || exponent != 0 {
                     return Err(NumberOutOfScope);
                 }
 
-                let mantissa = if positive {
-                    mantissa as i64
+                let value = if positive {
+                    mantissa as i128
                 } else {
-                    -(mantissa as i64)
+                    -(mantissa as i128)
                 };
 
-                TryFrom::try_from(mantissa).map_err(Into::into)
+                TryFrom::try_from(value).map_err(Into::into)
             }
         }
 
-- 
2.43.0


From 88b892dd541bfb5b3dbefc7f0eeec7f0ccd69b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:37 +0000
Subject: [PATCH 07/12] fix: convert numbers to the nearest f64 and f32

---
 src/number.rs | 68 +++++++++++++++++----------------------------------
 1 file changed, 23 insertions(+), 45 deletions(-)

diff --git a/src/number.rs b/src/number.rs
index 6fe6351..ae0c972 100644
--- a/src/number.rs
+++ b/src/number.rs
@@ -237,48 +237,23 @@ fn exponentiate_f64(n: f64, e: i16) -> f64 {
     ];
 
     if e >= 0 {
-        let index = e as usize;
-
-        n * if index < 23 {
-            CACHE_POWERS[index]
-        } else {
-            10f64.powf(index as f64)
-        }
+        n * CACHE_POWERS[e as usize]
     } else {
-        let index = -e as usize;
-
-        n / if index < 23 {
-            CACHE_POWERS[index]
-        } else {
-            10f64.powf(index as f64)
-        }
+        n / CACHE_POWERS[-e as usize]
     }
 }
 
 
 fn exponentiate_f32(n: f32, e: i16) -> f32 {
-    static CACHE_POWERS: [f32; 23] = [
+    static CACHE_POWERS: [f32; 11] = [
           1.0,    1e1,    1e2,    1e3,    1e4,    1e5,    1e6,    1e7,
-          1e8,    1e9,   1e10,   1e11,   1e12,   1e13,   1e14,   1e15,
-         1e16,   1e17,   1e18,   1e19,   1e20,   1e21,   1e22
+          1e8,    1e9,   1e10
     ];
 
     if e >= 0 {
-        let index = e as usize;
-
-        n * if index < 23 {
-            CACHE_POWERS[index]
-        } else {
-            10f32.powf(index as f32)
-        }
+        n * CACHE_POWERS[e as usize]
     } else {
-        let index = -e as usize;
-
-        n / if index < 23 {
-            CACHE_POWERS[index]
-        } else {
-            10f32.powf(index as f32)
-        }
+        n / CACHE_POWERS[-e as usize]
     }
 }
 
@@ -286,15 +261,17 @@ impl From<Number> for f64 {
     fn from(num: Number) -> f64 {
         if num.is_nan() { return f64::NAN; }
 
-        let mut n = num.mantissa as f64;
-        let mut e = num.exponent;
+        let n = num.mantissa;
+        let e = num.exponent;
 
-        if e < -308 {
-            n = exponentiate_f64(n, e + 308);
-            e = -308;
-        }
+        // Both the mantissa and the power of 10 are exact floats here, so that
+        // the result is rounded only once. The slower path handles the rest.
+        let f = if n <= 1 << 53 && e >= -22 && e <= 22 {
+            exponentiate_f64(n as f64, e)
+        } else {
+            format!("{}e{}", n, e).parse().expect("Must be a valid float")
+        };
 
-        let f = exponentiate_f64(n, e);
         if num.is_sign_positive() { f } else { -f }
     }
 }
@@ -303,15 +280,16 @@ impl From<Number> for f32 {
     fn from(num: Number) -> f32 {
         if num.is_nan() { return f32::NAN; }
 
-        let mut n = num.mantissa as f32;
-        let mut e = num.exponent;
+        let n = num.mantissa;
+        let e = num.exponent;
 
-        if e < -127 {
-            n = exponentiate_f32(n, e + 127);
-            e = -127;
-        }
+        // See the conversion to `f64` above
+        let f = if n <= 1 << 24 && e >= -10 && e <= 10 {
+            exponentiate_f32(n as f32, e)
+        } else {
+            format!("{}e{}", n, e).parse().expect("Must be a valid float")
+        };
 
-        let f = exponentiate_f32(n, e);
         if num.is_sign_positive() { f } else { -f }
     }
 }
-- 
2.43.0


From ed98001bd16b092f08edcc73dd9fc78c69c865dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:39 +0000
Subject: [PATCH 08/12] fix: compare short strings with String

---
 src/value/implements.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/value/implements.rs b/src/value/implements.rs
index 7833f7e..f9d55ac 100644
--- a/src/value/implements.rs
+++ b/src/value/implements.rs
@@ -70,6 +70,12 @@ impl<'a> From<&'a str> for JsonValue {
     }
 }
 
+impl From<String> for JsonValue {
+    fn from(val: String) -> JsonValue {
+        JsonValue::String(val)
+    }
+}
+
 impl<T: Into<JsonValue>> From<Option<T>> for JsonValue {
     fn from(val: Option<T>) -> JsonValue {
         match val {
@@ -143,7 +149,24 @@ impl<'a> PartialEq<JsonValue> for str {
     }
 }
 
-implement!(String, String);
+impl PartialEq<String> for JsonValue {
+    fn eq(&self, other: &String) -> bool {
+        *self == **other
+    }
+}
+
+impl<'a> PartialEq<String> for &'a JsonValue {
+    fn eq(&self, other: &String) -> bool {
+        **self == **other
+    }
+}
+
+impl PartialEq<JsonValue> for String {
+    fn eq(&self, other: &JsonValue) -> bool {
+        **self == *other
+    }
+}
+
 implement!(Number, isize as num);
 implement!(Number, usize as num);
 implement!(Number, i8 as num);
-- 
2.43.0


From 894d8f2680d98cec55fde2417994b47e19bf91f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:40 +0000
Subject: [PATCH 09/12] fix: clear short strings as any other string

---
 src/value/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/value/mod.rs b/src/value/mod.rs
index d9fb0c8..6e09370 100644
--- a/src/value/mod.rs
+++ b/src/value/mod.rs
@@ -559,6 +559,7 @@ impl JsonValue {
     /// on a string will clear the string. Numbers and booleans become null.
     pub fn clear(&mut self) {
         match *self {
+            JsonValue::Short(_)               => *self = "".into(),
             JsonValue::String(ref mut string) => string.clear(),
             JsonValue::Object(ref mut object) => object.clear(),
             JsonValue::Array(ref mut vec)     => vec.clear(),
-- 
2.43.0


From a560ce34fc5f7cd1d017fb349ab7b280e1adfea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:41 +0000
Subject: [PATCH 10/12] fix: don't overflow the width of an indent in pretty
 print

---
 src/codegen.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/codegen.rs b/src/codegen.rs
index 4bb9ef1..fb3e4e7 100644
--- a/src/codegen.rs
+++ b/src/codegen.rs
@@ -276,7 +276,7 @@ impl Generator for PrettyGenerator {
 
     fn new_line(&mut self) -> io::Result<()> {
         self.code.push(b'\n');
-        for _ in 0..(self.dent * self.spaces_per_indent) {
+        for _ in 0..(self.dent as usize * self.spaces_per_indent as usize) {
             self.code.push(b' ');
         }
         Ok(())
@@ -350,7 +350,7 @@ impl<'a, W> Generator for PrettyWriterGenerator<'a, W> where W: Write {
 
     fn new_line(&mut self) -> io::Result<()> {
         self.write_char(b'\n')?;
-        for _ in 0..(self.dent * self.spaces_per_indent) {
+        for _ in 0..(self.dent as usize * self.spaces_per_indent as usize) {
             self.write_char(b' ')?;
         }
         Ok(())
-- 
2.43.0


From 7a9d7fef4d73928184b2053b85ef2f0a6be0cd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:48 +0000
Subject: [PATCH 11/12] fix: evaluate items and keys of array! and object! only
 once

---
 src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ec925ef..a8c66c3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -310,7 +310,8 @@ macro_rules! array {
 
     // Construct the actual array
     (@END $( $i:expr, )*) => ({
-        let size = 0 $( + {let _ = &$i; 1} )*;
+        // Only counts the items, must not evaluate them
+        let size = <[&str]>::len(&[ $( stringify!($i) ),* ]);
         let mut array = Vec::with_capacity(size);
 
         $(
@@ -404,7 +405,8 @@ macro_rules! object {
 
     // Construct the actual object
     (@END $( $k:expr => $v:expr, )*) => ({
-        let size = 0 $( + {let _ = &$k; 1} )*;
+        // Only counts the keys, must not evaluate them
+        let size = <[&str]>::len(&[ $( stringify!($k) ),* ]);
         let mut object = $crate::object::Object::with_capacity(size);
 
         $(
-- 
2.43.0


From 8e10a3029ae53373f88766cbc3547cb2ca879ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:08 +0000
Subject: [PATCH 12/12] fix: report the exact size hint of object iterators

---
 src/object.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/object.rs b/src/object.rs
index 7ff2165..3b2c7c5 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -593,6 +593,11 @@ impl<'a> Iterator for Iter<'a> {
     fn next(&mut self) -> Option<Self::Item> {
         self.inner.next().map(|node| (node.key.as_str(), &node.value))
     }
+
+    #[inline(always)]
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.inner.size_hint()
+    }
 }
 
 impl<'a> DoubleEndedIterator for Iter<'a> {
@@ -628,6 +633,11 @@ impl<'a> Iterator for IterMut<'a> {
     fn next(&mut self) -> Option<Self::Item> {
         self.inner.next().map(|node| (node.key.as_str(), &mut node.value))
     }
+
+    #[inline(always)]
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.inner.size_hint()
+    }
 }
 
 impl<'a> DoubleEndedIterator for IterMut<'a> {
-- 
2.43.0

