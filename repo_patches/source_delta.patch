From e9979f008c4cb48b27e08c51677a2f9373e578fc Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 01:05:00 +0000
Subject: [PATCH 01/21] fix: BigInt operations taking or converting iN panicked
 on iN::MIN

---
 src/bigint/arith/add.rs | 8 ++++----
 src/bigint/arith/div.rs | 4 ++--
 src/bigint/arith/mul.rs | 4 ++--
 src/bigint/arith/rem.rs | 6 +++---
 src/bigint/arith/sub.rs | 8 ++++----
 src/bigint/comp.rs      | 8 ++++----
 src/bigint/convert.rs   | 6 +++---
 7 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/bigint/arith/add.rs b/src/bigint/arith/add.rs
index 12ba334..a31bcc0 100644
--- a/src/bigint/arith/add.rs
+++ b/src/bigint/arith/add.rs
@@ -56,11 +56,11 @@ impl BigInt {
     #[must_use = "method returns a new number and does not mutate the original value"]
     pub fn add_i32(&self, other: i32) -> Self {
         if self.is_neg() == (other < 0) {
-            BigInt::from_ubi(self.val.add_u32(other.abs() as u32), self.is_neg())
+            BigInt::from_ubi(self.val.add_u32(other.unsigned_abs()), self.is_neg())
         }
 
         else {
-            let other_abs = other.abs() as u32;
+            let other_abs = other.unsigned_abs();
             let self_less = self.val.lt_u32(other_abs);
             let abs_diff = if self_less {
                 UBigInt::from_u32(other_abs - self.val.to_u32().unwrap())
@@ -79,11 +79,11 @@ impl BigInt {
 
     pub fn add_i32_mut(&mut self, other: i32) {
         if self.is_neg() == (other < 0) {
-            self.val.add_u32_mut(other.abs() as u32);
+            self.val.add_u32_mut(other.unsigned_abs());
         }
 
         else {
-            let other_abs = other.abs() as u32;
+            let other_abs = other.unsigned_abs();
             let self_less = self.val.lt_u32(other_abs);
             if self_less {
                 self.val = UBigInt::from_u32(other_abs - self.val.to_u32().unwrap());
diff --git a/src/bigint/arith/div.rs b/src/bigint/arith/div.rs
index ff7b35a..a82a78e 100644
--- a/src/bigint/arith/div.rs
+++ b/src/bigint/arith/div.rs
@@ -22,7 +22,7 @@ impl BigInt {
 
     #[must_use = "method returns a new number and does not mutate the original value"]
     pub fn div_i32(&self, other: i32) -> Self {
-        let val = self.val.div_u32(other.abs() as u32);
+        let val = self.val.div_u32(other.unsigned_abs());
         let is_neg = !val.is_zero() && self.is_neg() != (other < 0);
 
         let result = BigInt::from_ubi(val, is_neg);
@@ -33,7 +33,7 @@ impl BigInt {
     }
 
     pub fn div_i32_mut(&mut self, other: i32) {
-        self.val.div_u32_mut(other.abs() as u32);
+        self.val.div_u32_mut(other.unsigned_abs());
         self._is_neg = !self.val.is_zero() && self.is_neg() != (other < 0);
         #[cfg(test)] assert!(self.is_valid());
     }
diff --git a/src/bigint/arith/mul.rs b/src/bigint/arith/mul.rs
index 5a3fb94..4e74bb5 100644
--- a/src/bigint/arith/mul.rs
+++ b/src/bigint/arith/mul.rs
@@ -22,7 +22,7 @@ impl BigInt {
 
     #[must_use = "method returns a new number and does not mutate the original value"]
     pub fn mul_i32(&self, other: i32) -> Self {
-        let val = self.val.mul_u32(other.abs() as u32);
+        let val = self.val.mul_u32(other.unsigned_abs());
         let is_neg = !val.is_zero() && self.is_neg() != (other < 0);
 
         let result = BigInt::from_ubi(val, is_neg);
@@ -33,7 +33,7 @@ impl BigInt {
     }
 
     pub fn mul_i32_mut(&mut self, other: i32) {
-        self.val.mul_u32_mut(other.abs() as u32);
+        self.val.mul_u32_mut(other.unsigned_abs());
         self._is_neg = !self.val.is_zero() && self.is_neg() != (other < 0);
         #[cfg(test)] assert!(self.is_valid());
     }
diff --git a/src/bigint/arith/rem.rs b/src/bigint/arith/rem.rs
index 6dd52f2..49265a1 100644
--- a/src/bigint/arith/rem.rs
+++ b/src/bigint/arith/rem.rs
@@ -26,7 +26,7 @@ impl BigInt {
     // x % y = -(-x % y)
     #[must_use = "method returns a new number and does not mutate the original value"]
     pub fn rem_i32(&self, other: i32) -> Self {
-        let new_val = self.val.rem_u32(other.abs() as u32);
+        let new_val = self.val.rem_u32(other.unsigned_abs());
         let is_neg = self.is_neg() & !new_val.is_zero();
 
         let result = BigInt::from_ubi(new_val, is_neg);
@@ -37,7 +37,7 @@ impl BigInt {
     }
 
     pub fn rem_i32_mut(&mut self, other: i32) {
-        self.val.rem_u32_mut(other.abs() as u32);
+        self.val.rem_u32_mut(other.unsigned_abs());
         self._is_neg = self.is_neg() & !self.val.is_zero();
         #[cfg(test)] assert!(self.is_valid());
     }
@@ -45,7 +45,7 @@ impl BigInt {
     /// `other` must be a power of 2
     #[must_use = "method returns a new number and does not mutate the original value"]
     pub fn rem_pow2(&self, other: i32) -> Self {
-        let new_val = self.val.rem_pow2(other.abs() as u32);
+        let new_val = self.val.rem_pow2(other.unsigned_abs());
         let is_neg = self.is_neg() & !new_val.is_zero();
 
         BigInt::from_ubi(new_val, is_neg)
diff --git a/src/bigint/arith/sub.rs b/src/bigint/arith/sub.rs
index db3507f..2ac23c4 100644
--- a/src/bigint/arith/sub.rs
+++ b/src/bigint/arith/sub.rs
@@ -60,11 +60,11 @@ impl BigInt {
     #[must_use = "method returns a new number and does not mutate the original value"]
     pub fn sub_i32(&self, other: i32) -> Self {
         let result = if self.is_neg() != (other < 0) {
-            BigInt::from_ubi(self.val.add_u32(other.abs() as u32), self.is_neg())
+            BigInt::from_ubi(self.val.add_u32(other.unsigned_abs()), self.is_neg())
         }
 
         else {
-            let other_abs = other.abs() as u32;
+            let other_abs = other.unsigned_abs();
             let self_less = self.val.lt_u32(other_abs);
             let abs_diff = if self_less {
                 UBigInt::from_u32(other_abs - self.val.to_u32().unwrap())
@@ -83,11 +83,11 @@ impl BigInt {
 
     pub fn sub_i32_mut(&mut self, other: i32) {
         if self.is_neg() != (other < 0) {
-            self.val.add_u32_mut(other.abs() as u32);
+            self.val.add_u32_mut(other.unsigned_abs());
         }
 
         else {
-            let other_abs = other.abs() as u32;
+            let other_abs = other.unsigned_abs();
             let self_less = self.val.lt_u32(other_abs);
 
             if self_less {
diff --git a/src/bigint/comp.rs b/src/bigint/comp.rs
index 7da3c53..e6d7005 100644
--- a/src/bigint/comp.rs
+++ b/src/bigint/comp.rs
@@ -102,7 +102,7 @@ impl BigInt {
         }
 
         else {
-            match self.val.comp_u32(other.abs() as u32) {
+            match self.val.comp_u32(other.unsigned_abs()) {
                 Ordering::Equal => false,
 
                 // -3 > -4
@@ -127,7 +127,7 @@ impl BigInt {
         }
 
         else {
-            match self.val.comp_u32(other.abs() as u32) {
+            match self.val.comp_u32(other.unsigned_abs()) {
                 Ordering::Equal => false,
 
                 // -3 > -4
@@ -151,7 +151,7 @@ impl BigInt {
         }
 
         else {
-            self.val.to_u32().unwrap() == other.abs() as u32
+            self.val.to_u32().unwrap() == other.unsigned_abs()
         }
     }
 
@@ -181,7 +181,7 @@ impl BigInt {
         }
 
         else {
-            match self.val.comp_u32(other.abs() as u32) {
+            match self.val.comp_u32(other.unsigned_abs()) {
                 Ordering::Equal => Ordering::Equal,
                 Ordering::Less if self.is_neg() => Ordering::Greater,
                 Ordering::Less => Ordering::Less,
diff --git a/src/bigint/convert.rs b/src/bigint/convert.rs
index abf2702..2cec4d9 100644
--- a/src/bigint/convert.rs
+++ b/src/bigint/convert.rs
@@ -11,7 +11,7 @@ impl BigInt {
         let _is_neg = n < 0;
 
         BigInt {
-            val: UBigInt::from_u32(n.abs() as u32),
+            val: UBigInt::from_u32(n.unsigned_abs()),
             _is_neg,
         }
     }
@@ -33,7 +33,7 @@ impl BigInt {
         let _is_neg = n < 0;
 
         BigInt {
-            val: UBigInt::from_u64(n.abs() as u64),
+            val: UBigInt::from_u64(n.unsigned_abs()),
             _is_neg,
         }
     }
@@ -55,7 +55,7 @@ impl BigInt {
         let _is_neg = n < 0;
 
         BigInt {
-            val: UBigInt::from_u128(n.abs() as u128),
+            val: UBigInt::from_u128(n.unsigned_abs()),
             _is_neg,
         }
     }
-- 
2.43.0


From c7abc9588a6678ff9ee2c57e4238d49a570dff4b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 01:05:00 +0000
Subject: [PATCH 02/21] fix: BigInt::eq_i32 panicked for magnitudes of 2^32 and
 above

---
 src/bigint/comp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bigint/comp.rs b/src/bigint/comp.rs
index e6d7005..8c93a5b 100644
--- a/src/bigint/comp.rs
+++ b/src/bigint/comp.rs
@@ -151,7 +151,7 @@ impl BigInt {
         }
 
         else {
-            self.val.to_u32().unwrap() == other.unsigned_abs()
+            self.val.eq_u32(other.unsigned_abs())
         }
     }
 
-- 
2.43.0


From a8566125beb836ef9332071f660ddb4f841accd6 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 01:05:01 +0000
Subject: [PATCH 03/21] fix: BigInt::to_i128 rejected i128::MIN

---
 src/bigint/convert.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bigint/convert.rs b/src/bigint/convert.rs
index 2cec4d9..eea3bff 100644
--- a/src/bigint/convert.rs
+++ b/src/bigint/convert.rs
@@ -64,8 +64,8 @@ impl BigInt {
         match self.val.to_u128() {
             Ok(n) => if !self.is_neg() && n <= i128::MAX as u128 {
                 Ok(n as i128)
-            } else if self.is_neg() && n < (1 << 127) {
-                Ok(-(n as i128))
+            } else if self.is_neg() && n <= (1 << 127) {
+                Ok((n as i128).wrapping_neg())  // -i128::MIN does not fit
             } else {
                 Err(ConversionError::NotInRange { permitted: "-1.7e38~1.7e38".to_string(), error: self.to_scientific_notation(5) })
             },
-- 
2.43.0


From 401886b9df2e8e006b9b91cb6d1831d519237068 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 01:05:01 +0000
Subject: [PATCH 04/21] fix: UBigInt::rem_u32_mut overflowed u32 for divisors
 above 65536

---
 src/ubigint/arith/rem.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ubigint/arith/rem.rs b/src/ubigint/arith/rem.rs
index d12c44d..e19dc56 100644
--- a/src/ubigint/arith/rem.rs
+++ b/src/ubigint/arith/rem.rs
@@ -45,17 +45,18 @@ impl UBigInt {
     }
 
     pub fn rem_u32_mut(&mut self, other: u32) {
-        let unit = ((1 << 32) % other as u64) as u32;
+        let other = other as u64;
+        let unit = (1 << 32) % other;
         let mut curr_power = 1;
-        let mut result = 0;
+        let mut result: u64 = 0;
 
         for d in self.0.iter() {
-            result += (d % other) * curr_power % other;
+            result += (*d as u64 % other) * curr_power % other;
             curr_power *= unit;
             curr_power %= other;
         }
 
-        *self = UBigInt::from_u32(result % other);
+        *self = UBigInt::from_u32((result % other) as u32);
 
         #[cfg(test)] {
             let mut t = self.rem(&UBigInt::from_u32(other as u32));
-- 
2.43.0


From f36c50b84cfcb2ca97d1aee27084beadb8fefbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 01:05:01 +0000
Subject: [PATCH 05/21] fix: UBigInt::pow_u32 overflowed u32 for exponents of
 2^31 and above

---
 src/ubigint/arith/pow.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ubigint/arith/pow.rs b/src/ubigint/arith/pow.rs
index cc12a38..5a00113 100644
--- a/src/ubigint/arith/pow.rs
+++ b/src/ubigint/arith/pow.rs
@@ -25,7 +25,7 @@ impl UBigInt {
         let mut curr_exp = 1;
         powers.push(self.clone());
 
-        while curr_exp * 2 <= exp {
+        while curr_exp <= exp / 2 {
             powers.push(powers[powers.len() - 1].mul(&powers[powers.len() - 1]));
             curr_exp *= 2;
         }
-- 
2.43.0


From 36c416812baa9142903dbdf5e03f840737be5d54 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 01:05:01 +0000
Subject: [PATCH 06/21] fix: integer square root overflowed for radicands near
 u64::MAX

---
 src/ubigint/funcs.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ubigint/funcs.rs b/src/ubigint/funcs.rs
index c26e0a3..6001c22 100644
--- a/src/ubigint/funcs.rs
+++ b/src/ubigint/funcs.rs
@@ -296,6 +296,8 @@ impl UBigInt {
 fn sqrt_u64(n: u64) -> u64 {
     if n == 0 { return 0; }
 
+    // squares of the candidates may exceed u64::MAX
+    let n = n as u128;
     let l2 = n.ilog2();
 
     let mut frac = if l2 > 28 {
@@ -364,7 +366,7 @@ fn sqrt_u64(n: u64) -> u64 {
         if div == 0 {
             #[cfg(test)] assert!(result * result <= n && n <= (result + 1) * (result + 1));
 
-            return result;
+            return result as u64;
         }
     }
 }
-- 
2.43.0


From 2643366f651a687db1c4c18f8492a5128107de57 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 01:05:01 +0000
Subject: [PATCH 07/21] fix: UBigInt::prime_factorial overflowed its u32
 divisor

---
 src/ubigint/funcs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ubigint/funcs.rs b/src/ubigint/funcs.rs
index 6001c22..52c4d85 100644
--- a/src/ubigint/funcs.rs
+++ b/src/ubigint/funcs.rs
@@ -249,7 +249,7 @@ impl UBigInt {
 
         let mut div = 3;
 
-        while self_clone.geq(&UBigInt::from_u64(div as u64 * div as u64)) {
+        while div < u32::MAX && self_clone.geq(&UBigInt::from_u64(div as u64 * div as u64)) {
             while self_clone.rem_u32(div).is_zero() {
                 self_clone.div_u32_mut(div);
                 result.push(UBigInt::from_u32(div));
-- 
2.43.0


From 615cbabe735111eedc89c1b07dd2dd30306f5ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 01:06:56 +0000
Subject: [PATCH 08/21] fix: Ratio::pow_i32 and decimal exponents panicked on
 i32::MIN

---
 src/ratio/arith/pow.rs | 8 ++++----
 src/ratio/convert.rs   | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ratio/arith/pow.rs b/src/ratio/arith/pow.rs
index f49e9e6..c625843 100644
--- a/src/ratio/arith/pow.rs
+++ b/src/ratio/arith/pow.rs
@@ -7,8 +7,8 @@ impl Ratio {
 
         // Safety: if a and b are coprime, a^n and b^n are coprime.
         let mut result = Ratio::from_denom_and_numer_raw(
-            self.denom.pow_u32(exp.abs() as u32),
-            self.numer.pow_u32(exp.abs() as u32),
+            self.denom.pow_u32(exp.unsigned_abs()),
+            self.numer.pow_u32(exp.unsigned_abs()),
         );
 
         if exp < 0 {
@@ -21,8 +21,8 @@ impl Ratio {
     }
 
     pub fn pow_i32_mut(&mut self, exp: i32) {
-        self.denom.pow_u32_mut(exp.abs() as u32);
-        self.numer.pow_u32_mut(exp.abs() as u32);
+        self.denom.pow_u32_mut(exp.unsigned_abs());
+        self.numer.pow_u32_mut(exp.unsigned_abs());
 
         if exp < 0 {
             self.reci_mut();
diff --git a/src/ratio/convert.rs b/src/ratio/convert.rs
index f0ca69c..d884efb 100644
--- a/src/ratio/convert.rs
+++ b/src/ratio/convert.rs
@@ -188,7 +188,7 @@ impl Ratio {
         // exponential_part is a multiple of 2 and 5. So, it uses `rem_i32(2)` and `rem_i32(5)` instead of `rem_bi` for gcd
         // -> that's much faster
         if exponential_part != 0 {
-            let mut exponential_part_bi = BigInt::from_i32(10).pow_u32(exponential_part.abs() as u32);
+            let mut exponential_part_bi = BigInt::from_i32(10).pow_u32(exponential_part.unsigned_abs());
 
             if exponential_part > 0 {
                 while result.denom.rem_pow2(2).is_zero() && exponential_part_bi.rem_pow2(2).is_zero() {
-- 
2.43.0


From 2d69c6572f71d17ef55e3a716d3ceb7f86504f36 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 01:06:56 +0000
Subject: [PATCH 09/21] fix: Ratio division by zero produced a value with
 denominator 0 instead of panicking

---
 src/ratio.rs         | 4 ++++
 src/ratio/convert.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/ratio.rs b/src/ratio.rs
index 4d68c42..5b39596 100644
--- a/src/ratio.rs
+++ b/src/ratio.rs
@@ -82,6 +82,10 @@ impl Ratio {
 
     // TODO: better name
     fn fit(&mut self) {
+        if self.denom.is_zero() {
+            panic!("Attempt to divide by zero: {:?} / {:?}", self.numer, self.denom);
+        }
+
         if self.denom.is_neg() {
             self.denom.neg_mut();
             self.numer.neg_mut();
diff --git a/src/ratio/convert.rs b/src/ratio/convert.rs
index d884efb..b70ee7b 100644
--- a/src/ratio/convert.rs
+++ b/src/ratio/convert.rs
@@ -20,6 +20,10 @@ impl Ratio {
 
     /// optimized version of `Ratio::From<(D, N)>` and `Ratio::from_denom_and_numer`
     pub fn from_denom_and_numer_i32(mut denom: i32, mut numer: i32) -> Self {
+        if denom == 0 {
+            panic!("Attempt to divide by zero: {numer:?} / {denom:?}");
+        }
+
         let r = gcd_i32(denom, numer);
 
         if r != 1 {
-- 
2.43.0


From b5f498b0ef1b9754ff112c02ff7ef522c5f3b517 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 01:06:56 +0000
Subject: [PATCH 10/21] fix: gcd_i32 and Ratio::from_denom_and_numer_i32
 panicked on i32::MIN

---
 src/ratio/convert.rs | 11 +++++++----
 src/utils.rs         |  8 +++++++-
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/ratio/convert.rs b/src/ratio/convert.rs
index b70ee7b..bbf3f79 100644
--- a/src/ratio/convert.rs
+++ b/src/ratio/convert.rs
@@ -1,6 +1,6 @@
 use crate::{Ratio, BigInt, UBigInt};
 use crate::err::ConversionError;
-use crate::utils::gcd_i32;
+use crate::utils::gcd_i64;
 use crate::ubigint::convert::_to_scientific_notation;
 use std::str::FromStr;
 
@@ -19,12 +19,15 @@ impl Ratio {
     }
 
     /// optimized version of `Ratio::From<(D, N)>` and `Ratio::from_denom_and_numer`
-    pub fn from_denom_and_numer_i32(mut denom: i32, mut numer: i32) -> Self {
+    pub fn from_denom_and_numer_i32(denom: i32, numer: i32) -> Self {
         if denom == 0 {
             panic!("Attempt to divide by zero: {numer:?} / {denom:?}");
         }
 
-        let r = gcd_i32(denom, numer);
+        // the magnitude of `i32::MIN` does not fit in i32
+        let mut denom = denom as i64;
+        let mut numer = numer as i64;
+        let r = gcd_i64(denom, numer);
 
         if r != 1 {
             denom /= r;
@@ -36,7 +39,7 @@ impl Ratio {
             numer *= -1;
         }
 
-        Ratio::from_denom_and_numer_raw(BigInt::from_i32(denom), BigInt::from_i32(numer))
+        Ratio::from_denom_and_numer_raw(BigInt::from_i64(denom), BigInt::from_i64(numer))
     }
 
     /// This function does not do any safety checks. Use this function only when you're sure that the properties below are satisfied.
diff --git a/src/utils.rs b/src/utils.rs
index 2fb9b4c..4d4f0f6 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -32,7 +32,13 @@ pub fn remove_suffix_0(vec: &mut Vec<u32>) {
     }
 }
 
-pub fn gcd_i32(mut a: i32, mut b: i32) -> i32 {
+pub fn gcd_i32(a: i32, b: i32) -> i32 {
+    // the result is 2^31 only when each of them is 0 or `i32::MIN`
+    i32::try_from(gcd_i64(a as i64, b as i64)).unwrap()
+}
+
+// `a` and `b` must not be `i64::MIN`
+pub(crate) fn gcd_i64(mut a: i64, mut b: i64) -> i64 {
     a = a.abs();
     b = b.abs();
 
-- 
2.43.0


From 37338e39d382fd226e2d3ee0b2990c0ddb27e992 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 01:23:53 +0000
Subject: [PATCH 11/21] fix: Ratio to f32/f64 lost mantissa carries, returned
 Inf/NaN on overflow and misrounded subnormals

---
 src/ratio/convert/ieee754.rs | 96 ++++++++++++++++--------------------
 1 file changed, 42 insertions(+), 54 deletions(-)

diff --git a/src/ratio/convert/ieee754.rs b/src/ratio/convert/ieee754.rs
index 4834ecb..2a1fbb5 100644
--- a/src/ratio/convert/ieee754.rs
+++ b/src/ratio/convert/ieee754.rs
@@ -73,46 +73,40 @@ impl Ratio {
             exp -= 1;
         }
 
-        let (mut frac, frac_rem) = self_clone.sub_i32(1).mul_i32(1 << 23).truncate_and_frac();
+        // subnormal numbers share the smallest exponent
+        if exp < -126 {
+
+            // less than a half of the smallest subnormal number
+            if exp < -150 {
+                return Ok(0.0);
+            }
+
+            self_clone.div_bi_mut(&BigInt::exp2((-126 - exp) as u64));
+            exp = -126;
+        }
+
+        // `frac` includes the implicit leading bit
+        let (mut frac, frac_rem) = self_clone.mul_i32(1 << 23).truncate_and_frac();
 
         // IEEE754 chooses the closest approximation
         if frac_rem.gt(&Ratio::from_denom_and_numer_i32(2, 1)) {
             frac.add_i32_mut(1);
         }
 
-        let mut frac = frac.to_i32().unwrap() as u32;
+        let frac = frac.to_i32().unwrap() as u32;
 
-        if exp < -126 {
-            frac += 1 << 23;
-            frac *= 16;
-
-            if exp < -127 {
-                frac >>= (-127 - exp).min(31);
-                exp = -127;
-            }
-
-            // it has to choose the closest value
-            if frac % 32 > 15 {
-                frac /= 32;
-                frac += 1;
-            }
-
-            else {
-                frac /= 32;
-            }
-
-            if frac == 0 {
-                return Ok(0.0);
-            }
+        if frac == 0 {
+            return Ok(0.0);
         }
 
-        exp += 127;
+        // the leading bit of `frac` and its carry are added to the exponent
+        let result = (((exp + 126) as u32) << 23) + frac;
 
-        if exp < 0 || exp > 255 {
+        if result >= 255 << 23 {
             return Err(ConversionError::NotInRange { permitted: "1.18e-38~3.4e38".to_string(), error: self.to_scientific_notation(5) });
         }
 
-        let result = ((neg as u32) << 31) | ((exp as u32) << 23) | frac;
+        let result = ((neg as u32) << 31) | result;
         let rp = &result as *const u32 as *const f32;
 
         unsafe { Ok(*rp) }
@@ -189,46 +183,40 @@ impl Ratio {
             exp -= 1;
         }
 
-        let (mut frac, frac_rem) = self_clone.sub_i32(1).mul_bi(&BigInt::from_i64(1 << 52)).truncate_and_frac();
+        // subnormal numbers share the smallest exponent
+        if exp < -1022 {
+
+            // less than a half of the smallest subnormal number
+            if exp < -1075 {
+                return Ok(0.0);
+            }
+
+            self_clone.div_bi_mut(&BigInt::exp2((-1022 - exp) as u64));
+            exp = -1022;
+        }
+
+        // `frac` includes the implicit leading bit
+        let (mut frac, frac_rem) = self_clone.mul_bi(&BigInt::from_i64(1 << 52)).truncate_and_frac();
 
         // IEEE754 chooses the closest approximation
         if frac_rem.gt(&Ratio::from_denom_and_numer_i32(2, 1)) {
             frac.add_i32_mut(1);
         }
 
-        let mut frac = frac.to_i64().unwrap() as u64;
+        let frac = frac.to_i64().unwrap() as u64;
 
-        if exp < -1022 {
-            frac += 1 << 52;
-            frac *= 16;
-
-            if exp < -1023 {
-                frac >>= (-1023 - exp).min(63);
-                exp = -1023;
-            }
-
-            // it has to choose the closest value
-            if frac % 32 > 15 {
-                frac /= 32;
-                frac += 1;
-            }
-
-            else {
-                frac /= 32;
-            }
-
-            if frac == 0 {
-                return Ok(0.0);
-            }
+        if frac == 0 {
+            return Ok(0.0);
         }
 
-        exp += 1023;
+        // the leading bit of `frac` and its carry are added to the exponent
+        let result = (((exp + 1022) as u64) << 52) + frac;
 
-        if exp < 0 || exp > 2047 {
+        if result >= 2047 << 52 {
             return Err(ConversionError::NotInRange { permitted: "2.23e-308~1.8e308".to_string(), error: self.to_scientific_notation(5) });
         }
 
-        let result = ((neg as u64) << 63) | ((exp as u64) << 52) | frac;
+        let result = ((neg as u64) << 63) | result;
         let rp = &result as *const u64 as *const f64;
 
         unsafe { Ok(*rp) }
-- 
2.43.0


From 6ac7e6434bbbc6e85cd5290f2cee6827321470ad Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 01:23:53 +0000
Subject: [PATCH 12/21] fix: inverse of a 1x1 matrix was always 1

---
 src/matrix/inv.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix/inv.rs b/src/matrix/inv.rs
index 4cbd3a3..0522b22 100644
--- a/src/matrix/inv.rs
+++ b/src/matrix/inv.rs
@@ -22,7 +22,7 @@ impl Matrix {
 
         if n < 5 {
             if n < 2 {
-                self.clone()
+                Matrix::identity(n)
             } else if n == 2 {
                 Matrix::from_raw(
                     vec![
-- 
2.43.0


From b7fb17a7c18511addf7a5cf48ccc62b6c44d24d5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 01:23:53 +0000
Subject: [PATCH 13/21] fix: usize::try_from(&UBigInt) rejected values of 2^32
 and above

---
 src/ubigint/convert/into.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ubigint/convert/into.rs b/src/ubigint/convert/into.rs
index 4392a13..a2c4176 100644
--- a/src/ubigint/convert/into.rs
+++ b/src/ubigint/convert/into.rs
@@ -54,7 +54,7 @@ impl_trivial_try_from!(&UBigInt, u32, to_u32);
 impl_trivial_try_from!(&UBigInt, u64, to_u64);
 impl_trivial_try_from!(&UBigInt, u128, to_u128);
 
-impl_trivial_try_from!(Fallible, &UBigInt, usize, to_u32);
+impl_trivial_try_from!(Fallible, &UBigInt, usize, to_u64);
 impl_trivial_try_from!(Fallible, &UBigInt, i8, to_u32);
 impl_trivial_try_from!(Fallible, &UBigInt, i16, to_u32);
 impl_trivial_try_from!(Fallible, &UBigInt, i32, to_u32);
-- 
2.43.0


From eb65e5a0a58d985d702b87c91523aae8fc40dbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:01 +0000
Subject: [PATCH 14/21] fix: Ratio::from_string rejected underscores among the
 leading zeros (0.0_5)

---
 src/ratio/convert.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ratio/convert.rs b/src/ratio/convert.rs
index bbf3f79..7919b42 100644
--- a/src/ratio/convert.rs
+++ b/src/ratio/convert.rs
@@ -494,7 +494,7 @@ impl Ratio {
 fn get_non_decimal_char(s: &str) -> Option<char> {
     for c in s.chars() {
         match c.to_ascii_lowercase() {
-            '-' | '0' | '.' => { continue; },
+            '-' | '0' | '.' | '_' => { continue; },
             x if x.is_digit(10) => { return None; },
             _ => { return Some(c); },
         }
-- 
2.43.0


From fb22c1949eacd5bdd00c44bc91a231fa31a13ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:01 +0000
Subject: [PATCH 15/21] fix: Polynomial::from_vec_generic kept leading zero
 coefficients

---
 src/poly.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/poly.rs b/src/poly.rs
index aa5fff8..00d887c 100644
--- a/src/poly.rs
+++ b/src/poly.rs
@@ -33,9 +33,7 @@ impl Polynomial {
     }
 
     pub fn from_vec_generic<T: Into<Ratio>>(coeffs: Vec<T>) -> Self {
-        if coeffs.is_empty() { return Polynomial::from_vec(vec![]); }
-
-        Polynomial { coeffs: coeffs.into_iter().map(|n| n.into()).collect() }
+        Polynomial::from_vec(coeffs.into_iter().map(|n| n.into()).collect())
     }
 
     pub fn to_vec(&self) -> &Vec<Ratio> {
-- 
2.43.0


From 17da92a7f5925bce912ddf983b94aab894ee6ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:04 +0000
Subject: [PATCH 16/21] fix: F192::from(i128::MIN) no longer panics

---
 src/fp192/convert.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fp192/convert.rs b/src/fp192/convert.rs
index f6e1a82..31d662b 100644
--- a/src/fp192/convert.rs
+++ b/src/fp192/convert.rs
@@ -24,7 +24,7 @@ impl F192 {
 
     const fn from_i128(n: i128) -> Self {
         if n < 0 {
-            let mut result = F192::from_u128(n.abs() as u128);
+            let mut result = F192::from_u128(n.unsigned_abs());
             result.digits |= SIGN_MASK;
 
             result
-- 
2.43.0


From 7bbc73e6af5c52e23d787bff4e1c4b35bc4acd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:04 +0000
Subject: [PATCH 17/21] fix: an F192 less than 1 is truncated to the integer 0

---
 src/fp192/convert.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fp192/convert.rs b/src/fp192/convert.rs
index 31d662b..87ba5cb 100644
--- a/src/fp192/convert.rs
+++ b/src/fp192/convert.rs
@@ -44,6 +44,11 @@ impl F192 {
             return Err(());
         }
 
+        // less than 1
+        if EXP_COEFF - self.exp > 127 {
+            return Ok(0);
+        }
+
         let digits = self.digits | SIGN_MASK;
 
         Ok(digits >> (EXP_COEFF - self.exp))
-- 
2.43.0


From 53ce499c782316df7944c90baa65703cb4b623f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:04 +0000
Subject: [PATCH 18/21] fix: F192 of value i128::MIN converts to i128

---
 src/fp192/convert.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fp192/convert.rs b/src/fp192/convert.rs
index 87ba5cb..e0646fd 100644
--- a/src/fp192/convert.rs
+++ b/src/fp192/convert.rs
@@ -58,8 +58,8 @@ impl F192 {
         if self.is_neg() {
             let n = self.neg().to_u128()?;
 
-            if n < (1 << 127) {
-                Ok(-(n as i128))
+            if n <= (1 << 127) {
+                Ok((n as i128).wrapping_neg())
             }
 
             else {
-- 
2.43.0


From 45b7701550df3c2721f9feb980a9d1cd382a628a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:04 +0000
Subject: [PATCH 19/21] fix: carry of the rounding in the conversion from Ratio
 to F192

---
 src/fp192/convert.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fp192/convert.rs b/src/fp192/convert.rs
index e0646fd..315fe4e 100644
--- a/src/fp192/convert.rs
+++ b/src/fp192/convert.rs
@@ -307,7 +307,7 @@ impl From<&Ratio> for F192 {
         let mut digits: u128 = n_abs.truncate_bi().try_into().unwrap();
 
         if n_abs_rem > 15 {
-            if digits != u128::MAX {
+            if digits != !SIGN_MASK {
                 digits += 1;
             }
 
-- 
2.43.0


From 59a09d678d5b07826fea6d0dbb0422e49eea49bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:04 +0000
Subject: [PATCH 20/21] fix: overflow of the digits in F192::mul_i32

---
 src/fp192/arith/mul.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/fp192/arith/mul.rs b/src/fp192/arith/mul.rs
index 22ee2c8..7c750d8 100644
--- a/src/fp192/arith/mul.rs
+++ b/src/fp192/arith/mul.rs
@@ -71,7 +71,14 @@ impl F192 {
         }
 
         rem >>= 32;
-        digits += rem;
+
+        digits = match digits.checked_add(rem) {
+            Some(digits) => digits,
+            None => {
+                exp += 1;
+                digits / 2 + rem / 2 + (digits % 2 + rem % 2) / 2
+            },
+        };
 
         F192 {
             digits: digits & !SIGN_MASK | (((self.is_neg() != (a < 0)) as u128) << 127),
-- 
2.43.0


From b036ceecdc88a94aa55c10d1b60c1f3212022e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:04 +0000
Subject: [PATCH 21/21] fix: F192::mul_i32 and div_i32 no longer panic with
 i32::MIN

---
 src/fp192/arith/div.rs | 2 +-
 src/fp192/arith/mul.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fp192/arith/div.rs b/src/fp192/arith/div.rs
index 62e8b6b..e19f07b 100644
--- a/src/fp192/arith/div.rs
+++ b/src/fp192/arith/div.rs
@@ -57,7 +57,7 @@ impl F192 {
 
         let mut digits = self.digits | SIGN_MASK;
         let mut exp = self.exp;
-        let a_abs = a.abs() as u128;
+        let a_abs = a.unsigned_abs() as u128;
         let mut rem = digits % a_abs;
 
         digits /= a_abs;
diff --git a/src/fp192/arith/mul.rs b/src/fp192/arith/mul.rs
index 7c750d8..71f3ae7 100644
--- a/src/fp192/arith/mul.rs
+++ b/src/fp192/arith/mul.rs
@@ -57,7 +57,7 @@ impl F192 {
 
         let mut digits = self.digits | SIGN_MASK;
         let mut exp = self.exp;
-        let a_abs = a.abs() as u128;
+        let a_abs = a.unsigned_abs() as u128;
         let mut rem = (digits & 0xffff_ffff) * a_abs;
 
         digits >>= 32;
-- 
2.43.0

