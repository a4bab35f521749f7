From 7d58970a665ad7223b62e4f873293e71beb0fc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:30 +0000
Subject: [PATCH 01/20] verif hook: raw representation access behind --cfg
 fxd_verif

---
 src/lib.rs   |  4 ++++
 src/verif.rs | 14 ++++++++++++++
 2 files changed, 18 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/src/lib.rs b/src/lib.rs
index 88e933c..8727cfe 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)] // `fxd_verif` is set only by the verification machinery
+
 mod arith;
 mod cmp;
 mod decimal;
@@ -5,6 +7,8 @@ mod error;
 mod round;
 mod serde;
 pub(crate) mod utils;
+#[cfg(fxd_verif)]
+mod verif;
 
 pub use decimal::FixedDecimal;
 pub use error::{Error, Result};
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..2f994b3
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,14 @@
+//! Hooks for the external verification machinery, compiled only with `--cfg fxd_verif`.
+use crate::decimal::{FixedDecimal, MAX_UNITS};
+
+impl FixedDecimal {
+    /// Builds a decimal from its raw representation.
+    pub fn verif_from_parts(intg: i8, frac: i8, lsu: [i32; MAX_UNITS]) -> FixedDecimal {
+        FixedDecimal { intg, frac, lsu }
+    }
+
+    /// Returns the raw representation.
+    pub fn verif_parts(&self) -> (i8, i8, [i32; MAX_UNITS]) {
+        (self.intg, self.frac, self.lsu)
+    }
+}
-- 
2.43.0


From 3580fb392c3442af3da1f28a8140650a155a93fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:13 +0000
Subject: [PATCH 02/20] fix: zero must never become negative

Parsing "-0", rounding "-0.4" to an integer and set_neg() on zero produced a
negative zero, which printed as -0 and compared less than zero.
---
 src/decimal.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/decimal.rs b/src/decimal.rs
index 4c67980..9eddf76 100644
--- a/src/decimal.rs
+++ b/src/decimal.rs
@@ -65,7 +65,10 @@ impl FixedDecimal {
 
     #[inline]
     pub fn set_neg(&mut self) {
-        self.intg |= 0x80u8 as i8;
+        // there is no negative zero
+        if !self.is_zero() {
+            self.intg |= 0x80u8 as i8;
+        }
     }
 
     #[inline]
-- 
2.43.0


From ac2889bfe95bc41cdc632e1540165124d858d5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:13 +0000
Subject: [PATCH 03/20] fix: report overflow instead of panicking in addition
 and subtraction

Operands whose aligned units need more than nine units, and any operands that
fill all nine units, indexed past the unit array.
---
 src/arith.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/arith.rs b/src/arith.rs
index b06722f..12ea4ea 100644
--- a/src/arith.rs
+++ b/src/arith.rs
@@ -202,6 +202,9 @@ fn add_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
     let lfu = lhs.frac_units();
     let riu = rhs.intg_units();
     let rfu = rhs.frac_units();
+    if liu.max(riu) + lfu.max(rfu) > MAX_UNITS {
+        return Err(Error::Overflow);
+    }
     let mut frac_unit_diff = lfu as isize - rfu as isize;
     let mut lhs_idx: isize = 0;
     let mut rhs_idx: isize = 0;
@@ -241,9 +244,6 @@ fn add_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
             res_idx += 1;
             lhs_idx += 1;
         }
-        if carry > 0 {
-            res.lsu[res_idx as usize] = carry;
-        }
     } else if intg_unit_diff < 0 {
         // rhs has more intg
         stop = rhs_idx - intg_unit_diff;
@@ -254,15 +254,17 @@ fn add_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
             res_idx += 1;
             rhs_idx += 1;
         }
-        if carry > 0 {
-            res.lsu[res_idx as usize] = carry;
-        }
-    } else if carry != 0 {
+    }
+    if carry > 0 {
         // no more intg but carry is non-zero
+        if res_idx as usize >= MAX_UNITS {
+            res.set_zero();
+            return Err(Error::Overflow);
+        }
         res.lsu[res_idx as usize] = carry;
     }
 
-    let mut res_intg_non_zero = liu.max(riu) as isize + carry as isize;
+    let mut res_intg_non_zero = liu.max(riu) as isize + carry as isize - 1;
     res.frac = lhs.frac.max(rhs.frac);
     let res_frac_units = res.frac_units() as isize;
     while res_intg_non_zero >= 0 {
@@ -295,6 +297,9 @@ fn sub_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
     let lfu = lhs.frac_units();
     let riu = rhs.intg_units();
     let rfu = rhs.frac_units();
+    if liu.max(riu) + lfu.max(rfu) > MAX_UNITS {
+        return Err(Error::Overflow);
+    }
     let mut frac_unit_diff = lfu as isize - rfu as isize;
     let mut lhs_idx: isize = 0;
     let mut rhs_idx: isize = 0;
@@ -367,7 +372,7 @@ fn sub_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
             borrow = b0;
         }
     }
-    let mut res_intg_non_zero = liu.max(riu) as isize;
+    let mut res_intg_non_zero = liu.max(riu) as isize - 1;
     res.frac = lhs.frac.max(rhs.frac);
     let result_frac_units = res.frac_units();
     while res_intg_non_zero >= 0 {
-- 
2.43.0


From 432e6b18a19033f05386014216536e515f2c9770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 04/20] fix: report overflow when multiplying operands with
 many integral digits

The sum of the digit counts overflowed i8 (panic, or a wrapped table index)
before the overflow check.
---
 src/arith.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/arith.rs b/src/arith.rs
index 12ea4ea..8cf8255 100644
--- a/src/arith.rs
+++ b/src/arith.rs
@@ -394,6 +394,10 @@ fn sub_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
 /// reaching the limitation of MAX_UNITS or MAX_FRAC_UNITS.
 fn mul_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Result<()> {
     res.set_zero(); // always clear result first
+    if lhs.intg() as usize + rhs.intg() as usize > MAX_UNITS * DIGITS_PER_UNIT {
+        // integral overflow, also keeps the digit sum within i8
+        return Err(Error::Overflow);
+    }
     let res_intg_digits = lhs.intg() + rhs.intg();
     let res_intg_units = get_units(res_intg_digits);
     let res_frac_digits = lhs.frac() + rhs.frac();
-- 
2.43.0


From dd206e764a4fc9dfcc18be3bcfd71eda75189982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 05/20] fix: wrong assertion when a multiplication row only
 contributes a carry

Multiplying two fractions of four units each without integral units, such as
.000000000000000000000000000001 by itself, is valid but failed the assertion.
---
 src/arith.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arith.rs b/src/arith.rs
index 8cf8255..3a410d8 100644
--- a/src/arith.rs
+++ b/src/arith.rs
@@ -448,7 +448,7 @@ fn mul_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
             carry = v / UNIT as i64;
             res.lsu[res_idx as usize] = (v - carry * UNIT as i64) as i32;
         }
-        debug_assert!(res_idx >= 0);
+        debug_assert!(res_idx >= -1);
         if res_idx + 1 < MAX_UNITS as isize {
             res.lsu[(res_idx + 1) as usize] = carry as i32;
         } else if carry > 0 {
-- 
2.43.0


From 290d0a700c2341b6ead0fca3c9e6277d0dd56879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:15 +0000
Subject: [PATCH 06/20] fix: integral digit count of a quotient could be one
 too small

60000000000 / 500 = 120000000 got eight integral digits, and multiplying it by 9
then printed 80000000 because the product was given too few units.
---
 src/arith.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/arith.rs b/src/arith.rs
index 3a410d8..9699d38 100644
--- a/src/arith.rs
+++ b/src/arith.rs
@@ -548,6 +548,8 @@ fn div_abs(
         if res_intg_units + res_frac_units > MAX_UNITS {
             res_frac_units = MAX_UNITS - res_intg_units;
         }
+        // quotient can have one more digit than estimated, but no more units
+        res_intg = (res_intg_units * DIGITS_PER_UNIT) as isize;
         res_start_idx = (res_frac_units + res_intg_units) as isize - 1;
     } else {
         res_intg_units = 0;
-- 
2.43.0


From f6895207709e9784969dd13d43412dfc076e8dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:15 +0000
Subject: [PATCH 07/20] fix: long division scratch buffer was too small

The buffer had no room for the normalization carry of a nine-unit dividend (panic)
and none for divisor units below the dividend, whose partial remainders were
dropped: 1 / 1.000000000000000000000000001 gave wrong digits.
---
 src/arith.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/arith.rs b/src/arith.rs
index 9699d38..72354dd 100644
--- a/src/arith.rs
+++ b/src/arith.rs
@@ -591,17 +591,19 @@ fn div_abs(
     // D1. normalization
     let norm_factor = UNIT as i64 / (rhs.lsu[rhs_non_zero as usize] as i64 + 1);
     // normalize buf1 and buf2
-    let mut buf1 = [0i32; MAX_UNITS * 2]; // store normalized lhs
+    // leave room for the low units of rhs and for the carry of normalization
+    let buf1_start = res_units + rhs_non_zero as usize;
+    let mut buf1 = [0i32; MAX_UNITS * 3 + 1]; // store normalized lhs
     let mut buf2 = [0i32; MAX_UNITS]; // store normalized rhs
     if norm_factor == 1 {
-        buf1[res_units..res_units + lhs_non_zero as usize + 1]
+        buf1[buf1_start..buf1_start + lhs_non_zero as usize + 1]
             .copy_from_slice(&lhs.lsu[..lhs_non_zero as usize + 1]);
         buf2[..rhs_non_zero as usize + 1].copy_from_slice(&rhs.lsu[..rhs_non_zero as usize + 1]);
     } else {
         let mut carry: i64 = 0;
         // normalize lhs into buf1
-        let buf1_end = res_units + lhs_non_zero as usize + 1;
-        for (b1, lv) in buf1[res_units..buf1_end]
+        let buf1_end = buf1_start + lhs_non_zero as usize + 1;
+        for (b1, lv) in buf1[buf1_start..buf1_end]
             .iter_mut()
             .zip(lhs.lsu[..lhs_non_zero as usize + 1].iter())
         {
@@ -627,7 +629,7 @@ fn div_abs(
 
     let d0 = buf2[rhs_non_zero as usize] as i64; // rhs most significant unit
     let d1 = buf2[rhs_non_zero as usize - 1] as i64; // rhs second significant unit
-    let mut i = res_units as isize + lhs_non_zero + dividend_shift; // index of normalized lhs
+    let mut i = buf1_start as isize + lhs_non_zero + dividend_shift; // index of normalized lhs
     let mut j = res_start_idx; // index of result
     while j >= 0 {
         // D3. make the guess on u1
-- 
2.43.0


From fc26d714b61df1fbd0c5a83af21fb03032668421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:16 +0000
Subject: [PATCH 08/20] fix: quotient estimate of long division can reach UNIT

999999999999999998999999999 / 999999999999999999 failed the assertion that it
cannot; the estimate has to be lowered instead, as in Knuth's step D3.
---
 src/arith.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/arith.rs b/src/arith.rs
index 72354dd..1ed9781 100644
--- a/src/arith.rs
+++ b/src/arith.rs
@@ -641,14 +641,12 @@ fn div_abs(
         let u = u0 * UNIT as i64 + u1;
         let mut qhat = u / d0;
         let mut rhat = u - qhat * d0;
-        // qhat cannot be greater or equal to UNIT
-        debug_assert!(qhat < UNIT as i64, "qhat must be less than UNIT");
         let mut u2: i64 = 0;
         if i > 0 {
             u2 = buf1[i as usize - 1] as i64;
         }
-        while qhat * d1 > rhat * UNIT as i64 + u2 {
-            // check if qhat can satisfy next unit
+        while qhat >= UNIT as i64 || qhat * d1 > rhat * UNIT as i64 + u2 {
+            // check if qhat is a unit and can satisfy next unit
             qhat -= 1; // decrease qhat
             rhat += d0; // increase rhat
         }
@@ -869,13 +867,12 @@ fn rem_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
         let u = u0 * UNIT as i64 + u1;
         let mut qhat = u / d0;
         let mut rhat = u - qhat * d0 as i64;
-        debug_assert!(qhat < UNIT as i64, "qhat must be less than Unit");
         let mut u2 = 0;
         if i > 0 {
             u2 = buf1[(i - 1) as usize] as i64;
         }
-        while qhat * d1 > rhat * UNIT as i64 + u2 {
-            // check if qhat can satisfy next unit
+        while qhat >= UNIT as i64 || qhat * d1 > rhat * UNIT as i64 + u2 {
+            // check if qhat is a unit and can satisfy next unit
             qhat -= 1;
             rhat += d0;
         }
-- 
2.43.0


From 6c9dc45e0ae190441672f9b83f7372bb24f6ac38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:16 +0000
Subject: [PATCH 09/20] fix: add the divisor back when the quotient estimate is
 one too large

Long division and remainder complemented the partial remainder (over the wrong
units in division) instead of adding the divisor back, giving wrong results.
---
 src/arith.rs | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/arith.rs b/src/arith.rs
index 1ed9781..3b27a71 100644
--- a/src/arith.rs
+++ b/src/arith.rs
@@ -673,18 +673,17 @@ fn div_abs(
         borrow += buf1[ms_idx as usize] - carry as i32;
         if borrow == -1 {
             // qhat is larger, cannot satisfy the whole decimal
-            // D6. add back (reverse subtract)
+            // D6. add back
             qhat -= 1; // decrease qhat
-            borrow = 0;
-            for i in 0..rhs_non_zero {
-                // reverse subtract
-                let (r0, b0) = sub_with_borrow(0, buf1[(i + j) as usize], borrow);
-                buf1[(i + j) as usize] = r0;
-                borrow = b0;
+            let mut carry: i32 = 0;
+            for k in 0..=rhs_non_zero {
+                let b_idx = (i - rhs_non_zero + k) as usize;
+                let (r0, c0) = add_with_carry(buf1[b_idx], buf2[k as usize], carry);
+                buf1[b_idx] = r0;
+                carry = c0;
             }
-        } else {
-            buf1[ms_idx as usize] = 0; // clear buf1 because multiply w/ subtract succeeds
         }
+        buf1[ms_idx as usize] = 0; // partial remainder is less than divider
         res.lsu[j as usize] = qhat as i32;
         i -= 1;
         j -= 1;
@@ -894,13 +893,16 @@ fn rem_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
         borrow += buf1[(i + 1) as usize] - carry as i32;
         if borrow == -1 {
             // qhat is larger, cannot satisfy the whole decimal
-            // D6. add back (reverse subtract)
+            // D6. add back
             // should decrease qhat, but not used in remainder
-            borrow = 0; // reset borrow to zero
-            for b in &mut buf1[(i - buf2_len + 1) as usize..(i + 1) as usize] {
-                let (r0, b0) = sub_with_borrow(0, *b, borrow);
-                borrow = b0;
-                *b = r0;
+            let mut carry: i32 = 0;
+            for (b1, b2) in buf1[(i - buf2_len + 1) as usize..(i + 1) as usize]
+                .iter_mut()
+                .zip(buf2[..buf2_len as usize].iter())
+            {
+                let (r0, c0) = add_with_carry(*b1, *b2, carry);
+                carry = c0;
+                *b1 = r0;
             }
         }
         buf1[(i + 1) as usize] = 0;
-- 
2.43.0


From ef127f9d85b45502b79811d27449713910fcb940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:16 +0000
Subject: [PATCH 10/20] fix: division with a large requested precision panicked

The number of fractional digits was narrowed to i8 before it was limited.
---
 src/arith.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/arith.rs b/src/arith.rs
index 3b27a71..e866b16 100644
--- a/src/arith.rs
+++ b/src/arith.rs
@@ -7,6 +7,9 @@ use crate::error::{Error, Result};
 use crate::utils::{get_units, unit_leading_zeroes, units_greater_equal};
 
 const DIV_INCR_FRAC: usize = 4;
+// enough to get the maximum number of fractional units even if both operands
+// have unused digits in their least significant unit
+const MAX_INCR_FRAC: usize = (MAX_FRAC_UNITS + 2) * DIGITS_PER_UNIT;
 
 impl FixedDecimal {
     #[inline]
@@ -83,7 +86,8 @@ impl FixedDecimal {
     #[inline]
     pub fn div_to(lhs: &Self, rhs: &Self, res: &mut Self, incr_frac: usize) -> Result<()> {
         let res_neg = lhs.is_neg() != rhs.is_neg();
-        div_abs(lhs, rhs, res, incr_frac as isize)?;
+        // more than the maximum number of fractional digits makes no difference
+        div_abs(lhs, rhs, res, incr_frac.min(MAX_INCR_FRAC) as isize)?;
         if res_neg {
             res.set_neg_and_check_zero();
         }
@@ -520,11 +524,10 @@ fn div_abs(
         incr_frac = 0;
     }
     // calculate result frac units
-    let mut res_frac_units = get_units((lhs_ext_frac + rhs_ext_frac + incr_frac) as i8);
-    if res_frac_units > MAX_FRAC_UNITS {
-        // exceeds maximum fractional digits
-        res_frac_units = MAX_FRAC_UNITS;
-    }
+    let res_frac_digits = lhs_ext_frac + rhs_ext_frac + incr_frac;
+    // cannot exceed maximum fractional digits
+    let mut res_frac_units =
+        get_units(res_frac_digits.min((MAX_FRAC_UNITS * DIGITS_PER_UNIT) as isize) as i8);
     // calculate result intg units
     let mut res_intg = (lhs_prec - lhs_ext_frac) - (rhs_prec - rhs_ext_frac);
     let mut dividend_shift: isize = 0;
-- 
2.43.0


From 332597f39e06c2c27a0bd7e39237744ab2e99d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:17 +0000
Subject: [PATCH 11/20] fix: remainder of a smaller dividend with leading zeros
 panicked

Copying the dividend's leading zero units to a result of higher scale ran past
the unit array.
---
 src/arith.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/arith.rs b/src/arith.rs
index e866b16..1c013c5 100644
--- a/src/arith.rs
+++ b/src/arith.rs
@@ -743,9 +743,10 @@ fn rem_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
         Ordering::Less => {
             if rfu > lfu {
                 // rhs has higher fractional precision
-                res.lsu[rfu - lfu..liu + rfu].copy_from_slice(&lhs.lsu[..lfu + liu]);
+                let lhs_units = lhs_non_zero as usize + 1; // leading zero units may not fit
+                res.lsu[rfu - lfu..rfu - lfu + lhs_units].copy_from_slice(&lhs.lsu[..lhs_units]);
                 res.frac = rhs_frac;
-                res.intg = lhs_intg;
+                res.intg = lhs_intg.min(((MAX_UNITS - rfu) * DIGITS_PER_UNIT) as i8);
                 return Ok(());
             }
             // lhs has higher or same fractional precision
-- 
2.43.0


From 6191aa16e83aa3e4c978bf920bcee5a1bfbe028e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:17 +0000
Subject: [PATCH 12/20] fix: round to the position just above the leading digit

round(-1) of 9 gave 0 instead of 10, unless the 9 was stored with a larger digit
count; rounding with frac = isize::MIN overflowed.
---
 src/round.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/round.rs b/src/round.rs
index 78f730e..366ef09 100644
--- a/src/round.rs
+++ b/src/round.rs
@@ -34,11 +34,11 @@ impl FixedDecimal {
         let mut carry: i32 = 0;
         if frac < 0 {
             // round integral part
-            let intg = -frac;
-            if intg + 1 > self.intg() as isize {
+            if frac < -(self.intg() as isize) {
                 self.set_zero();
                 return;
             }
+            let intg = -frac;
             self.lsu.copy_within(frac_units..frac_units + intg_units, 0);
             for v in &mut self.lsu[intg_units..frac_units + intg_units] {
                 *v = 0; // reset higher units to zero
@@ -110,11 +110,11 @@ impl FixedDecimal {
         let mut carry: i32 = 0;
         if frac < 0 {
             // round integral part
-            let intg = -frac;
-            if intg + 1 > self.intg() as isize {
+            if frac < -(self.intg() as isize) {
                 res.set_zero();
                 return;
             }
+            let intg = -frac;
             res.lsu[..intg_units].copy_from_slice(&self.lsu[frac_units..frac_units + intg_units]); // remove fractional units
             frac_units = 0;
             round_frac = 0;
-- 
2.43.0


From 3b9e8fa295b81be0951096f4ebe5dfabe7093487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:18 +0000
Subject: [PATCH 13/20] fix: round half up at a unit boundary of the integral
 part

123456789900000000 rounded to frac -9 was truncated to 123456789000000000.
---
 src/round.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/round.rs b/src/round.rs
index 366ef09..d508130 100644
--- a/src/round.rs
+++ b/src/round.rs
@@ -46,6 +46,10 @@ impl FixedDecimal {
             frac_units = 0;
             round_frac = 0;
             trunc = intg;
+            if mod9(trunc as i8) == 0 && self.lsu[div9(trunc as i8) - 1] >= HALF_UNIT as i32 {
+                // at edge of one unit
+                carry = 1;
+            }
         } else {
             round_frac = frac as i8;
             let mut round_frac_units = get_units(frac as i8 + 1); // how many units we need to keep for rounding
@@ -119,6 +123,10 @@ impl FixedDecimal {
             frac_units = 0;
             round_frac = 0;
             trunc = intg;
+            if mod9(trunc as i8) == 0 && res.lsu[div9(trunc as i8) - 1] >= HALF_UNIT as i32 {
+                // at edge of one unit
+                carry = 1;
+            }
         } else {
             round_frac = frac as i8;
             let mut round_frac_units = get_units(frac as i8 + 1); // how many units we need to keep for rounding
-- 
2.43.0


From aba6bc255a9e524446435d96a37a256ddb514628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:18 +0000
Subject: [PATCH 14/20] fix: rounding in place to a higher scale left stale
 units

1 rounded to one fractional digit became 1.000000001.
---
 src/round.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/round.rs b/src/round.rs
index d508130..61e294a 100644
--- a/src/round.rs
+++ b/src/round.rs
@@ -26,6 +26,7 @@ impl FixedDecimal {
             // copy with offset
             self.lsu
                 .copy_within(..frac_units + intg_units, round_frac_units - frac_units);
+            self.lsu[..round_frac_units - frac_units].fill(0); // clear new units
             self.frac = frac as i8;
             return;
         }
-- 
2.43.0


From fcc3b293fa21fad32ff91cdb7936d37498bb8a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:18 +0000
Subject: [PATCH 15/20] fix: rounding to more digits than fit panicked

The scale is now limited to what fits beside the integral units, as in MySQL.
---
 src/round.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/round.rs b/src/round.rs
index 61e294a..ca2ee3a 100644
--- a/src/round.rs
+++ b/src/round.rs
@@ -1,5 +1,7 @@
 use crate::arith::add_with_carry;
-use crate::decimal::{FixedDecimal, DIGITS_PER_UNIT, HALF_UNIT, UNIT};
+use crate::decimal::{
+    FixedDecimal, DIGITS_PER_UNIT, HALF_UNIT, MAX_FRAC_UNITS, MAX_UNITS, UNIT,
+};
 use crate::utils::{div9, get_units, mod9};
 
 impl FixedDecimal {
@@ -17,6 +19,7 @@ impl FixedDecimal {
         let mut frac_units = self.frac_units();
         if frac >= this_frac as isize {
             // round precision is greater than current decimal's precision
+            let frac = frac.min(max_round_frac(intg_units));
             let round_frac_units = get_units(frac as i8);
             if round_frac_units == frac_units {
                 // same number of frac units
@@ -95,6 +98,7 @@ impl FixedDecimal {
         let mut frac_units = self.frac_units();
         if frac >= this_frac as isize {
             // round precision is larger than or equal to current decimal's precision
+            let frac = frac.min(max_round_frac(intg_units));
             let round_frac_units = get_units(frac as i8);
             if round_frac_units == frac_units {
                 // same number of frac units
@@ -165,6 +169,12 @@ impl FixedDecimal {
     }
 }
 
+/// maximum fractional digits that fit beside given integral units.
+#[inline]
+fn max_round_frac(intg_units: usize) -> isize {
+    ((MAX_UNITS - intg_units).min(MAX_FRAC_UNITS) * DIGITS_PER_UNIT) as isize
+}
+
 fn round_half_up(
     fd: &mut FixedDecimal,
     mut intg_units: usize,
-- 
2.43.0


From 02adf8f7848d0a3b04da674ec1cca00737b4ae97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:19 +0000
Subject: [PATCH 16/20] fix: rounding up a full decimal to the next power
 panicked

If all nine units are in use the carry out of the top unit now replaces one
fractional unit, which is zero, as in MySQL.
---
 src/round.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/round.rs b/src/round.rs
index ca2ee3a..39820b5 100644
--- a/src/round.rs
+++ b/src/round.rs
@@ -180,7 +180,7 @@ fn round_half_up(
     mut intg_units: usize,
     frac_units: usize,
     trunc: isize,
-    round_frac: i8,
+    mut round_frac: i8,
     mut carry: i32,
 ) {
     let mut round_idx = div9(trunc as i8);
@@ -269,7 +269,13 @@ fn round_half_up(
             }
         }
         if carry > 0 {
-            fd.lsu[end_idx] = 1;
+            if end_idx == MAX_UNITS && frac_units > 0 {
+                // all units are zero, drop one fractional unit to make room for the carry
+                fd.lsu[end_idx - 1] = 1;
+                round_frac = round_frac.min(((frac_units - 1) * DIGITS_PER_UNIT) as i8);
+            } else {
+                fd.lsu[end_idx] = 1;
+            }
             intg_units += 1;
         }
     }
-- 
2.43.0


From 510d674b472c4e9db4f702fe3c50cd3e47432309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:19 +0000
Subject: [PATCH 17/20] fix: parsing very long digit strings or exponents
 overflowed

More than 127 digits overflowed the i8 digit counter (panic, or garbage accepted
after wrapping), a long exponent overflowed i32, and 65 digits with e65 overflowed
the i8 total.
---
 src/serde.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/serde.rs b/src/serde.rs
index 51955ff..aaa233b 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -21,7 +21,7 @@ impl FixedDecimal {
             return Err(Error::ConversionSyntax);
         }
         let mut exp = 0; // exponent
-        let mut d = 0; // total digits of input
+        let mut d = 0isize; // total digits of input
         let mut dotchar = -1; // position of dot character
         let mut last = -1; // position of last digit
         let mut cfirst = 0; // position of first digit
@@ -102,18 +102,16 @@ impl FixedDecimal {
                     break;
                 }
             }
-            let firstexp = i; // save exponent digit place
+            // maximum exponent is 65, with sign at most 4 chars
+            if bs.len() - i as usize >= 4 {
+                return Err(Error::ConversionSyntax);
+            }
             for c in bs[i as usize..].iter() {
                 if *c < b'0' || *c > b'9' {
                     // not a digit
                     return Err(Error::ConversionSyntax);
                 }
                 exp = exp * 10 + *c as i32 - '0' as i32;
-                i += 1
-            }
-            // maximum exponent is 65, with sign at most 4 chars
-            if i >= firstexp + 4 {
-                return Err(Error::ConversionSyntax);
             }
             if (!nege && exp as usize > MAX_DIGITS) || (nege && exp as usize > MAX_FRAC) {
                 return Err(Error::ConversionSyntax);
@@ -132,9 +130,9 @@ impl FixedDecimal {
         };
         // apply exponent to frac
         let (frac, digits, mut heading_zeroes) = {
-            let mut frac = frac_digits as i8 - exp as i8;
+            let mut frac = frac_digits - exp as isize;
             let digits;
-            let mut heading_zeroes = 0i8;
+            let mut heading_zeroes = 0isize;
             match frac.cmp(&0) {
                 Ordering::Equal => digits = d,
                 Ordering::Greater => {
@@ -158,6 +156,8 @@ impl FixedDecimal {
         if digits as usize > MAX_DIGITS {
             return Err(Error::ConversionSyntax);
         }
+        let frac = frac as i8;
+        let digits = digits as i8;
 
         // units of integral part and fractional part
         let intg_units = get_units(digits - frac);
@@ -211,11 +211,11 @@ impl FixedDecimal {
         if frac_units > 0 {
             let mut out = 0; // accumulator in unit
             let mut cut = DIGITS_PER_UNIT as i8;
-            while heading_zeroes >= DIGITS_PER_UNIT as i8 {
+            while heading_zeroes >= DIGITS_PER_UNIT as isize {
                 // current unit filled all zeroes
                 self.lsu[up as usize] = 0;
                 up -= 1;
-                heading_zeroes -= DIGITS_PER_UNIT as i8;
+                heading_zeroes -= DIGITS_PER_UNIT as isize;
             }
             cut -= heading_zeroes as i8;
             // parse fractional part
-- 
2.43.0


From c37aa90a868323df142ae5fcfd025bb05d2b8f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:20 +0000
Subject: [PATCH 18/20] fix: parsing accepted more than 30 fractional digits

The documented maximum scale was only enforced on the exponent; larger scales
make later arithmetic overflow and panic.
---
 src/serde.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serde.rs b/src/serde.rs
index aaa233b..5f6527a 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -153,7 +153,7 @@ impl FixedDecimal {
             (frac, digits, heading_zeroes)
         };
 
-        if digits as usize > MAX_DIGITS {
+        if digits as usize > MAX_DIGITS || frac as usize > MAX_FRAC {
             return Err(Error::ConversionSyntax);
         }
         let frac = frac as i8;
-- 
2.43.0


From f06a705a6fa222a6cdd5c2b39abae009a18bd5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:20 +0000
Subject: [PATCH 19/20] fix: parsing without reset left units of the previous
 value

Parsing "5" into 1000000000000 without reset gave a decimal that printed 5 but
converted to 1000000000005.
---
 src/serde.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/serde.rs b/src/serde.rs
index 5f6527a..0409d54 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -158,6 +158,7 @@ impl FixedDecimal {
         }
         let frac = frac as i8;
         let digits = digits as i8;
+        self.set_zero(); // clear units of previous value
 
         // units of integral part and fractional part
         let intg_units = get_units(digits - frac);
-- 
2.43.0


From de8ba135efb8d24f0acb7f7f48882314ca4ac0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:20 +0000
Subject: [PATCH 20/20] fix: equal decimals must have equal hash codes

Eq treats 1 and 1.0 as equal but Hash did not, which breaks hashed collections.
---
 src/decimal.rs | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/decimal.rs b/src/decimal.rs
index 9eddf76..7fa20f5 100644
--- a/src/decimal.rs
+++ b/src/decimal.rs
@@ -170,20 +170,27 @@ impl FixedDecimal {
 
 /// Simple hash implementation on FixedDecimal.
 ///
-/// NOTE: Same numeric values with different number of
-/// internal units will have different hash code.
+/// NOTE: Same numeric values have same hash code, because leading
+/// zero integral units and trailing zero fractional units are skipped.
 impl Hash for FixedDecimal {
     fn hash<H: Hasher>(&self, state: &mut H) {
         // hash neg flag
         state.write_u8(if self.is_neg() { 1 } else { 0 });
-        // hash nbr of intg units
-        let intg_units = self.intg_units();
-        state.write_u8(intg_units as u8);
-        // hash nbr of frac units
         let frac_units = self.frac_units();
-        state.write_u8(frac_units as u8);
-        // hash all units
-        for v in &self.lsu[..intg_units + frac_units] {
+        // hash nbr of significant intg units
+        let mut intg_units = self.intg_units();
+        while intg_units > 0 && self.lsu[frac_units + intg_units - 1] == 0 {
+            intg_units -= 1;
+        }
+        state.write_u8(intg_units as u8);
+        // hash nbr of significant frac units
+        let mut start_idx = 0;
+        while start_idx < frac_units && self.lsu[start_idx] == 0 {
+            start_idx += 1;
+        }
+        state.write_u8((frac_units - start_idx) as u8);
+        // hash all significant units
+        for v in &self.lsu[start_idx..frac_units + intg_units] {
             state.write_u32(*v as u32)
         }
     }
-- 
2.43.0

