From 60911ba83d72a0b0127be08622511b53b0b456ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:09 +0000
Subject: [PATCH 01/19] verif hook: 8-bit word build (cfg astro_verif_w8, off
 by default)

---
 astro-float-num/src/common/util.rs       |  8 ++++----
 astro-float-num/src/defs.rs              | 18 +++++++++++++++---
 astro-float-num/src/mantissa/mantissa.rs |  4 ++--
 astro-float-num/src/num.rs               | 11 ++++++++++-
 4 files changed, 31 insertions(+), 10 deletions(-)

diff --git a/astro-float-num/src/common/util.rs b/astro-float-num/src/common/util.rs
index 8bf1190..8ff76f8 100644
--- a/astro-float-num/src/common/util.rs
+++ b/astro-float-num/src/common/util.rs
@@ -117,7 +117,7 @@ pub fn calc_sqrt_cost(p: usize, cost_mul: usize, cost_add: usize) -> usize {
 
 #[inline(always)]
 pub fn add_carry(a: Word, b: Word, c: Word, r: &mut Word) -> Word {
-    #[cfg(target_arch = "x86_64")]
+    #[cfg(all(target_arch = "x86_64", not(astro_verif_w8)))]
     {
         // platform-specific operation
         unsafe { core::arch::x86_64::_addcarry_u64(c as u8, a, b, r) as Word }
@@ -129,7 +129,7 @@ pub fn add_carry(a: Word, b: Word, c: Word, r: &mut Word) -> Word {
         unsafe { core::arch::x86::_addcarry_u32(c as u8, a, b, r) as Word }
     }
 
-    #[cfg(not(any(target_arch = "x86_64", target_arch = "x86")))]
+    #[cfg(any(astro_verif_w8, not(any(target_arch = "x86_64", target_arch = "x86"))))]
     {
         use crate::defs::DoubleWord;
         use crate::defs::WORD_BASE;
@@ -148,7 +148,7 @@ pub fn add_carry(a: Word, b: Word, c: Word, r: &mut Word) -> Word {
 
 #[inline(always)]
 pub fn sub_borrow(a: Word, b: Word, c: Word, r: &mut Word) -> Word {
-    #[cfg(target_arch = "x86_64")]
+    #[cfg(all(target_arch = "x86_64", not(astro_verif_w8)))]
     {
         // platform-specific operation
         unsafe { core::arch::x86_64::_subborrow_u64(c as u8, a, b, r) as Word }
@@ -160,7 +160,7 @@ pub fn sub_borrow(a: Word, b: Word, c: Word, r: &mut Word) -> Word {
         unsafe { core::arch::x86::_subborrow_u32(c as u8, a, b, r) as Word }
     }
 
-    #[cfg(not(any(target_arch = "x86_64", target_arch = "x86")))]
+    #[cfg(any(astro_verif_w8, not(any(target_arch = "x86_64", target_arch = "x86"))))]
     {
         use crate::defs::DoubleWord;
         use crate::defs::WORD_BASE;
diff --git a/astro-float-num/src/defs.rs b/astro-float-num/src/defs.rs
index 022a91f..0241f81 100644
--- a/astro-float-num/src/defs.rs
+++ b/astro-float-num/src/defs.rs
@@ -9,15 +9,15 @@ use std::collections::TryReserveError;
 use alloc::collections::TryReserveError;
 
 /// A word.
-#[cfg(not(target_arch = "x86"))]
+#[cfg(not(any(target_arch = "x86", astro_verif_w8)))]
 pub type Word = u64;
 
 /// Doubled word.
-#[cfg(not(target_arch = "x86"))]
+#[cfg(not(any(target_arch = "x86", astro_verif_w8)))]
 pub type DoubleWord = u128;
 
 /// Word with sign.
-#[cfg(not(target_arch = "x86"))]
+#[cfg(not(any(target_arch = "x86", astro_verif_w8)))]
 pub type SignedWord = i128;
 
 /// A word.
@@ -32,6 +32,18 @@ pub type DoubleWord = u64;
 #[cfg(target_arch = "x86")]
 pub type SignedWord = i64;
 
+/// A word (verification build with 8-bit words).
+#[cfg(astro_verif_w8)]
+pub type Word = u8;
+
+/// Doubled word (verification build with 8-bit words).
+#[cfg(astro_verif_w8)]
+pub type DoubleWord = u16;
+
+/// Word with sign (verification build with 8-bit words).
+#[cfg(astro_verif_w8)]
+pub type SignedWord = i16;
+
 /// An exponent.
 pub type Exponent = i32;
 
diff --git a/astro-float-num/src/mantissa/mantissa.rs b/astro-float-num/src/mantissa/mantissa.rs
index 352ea0d..dad5392 100644
--- a/astro-float-num/src/mantissa/mantissa.rs
+++ b/astro-float-num/src/mantissa/mantissa.rs
@@ -717,12 +717,12 @@ impl Mantissa {
         let nd = m.len() - size_of::<u64>() / size_of::<Word>();
         m[..nd].fill(0);
 
-        #[cfg(not(target_arch = "x86"))]
+        #[cfg(not(any(target_arch = "x86", astro_verif_w8)))]
         {
             m[nd] = u;
         }
 
-        #[cfg(target_arch = "x86")]
+        #[cfg(any(target_arch = "x86", astro_verif_w8))]
         {
             let mut u = u;
             for v in &mut m[nd..] {
diff --git a/astro-float-num/src/num.rs b/astro-float-num/src/num.rs
index f477fb9..e95f5ca 100644
--- a/astro-float-num/src/num.rs
+++ b/astro-float-num/src/num.rs
@@ -166,11 +166,20 @@ impl BigFloatNumber {
     }
 
     pub(crate) fn from_u64_internal(d: u64, p: usize) -> Result<Self, Error> {
-        #[cfg(not(target_arch = "x86"))]
+        #[cfg(not(any(target_arch = "x86", astro_verif_w8)))]
         {
             Self::from_word(d, p)
         }
 
+        #[cfg(astro_verif_w8)]
+        {
+            Self::p_assertion(p)?;
+
+            let (shift, m) = Mantissa::from_u64(p, d)?;
+            let e = if d == 0 { 0 } else { 64 - shift as Exponent };
+            Ok(BigFloatNumber { m, e, s: Sign::Pos, inexact: false })
+        }
+
         #[cfg(target_arch = "x86")]
         {
             Self::p_assertion(p)?;
-- 
2.43.0


From fccd466760b2636f3fed86e7ac4e06783374e4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:05 +0000
Subject: [PATCH 02/19] fix: abs_cmp of a nonzero number with zero

---
 astro-float-num/src/num.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/astro-float-num/src/num.rs b/astro-float-num/src/num.rs
index e95f5ca..2014bcd 100644
--- a/astro-float-num/src/num.rs
+++ b/astro-float-num/src/num.rs
@@ -780,6 +780,10 @@ impl BigFloatNumber {
             }
         }
 
+        if d2.m.is_zero() {
+            return 1;
+        }
+
         let n1 = self.mantissa_max_bit_len() as isize - self.precision() as isize;
 
         let n2 = d2.mantissa_max_bit_len() as isize - d2.precision() as isize;
-- 
2.43.0


From 27f9ba39cd62fd07bb3dd90e6f752446b5db74a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:05 +0000
Subject: [PATCH 03/19] fix: BigFloat::abs_cmp compares absolute values

---
 astro-float-num/src/ext.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/astro-float-num/src/ext.rs b/astro-float-num/src/ext.rs
index 60822c9..124a122 100644
--- a/astro-float-num/src/ext.rs
+++ b/astro-float-num/src/ext.rs
@@ -352,7 +352,7 @@ impl BigFloat {
     pub fn abs_cmp(&self, d2: &Self) -> Option<SignedWord> {
         match &self.inner {
             Flavor::Value(v1) => match &d2.inner {
-                Flavor::Value(v2) => Some(v1.cmp(v2)),
+                Flavor::Value(v2) => Some(v1.abs_cmp(v2)),
                 Flavor::Inf(_) => Some(-1),
                 Flavor::NaN(_) => None,
             },
-- 
2.43.0


From 2b8555bcd4d0a7f79893bb83fbb6491aae72975b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:05 +0000
Subject: [PATCH 04/19] fix: classify zero as FpCategory::Zero

---
 astro-float-num/src/ext.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/astro-float-num/src/ext.rs b/astro-float-num/src/ext.rs
index 124a122..33c3f5e 100644
--- a/astro-float-num/src/ext.rs
+++ b/astro-float-num/src/ext.rs
@@ -737,10 +737,10 @@ impl BigFloat {
     pub fn classify(&self) -> FpCategory {
         match &self.inner {
             Flavor::Value(v) => {
-                if v.is_subnormal() {
-                    FpCategory::Subnormal
-                } else if v.is_zero() {
+                if v.is_zero() {
                     FpCategory::Zero
+                } else if v.is_subnormal() {
+                    FpCategory::Subnormal
                 } else {
                     FpCategory::Normal
                 }
-- 
2.43.0


From 8f216336a03e4d4a62099341a0a55df9c7f8b5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:39 +0000
Subject: [PATCH 05/19] fix: add_full_prec and sub_full_prec keep the other
 operand when one operand is zero

---
 astro-float-num/src/num.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/astro-float-num/src/num.rs b/astro-float-num/src/num.rs
index 2014bcd..c979361 100644
--- a/astro-float-num/src/num.rs
+++ b/astro-float-num/src/num.rs
@@ -599,7 +599,9 @@ impl BigFloatNumber {
         if self.m.is_zero() {
             let mut ret = if op < 0 { d2.neg() } else { d2.clone() }?;
 
-            ret.set_precision(p, rm)?;
+            if !full_prec {
+                ret.set_precision(p, rm)?;
+            }
 
             return Ok(ret);
         }
@@ -607,7 +609,9 @@ impl BigFloatNumber {
         if d2.m.is_zero() {
             let mut ret = self.clone()?;
 
-            ret.set_precision(p, rm)?;
+            if !full_prec {
+                ret.set_precision(p, rm)?;
+            }
 
             return Ok(ret);
         }
-- 
2.43.0


From 17652850fb0d442af9ba92a6b010cac8a31fffb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:03 +0000
Subject: [PATCH 06/19] fix: remainder below the normal range is no longer
 dropped

---
 astro-float-num/src/num.rs | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/astro-float-num/src/num.rs b/astro-float-num/src/num.rs
index c979361..177a1f3 100644
--- a/astro-float-num/src/num.rs
+++ b/astro-float-num/src/num.rs
@@ -469,23 +469,18 @@ impl BigFloatNumber {
                     // first, see if m3 is already subnormal, then shift accordingly
                     let mut excess = m3.max_bit_len() - m3.bit_len();
 
-                    if EXPONENT_MIN as isize - e > usize::MAX as isize {
-                        m3.set_zero();
-                        e = 0;
-                    } else {
-                        let shift = (EXPONENT_MIN as isize - e) as usize;
+                    let shift = (EXPONENT_MIN as isize - e) as usize;
 
-                        if excess < shift {
-                            m3.extend_subnormal(shift)?;
-                            excess = m3.max_bit_len() - m3.bit_len();
-                        }
+                    if excess < shift {
+                        m3.extend_subnormal(shift)?;
+                        excess = m3.max_bit_len() - m3.bit_len();
+                    }
 
-                        let shift = excess - shift;
-                        m3.shift_left(shift);
-                        m3.set_bit_len(m3.bit_len() + shift);
+                    let shift = excess - shift;
+                    m3.shift_left(shift);
+                    m3.set_bit_len(m3.bit_len() + shift);
 
-                        e = EXPONENT_MIN as isize;
-                    }
+                    e = EXPONENT_MIN as isize;
                 } else {
                     m3.normilize2();
                 }
-- 
2.43.0


From bd856cc061d834f67546b70890ebb7cedd78095a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:37 +0000
Subject: [PATCH 07/19] fix: keep the leading zeros of inner parts when
 formatting decimals

---
 astro-float-num/src/mantissa/conv.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/astro-float-num/src/mantissa/conv.rs b/astro-float-num/src/mantissa/conv.rs
index ed5c15c..dd228ca 100644
--- a/astro-float-num/src/mantissa/conv.rs
+++ b/astro-float-num/src/mantissa/conv.rs
@@ -72,7 +72,16 @@ impl Mantissa {
             let mut r = Mantissa::from_word_buf(r);
 
             if q.is_zero() {
-                let part1 = Self::conv_to_dec(&mut r, l / 2, tenpowers, p - 1, most_significant)?;
+                let mut part1 =
+                    Self::conv_to_dec(&mut r, l / 2, tenpowers, p - 1, most_significant)?;
+
+                if !most_significant {
+                    // keep leading zeroes
+                    let n = l - part1.len();
+                    part1.try_reserve_exact(n)?;
+                    part1.resize(l, 0);
+                    part1.rotate_right(n);
+                }
 
                 Ok(part1)
             } else {
-- 
2.43.0


From f0581a0b88b736b9fd36c3a3cb8f7017727ac1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:38 +0000
Subject: [PATCH 08/19] fix: trim the working precision before deciding the
 rounding of a parsed decimal

---
 astro-float-num/src/conv.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/astro-float-num/src/conv.rs b/astro-float-num/src/conv.rs
index f0c43ed..c50c466 100644
--- a/astro-float-num/src/conv.rs
+++ b/astro-float-num/src/conv.rs
@@ -353,6 +353,9 @@ impl BigFloatNumber {
 
             f.set_sign(sign);
 
+            // try_set_precision() expects that no words follow the correct bits
+            f.set_precision(p_wrk, RoundingMode::None)?;
+
             if f.try_set_precision(p, rm, p_wrk)? {
                 return Ok(f);
             }
-- 
2.43.0


From f250838f0a3baad822e0ef6af95fd62db60ee7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:38 +0000
Subject: [PATCH 09/19] fix: parse binary digits into a normalized number and
 all-zero digits into zero

---
 astro-float-num/src/conv.rs | 41 +++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/astro-float-num/src/conv.rs b/astro-float-num/src/conv.rs
index c50c466..5a39b28 100644
--- a/astro-float-num/src/conv.rs
+++ b/astro-float-num/src/conv.rs
@@ -113,32 +113,37 @@ impl BigFloatNumber {
 
         mantissa.update_bit_len();
 
-        if p < usize::MAX {
-            let mut ret = BigFloatNumber::from_raw_unchecked(mantissa, sign, e, false);
+        if mantissa.is_zero() {
+            let mut ret = Self::new(if p < usize::MAX { p } else { DEFAULT_P })?;
+            ret.set_sign(sign);
 
-            ret.set_precision(p, rm)?;
+            return Ok(ret);
+        }
 
-            Ok(ret)
-        } else {
-            let shift = mantissa.max_bit_len() - mantissa.bit_len();
+        let shift = mantissa.max_bit_len() - mantissa.bit_len();
 
-            if shift > 0 {
-                if e > EXPONENT_MIN {
-                    let e_shift = (e - EXPONENT_MIN) as usize;
+        if shift > 0 {
+            if e > EXPONENT_MIN {
+                let e_shift = (e as isize - EXPONENT_MIN as isize) as usize;
 
-                    if e_shift >= shift {
-                        mantissa.normilize2();
-                        e -= shift as Exponent;
-                    } else {
-                        mantissa.shift_left(e_shift);
-                        mantissa.set_bit_len(mantissa.bit_len() + e_shift);
-                        e = EXPONENT_MIN;
-                    }
+                if e_shift >= shift {
+                    mantissa.normilize2();
+                    e -= shift as Exponent;
+                } else {
+                    mantissa.shift_left(e_shift);
+                    mantissa.set_bit_len(mantissa.bit_len() + e_shift);
+                    e = EXPONENT_MIN;
                 }
             }
+        }
+
+        let mut ret = BigFloatNumber::from_raw_unchecked(mantissa, sign, e, false);
 
-            Ok(BigFloatNumber::from_raw_unchecked(mantissa, sign, e, false))
+        if p < usize::MAX {
+            ret.set_precision(p, rm)?;
         }
+
+        Ok(ret)
     }
 
     // radix is power of 2.
-- 
2.43.0


From b31ccfcd65ed47eeb9e27983c355159865349a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:38 +0000
Subject: [PATCH 10/19] fix: keep the sticky part when a parsed hex or oct
 number is far below the range

---
 astro-float-num/src/conv.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/astro-float-num/src/conv.rs b/astro-float-num/src/conv.rs
index 5a39b28..5d6a287 100644
--- a/astro-float-num/src/conv.rs
+++ b/astro-float-num/src/conv.rs
@@ -246,6 +246,13 @@ impl BigFloatNumber {
 
                     num.subnormalize(e, RoundingMode::None);
 
+                    if num.is_zero() {
+                        // not zero, but smaller than anything representable
+                        num = Self::min_positive(num.mantissa_max_bit_len())?;
+                        num.set_sign(sign);
+                        num.set_inexact(true);
+                    }
+
                     if num.inexact() {
                         num.mantissa_mut().digits_mut()[0] |= 1; // sticky for correct rounding when calling set_precision()
                     }
-- 
2.43.0


From 0892df323fd4b157e562c540a3cde135ec2151c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:38 +0000
Subject: [PATCH 11/19] fix: update the bit length of parsed subnormal numbers
 in automatic precision

---
 astro-float-num/src/conv.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/astro-float-num/src/conv.rs b/astro-float-num/src/conv.rs
index 5d6a287..daf5795 100644
--- a/astro-float-num/src/conv.rs
+++ b/astro-float-num/src/conv.rs
@@ -268,6 +268,7 @@ impl BigFloatNumber {
 
                     let leftshift = m.max_bit_len() - newbitlen;
                     m.shift_left(leftshift);
+                    m.update_bit_len();
 
                     BigFloatNumber::from_raw_unchecked(m, sign, EXPONENT_MIN, false)
                 }
-- 
2.43.0


From 84f03622011d0961fed211c52b02b1d303f505c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:38 +0000
Subject: [PATCH 12/19] fix: zero of the requested precision from f64 zero

---
 astro-float-num/src/num.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/astro-float-num/src/num.rs b/astro-float-num/src/num.rs
index 177a1f3..23ddb67 100644
--- a/astro-float-num/src/num.rs
+++ b/astro-float-num/src/num.rs
@@ -822,7 +822,7 @@ impl BigFloatNumber {
         let mut ret = Self::new(0)?;
 
         if f == 0.0f64 {
-            return Ok(ret);
+            return Self::new(p);
         }
 
         if f.is_infinite() {
-- 
2.43.0


From df8fdd410d241415061477eaa221d3a5d4815d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:38 +0000
Subject: [PATCH 13/19] fix: zero exponent of the zero made from usize

---
 astro-float-num/src/num.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/astro-float-num/src/num.rs b/astro-float-num/src/num.rs
index 23ddb67..7193a7a 100644
--- a/astro-float-num/src/num.rs
+++ b/astro-float-num/src/num.rs
@@ -1473,7 +1473,7 @@ impl BigFloatNumber {
     pub(crate) fn from_usize(u: usize) -> Result<Self, Error> {
         let (shift, m) = Mantissa::from_usize(u)?;
         let s = Sign::Pos;
-        let e = (m.max_bit_len() - shift) as Exponent;
+        let e = if u == 0 { 0 } else { (m.max_bit_len() - shift) as Exponent };
 
         Ok(BigFloatNumber {
             m,
-- 
2.43.0


From 573eae4088936fcbeb8ba7f66eee51e366b9117d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:38 +0000
Subject: [PATCH 14/19] fix: underflow of exp and pow gives positive zero

---
 astro-float-num/src/ops/pow.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/astro-float-num/src/ops/pow.rs b/astro-float-num/src/ops/pow.rs
index cfcfab5..dee44e0 100644
--- a/astro-float-num/src/ops/pow.rs
+++ b/astro-float-num/src/ops/pow.rs
@@ -122,8 +122,8 @@ impl BigFloatNumber {
                 let x = match self.exp_positive_arg(p_x, cc) {
                     Ok(v) => Ok(v),
                     Err(e) => match e {
-                        Error::ExponentOverflow(sign) => {
-                            return Self::new2(p, sign, self.inexact());
+                        Error::ExponentOverflow(_) => {
+                            return Self::new2(p, Sign::Pos, true);
                         }
                         Error::DivisionByZero => Err(Error::DivisionByZero),
                         Error::InvalidArgument => Err(Error::InvalidArgument),
@@ -564,8 +564,8 @@ impl BigFloatNumber {
                     let u = match m.exp(p_ext, RoundingMode::None, cc) {
                         Ok(v) => Ok(v),
                         Err(e) => match e {
-                            Error::ExponentOverflow(sign) => {
-                                return Self::new2(p, sign, self.inexact());
+                            Error::ExponentOverflow(_) => {
+                                return Self::new2(p, Sign::Pos, true);
                             }
                             Error::DivisionByZero => Err(Error::DivisionByZero),
                             Error::InvalidArgument => Err(Error::InvalidArgument),
-- 
2.43.0


From 47d8302d9b3c8a42b35ad2c6f26d61e52ea7393c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:38 +0000
Subject: [PATCH 15/19] fix: round up the precision before the exact cases of
 pow

---
 astro-float-num/src/ops/pow.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/astro-float-num/src/ops/pow.rs b/astro-float-num/src/ops/pow.rs
index dee44e0..795d9bf 100644
--- a/astro-float-num/src/ops/pow.rs
+++ b/astro-float-num/src/ops/pow.rs
@@ -450,6 +450,8 @@ impl BigFloatNumber {
         rm: RoundingMode,
         cc: &mut Consts,
     ) -> Result<Self, Error> {
+        let p = round_p(p);
+
         let nint = n.is_int();
         if n.is_zero() {
             let mut ret = Self::from_word(1, p)?;
@@ -504,8 +506,6 @@ impl BigFloatNumber {
 
         // actual pow : self^n = e^(n * ln(self))
 
-        let p = round_p(p);
-
         let mut x = self.clone()?;
         let mut y = n.clone()?;
 
-- 
2.43.0


From 90f3042d48790450d8ec8e868831afed9d01f1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:38 +0000
Subject: [PATCH 16/19] fix: special values of pow, powi and tanh at precisions
 below one word

---
 astro-float-num/src/ext.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/astro-float-num/src/ext.rs b/astro-float-num/src/ext.rs
index 33c3f5e..a02dd5b 100644
--- a/astro-float-num/src/ext.rs
+++ b/astro-float-num/src/ext.rs
@@ -397,7 +397,7 @@ impl BigFloat {
                         } else if val < 0 {
                             Self::new(p)
                         } else {
-                            Self::from_u8(1, p)
+                            Self::from_word(1, p)
                         }
                     }
                     Flavor::NaN(err) => Self::nan(*err),
@@ -408,7 +408,7 @@ impl BigFloat {
                     Flavor::Value(v2) => {
                         // inf ^ v2
                         if v2.is_zero() {
-                            Self::from_u8(1, p)
+                            Self::from_word(1, p)
                         } else if v2.is_positive() {
                             if s1.is_negative() && v2.is_odd_int() {
                                 // v2 is odd and has no fractional part.
@@ -444,7 +444,7 @@ impl BigFloat {
             Flavor::Inf(s1) => {
                 // inf ^ v2
                 if n == 0 {
-                    Self::from_u8(1, p)
+                    Self::from_word(1, p)
                 } else if s1.is_negative() && (n & 1 == 1) {
                     INF_NEG
                 } else {
@@ -769,7 +769,11 @@ impl BigFloat {
     pub fn tanh(&self, p: usize, rm: RoundingMode, cc: &mut Consts) -> Self {
         match &self.inner {
             Flavor::Value(v) => Self::result_to_ext(v.tanh(p, rm, cc), v.is_zero(), true),
-            Flavor::Inf(s) => Self::from_i8(s.to_int(), p),
+            Flavor::Inf(s) => {
+                let mut ret = Self::from_word(1, p);
+                ret.set_sign(*s);
+                ret
+            }
             Flavor::NaN(err) => Self::nan(*err),
         }
     }
-- 
2.43.0


From 9b23413e8f1764c03a7048595f702e30ccdcf474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:38 +0000
Subject: [PATCH 17/19] fix: parse zero with a huge exponent as zero

---
 astro-float-num/src/parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/astro-float-num/src/parser.rs b/astro-float-num/src/parser.rs
index 6f0aaf7..ab3be35 100644
--- a/astro-float-num/src/parser.rs
+++ b/astro-float-num/src/parser.rs
@@ -145,7 +145,11 @@ fn parse_num(parser_state: &mut ParserState, rdx: Radix) -> Result<(), Error> {
             parser_state.mantissa_bytes = zero;
             parser_state.e = 0;
         } else if parser_state.e > EXPONENT_MAX as isize {
-            parser_state.inf = true;
+            if parser_state.mantissa_bytes.iter().all(|d| *d == 0) {
+                parser_state.e = 0;
+            } else {
+                parser_state.inf = true;
+            }
         }
     } else if skip_cnt1 > 0 {
         // just zeroes
-- 
2.43.0


From 90b5ff02e7155126b051d08cc6a523d407e15a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:38 +0000
Subject: [PATCH 18/19] verif hook: decimal conversion constants for 8 bit
 words

---
 astro-float-num/src/mantissa/conv.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/astro-float-num/src/mantissa/conv.rs b/astro-float-num/src/mantissa/conv.rs
index dd228ca..e7093b2 100644
--- a/astro-float-num/src/mantissa/conv.rs
+++ b/astro-float-num/src/mantissa/conv.rs
@@ -10,10 +10,16 @@ use crate::{Error, Word, WORD_BIT_SIZE};
 use alloc::vec::Vec;
 
 // Number of decimal digits per word.
+#[cfg(not(astro_verif_w8))]
 const WORD_TENPOWER_LEN: usize = if WORD_BIT_SIZE < 64 { 8 } else { 16 };
+#[cfg(astro_verif_w8)]
+const WORD_TENPOWER_LEN: usize = 2;
 
 // A starting id in tenpowers cache depending on the word size.
+#[cfg(not(astro_verif_w8))]
 const TENPOWER_START_ID: usize = if WORD_BIT_SIZE < 64 { 3 } else { 4 };
+#[cfg(astro_verif_w8)]
+const TENPOWER_START_ID: usize = 1;
 
 impl Mantissa {
     /// Convert `self` to an array of decimal digits with divide and conquer algorithm.
-- 
2.43.0


From 2b49128b569f2d6ed4679dbfe42012e66e6ea445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:10 +0000
Subject: [PATCH 19/19] fix: read all digits of a huge exponent before deciding
 that it underflows

---
 astro-float-num/src/parser.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/astro-float-num/src/parser.rs b/astro-float-num/src/parser.rs
index ab3be35..8a5d9f8 100644
--- a/astro-float-num/src/parser.rs
+++ b/astro-float-num/src/parser.rs
@@ -242,12 +242,8 @@ fn parse_exp(parser_state: &mut ParserState, rdx: Radix) {
             _ => {}
         };
     }
-    let e_thres = EXPONENT_MAX.unsigned_abs().max(EXPONENT_MIN.unsigned_abs()) as isize;
     while let Some(c) = ch {
         if is_radix_digit(c, rdx) {
-            if parser_state.e > e_thres {
-                break;
-            }
             parser_state.e = parser_state.e.saturating_mul(rdx as isize);
             let digit = c.to_digit(rdx as u32).unwrap(); // call to unwrap() is unreachable, because c is surely a digit.
             parser_state.e = parser_state.e.saturating_add(digit as isize);
-- 
2.43.0

