From b56e08a574604949fa7e88c6c5a0c4cfdc2a7371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:35 +0000
Subject: [PATCH 01/18] fix: mirror the rounding mode for negative overflow in
 NaN-only formats

normalize passed the unmirrored mode to overflow_result when the value
collides with the single NaN encoding, so e.g. a negative Float8E4M3FN sum
beyond -448 gave NaN toward positive and -448 toward negative.
---
 src/ieee.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ieee.rs b/src/ieee.rs
index 8b1d67b..856fbe8 100644
--- a/src/ieee.rs
+++ b/src/ieee.rs
@@ -2097,6 +2097,7 @@ impl<S: Semantics> IeeeFloat<S> {
             && self.exp == Self::NAN.exp
             && [self.sig[0] & S::NAN_SIGNIFICAND_BASE] == Self::NAN.sig
         {
+            let round = round.negate_if(self.is_negative());
             return Self::overflow_result(round).map(|r| r.copy_sign(self));
         }
 
@@ -2145,6 +2146,7 @@ impl<S: Semantics> IeeeFloat<S> {
                 && self.exp == Self::NAN.exp
                 && [self.sig[0] & S::NAN_SIGNIFICAND_BASE] == Self::NAN.sig
             {
+                let round = round.negate_if(self.is_negative());
                 return Self::overflow_result(round).map(|r| r.copy_sign(self));
             }
         }
-- 
2.43.0


From 32b4407b578cf3721f2d1743820daa46ed00b9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:22 +0000
Subject: [PATCH 02/18] fix: only borrow for a lost fraction that is actually
 subtracted

In fused multiply-add with a subnormal addend, the lost fraction can come
from the (larger) product, in which case it is left over, not subtracted.
---
 src/ieee.rs | 45 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 32 insertions(+), 13 deletions(-)

diff --git a/src/ieee.rs b/src/ieee.rs
index 856fbe8..d3a3e0b 100644
--- a/src/ieee.rs
+++ b/src/ieee.rs
@@ -1208,6 +1208,10 @@ impl<S: Semantics> Float for IeeeFloat<S> {
         if omsb > S::PRECISION {
             let bits = omsb - S::PRECISION;
             loss = sig::shift_right(&mut wide_sig, &mut self.exp, bits).combine(loss);
+        } else if omsb == 0 {
+            // Only the lost fraction is left (if anything), from a position well
+            // below the least significant bit of even subnormal results.
+            loss = Loss::ExactlyZero.combine(loss);
         }
 
         self.sig[0] = wide_sig[0];
@@ -3010,37 +3014,52 @@ mod sig {
         // an addition or subtraction.
         // Subtraction is more subtle than one might naively expect.
         if *a_sign ^ b_sign {
-            let loss;
+            let mut loss;
+            let mut loss_is_from_b = false;
 
             if bits == 0 {
                 loss = Loss::ExactlyZero;
             } else if bits > 0 {
                 loss = shift_right(b_sig, &mut 0, (bits - 1) as usize);
+                loss_is_from_b = true;
                 shift_left(a_sig, a_exp, 1);
             } else {
                 loss = shift_right(a_sig, a_exp, (-bits - 1) as usize);
                 shift_left(b_sig, &mut 0, 1);
             }
 
-            let borrow = (loss != Loss::ExactlyZero) as Limb;
+            // Should we reverse the subtraction (also taking into account that,
+            // for equal significands, the lost fraction decides which is larger).
+            let reverse = match cmp(a_sig, b_sig) {
+                Ordering::Less => true,
+                Ordering::Equal => loss_is_from_b && loss != Loss::ExactlyZero,
+                Ordering::Greater => false,
+            };
+
+            // Only a lost fraction of the smaller number is subtracted (and
+            // requires borrowing), one of the larger number is left over as-is.
+            // The latter only happens for a `b` that isn't normalized (which
+            // is the case for subnormal addends in `mul_add_r`).
+            let borrow = loss != Loss::ExactlyZero && loss_is_from_b != reverse;
 
-            // Should we reverse the subtraction.
-            if cmp(a_sig, b_sig) == Ordering::Less {
-                // The code above is intended to ensure that no borrow is necessary.
-                assert_eq!(sub(b_sig, a_sig, borrow), 0);
+            // The code above is intended to ensure that no borrow is necessary.
+            if reverse {
+                assert_eq!(sub(b_sig, a_sig, borrow as Limb), 0);
                 a_sig.copy_from_slice(b_sig);
                 *a_sign = !*a_sign;
             } else {
-                // The code above is intended to ensure that no borrow is necessary.
-                assert_eq!(sub(a_sig, b_sig, borrow), 0);
+                assert_eq!(sub(a_sig, b_sig, borrow as Limb), 0);
             }
 
-            // Invert the lost fraction - it was on the RHS and subtracted.
-            match loss {
-                Loss::LessThanHalf => Loss::MoreThanHalf,
-                Loss::MoreThanHalf => Loss::LessThanHalf,
-                _ => loss,
+            // Invert the lost fraction, if it was subtracted.
+            if borrow {
+                loss = match loss {
+                    Loss::LessThanHalf => Loss::MoreThanHalf,
+                    Loss::MoreThanHalf => Loss::LessThanHalf,
+                    _ => loss,
+                };
             }
+            loss
         } else {
             let loss = if bits > 0 {
                 shift_right(b_sig, &mut 0, bits as usize)
-- 
2.43.0


From ec2dbf9a7fd3bd8dfce2793be04f8a4e2df8153a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:56 +0000
Subject: [PATCH 03/18] fix: keep is_exact false for negative zero in to_i128_r

It was set before, and overwritten by, the conversion of the magnitude.
---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index a1821d7..6e9990f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -377,11 +377,12 @@ pub trait Float:
     fn to_i128_r(self, width: usize, round: Round, is_exact: &mut bool) -> StatusAnd<i128> {
         let status;
         if self.is_negative() {
+            let r = unpack!(status=, (-self).to_u128_r(width, -round, is_exact));
+
             if self.is_zero() {
                 // Negative zero can't be represented as an int.
                 *is_exact = false;
             }
-            let r = unpack!(status=, (-self).to_u128_r(width, -round, is_exact));
 
             // Check for values that don't fit in the signed integer.
             if r > (1 << (width - 1)) {
-- 
2.43.0


From 5de6c1ce005eb5254aeafb547ef2a28197759afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:56 +0000
Subject: [PATCH 04/18] fix: don't shift out of range for 1-bit signed integers
 in to_i128_r

---
 src/ieee.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ieee.rs b/src/ieee.rs
index d3a3e0b..a81e741 100644
--- a/src/ieee.rs
+++ b/src/ieee.rs
@@ -1684,8 +1684,9 @@ impl<S: Semantics> Float for IeeeFloat<S> {
             // Negative numbers cannot be represented as unsigned.
             0
         } else {
-            // Largest unsigned integer of the given width.
-            !0 >> (128 - width)
+            // Largest unsigned integer of the given width (which can be zero, for
+            // the magnitude bits of a 1-bit signed integer).
+            (!0u128).checked_shr(128 - width as u32).unwrap_or(0)
         };
 
         *is_exact = false;
-- 
2.43.0


From 83cbd9367a17066888e59d18d8ff263fb74bca43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:45 +0000
Subject: [PATCH 05/18] fix: detect decimal strings just below a rounding
 boundary

The distance to the boundary was not taken modulo the ulp of the result, so
in the directed modes an approximation just below a representable value was
truncated without more precision, and so was one just below half of the
smallest denormal in the nearest modes.
---
 src/ieee.rs | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/src/ieee.rs b/src/ieee.rs
index a81e741..c73d7a8 100644
--- a/src/ieee.rs
+++ b/src/ieee.rs
@@ -2652,30 +2652,27 @@ impl<S: Semantics> IeeeFloat<S> {
                 inexact + 2 * (half_ulp_err1 + half_ulp_err2)
             };
 
-            let ulps_from_boundary = {
-                let bits = calc_precision - used_bits - 1;
+            let ulps_from_boundary = if truncated_bits > calc_precision + 1 {
+                // Less than half of the smallest denormal, and not close to it.
+                !0 // A lot.
+            } else {
+                let bits = truncated_bits - 1;
 
                 let i = bits / LIMB_BITS;
-                let limb = sig_calc[i] & (!0 >> (LIMB_BITS - 1 - bits % LIMB_BITS));
+                let mask = !0 >> (LIMB_BITS - 1 - bits % LIMB_BITS);
                 let boundary = match round {
                     Round::NearestTiesToEven | Round::NearestTiesToAway => 1 << (bits % LIMB_BITS),
                     _ => 0,
                 };
+                // The distance is taken modulo the ulp of the result, as it
+                // may be closer to the boundary above than to the one below.
+                let delta = (sig_calc[i] & mask) ^ boundary;
                 if i == 0 {
-                    let delta = limb.wrapping_sub(boundary);
-                    cmp::min(delta, delta.wrapping_neg())
-                } else if limb == boundary {
-                    if !sig::is_all_zeros(&sig_calc[1..i]) {
-                        !0 // A lot.
-                    } else {
-                        sig_calc[0]
-                    }
-                } else if limb == boundary.wrapping_sub(1) {
-                    if sig_calc[1..i].iter().any(|&x| x.wrapping_neg() != 1) {
-                        !0 // A lot.
-                    } else {
-                        sig_calc[0].wrapping_neg()
-                    }
+                    cmp::min(delta, delta.wrapping_neg() & mask)
+                } else if delta == 0 && sig::is_all_zeros(&sig_calc[1..i]) {
+                    sig_calc[0]
+                } else if delta == mask && sig_calc[1..i].iter().all(|&x| x == !0) {
+                    sig_calc[0].wrapping_neg()
                 } else {
                     !0 // A lot.
                 }
-- 
2.43.0


From 566b110923891bba826639e3ce0791c108c41641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:59 +0000
Subject: [PATCH 06/18] fix: don't misreport exactness of long decimal strings
 rounded to nearest

An approximation next to a representable value was accepted in the nearest
modes, as it can't change the result, but then decided INEXACT and UNDERFLOW:
exact values with many digits were reported inexact, and some inexact ones
exact.
---
 src/ieee.rs | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/ieee.rs b/src/ieee.rs
index c73d7a8..50d4db9 100644
--- a/src/ieee.rs
+++ b/src/ieee.rs
@@ -2660,21 +2660,28 @@ impl<S: Semantics> IeeeFloat<S> {
 
                 let i = bits / LIMB_BITS;
                 let mask = !0 >> (LIMB_BITS - 1 - bits % LIMB_BITS);
-                let boundary = match round {
-                    Round::NearestTiesToEven | Round::NearestTiesToAway => 1 << (bits % LIMB_BITS),
-                    _ => 0,
-                };
                 // The distance is taken modulo the ulp of the result, as it
                 // may be closer to the boundary above than to the one below.
-                let delta = (sig_calc[i] & mask) ^ boundary;
-                if i == 0 {
-                    cmp::min(delta, delta.wrapping_neg() & mask)
-                } else if delta == 0 && sig::is_all_zeros(&sig_calc[1..i]) {
-                    sig_calc[0]
-                } else if delta == mask && sig_calc[1..i].iter().all(|&x| x == !0) {
-                    sig_calc[0].wrapping_neg()
-                } else {
-                    !0 // A lot.
+                let ulps_from = |boundary: Limb| {
+                    let delta = (sig_calc[i] & mask) ^ boundary;
+                    if i == 0 {
+                        cmp::min(delta, delta.wrapping_neg() & mask)
+                    } else if delta == 0 && sig::is_all_zeros(&sig_calc[1..i]) {
+                        sig_calc[0]
+                    } else if delta == mask && sig_calc[1..i].iter().all(|&x| x == !0) {
+                        sig_calc[0].wrapping_neg()
+                    } else {
+                        !0 // A lot.
+                    }
+                };
+                // Values close to a representable one don't need more precision
+                // to be rounded to nearest, but to tell whether they're exact.
+                let ulps_from_exact = ulps_from(0);
+                match round {
+                    Round::NearestTiesToEven | Round::NearestTiesToAway => {
+                        cmp::min(ulps_from_exact, ulps_from(1 << (bits % LIMB_BITS)))
+                    }
+                    _ => ulps_from_exact,
                 }
             };
 
-- 
2.43.0


From ee415ec76970062157a4fd326bc61c0d7904eddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:49 +0000
Subject: [PATCH 07/18] fix: use the natural precision when formatting with
 precision 0

As documented; it used to print a single (wrong) digit or panic.
---
 src/ieee.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ieee.rs b/src/ieee.rs
index 50d4db9..f6be887 100644
--- a/src/ieee.rs
+++ b/src/ieee.rs
@@ -575,7 +575,7 @@ impl<S: Semantics> fmt::Display for IeeeFloat<S> {
         // we can print fewer digits depending on the actual value being printed.
 
         // precision = 2 + floor(S::PRECISION / lg_2(10))
-        let precision = f.precision().unwrap_or(2 + S::PRECISION * 59 / 196);
+        let precision = f.precision().filter(|&p| p != 0).unwrap_or(2 + S::PRECISION * 59 / 196);
 
         // Decompose the number into an APInt and an exponent.
         let mut exp = self.exp - (S::PRECISION as ExpInt - 1);
-- 
2.43.0


From 7b5cc0838c1b3e76688546c8cf8f2776096b241a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:46 +0000
Subject: [PATCH 08/18] fix: consider the low half in DoubleFloat::is_denormal

---
 src/ppc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ppc.rs b/src/ppc.rs
index b32cf75..131cb44 100644
--- a/src/ppc.rs
+++ b/src/ppc.rs
@@ -411,7 +411,7 @@ where
 
     fn is_denormal(self) -> bool {
         self.category() == Category::Normal
-            && (self.0.is_denormal() || self.0.is_denormal() ||
+            && (self.0.is_denormal() || self.1.is_denormal() ||
           // (double)(Hi + Lo) == Hi defines a normal number.
           self.0 !=  (self.0 + self.1).value)
     }
-- 
2.43.0


From f60396309dca50c05fe8136c6c225637dd76533d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:46 +0000
Subject: [PATCH 09/18] fix: compare the signed low halves in
 DoubleFloat::cmp_abs_normal

---
 src/ppc.rs | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/ppc.rs b/src/ppc.rs
index 131cb44..9d920ea 100644
--- a/src/ppc.rs
+++ b/src/ppc.rs
@@ -388,16 +388,9 @@ where
 
     fn cmp_abs_normal(self, rhs: Self) -> Ordering {
         self.0.cmp_abs_normal(rhs.0).then_with(|| {
-            let result = self.1.cmp_abs_normal(rhs.1);
-            if result != Ordering::Equal {
-                let against = self.0.is_negative() ^ self.1.is_negative();
-                let rhs_against = rhs.0.is_negative() ^ rhs.1.is_negative();
-                (!against)
-                    .cmp(&!rhs_against)
-                    .then_with(|| if against { result.reverse() } else { result })
-            } else {
-                result
-            }
+            // The low halves may be zeros, or of the opposite sign to their
+            // high halves, in which case they make the sum smaller.
+            self.abs().1.partial_cmp(&rhs.abs().1).unwrap_or(Ordering::Equal)
         })
     }
 
-- 
2.43.0


From 0c04ed5fe338de81105f4cb65bc8037342fc3029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:27 +0000
Subject: [PATCH 10/18] fix: overflow instead of panicking when the high half
 of a DoubleFloat overflows

---
 src/ppc.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ppc.rs b/src/ppc.rs
index 9d920ea..a953eb0 100644
--- a/src/ppc.rs
+++ b/src/ppc.rs
@@ -79,8 +79,10 @@ where
         let extended: FallbackExtended<F> = unpack!(status=, x.convert(&mut loses_info));
         assert_eq!((status, loses_info), (Status::OK, false));
 
+        // Values that need more precision than `F` just above its largest number
+        // don't have a high half, and overflow instead.
         let a = unpack!(status=, extended.convert(&mut loses_info));
-        assert_eq!(status - Status::INEXACT, Status::OK);
+        assert_eq!(status - (Status::OVERFLOW | Status::INEXACT), Status::OK);
 
         // If conversion was exact or resulted in a special case, we're done;
         // just set the second double to zero. Otherwise, re-convert back to
-- 
2.43.0


From c7d62bc4efa537d74ad3852e8c9395a3bedeba0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:41 +0000
Subject: [PATCH 11/18] fix: don't panic on signaling NaN halves in DoubleFloat

---
 src/ppc.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/ppc.rs b/src/ppc.rs
index a953eb0..c89494f 100644
--- a/src/ppc.rs
+++ b/src/ppc.rs
@@ -76,6 +76,12 @@ where
         let mut status;
         let mut loses_info = false;
 
+        // Conversions would quiet a signaling NaN (and raise an exception).
+        if x.is_signaling() {
+            let r = DoubleFloat(F::snan(None), F::ZERO);
+            return if x.is_negative() { -r } else { r };
+        }
+
         let extended: FallbackExtended<F> = unpack!(status=, x.convert(&mut loses_info));
         assert_eq!((status, loses_info), (Status::OK, false));
 
@@ -109,6 +115,12 @@ impl<F: FloatConvert<Self>> From<DoubleFloat<F>> for Fallback<F> {
         let mut status;
         let mut loses_info = false;
 
+        // Conversions would quiet a signaling NaN (and raise an exception).
+        if a.is_signaling() {
+            let r = Self::snan(None);
+            return if a.is_negative() { -r } else { r };
+        }
+
         // Get the first F and convert to our format.
         let a = unpack!(status=, a.convert(&mut loses_info));
         assert_eq!((status, loses_info), (Status::OK, false));
@@ -116,7 +128,7 @@ impl<F: FloatConvert<Self>> From<DoubleFloat<F>> for Fallback<F> {
         // Unless we have a special case, add in second F.
         if a.is_finite_non_zero() {
             let b = unpack!(status=, b.convert(&mut loses_info));
-            assert_eq!((status, loses_info), (Status::OK, false));
+            assert_eq!((status - Status::INVALID_OP, loses_info), (Status::OK, false));
 
             (a + b).value
         } else {
-- 
2.43.0


From edffbd626c55fbc89d622d4c871eb76656a823c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:50 +0000
Subject: [PATCH 12/18] fix: DoubleFloat addition does not overflow in an
 intermediate difference

---
 src/ppc.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ppc.rs b/src/ppc.rs
index c89494f..2c9296b 100644
--- a/src/ppc.rs
+++ b/src/ppc.rs
@@ -255,6 +255,13 @@ where
                         self.1 = unpack!(status|=, self.1.add_r(zz, round));
                     }
                 } else {
+                    // Subtract `z` from the larger operand, as the other difference may overflow.
+                    let (a, c) = if a.cmp_abs_normal(c) == Ordering::Less {
+                        (c, a)
+                    } else {
+                        (a, c)
+                    };
+
                     // q = a - z;
                     let mut q = a;
                     q = unpack!(status|=, q.sub_r(z, round));
-- 
2.43.0


From 81123683a883da3f527a73e83038dd9db48cbbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:50 +0000
Subject: [PATCH 13/18] fix: DoubleFloat zero times infinity raises INVALID_OP

---
 src/ppc.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ppc.rs b/src/ppc.rs
index 2c9296b..98cb1e5 100644
--- a/src/ppc.rs
+++ b/src/ppc.rs
@@ -314,7 +314,9 @@ where
 
             (_, Category::NaN) => Status::OK.and(rhs),
 
-            (Category::Zero, Category::Infinity) | (Category::Infinity, Category::Zero) => Status::OK.and(Self::NAN),
+            (Category::Zero, Category::Infinity) | (Category::Infinity, Category::Zero) => {
+                Status::INVALID_OP.and(Self::NAN)
+            }
 
             (Category::Zero, _) | (Category::Infinity, _) => Status::OK.and(self),
 
-- 
2.43.0


From 1b624086e004a18261487fd87f5b30bf61b82e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:50 +0000
Subject: [PATCH 14/18] fix: DoubleFloat products of zeros and infinities have
 the sign of both operands

---
 src/ppc.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ppc.rs b/src/ppc.rs
index 98cb1e5..093f763 100644
--- a/src/ppc.rs
+++ b/src/ppc.rs
@@ -318,9 +318,13 @@ where
                 Status::INVALID_OP.and(Self::NAN)
             }
 
-            (Category::Zero, _) | (Category::Infinity, _) => Status::OK.and(self),
+            (Category::Zero, _) | (Category::Infinity, _) => {
+                Status::OK.and(if rhs.is_negative() { -self } else { self })
+            }
 
-            (_, Category::Zero) | (_, Category::Infinity) => Status::OK.and(rhs),
+            (_, Category::Zero) | (_, Category::Infinity) => {
+                Status::OK.and(if self.is_negative() { -rhs } else { rhs })
+            }
 
             (Category::Normal, Category::Normal) => {
                 let mut status = Status::OK;
-- 
2.43.0


From 484d4123e22d533ce12a509833f6b9bb965faad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:50 +0000
Subject: [PATCH 15/18] fix: DoubleFloat scaled above the largest number is the
 infinity alone

---
 src/ppc.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ppc.rs b/src/ppc.rs
index 093f763..06214bd 100644
--- a/src/ppc.rs
+++ b/src/ppc.rs
@@ -457,7 +457,11 @@ where
     }
 
     fn scalbn_r(self, exp: ExpInt, round: Round) -> Self {
-        DoubleFloat(self.0.scalbn_r(exp, round), self.1.scalbn_r(exp, round))
+        let hi = self.0.scalbn_r(exp, round);
+        if self.is_finite_non_zero() && !hi.is_finite() {
+            return DoubleFloat(hi, F::ZERO);
+        }
+        DoubleFloat(hi, self.1.scalbn_r(exp, round))
     }
 
     fn frexp_r(self, exp: &mut ExpInt, round: Round) -> Self {
-- 
2.43.0


From 1747d7e5e2812530533d581fdc64413e9639d9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:51 +0000
Subject: [PATCH 16/18] fix: DoubleFloat sums of zeros of opposite signs: -0 +
 +0 gave -0

---
 src/ppc.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ppc.rs b/src/ppc.rs
index 06214bd..2e39575 100644
--- a/src/ppc.rs
+++ b/src/ppc.rs
@@ -209,6 +209,9 @@ where
                 }
             }
 
+            // The sign of the sum of two zeros depends on the rounding mode.
+            (Category::Zero, Category::Zero) => self.0.add_r(rhs.0, round).map(|z| DoubleFloat(z, F::ZERO)),
+
             (_, Category::Zero) | (Category::NaN, _) | (Category::Infinity, Category::Normal) => Status::OK.and(self),
 
             (Category::Zero, _) | (_, Category::NaN) | (_, Category::Infinity) => Status::OK.and(rhs),
-- 
2.43.0


From eb76244710f44cf549da79ed1badaa22ef7d0a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:08 +0000
Subject: [PATCH 17/18] fix: DoubleFloat sums and products overflowing in
 directed rounding modes: (MAX, MAX) pairs and infinities of the wrong sign

---
 src/ppc.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/ppc.rs b/src/ppc.rs
index 2e39575..ee2c10a 100644
--- a/src/ppc.rs
+++ b/src/ppc.rs
@@ -288,6 +288,10 @@ where
                         self.1 = F::ZERO;
                         return status.and(self);
                     }
+                    // Rounded inwards, an overflowing sum stops at the largest number.
+                    if z.add_r(zz, Round::NearestTiesToEven).value.is_infinite() {
+                        return status.and(Self::largest().copy_sign(self));
+                    }
                     self.1 = z;
                     self.1 = unpack!(status|=, self.1.sub_r(self.0, round));
                     self.1 = unpack!(status|=, self.1.add_r(zz, round));
@@ -338,6 +342,10 @@ where
                 if !t.is_finite_non_zero() {
                     return status.and(DoubleFloat(t, F::ZERO));
                 }
+                // Rounded inwards, an overflowing product stops at the largest number.
+                if a.mul_r(c, Round::NearestTiesToEven).value.is_infinite() {
+                    return status.and(Self::largest().copy_sign(DoubleFloat(t, F::ZERO)));
+                }
 
                 // tau = fmsub(a, c, t), that is -fmadd(-a, c, t).
                 let mut tau = a;
@@ -358,6 +366,8 @@ where
                 self.0 = u;
                 if !u.is_finite() {
                     self.1 = F::ZERO;
+                } else if t.add_r(tau, Round::NearestTiesToEven).value.is_infinite() {
+                    self = Self::largest().copy_sign(self);
                 } else {
                     // self.1 = (t - u) + tau
                     t = unpack!(status|=, t.sub_r(u, round));
-- 
2.43.0


From b52e3c77cf6f495f5ad3641ee3474a503745187c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:05 +0000
Subject: [PATCH 18/18] fix: round printed decimals on a digit that was not
 discarded

format!("{:.1}", 9900.0) printed 9.0E+3 while 990.0 printed 1.0E+3: the
digits dropped up front could include the one the rounding looks at.
---
 src/ieee.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ieee.rs b/src/ieee.rs
index f6be887..8b436d4 100644
--- a/src/ieee.rs
+++ b/src/ieee.rs
@@ -632,9 +632,10 @@ impl<S: Semantics> fmt::Display for IeeeFloat<S> {
         let mut buffer = smallvec::SmallVec::<[u8; 64]>::new();
 
         // Ignore digits from the significand until it is no more
-        // precise than is required for the desired precision.
+        // precise than is required for the desired precision,
+        // plus one more digit, on which the rounding below decides.
         // 196/59 is a very slight overestimate of lg_2(10).
-        let required = (precision * 196 + 58) / 59;
+        let required = ((precision + 1) * 196 + 58) / 59;
         let mut discard_digits = sig::omsb(&sig).saturating_sub(required) * 59 / 196;
         let mut in_trail = true;
         while !sig.is_empty() {
-- 
2.43.0

