From efb956b3fa87e5c9b2e76a160637252aba117d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:04 +0000
Subject: [PATCH 01/26] fix: shift comparisons wider than 126 bits by 2^(n_bits
 + 1)

For n_bits > 126 the shift was 2^(n_bits + 2), so less_than and leq
never found the first operand smaller.
---
 src/btc_validation/median.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/btc_validation/median.rs b/src/btc_validation/median.rs
index 9144cb8..80d0c0f 100644
--- a/src/btc_validation/median.rs
+++ b/src/btc_validation/median.rs
@@ -123,7 +123,7 @@ where
             Scalar::from_u128(2 << n_bits) 
         } 
         else { 
-            let shift1 = Scalar::from_u128(2 << (n_bits - 126));
+            let shift1 = Scalar::from_u128(1 << (n_bits - 126));
             let mut shift2 = Scalar::from_u128(2 << 126);
             shift2.mul_assign(&shift1);
             shift2
@@ -189,7 +189,7 @@ where
             Scalar::from_u128(2 << n_bits) 
         } 
         else { 
-            let shift1 = Scalar::from_u128(2 << (n_bits - 126));
+            let shift1 = Scalar::from_u128(1 << (n_bits - 126));
             let mut shift2 = Scalar::from_u128(2 << 126);
             shift2.mul_assign(&shift1);
             shift2
-- 
2.43.0


From 9ae985a59d6d16e9ae9be73b780c5befa204847f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:49 +0000
Subject: [PATCH 02/26] fix: constrain the wires that decide less_than and leq

The shifted difference and its low bits were free witnesses, so a prover
could choose the outcome of every comparison.
---
 src/btc_validation/median.rs | 52 ++++++++++++++++++++++++++++++++++++
 1 file changed, 52 insertions(+)

diff --git a/src/btc_validation/median.rs b/src/btc_validation/median.rs
index 80d0c0f..2c36985 100644
--- a/src/btc_validation/median.rs
+++ b/src/btc_validation/median.rs
@@ -6,6 +6,7 @@ use ff::PrimeField;
 use crate::BitAccess;
 use crate::OptionExt;
 use crate::mp::bignat::BigNat;
+use crate::util::num::Num as LimbNum;
 
 pub fn compute_median_timestamp (prev_timestamps: &mut Vec<u32>) -> u32
 {
@@ -155,6 +156,17 @@ where
         Ok(summ)
     }).unwrap();
 
+    // Constrain:
+    // zero_shifted_cmp = a - b + 2^(n_bits + 1)
+    let shift = pow_of_two::<Scalar>(n_bits + 1);
+    cs.enforce(
+        || "zero_shifted_cmp = a - b + 2^(n_bits + 1)",
+        |lc| lc + a.get_variable() - b.get_variable() + (shift, CS::one()),
+        |lc| lc + CS::one(),
+        |lc| lc + zero_shifted_cmp.get_variable(),
+    );
+    constrain_low_bits(cs.namespace(|| "low bits"), &zero_shifted_cmp, &n_bit_zero_cmp, n_bits + 1)?;
+
     BigNat::equals(cs.namespace(|| "check fits in n_bits"), &zero_shifted_cmp, &n_bit_zero_cmp)
 
     // let _ = zero_shifted_cmp.fits_in_bits(cs.namespace(|| "check if fits"), n_bits + 1);
@@ -221,9 +233,49 @@ where
         Ok(summ)
     }).unwrap();
 
+    // Constrain:
+    // zero_shifted_cmp = a - b - 1 + 2^(n_bits + 1)
+    let shift = pow_of_two::<Scalar>(n_bits + 1);
+    cs.enforce(
+        || "zero_shifted_cmp = a - b - 1 + 2^(n_bits + 1)",
+        |lc| lc + a.get_variable() - b.get_variable() - CS::one() + (shift, CS::one()),
+        |lc| lc + CS::one(),
+        |lc| lc + zero_shifted_cmp.get_variable(),
+    );
+    constrain_low_bits(cs.namespace(|| "low bits leq"), &zero_shifted_cmp, &n_bit_zero_cmp, n_bits + 1)?;
+
     BigNat::equals(cs.namespace(|| "check fits in n_bits leq"), &zero_shifted_cmp, &n_bit_zero_cmp)
 }
 
+fn pow_of_two<Scalar: PrimeField>(exponent: usize) -> Scalar {
+    (0..exponent).fold(Scalar::ONE, |power, _| power.double())
+}
+
+/// Constrains `low` to be the number formed by the `n_bits` low-order bits of `num`,
+/// where `num` has at most one more bit.
+fn constrain_low_bits<Scalar, CS>(
+    mut cs: CS,
+    num: &AllocatedNum<Scalar>,
+    low: &AllocatedNum<Scalar>,
+    n_bits: usize,
+) -> Result<(), SynthesisError>
+where
+    Scalar: PrimeField,
+    CS: ConstraintSystem<Scalar>,
+{
+    LimbNum::from(low.clone()).fits_in_bits(cs.namespace(|| "range"), n_bits)?;
+
+    // Constrain:
+    // num - low is 0 or 2^n_bits
+    cs.enforce(
+        || "num - low is 0 or 2^n_bits",
+        |lc| lc + num.get_variable() - low.get_variable(),
+        |lc| lc + num.get_variable() - low.get_variable() - (pow_of_two::<Scalar>(n_bits), CS::one()),
+        |lc| lc,
+    );
+    Ok(())
+}
+
 #[cfg(test)]
 mod tests {
     use crate::btc_validation::median::*;
-- 
2.43.0


From 090487ff576d77734ed9a8593f194396d333c446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:20 +0000
Subject: [PATCH 03/26] fix: decide the sign of the median rank difference
 against zero

---
 src/btc_validation/median.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/btc_validation/median.rs b/src/btc_validation/median.rs
index 2c36985..7ca2ca4 100644
--- a/src/btc_validation/median.rs
+++ b/src/btc_validation/median.rs
@@ -70,8 +70,8 @@ CS: ConstraintSystem<Scalar>,
         sign_diff = sign_diff.add(cs.namespace(|| format!("sign_diff increment {}", i)), &delta_sign).unwrap();
     }
     // absolute value of sign_diff needs to be obtained
-    let const_12 = AllocatedNum::alloc(cs.namespace(|| "max positive sign_diff"), || Ok(Scalar::from(12u64))).unwrap();
-    let is_positive = less_than(cs.namespace(|| "is_pos"), &sign_diff, &const_12, 32usize).unwrap();
+    let const_0 = AllocatedNum::alloc(cs.namespace(|| "zero"), || Ok(Scalar::ZERO)).unwrap();
+    let is_negative = less_than(cs.namespace(|| "is_neg"), &sign_diff, &const_0, 32usize).unwrap();
     let neg_sign_diff = AllocatedNum::alloc(cs.namespace(|| "Negative of sign_diff"), || {
         let sign_val = sign_diff.get_value().unwrap();
         let mut zero_val = Scalar::ZERO;
@@ -87,7 +87,7 @@ CS: ConstraintSystem<Scalar>,
         |lc| lc,
     );
 
-    let (abs_sign_diff, _dummy) = AllocatedNum::conditionally_reverse(cs.namespace(|| "absolute value"), &sign_diff, &neg_sign_diff, &is_positive).unwrap();
+    let (abs_sign_diff, _dummy) = AllocatedNum::conditionally_reverse(cs.namespace(|| "absolute value"), &sign_diff, &neg_sign_diff, &is_negative).unwrap();
 
     let const_1 = AllocatedNum::alloc(cs.namespace(|| "increment by 1"), || Ok(Scalar::ONE)).unwrap();
     let lhs = abs_sign_diff.add(cs.namespace(|| "LHS of inequality"), &const_1).unwrap();
-- 
2.43.0


From 07781102cab9a1f3abb9a60ae52de6cffc79a610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:25 +0000
Subject: [PATCH 04/26] fix: range check the limbs of a difference

---
 src/mp/bignat.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index 18105c6..ec6594a 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -884,6 +884,7 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
             self.params.limb_width,
             self.params.n_limbs,
         )?;
+        diff.assert_well_formed(cs.namespace(|| "rangecheck"))?;
         let sum = other.add::<CS>(&diff)?;
         self.equal_when_carried_regroup(cs.namespace(|| "eq"), &sum)?;
         Ok(diff)
-- 
2.43.0


From 1a85924c9bac37a6afc4302e5141e8e034ee35ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:25 +0000
Subject: [PATCH 05/26] fix: compare the two outcomes when taking the minimum

---
 src/mp/bignat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index ec6594a..4edfce5 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -978,7 +978,7 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
                 .and_then(|s| other.value.as_ref().map(|o| o < s)),
         )?;
         let (lesser, greater) = Gadget::switch(cs.namespace(|| "switch"), &select, self, other)?;
-        let _diff = greater.sub(cs.namespace(|| "difference"), other)?;
+        let _diff = greater.sub(cs.namespace(|| "difference"), &lesser)?;
         Ok(lesser)
     }
 
-- 
2.43.0


From 696604a228facf0580f1dee4463dad0808a22400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:25 +0000
Subject: [PATCH 06/26] fix: drop the minimum size claim when limbs are
 truncated

---
 src/mp/bignat.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index 4edfce5..0634964 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -684,9 +684,8 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
                 }
             }
             new.params.n_limbs = n_limbs;
-            if new.params.min_bits > new.params.n_limbs * new.params.limb_width {
-                new.params.min_bits = 0;
-            }
+            // the limbs that made the number long may be gone
+            new.params.min_bits = 0;
         }
         new
     }
-- 
2.43.0


From 9f7923b8cbbe2c6f111cac8e4dd3f32a3cceba05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:25 +0000
Subject: [PATCH 07/26] fix: select limbs as they are and keep their declared
 bounds

---
 src/mp/bignat.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index 0634964..8c858bf 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -1328,20 +1328,17 @@ impl<Scalar: PrimeField> Gadget for BigNat<Scalar> {
             eprintln!("Wire mis-match in BigNat mux");
             return Err(SynthesisError::Unsatisfiable);
         }
-        let value: Option<&Self::Value> = s
+        let limb_values = s
             .value
-            .and_then(|b| if b { i1.value() } else { i0.value() });
-        let out: Self = Self::alloc(
+            .and_then(|b| if b { i1.wire_values() } else { i0.wire_values() });
+        let mut out = Self::alloc_from_limbs(
             cs.namespace(|| "out"),
-            value,
-            (),
-            &BigNatParams {
-                min_bits: min(i0.params.min_bits, i1.params.min_bits),
-                max_word: max(i0.params.max_word.clone(), i1.params.max_word.clone()),
-                limb_width: i0.params.limb_width,
-                n_limbs: i0.params.n_limbs,
-            },
+            || Ok(limb_values.grab()?.clone()),
+            Some(max(i0.params.max_word.clone(), i1.params.max_word.clone())),
+            i0.params.limb_width,
+            i0.params.n_limbs,
         )?;
+        out.params.min_bits = min(i0.params.min_bits, i1.params.min_bits);
         let out_wires = out.wires();
         for (i, ((i0w, i1w), out_w)) in i0_wires
             .into_iter()
-- 
2.43.0


From 2ba53bb9d0bafd820e5f38d2022a25bbd9d83677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:25 +0000
Subject: [PATCH 08/26] fix: convert all machine-sized field elements to usize

---
 src/util/convert.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/util/convert.rs b/src/util/convert.rs
index c398734..cbbdfd7 100644
--- a/src/util/convert.rs
+++ b/src/util/convert.rs
@@ -35,8 +35,12 @@ pub fn usize_to_f<Scalar: PrimeField>(n: usize) -> Scalar {
 /// Panics if the field is too small.
 pub fn f_to_usize<Scalar: PrimeField>(n: &Scalar) -> usize {
     let s = n.to_repr();
-    assert!(s.as_ref().iter().skip(1).all(|v| *v == 0));
-    s.as_ref()[0] as usize
+    assert!(s.as_ref().iter().skip(8).all(|v| *v == 0));
+    s.as_ref()
+        .iter()
+        .take(8)
+        .rev()
+        .fold(0, |acc, v| acc << 8 | *v as usize)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 402bbe1372dfc8c5a5eda8780643956d866de67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:25 +0000
Subject: [PATCH 09/26] fix: a number scaled by zero has no minimum size

---
 src/mp/bignat.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index 8c858bf..addf124 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -863,6 +863,9 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
         if let Some(v) = new.value.as_mut() {
             *v *= f_to_nat(&constant);
         }
+        if constant.is_zero().into() {
+            new.params.min_bits = 0;
+        }
         new.params.max_word *= f_to_nat(&constant);
         assert!(new.params.max_word <= (BigInt::from(1) << Scalar::CAPACITY));
         new
-- 
2.43.0


From 44934c6a666499c3cfd96ef12bc0fa510846c412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:31 +0000
Subject: [PATCH 10/26] fix: make room for the largest carry when comparing
 numbers

---
 src/mp/bignat.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index addf124..1f9c4fd 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -5,7 +5,6 @@ use bellpepper_core::{ConstraintSystem, LinearCombination, SynthesisError};
 use ff::PrimeField;
 use num_bigint::BigInt;
 use num_integer::Integer;
-use num_traits::cast::ToPrimitive;
 
 use std::borrow::Borrow;
 use std::cmp::{max, min, Ordering};
@@ -42,6 +41,13 @@ fn int_with_n_ones(n: usize) -> BigInt {
     m
 }
 
+/// The number of bits of the largest carry between limbs of `limb_width` bits when two numbers with
+/// words up to `max_word` are compared: each carry is at most `(2 * max_word + carry) >> limb_width`.
+fn carry_bits(max_word: &BigInt, limb_width: usize) -> usize {
+    let max_carry: BigInt = (BigInt::from(2) * max_word - 1u8) / int_with_n_ones(limb_width);
+    max_carry.bits() as usize
+}
+
 /// Compute the limbs encoding a natural number.
 /// The limbs are assumed to be based the `limb_width` power of 2.
 pub fn nat_to_limbs<'a, Scalar: PrimeField>(
@@ -720,9 +726,7 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
         let target_base = BigInt::from(1u8) << self.params.limb_width as u32;
         let mut accumulated_extra = BigInt::from(0usize);
         let max_word = std::cmp::max(&self.params.max_word, &other.params.max_word);
-        let carry_bits =
-            (((max_word.to_f64().unwrap() * 2.0).log2() - self.params.limb_width as f64).ceil()
-                + 0.1) as usize;
+        let carry_bits = carry_bits(max_word, self.params.limb_width);
         let mut carry_in = Num::new(Some(Scalar::ZERO), LinearCombination::zero());
 
         for i in 0..n {
@@ -797,9 +801,7 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
     ) -> Result<(), SynthesisError> {
         self.enforce_limb_width_agreement(other, "equal_when_carried_regroup")?;
         let max_word = std::cmp::max(&self.params.max_word, &other.params.max_word);
-        let carry_bits =
-            (((max_word.to_f64().unwrap() * 2.0).log2() - self.params.limb_width as f64).ceil()
-                + 0.1) as usize;
+        let carry_bits = carry_bits(max_word, self.params.limb_width);
         let limbs_per_group = (Scalar::CAPACITY as usize - carry_bits) / self.params.limb_width;
         let self_grouped = self.group_limbs(limbs_per_group);
         let other_grouped = other.group_limbs(limbs_per_group);
-- 
2.43.0


From c1c7279a47a50e09259904b8284947ee5b1a175d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:15 +0000
Subject: [PATCH 11/26] fix: carry into the limbs that only the longer number
 has

---
 src/mp/bignat.rs | 32 ++++++++++----------------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index 1f9c4fd..8ffc77a 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -721,8 +721,12 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
     ) -> Result<(), SynthesisError> {
         self.enforce_limb_width_agreement(other, "equal_when_carried")?;
 
-        // We'll propegate carries over the first `n` limbs.
-        let n = min(self.limbs.len(), other.limbs.len());
+        // We'll propegate carries over all limbs, the missing limbs of the shorter number being zero.
+        let n = max(self.limbs.len(), other.limbs.len());
+        let no_limb = LinearCombination::zero();
+        let limb_nat = |values: &Option<Vec<Scalar>>, i: usize| -> Result<BigInt, SynthesisError> {
+            Ok(values.grab()?.get(i).map_or(BigInt::from(0), f_to_nat))
+        };
         let target_base = BigInt::from(1u8) << self.params.limb_width as u32;
         let mut accumulated_extra = BigInt::from(0usize);
         let max_word = std::cmp::max(&self.params.max_word, &other.params.max_word);
@@ -732,10 +736,10 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
         for i in 0..n {
             let carry = Num::alloc(cs.namespace(|| format!("carry value {}", i)), || {
                 Ok(nat_to_f(
-                    &((f_to_nat(&self.limb_values.grab()?[i])
+                    &((limb_nat(&self.limb_values, i)?
                         + f_to_nat(&carry_in.value.unwrap())
                         + max_word
-                        - f_to_nat(&other.limb_values.grab()?[i]))
+                        - limb_nat(&other.limb_values, i)?)
                         / &target_base),
                 )
                 .unwrap())
@@ -747,7 +751,8 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
                 |lc| lc,
                 |lc| lc,
                 |lc| {
-                    lc + &carry_in.num + &self.limbs[i] - &other.limbs[i]
+                    lc + &carry_in.num + self.limbs.get(i).unwrap_or(&no_limb)
+                        - other.limbs.get(i).unwrap_or(&no_limb)
                         + (nat_to_f(&max_word).unwrap(), CS::one())
                         - (nat_to_f(&target_base).unwrap(), &carry.num)
                         - (
@@ -771,23 +776,6 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
             }
             carry_in = Num::from(carry);
         }
-
-        for (i, zero_limb) in self.limbs.iter().enumerate().skip(n) {
-            cs.enforce(
-                || format!("zero self {}", i),
-                |lc| lc,
-                |lc| lc,
-                |lc| lc + zero_limb,
-            );
-        }
-        for (i, zero_limb) in other.limbs.iter().enumerate().skip(n) {
-            cs.enforce(
-                || format!("zero other {}", i),
-                |lc| lc,
-                |lc| lc,
-                |lc| lc + zero_limb,
-            );
-        }
         Ok(())
     }
 
-- 
2.43.0


From c335fa5f4031b47fccd09ebeeb6f7d1b63b8f983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:43 +0000
Subject: [PATCH 12/26] fix: tie the verdict on a median to the comparisons it
 is made of

The signs of the rank difference were computed from copies of the comparison results
that no constraint tied to them, and the constants and the number of occurrences were
free wires as well, so that a prover could have any claimed median accepted.
---
 src/btc_validation/median.rs | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/btc_validation/median.rs b/src/btc_validation/median.rs
index 7ca2ca4..c605624 100644
--- a/src/btc_validation/median.rs
+++ b/src/btc_validation/median.rs
@@ -1,4 +1,3 @@
-use bellpepper::gadgets::boolean::AllocatedBit;
 use bellpepper::gadgets::boolean::Boolean;
 use bellpepper_core::{ConstraintSystem, SynthesisError};
 use bellpepper::gadgets::num::{AllocatedNum, Num};
@@ -30,6 +29,7 @@ CS: ConstraintSystem<Scalar>,
 
     let mut n_median_occurrences = Num::zero();
     let mut sign_diff = AllocatedNum::alloc(cs.namespace(|| "sign_diff"), || Ok(Scalar::from(0u64))).unwrap();
+    enforce_value(cs.namespace(|| "sign_diff starts at 0"), &sign_diff, &Num::zero());
 
     for (i, fe_time) in fe_timestamps.iter().enumerate() {
         // n_median_occurrences += 1 if median == timestamp else no change
@@ -55,14 +55,12 @@ CS: ConstraintSystem<Scalar>,
             // Ok(Scalar::from(signum))
         }).unwrap();
         
-        let eq_bit = AllocatedBit::alloc(cs.namespace(|| format!("equality {}", i)), Some(res_eq.get_value().unwrap())).unwrap();
-        let lt_bit_mul2 = AllocatedNum::alloc(cs.namespace(|| format!("less than {}", i)), || Ok(Scalar::from(2*(res_lt.get_value().unwrap() as u64)))).unwrap();
         // Constrain:
         // (1 - res_eq) * (1 - 2 * res_lt) == delta_sign
         cs.enforce(
             || format!("(1 - res_eq) * (1 - 2 * res_lt) == delta_sign {}", i),
-            |lc| lc + CS::one() - eq_bit.get_variable(),
-            |lc| lc + CS::one() - lt_bit_mul2.get_variable(),
+            |lc| lc + CS::one() - &res_eq.lc(CS::one(), Scalar::ONE),
+            |lc| lc + CS::one() - &res_lt.lc(CS::one(), Scalar::ONE.double()),
             |lc| lc + delta_sign.get_variable(),
         );
 
@@ -71,6 +69,7 @@ CS: ConstraintSystem<Scalar>,
     }
     // absolute value of sign_diff needs to be obtained
     let const_0 = AllocatedNum::alloc(cs.namespace(|| "zero"), || Ok(Scalar::ZERO)).unwrap();
+    enforce_value(cs.namespace(|| "zero is 0"), &const_0, &Num::zero());
     let is_negative = less_than(cs.namespace(|| "is_neg"), &sign_diff, &const_0, 32usize).unwrap();
     let neg_sign_diff = AllocatedNum::alloc(cs.namespace(|| "Negative of sign_diff"), || {
         let sign_val = sign_diff.get_value().unwrap();
@@ -90,10 +89,13 @@ CS: ConstraintSystem<Scalar>,
     let (abs_sign_diff, _dummy) = AllocatedNum::conditionally_reverse(cs.namespace(|| "absolute value"), &sign_diff, &neg_sign_diff, &is_negative).unwrap();
 
     let const_1 = AllocatedNum::alloc(cs.namespace(|| "increment by 1"), || Ok(Scalar::ONE)).unwrap();
+    let one = Num::zero().add_bool_with_coeff(CS::one(), &Boolean::constant(true), Scalar::ONE);
+    enforce_value(cs.namespace(|| "increment is 1"), &const_1, &one);
     let lhs = abs_sign_diff.add(cs.namespace(|| "LHS of inequality"), &const_1).unwrap();
     // lhs = abs(sign_diff) + 1
 
     let fe_median_occ = AllocatedNum::alloc(cs.namespace(|| "fe_median"), || Ok(n_median_occurrences.get_value().unwrap())).unwrap();
+    enforce_value(cs.namespace(|| "fe_median counts the occurrences"), &fe_median_occ, &n_median_occurrences);
 
     // let r_eq = BigNat::equals(cs.namespace(|| "verify median"), &lhs, &fe_median_occ).unwrap();
     // let r_lt = less_than(cs.namespace(|| "lt"), &lhs, &fe_median_occ, 5).unwrap();
@@ -247,6 +249,20 @@ where
     BigNat::equals(cs.namespace(|| "check fits in n_bits leq"), &zero_shifted_cmp, &n_bit_zero_cmp)
 }
 
+/// Constrains `num` to have the value of `value`.
+fn enforce_value<Scalar, CS>(mut cs: CS, num: &AllocatedNum<Scalar>, value: &Num<Scalar>)
+where
+    Scalar: PrimeField,
+    CS: ConstraintSystem<Scalar>,
+{
+    cs.enforce(
+        || "num == value",
+        |lc| lc + num.get_variable() - &value.lc(Scalar::ONE),
+        |lc| lc + CS::one(),
+        |lc| lc,
+    );
+}
+
 fn pow_of_two<Scalar: PrimeField>(exponent: usize) -> Scalar {
     (0..exponent).fold(Scalar::ONE, |power, _| power.double())
 }
-- 
2.43.0


From 67e0d2adfab9946f04e475dd730b7e8c0cc7d668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:01 +0000
Subject: [PATCH 13/26] fix: bind the retargeted difficulty to its inputs

The timespan that was compared with its bounds, the bounds and the two weeks were wires
that nothing tied to their values, the outcome of the comparisons was only asserted by the
prover, the remainder of the division was not kept below the divisor and the limbs of the
previous target could also hold the target plus the field modulus. Any of these let a prover
have a target accepted that is not the retarget of the previous one.
---
 src/btc_validation/difficulty_update.rs | 66 ++++++++++++++++++-------
 1 file changed, 49 insertions(+), 17 deletions(-)

diff --git a/src/btc_validation/difficulty_update.rs b/src/btc_validation/difficulty_update.rs
index 0980200..895c2fd 100644
--- a/src/btc_validation/difficulty_update.rs
+++ b/src/btc_validation/difficulty_update.rs
@@ -1,4 +1,5 @@
-use bellpepper_core::{ConstraintSystem, SynthesisError};
+use bellpepper_core::{ConstraintSystem, LinearCombination, SynthesisError};
+use bellpepper::gadgets::boolean::Boolean;
 use bellpepper::gadgets::num::AllocatedNum;
 use ff::PrimeField;
 use crate::btc_validation::median;
@@ -19,6 +20,7 @@ Scalar: PrimeField,
 CS: ConstraintSystem<Scalar>,
 {
     let t_sum_num = num::Num::alloc(cs.namespace(|| "Sum of 2016 blocks timestamps"), || Ok(Scalar::from(sum_timestamps as u64))).unwrap();
+    let fe_t_sum = t_sum_num.as_sapling_allocated_num(cs.namespace(|| "Timestamps sum")).unwrap();
     let t_sum = BigNat::from_num(cs.namespace(|| "BigNat t_sum"), t_sum_num, 64usize, 2usize).unwrap();
 
     let target_upper = num::Num::alloc(cs.namespace(|| "Most significant 128 bits of target"), || Ok(Scalar::from_u128(current_target_u))).unwrap();
@@ -37,14 +39,15 @@ CS: ConstraintSystem<Scalar>,
 
     // To verify if T_old / 4 < T_new < 4 * T_old
     // is the same as verifying 2016 * 10 * 60 / 4 < t_sum < 2016 * 10 * 60 * 4
-    let fe_t_sum = AllocatedNum::alloc(cs.namespace(|| "Timestamps sum"), || Ok(Scalar::from(sum_timestamps as u64))).unwrap();
 
-    let t_sum_lower = AllocatedNum::alloc(cs.namespace(|| "Lower acceptable t_sum"), || Ok(Scalar::from(2016 * 10 * 60 / 4 as u64))).unwrap();
-    let t_sum_upper = AllocatedNum::alloc(cs.namespace(|| "Upper acceptable t_sum"), || Ok(Scalar::from(2016 * 10 * 60 * 4 as u64))).unwrap();
+    let t_sum_lower = constant::<Scalar, CS>(2016 * 10 * 60 / 4).as_sapling_allocated_num(cs.namespace(|| "Lower acceptable t_sum")).unwrap();
+    let t_sum_upper = constant::<Scalar, CS>(2016 * 10 * 60 * 4).as_sapling_allocated_num(cs.namespace(|| "Upper acceptable t_sum")).unwrap();
 
-    let res_lower = median::less_than(cs.namespace(|| "res_lower"), &t_sum_lower, &fe_t_sum, 32).unwrap().get_value().unwrap();
-    let res_upper = median::less_than(cs.namespace(|| "res_upper"), &fe_t_sum, &t_sum_upper, 32).unwrap().get_value().unwrap();
-    assert!(res_lower & res_upper);
+    let res_lower = median::less_than(cs.namespace(|| "res_lower"), &t_sum_lower, &fe_t_sum, 32).unwrap();
+    let res_upper = median::less_than(cs.namespace(|| "res_upper"), &fe_t_sum, &t_sum_upper, 32).unwrap();
+    assert!(res_lower.get_value().unwrap() & res_upper.get_value().unwrap());
+    Boolean::enforce_equal(cs.namespace(|| "above the lower bound"), &res_lower, &Boolean::constant(true)).unwrap();
+    Boolean::enforce_equal(cs.namespace(|| "below the upper bound"), &res_upper, &Boolean::constant(true)).unwrap();
     
     // // To verify if T_new * 2016 * 10 * 60 == t_sum * T_old
     // let t_ideal_sum = num::Num::alloc(cs.namespace(|| "2016 * 10 * 60"), || Ok(Scalar::from(2016 * 10 * 60 as u64))).unwrap();
@@ -54,10 +57,11 @@ CS: ConstraintSystem<Scalar>,
     // let rhs = prev_target.mult(cs.namespace(|| "T_old * t_sum"), &t_sum).unwrap();
 
     // lhs.equal(cs.namespace(|| "difficulty update verified"), &rhs).unwrap()
-    let t_ideal_sum = num::Num::alloc(cs.namespace(|| "2016 * 10 * 60"), || Ok(Scalar::from(2016 * 10 * 60 as u64))).unwrap();
-    let t_2016_10_60 = BigNat::from_num(cs.namespace(|| "BigNat t_ideal_sum"), t_ideal_sum, 64usize, 2usize).unwrap();
+    let t_ideal_sum = constant::<Scalar, CS>(2016 * 10 * 60);
+    let t_2016_10_60 = BigNat::from_num(cs.namespace(|| "BigNat t_ideal_sum"), t_ideal_sum, 64usize, 1usize).unwrap();
     
-    let (t_new, _t) =  prev_target.mult_mod(cs.namespace(|| "T_new compute"), &t_sum, &t_2016_10_60).unwrap();
+    let (t_new, rem) =  prev_target.mult_mod(cs.namespace(|| "T_new compute"), &t_sum, &t_2016_10_60).unwrap();
+    enforce_remainder(cs.namespace(|| "remainder below 2016 * 10 * 60"), &rem).unwrap();
     target.equal(cs.namespace(|| "computation equal to next target"), &t_new).unwrap()
 }
 
@@ -75,23 +79,28 @@ CS: ConstraintSystem<Scalar>,
 
     let prev_tar = num::Num::from((*prev_target).clone());
     let prev_targ = BigNat::from_num(cs.namespace(|| "BigNat previous target"), prev_tar, 64usize, 4usize).unwrap();
+    // Four limbs can also hold the target plus the field modulus: keep them below 2^254
+    prev_targ.as_limbs::<CS>()[3].fits_in_bits(cs.namespace(|| "previous target below 2^254"), 62)?;
 
     // let target = num::Num::from(*curr_target);
     // let _bignat_tar = BigNat::from_num(cs.namespace(|| "BigNat curr_target"), target, 64usize, 2usize).unwrap();
 
     // To verify if T_old / 4 < T_new < 4 * T_old
     // is the same as verifying 2016 * 10 * 60 / 4 < t_sum < 2016 * 10 * 60 * 4
-    let t_sum_lower = AllocatedNum::alloc(cs.namespace(|| "Lower acceptable t sum"), || Ok(Scalar::from(2016 * 10 * 60 / 4 as u64))).unwrap();
-    let t_sum_upper = AllocatedNum::alloc(cs.namespace(|| "Upper acceptable t sum"), || Ok(Scalar::from(2016 * 10 * 60 * 4 as u64))).unwrap();
+    let t_sum_lower = constant::<Scalar, CS>(2016 * 10 * 60 / 4).as_sapling_allocated_num(cs.namespace(|| "Lower acceptable t sum")).unwrap();
+    let t_sum_upper = constant::<Scalar, CS>(2016 * 10 * 60 * 4).as_sapling_allocated_num(cs.namespace(|| "Upper acceptable t sum")).unwrap();
 
-    let res_lower = median::less_than(cs.namespace(|| "res lower"), &t_sum_lower, sum_timestamps, 32).unwrap().get_value().unwrap();
-    let res_upper = median::less_than(cs.namespace(|| "res upper"), sum_timestamps, &t_sum_upper, 32).unwrap().get_value().unwrap();
-    assert!(res_lower & res_upper);
+    let res_lower = median::less_than(cs.namespace(|| "res lower"), &t_sum_lower, sum_timestamps, 32).unwrap();
+    let res_upper = median::less_than(cs.namespace(|| "res upper"), sum_timestamps, &t_sum_upper, 32).unwrap();
+    assert!(res_lower.get_value().unwrap() & res_upper.get_value().unwrap());
+    Boolean::enforce_equal(cs.namespace(|| "above the lower bound"), &res_lower, &Boolean::constant(true)).unwrap();
+    Boolean::enforce_equal(cs.namespace(|| "below the upper bound"), &res_upper, &Boolean::constant(true)).unwrap();
 
-    let t_ideal_sum = num::Num::alloc(cs.namespace(|| "2016 * 10 * 60 or 2 weeks"), || Ok(Scalar::from(2016 * 10 * 60 as u64))).unwrap();
+    let t_ideal_sum = constant::<Scalar, CS>(2016 * 10 * 60);
     let t_2016_10_60 = BigNat::from_num(cs.namespace(|| "BigNat t ideal sum"), t_ideal_sum, 128usize, 1usize).unwrap();
     
-    let (t_new, _t) =  prev_targ.mult_mod(cs.namespace(|| "T new compute"), &t_sum, &t_2016_10_60).unwrap();
+    let (t_new, rem) =  prev_targ.mult_mod(cs.namespace(|| "T new compute"), &t_sum, &t_2016_10_60).unwrap();
+    enforce_remainder(cs.namespace(|| "remainder below 2016 * 10 * 60"), &rem)?;
     // let target_num = Polynomial::from(t_new);
     // let _new_target = AllocatedNum::alloc(cs.namespace(|| "Updated target calculated"), || {
     //     let target_value = t_new.value.unwrap();
@@ -112,6 +121,29 @@ CS: ConstraintSystem<Scalar>,
     Ok(t_new)
 }
 
+/// A number that is the same in every assignment.
+fn constant<Scalar, CS>(value: u64) -> num::Num<Scalar>
+where
+Scalar: PrimeField,
+CS: ConstraintSystem<Scalar>,
+{
+    let value = Scalar::from(value);
+    num::Num::new(Some(value), LinearCombination::from_coeff(CS::one(), value))
+}
+
+/// Constrains the remainder of a division by two weeks to be smaller than two weeks,
+/// without which the quotient would not be unique.
+fn enforce_remainder<Scalar, CS>(mut cs: CS, rem: &BigNat<Scalar>) -> Result<(), SynthesisError>
+where
+Scalar: PrimeField,
+CS: ConstraintSystem<Scalar>,
+{
+    let rem = rem.as_limbs::<CS>().swap_remove(0).as_sapling_allocated_num(cs.namespace(|| "remainder"))?;
+    let two_weeks = constant::<Scalar, CS>(2016 * 10 * 60).as_sapling_allocated_num(cs.namespace(|| "2 weeks"))?;
+    let in_range = median::less_than(cs.namespace(|| "in range"), &rem, &two_weeks, 64)?;
+    Boolean::enforce_equal(cs.namespace(|| "is in range"), &in_range, &Boolean::constant(true))
+}
+
 #[cfg(test)]
 mod tests {
     use std::ops::{AddAssign, MulAssign};
-- 
2.43.0


From bf524c2a9b614dbf766373664ae7cf6c7b342040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:39 +0000
Subject: [PATCH 14/26] fix: the quotient of a modular product may be one bit
 longer than the declared sizes suggest

---
 src/mp/bignat.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index 8ffc77a..b35ea1e 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -1066,7 +1066,7 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
         self.enforce_limb_width_agreement(other, "mult_mod")?;
         let limb_width = self.params.limb_width;
         let quotient_bits =
-            (self.n_bits() + other.n_bits()).saturating_sub(modulus.params.min_bits);
+            (self.n_bits() + other.n_bits()).saturating_sub(modulus.params.min_bits.saturating_sub(1));
         let quotient_limbs = quotient_bits.saturating_sub(1) / limb_width + 1;
         let quotient = BigNat::alloc_from_nat(
             cs.namespace(|| "quotient"),
@@ -1136,7 +1136,7 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
     ) -> Result<BigNat<Scalar>, SynthesisError> {
         self.enforce_limb_width_agreement(modulus, "red_mod")?;
         let limb_width = self.params.limb_width;
-        let quotient_bits = self.n_bits().saturating_sub(modulus.params.min_bits);
+        let quotient_bits = self.n_bits().saturating_sub(modulus.params.min_bits.saturating_sub(1));
         let quotient_limbs = quotient_bits.saturating_sub(1) / limb_width + 1;
         let quotient = BigNat::alloc_from_nat(
             cs.namespace(|| "quotient"),
-- 
2.43.0


From 0b5b23cc61b619581ceeb2783030ab02bc15fde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:05 +0000
Subject: [PATCH 15/26] fix: the bit length of a number with loose limbs counts
 the overlap of its limbs

---
 src/mp/bignat.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index b35ea1e..46982cc 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -1267,7 +1267,10 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
 
     pub fn n_bits(&self) -> usize {
         assert!(self.params.n_limbs > 0);
-        self.params.limb_width * (self.params.n_limbs - 1) + self.params.max_word.bits() as usize
+        // every limb may be as large as `max_word`, so the limbs may overlap
+        let w = self.params.limb_width;
+        let ones: BigInt = (0..self.params.n_limbs).fold(BigInt::from(0), |x, _| (x << w) + 1);
+        (ones * &self.params.max_word).bits() as usize
     }
 }
 
-- 
2.43.0


From 23c5ec03cfb869b499b345e37139dad4df56aab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:16 +0000
Subject: [PATCH 16/26] fix: difficulty circuits can be synthesised without a
 witness

---
 src/btc_validation/difficulty_update.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/btc_validation/difficulty_update.rs b/src/btc_validation/difficulty_update.rs
index 895c2fd..36e5716 100644
--- a/src/btc_validation/difficulty_update.rs
+++ b/src/btc_validation/difficulty_update.rs
@@ -45,7 +45,7 @@ CS: ConstraintSystem<Scalar>,
 
     let res_lower = median::less_than(cs.namespace(|| "res_lower"), &t_sum_lower, &fe_t_sum, 32).unwrap();
     let res_upper = median::less_than(cs.namespace(|| "res_upper"), &fe_t_sum, &t_sum_upper, 32).unwrap();
-    assert!(res_lower.get_value().unwrap() & res_upper.get_value().unwrap());
+    assert!(res_lower.get_value().unwrap_or(true) & res_upper.get_value().unwrap_or(true));
     Boolean::enforce_equal(cs.namespace(|| "above the lower bound"), &res_lower, &Boolean::constant(true)).unwrap();
     Boolean::enforce_equal(cs.namespace(|| "below the upper bound"), &res_upper, &Boolean::constant(true)).unwrap();
     
@@ -92,7 +92,7 @@ CS: ConstraintSystem<Scalar>,
 
     let res_lower = median::less_than(cs.namespace(|| "res lower"), &t_sum_lower, sum_timestamps, 32).unwrap();
     let res_upper = median::less_than(cs.namespace(|| "res upper"), sum_timestamps, &t_sum_upper, 32).unwrap();
-    assert!(res_lower.get_value().unwrap() & res_upper.get_value().unwrap());
+    assert!(res_lower.get_value().unwrap_or(true) & res_upper.get_value().unwrap_or(true));
     Boolean::enforce_equal(cs.namespace(|| "above the lower bound"), &res_lower, &Boolean::constant(true)).unwrap();
     Boolean::enforce_equal(cs.namespace(|| "below the upper bound"), &res_upper, &Boolean::constant(true)).unwrap();
 
-- 
2.43.0


From b8e24018b4e6585e59e9d3d917639d512ac34b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:29 +0000
Subject: [PATCH 17/26] fix: the header step collects its outputs instead of
 indexing an empty vector

the header step panicked on every header: it wrote its outputs into an empty vector
---
 src/btc_validation/header_step.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/btc_validation/header_step.rs b/src/btc_validation/header_step.rs
index eaf1bef..ea8ed91 100644
--- a/src/btc_validation/header_step.rs
+++ b/src/btc_validation/header_step.rs
@@ -407,7 +407,7 @@ where
         //
         // If the counter i.e z_i[14] == 2015, then z_out[14] = 0. Else, z_out[14] = z_i[14] + 1.
         let mut z_out: Vec<AllocatedNum<F>> = Vec::new();
-        z_out[0] = curr_hash.clone();
+        z_out.push(curr_hash.clone());
         cs.enforce(
             || "current SHA256d hash out", 
             |lc| lc,
@@ -417,7 +417,7 @@ where
 
         
         for i in 1..=10 {
-            z_out[i] = z_i[i+1].clone();
+            z_out.push(z_i[i+1].clone());
 
             cs.enforce(
                 || format!("timestamp out {}", i), 
@@ -427,7 +427,7 @@ where
             );
         }
 
-        z_out[11] = curr_timestamp.clone();
+        z_out.push(curr_timestamp.clone());
         cs.enforce(
             || "current timestamp out", 
             |lc| lc,
@@ -435,7 +435,7 @@ where
             |lc| lc + z_out[11].get_variable() - curr_timestamp.get_variable(),
         );
 
-        z_out[12] = target.clone();
+        z_out.push(target.clone());
         cs.enforce(
             || "current target out", 
             |lc| lc,
@@ -443,7 +443,7 @@ where
             |lc| lc + z_out[12].get_variable() - target.get_variable(),
         );
 
-        z_out[13] = start_time_epoch.clone();
+        z_out.push(start_time_epoch.clone());
         cs.enforce(
             || "current start time epoch out", 
             |lc| lc,
@@ -451,12 +451,12 @@ where
             |lc| lc + z_out[13].get_variable() - start_time_epoch.get_variable(),
         );
 
-        z_out[14] = AllocatedNum::alloc(cs.namespace(|| "target counter"), || {
+        z_out.push(AllocatedNum::alloc(cs.namespace(|| "target counter"), || {
             let mut prev_ctr = z_i[14].get_value().unwrap();
 
             prev_ctr.add_assign(F::ONE);
             Ok(prev_ctr)
-        }).unwrap();
+        }).unwrap());
 
         cs.enforce(
             || "z_out[14] = z_i[14] + 1", 
@@ -466,13 +466,13 @@ where
         );
 
         // total work
-        z_out[15] = AllocatedNum::alloc(cs.namespace(|| "total work"), || {
+        z_out.push(AllocatedNum::alloc(cs.namespace(|| "total work"), || {
             let prev_total = z_i[15].get_value().unwrap();
             let mut curr_work = block_work.get_value().unwrap();
 
             curr_work.add_assign(&prev_total);
             Ok(curr_work)
-        }).unwrap();
+        }).unwrap());
 
         cs.enforce(
             || "z_out[15] = z_i[15] + block_work", 
-- 
2.43.0


From 1424dfad03f008b8fa8d82716a6d518ae1356ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:39 +0000
Subject: [PATCH 18/26] fix: tie the hashes of the header step to the hashed
 bits

the wires of the previous and the current hash were not tied to the bits that are hashed: any hash could be claimed; the header bits were allocated twice
---
 src/btc_validation/header_step.rs | 106 ++++++++++++++----------------
 1 file changed, 49 insertions(+), 57 deletions(-)

diff --git a/src/btc_validation/header_step.rs b/src/btc_validation/header_step.rs
index ea8ed91..1222bcc 100644
--- a/src/btc_validation/header_step.rs
+++ b/src/btc_validation/header_step.rs
@@ -4,7 +4,7 @@ use crate::btc_validation::{difficulty_update, median};
 
 use bellpepper_core::{
     boolean,
-    num::AllocatedNum,
+    num::{AllocatedNum, Num},
     ConstraintSystem, SynthesisError,
 };
 use ff::{PrimeField, PrimeFieldBits};
@@ -144,38 +144,15 @@ where
         // 0x010000009500c43a 25c624520b5100ad f82cb9f9da72fd24 47a496bc600b0000 000000006cd86237 0395dedf1da2841c cda0fc489e3039de 5f1ccddef0e83499 1a65600ea6c8cb4d b3936a1ae3143991
         // here 0x9500c43a25c624520b5100adf82cb9f9da72fd2447a496bc600b000000000000 is the prevhash (0000000000000b60bc96a44724fd72daf9b92cf8ad00510b5224c6253ac40095)
 
-        let mut prev_hash_from_curr_block_vec: Vec<u64> = Vec::new();
-        for i in 0..4 {
-            let hash_vec = (header[i] % (1 << 32 as u64)) * (1<<32 as u64) + header[i+1] / (1 << 32 as u64);
-            prev_hash_from_curr_block_vec.push(hash_vec);
-        }
-
-        let mut prev_hash_from_curr_block: Vec<boolean::Boolean> = Vec::new();
-        for (i, hash64) in prev_hash_from_curr_block_vec.iter().enumerate() {
-            let mut dummy = boolean::u64_into_boolean_vec_le(cs.namespace(|| format!("dummy {}", i)), Some(*hash64)).unwrap();
+        // The bits of the header, most significant bit of each byte first
+        let mut header_bits: Vec<boolean::Boolean> = Vec::new();
+        for (i, header64) in header.iter().enumerate() {
+            let mut dummy = boolean::u64_into_boolean_vec_le(cs.namespace(|| format!("dummy {}", i)), Some(*header64)).unwrap();
             dummy.reverse();
-            prev_hash_from_curr_block.append(&mut dummy);
+            header_bits.append(&mut dummy);
         }
 
-        let prev_hash = AllocatedNum::alloc(cs.namespace(|| {"last block hash"}), || {
-            let mut sum: F = F::ZERO;
-
-            for (i, b) in prev_hash_from_curr_block.iter().enumerate() {
-                let exponent = 16 * (i/8) + 7 - i;
-                if exponent >= 128 {
-                    let power_127 = F::from_u128(1 << 127);
-                    let mut power_2 = if (*b).get_value().unwrap() { F::from_u128(1 << (exponent - 127)) }  else { F::from_u128(0u128) };
-                    power_2.mul_assign(&power_127);
-                    sum.add_assign(&power_2);
-                }
-                else {
-                    let power_2 = if (*b).get_value().unwrap() { F::from_u128(1 << exponent) } else { F::from_u128(0u128) };
-                    sum.add_assign(&power_2);
-                } 
-            }
-
-            Ok(sum)
-        }).unwrap();
+        let prev_hash = hash_from_bits(cs.namespace(|| "last block hash"), &header_bits[32..288])?;
 
         // equality check
         let r_prev_hash = BigNat::equals(cs.namespace(|| {"Is prev. hash from current block equal to the last block hash?"}), &z_i[0], &prev_hash).unwrap();
@@ -212,35 +189,10 @@ where
         }).unwrap();
 
         // Current block hash computation
-        let mut preimage_vec: Vec<boolean::Boolean> = Vec::new();
-        for (i, preimage64) in header.iter().enumerate() {
-            let mut dummy2 = boolean::u64_into_boolean_vec_le(cs.namespace(|| format!("dummy2 {}", i)), Some(*preimage64)).unwrap();
-            dummy2.reverse();
-            preimage_vec.append(&mut dummy2);
-        }
-
-        let out_sha256 = sha256::sha256(cs.namespace(|| "SHA 256"), &preimage_vec).unwrap();
+        let out_sha256 = sha256::sha256(cs.namespace(|| "SHA 256"), &header_bits).unwrap();
         let out = sha256::sha256(cs.namespace(|| "SHA 256d"), &out_sha256).unwrap();
-        
-        let curr_hash = AllocatedNum::alloc(cs.namespace(|| {"current block hash"}), || {
-            let mut sum: F = F::ZERO;
-
-            for (i, b) in out.iter().enumerate() {
-                let exponent = 16 * (i/8) + 7 - i;
-                if exponent >= 128 {
-                    let power_127 = F::from_u128(1 << 127);
-                    let mut power_2 = if (*b).get_value().unwrap() { F::from_u128(1 << (exponent - 127)) }  else { F::from_u128(0u128) };
-                    power_2.mul_assign(&power_127);
-                    sum.add_assign(&power_2);
-                }
-                else {
-                    let power_2 = if (*b).get_value().unwrap() { F::from_u128(1 << exponent) } else { F::from_u128(0u128) };
-                    sum.add_assign(&power_2);
-                } 
-            }
 
-            Ok(sum)
-        }).unwrap();
+        let curr_hash = hash_from_bits(cs.namespace(|| "current block hash"), &out)?;
 
         // less than check
         let r_curr_hash_targ = median::less_than(cs.namespace(|| "Is PoW consensus achieved?"), &curr_hash, &target, 224usize).unwrap();
@@ -484,3 +436,43 @@ where
         Ok(z_out)
     }
 }
+
+/// The number whose little-endian bytes are given as bits, most significant bit of each byte first
+fn num_from_bits<F, CS>(mut cs: CS, bits: &[boolean::Boolean]) -> Result<AllocatedNum<F>, SynthesisError>
+where
+    F: PrimeField,
+    CS: ConstraintSystem<F>,
+{
+    let mut sum = Num::<F>::zero();
+    for (i, bit) in bits.iter().enumerate() {
+        let power_2 = F::from(2u64).pow_vartime([(16 * (i / 8) + 7 - i) as u64]);
+        sum = sum.add_bool_with_coeff(CS::one(), bit, power_2);
+    }
+
+    let num = AllocatedNum::alloc(cs.namespace(|| "number"), || {
+        sum.get_value().ok_or(SynthesisError::AssignmentMissing)
+    })?;
+    cs.enforce(
+        || "number = sum of the bits",
+        |lc| lc + num.get_variable() - &sum.lc(F::ONE),
+        |lc| lc + CS::one(),
+        |lc| lc,
+    );
+    Ok(num)
+}
+
+/// The block hash with the given bits, which has to be below 2^224: comparisons with the target need that
+fn hash_from_bits<F, CS>(mut cs: CS, bits: &[boolean::Boolean]) -> Result<AllocatedNum<F>, SynthesisError>
+where
+    F: PrimeField,
+    CS: ConstraintSystem<F>,
+{
+    let top = num_from_bits(cs.namespace(|| "most significant 32 bits"), &bits[224..])?;
+    cs.enforce(
+        || "most significant 32 bits are 0",
+        |lc| lc + top.get_variable(),
+        |lc| lc + CS::one(),
+        |lc| lc,
+    );
+    num_from_bits(cs.namespace(|| "least significant 224 bits"), &bits[..224])
+}
-- 
2.43.0


From cae113856c97ff629484e65dd4c0e9dbdae29e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:48 +0000
Subject: [PATCH 19/26] fix: enforce the verdicts of the header step

the verdicts of the header step were only asserted by the prover, not by the circuit, and the hash was compared strictly with the target
---
 src/btc_validation/header_step.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/btc_validation/header_step.rs b/src/btc_validation/header_step.rs
index 1222bcc..629b219 100644
--- a/src/btc_validation/header_step.rs
+++ b/src/btc_validation/header_step.rs
@@ -156,7 +156,7 @@ where
 
         // equality check
         let r_prev_hash = BigNat::equals(cs.namespace(|| {"Is prev. hash from current block equal to the last block hash?"}), &z_i[0], &prev_hash).unwrap();
-        assert!(r_prev_hash.get_value().unwrap());
+        enforce_true(cs.namespace(|| "previous hash agrees"), &r_prev_hash)?;
         
         // 2. Check if current hash <= target
         //
@@ -194,9 +194,9 @@ where
 
         let curr_hash = hash_from_bits(cs.namespace(|| "current block hash"), &out)?;
 
-        // less than check
-        let r_curr_hash_targ = median::less_than(cs.namespace(|| "Is PoW consensus achieved?"), &curr_hash, &target, 224usize).unwrap();
-        assert!(r_curr_hash_targ.get_value().unwrap());
+        // less than or equal check
+        let r_curr_hash_targ = median::leq(cs.namespace(|| "Is PoW consensus achieved?"), &curr_hash, &target, 224usize).unwrap();
+        enforce_true(cs.namespace(|| "PoW consensus achieved"), &r_curr_hash_targ)?;
 
         // 3. Check if timestamp of the current block is greater than the median of previous 11 timestamps
         //
@@ -212,7 +212,7 @@ where
 
         // verify median
         let r_median = median::verify_median_timestamp(cs.namespace(|| "median verify"), &mut times_vec, median).unwrap();
-        assert!(r_median.get_value().unwrap());
+        enforce_true(cs.namespace(|| "median is right"), &r_median)?;
 
         // check if median < current timestamp
         // Taking the example of block no. 123456
@@ -228,7 +228,7 @@ where
         let median_fe = AllocatedNum::alloc(cs.namespace(|| "median"), || Ok(F::from(median as u64))).unwrap();
         let curr_timestamp = AllocatedNum::alloc(cs.namespace(|| "current timestamp"), || Ok(F::from(n_time_endian))).unwrap();
         let r_time = median::less_than(cs.namespace(|| "valid timestamp"), &median_fe, &curr_timestamp, 32usize).unwrap();
-        assert!(r_time.get_value().unwrap());
+        enforce_true(cs.namespace(|| "timestamp is valid"), &r_time)?;
 
         // 4. Total work addition
         //
@@ -476,3 +476,13 @@ where
     );
     num_from_bits(cs.namespace(|| "least significant 224 bits"), &bits[..224])
 }
+
+/// The prover refuses a false verdict, and so does the circuit
+fn enforce_true<F, CS>(mut cs: CS, verdict: &boolean::Boolean) -> Result<(), SynthesisError>
+where
+    F: PrimeField,
+    CS: ConstraintSystem<F>,
+{
+    assert!(verdict.get_value().unwrap_or(true));
+    boolean::Boolean::enforce_equal(cs.namespace(|| "verdict"), verdict, &boolean::Boolean::constant(true))
+}
-- 
2.43.0


From 987a9f9ec1c8d646b77737a295dd26592ce671eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:57 +0000
Subject: [PATCH 20/26] fix: read the timestamp of the header from its bits

the timestamp of the header was a free wire (and its bytes were read in the wrong order)
---
 src/btc_validation/header_step.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/btc_validation/header_step.rs b/src/btc_validation/header_step.rs
index 629b219..714a0fa 100644
--- a/src/btc_validation/header_step.rs
+++ b/src/btc_validation/header_step.rs
@@ -218,15 +218,9 @@ where
         // Taking the example of block no. 123456
         // 0x010000009500c43a 25c624520b5100ad f82cb9f9da72fd24 47a496bc600b0000 000000006cd86237 0395dedf1da2841c cda0fc489e3039de 5f1ccddef0e83499 1a65600ea6c8cb4d b3936a1ae3143991
         // here 0xa6c8cb4d is the current timestamp (supposed to be 0x4dcbc8a6)
-        let n_time = header[8] % (1 << 32);
-        let b_t0 = n_time % 256u64; // 4d
-        let b_t3 = n_time >> 24;  // a6
-        let b_t2 = n_time >> 16 - b_t3 << 24; // c8
-        let b_t1 = n_time >> 8 - b_t3 << 24 - b_t2 << 16; // cb
-        let n_time_endian = b_t0 << 24 + b_t1 << 16 + b_t2 << 8 + b_t1;
+        let curr_timestamp = num_from_bits(cs.namespace(|| "current timestamp"), &header_bits[544..576])?;
 
         let median_fe = AllocatedNum::alloc(cs.namespace(|| "median"), || Ok(F::from(median as u64))).unwrap();
-        let curr_timestamp = AllocatedNum::alloc(cs.namespace(|| "current timestamp"), || Ok(F::from(n_time_endian))).unwrap();
         let r_time = median::less_than(cs.namespace(|| "valid timestamp"), &median_fe, &curr_timestamp, 32usize).unwrap();
         enforce_true(cs.namespace(|| "timestamp is valid"), &r_time)?;
 
-- 
2.43.0


From e7338c749bc145f86fab77f903b9cc9180848ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:08 +0000
Subject: [PATCH 21/26] fix: decode the target of the header in the circuit

the target was not tied to the mantissa and the exponent of the header
---
 src/btc_validation/header_step.rs | 82 ++++++++++++++++++++++---------
 1 file changed, 58 insertions(+), 24 deletions(-)

diff --git a/src/btc_validation/header_step.rs b/src/btc_validation/header_step.rs
index 714a0fa..1df2f3f 100644
--- a/src/btc_validation/header_step.rs
+++ b/src/btc_validation/header_step.rs
@@ -11,6 +11,7 @@ use ff::{PrimeField, PrimeFieldBits};
 use bellpepper::gadgets::sha256;
 use crate::mp::bignat::BigNat;
 use crate::util::convert::f_to_nat;
+use crate::util::num::Num as LimbNum;
 // use bellpepper::gadgets::num::{AllocatedNum, Num};
 use nova_snark::traits::circuit::StepCircuit;
 
@@ -164,29 +165,18 @@ where
         // Taking the example of block no. 123456
         // 0x010000009500c43a 25c624520b5100ad f82cb9f9da72fd24 47a496bc600b0000 000000006cd86237 0395dedf1da2841c cda0fc489e3039de 5f1ccddef0e83499 1a65600ea6c8cb4d b3936a1ae3143991
         // here 0x1a6a93b3 is the threshold
-        let n_bits = header[9] >> 32;
-        let b0 = n_bits % 256u64;
-        let b3 = n_bits >> 24;
-        let b2 = n_bits >> 16 - b3 << 24;
-        let b1 = n_bits >> 8 - b3 << 24 - b2 << 16;
-        
-        let target = AllocatedNum::alloc(cs.namespace(|| "Block target"), || {
-            let thresh_mantissa = b1 << 16 + b2 << 8 + b3;
-            let exponent = (b0 - 3) as usize;
-
-            let targ: F = if exponent >= 13 {
-                let partial_scalar = F::from_u128((thresh_mantissa as u128) << (8 * 13) as u128);
-                let mut scale = F::from_u128(1 << (8 * (exponent - 13)) as u128);
-                scale.mul_assign(&partial_scalar);
-
-                scale
-            }
-            else {
-                F::from_u128((thresh_mantissa as u128) << 8 * exponent) 
-            };
-
-            Ok(targ)
-        }).unwrap();
+        // its bytes are b3 b2 b1 b0, the mantissa is b1 b2 b3 and the exponent b0
+        let mantissa = num_from_bits(cs.namespace(|| "mantissa"), &header_bits[576..600])?;
+        let exponent = num_from_bits(cs.namespace(|| "exponent"), &header_bits[600..608])?;
+        // the top bit of the mantissa is a sign
+        boolean::Boolean::enforce_equal(cs.namespace(|| "target is not negative"), &header_bits[592], &boolean::Boolean::constant(false))?;
+        // target = mantissa * 256^(exponent - 3), where the exponent is at most 29 as in the greatest target there is
+        let above_3 = Num::from(exponent.clone()).add_bool_with_coeff(CS::one(), &boolean::Boolean::constant(true), -F::from(3u64));
+        let below_29 = Num::from(exponent.clone()).scale(-F::ONE).add_bool_with_coeff(CS::one(), &boolean::Boolean::constant(true), F::from(29u64));
+        let scale = power_of_256(cs.namespace(|| "256^(exponent - 3)"), &above_3)?;
+        let max_scale = power_of_256(cs.namespace(|| "256^(29 - exponent)"), &below_29)?;
+        let target = mantissa.mul(cs.namespace(|| "Block target"), &scale)?;
+        LimbNum::from(target.clone()).fits_in_bits(cs.namespace(|| "target below 2^224"), 224)?;
 
         // Current block hash computation
         let out_sha256 = sha256::sha256(cs.namespace(|| "SHA 256"), &header_bits).unwrap();
@@ -276,7 +266,7 @@ where
         let (_s2_calc, target_u64_calc) = bigint_tar.to_u64_digits();
 
         let calculated_target = AllocatedNum::alloc(cs.namespace(|| "target updated"), || {
-            let exponent = 8 * (b0 - 3) as usize;
+            let exponent = 8 * ((header[9] >> 32) % 256 - 3) as usize;
             let ls_tar = F::from_u128(((target_u64_calc[0] as u128) + (target_u64_calc[1] as u128) << 64) >> exponent);
             let ms64b = F::from_u128((target_u64_calc[2] as u128) << 64);
             let mut pow_2 = F::from_u128((1 << 64)>>exponent);
@@ -480,3 +470,47 @@ where
     assert!(verdict.get_value().unwrap_or(true));
     boolean::Boolean::enforce_equal(cs.namespace(|| "verdict"), verdict, &boolean::Boolean::constant(true))
 }
+
+/// 256^exponent for an exponent between 0 and 31
+fn power_of_256<F, CS>(mut cs: CS, exponent: &Num<F>) -> Result<AllocatedNum<F>, SynthesisError>
+where
+    F: PrimeField + PrimeFieldBits,
+    CS: ConstraintSystem<F>,
+{
+    let bits = exponent.get_value().map(|e| e.to_le_bits());
+    let mut power = AllocatedNum::alloc(cs.namespace(|| "1"), || Ok(F::ONE))?;
+    cs.enforce(
+        || "power starts at 1",
+        |lc| lc + power.get_variable() - CS::one(),
+        |lc| lc + CS::one(),
+        |lc| lc,
+    );
+
+    let mut sum = Num::<F>::zero();
+    for i in 0..5 {
+        let bit = boolean::AllocatedBit::alloc(cs.namespace(|| format!("bit {}", i)), bits.as_ref().map(|b| b[i]))?;
+        sum = sum.add_bool_with_coeff(CS::one(), &boolean::Boolean::from(bit.clone()), F::from(1u64 << i));
+
+        // power = power * 256^(2^i) if the bit is set
+        let factor = F::from(256u64).pow_vartime([1u64 << i]) - F::ONE;
+        let next = AllocatedNum::alloc(cs.namespace(|| format!("power {}", i)), || {
+            let prev = power.get_value().ok_or(SynthesisError::AssignmentMissing)?;
+            let set = bit.get_value().ok_or(SynthesisError::AssignmentMissing)?;
+            Ok(if set { prev + prev * factor } else { prev })
+        })?;
+        cs.enforce(
+            || format!("power {}: unchanged or times 256^(2^{})", i, i),
+            |lc| lc + bit.get_variable(),
+            |lc| lc + (factor, power.get_variable()),
+            |lc| lc + next.get_variable() - power.get_variable(),
+        );
+        power = next;
+    }
+    cs.enforce(
+        || "exponent = sum of the bits",
+        |lc| lc + &exponent.lc(F::ONE) - &sum.lc(F::ONE),
+        |lc| lc + CS::one(),
+        |lc| lc,
+    );
+    Ok(power)
+}
-- 
2.43.0


From 56d9dc0d76cfb31a853792feb189abe47e58b809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:18 +0000
Subject: [PATCH 22/26] fix: keep the median of the timestamps on a wire

the median was computed outside of the circuit and not tied to the timestamps
---
 src/btc_validation/header_step.rs | 24 +++++++++++++-----------
 src/btc_validation/median.rs      | 13 +++++++++++--
 2 files changed, 24 insertions(+), 13 deletions(-)

diff --git a/src/btc_validation/header_step.rs b/src/btc_validation/header_step.rs
index 1df2f3f..e22114c 100644
--- a/src/btc_validation/header_step.rs
+++ b/src/btc_validation/header_step.rs
@@ -10,7 +10,7 @@ use bellpepper_core::{
 use ff::{PrimeField, PrimeFieldBits};
 use bellpepper::gadgets::sha256;
 use crate::mp::bignat::BigNat;
-use crate::util::convert::f_to_nat;
+use crate::util::convert::{f_to_nat, f_to_usize};
 use crate::util::num::Num as LimbNum;
 // use bellpepper::gadgets::num::{AllocatedNum, Num};
 use nova_snark::traits::circuit::StepCircuit;
@@ -190,18 +190,21 @@ where
 
         // 3. Check if timestamp of the current block is greater than the median of previous 11 timestamps
         //
-        let mut times_vec: Vec<u32> = Vec::new(); 
-        for i in 1..=11 {
-            let timestamp = z_i[i].get_value().unwrap();
-            let (_s, time32) = f_to_nat(&timestamp).to_u32_digits();
-            times_vec.push(time32[0]);
-        }
+        let timestamps = &z_i[1..=11];
 
         // compute median
-        let median = median::compute_median_timestamp(&mut times_vec);
+        let median = AllocatedNum::alloc(cs.namespace(|| "median"), || {
+            let mut times_vec: Vec<u32> = Vec::new();
+            for timestamp in timestamps {
+                let timestamp = timestamp.get_value().ok_or(SynthesisError::AssignmentMissing)?;
+                times_vec.push(f_to_usize(&timestamp) as u32);
+            }
+            Ok(F::from(median::compute_median_timestamp(&mut times_vec) as u64))
+        })?;
+        LimbNum::from(median.clone()).fits_in_bits(cs.namespace(|| "median below 2^32"), 32)?;
 
         // verify median
-        let r_median = median::verify_median_timestamp(cs.namespace(|| "median verify"), &mut times_vec, median).unwrap();
+        let r_median = median::verify_median(cs.namespace(|| "median verify"), timestamps, &median)?;
         enforce_true(cs.namespace(|| "median is right"), &r_median)?;
 
         // check if median < current timestamp
@@ -210,8 +213,7 @@ where
         // here 0xa6c8cb4d is the current timestamp (supposed to be 0x4dcbc8a6)
         let curr_timestamp = num_from_bits(cs.namespace(|| "current timestamp"), &header_bits[544..576])?;
 
-        let median_fe = AllocatedNum::alloc(cs.namespace(|| "median"), || Ok(F::from(median as u64))).unwrap();
-        let r_time = median::less_than(cs.namespace(|| "valid timestamp"), &median_fe, &curr_timestamp, 32usize).unwrap();
+        let r_time = median::less_than(cs.namespace(|| "valid timestamp"), &median, &curr_timestamp, 32usize).unwrap();
         enforce_true(cs.namespace(|| "timestamp is valid"), &r_time)?;
 
         // 4. Total work addition
diff --git a/src/btc_validation/median.rs b/src/btc_validation/median.rs
index c605624..6b488f7 100644
--- a/src/btc_validation/median.rs
+++ b/src/btc_validation/median.rs
@@ -27,16 +27,25 @@ CS: ConstraintSystem<Scalar>,
         fe_timestamps.push(fe_temp);
     }
 
+    verify_median(cs, &fe_timestamps, &fe_median)
+}
+
+/// The same for wires that hold numbers below 2^32
+pub fn verify_median<Scalar, CS> (mut cs: CS, fe_timestamps: &[AllocatedNum<Scalar>], fe_median: &AllocatedNum<Scalar>) -> Result<Boolean, SynthesisError>
+where
+Scalar: PrimeField,
+CS: ConstraintSystem<Scalar>,
+{
     let mut n_median_occurrences = Num::zero();
     let mut sign_diff = AllocatedNum::alloc(cs.namespace(|| "sign_diff"), || Ok(Scalar::from(0u64))).unwrap();
     enforce_value(cs.namespace(|| "sign_diff starts at 0"), &sign_diff, &Num::zero());
 
     for (i, fe_time) in fe_timestamps.iter().enumerate() {
         // n_median_occurrences += 1 if median == timestamp else no change
-        let res_eq = BigNat::equals(cs.namespace(|| format!("check equal for time {}", i)), &fe_median, fe_time).unwrap();
+        let res_eq = BigNat::equals(cs.namespace(|| format!("check equal for time {}", i)), fe_median, fe_time).unwrap();
         n_median_occurrences = n_median_occurrences.add_bool_with_coeff(CS::one(), &res_eq, Scalar::ONE);
 
-        let res_lt = less_than(cs.namespace(|| format!("res_lt {}", i)), &fe_median, fe_time, 32).unwrap();
+        let res_lt = less_than(cs.namespace(|| format!("res_lt {}", i)), fe_median, fe_time, 32).unwrap();
 
         // delta_sign is the signum of (median - timestamp)
         let delta_sign = AllocatedNum::alloc(cs.namespace(|| format!("signum {}", i)), || {
-- 
2.43.0


From 4594edc56c897d5d6f3abf4e39e40992e7daba5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:30 +0000
Subject: [PATCH 23/26] fix: bind the work of a block to its target

the work of the block was a free wire
---
 src/btc_validation/header_step.rs | 43 ++++++++++++++++---------------
 1 file changed, 22 insertions(+), 21 deletions(-)

diff --git a/src/btc_validation/header_step.rs b/src/btc_validation/header_step.rs
index e22114c..a53b8e8 100644
--- a/src/btc_validation/header_step.rs
+++ b/src/btc_validation/header_step.rs
@@ -10,7 +10,7 @@ use bellpepper_core::{
 use ff::{PrimeField, PrimeFieldBits};
 use bellpepper::gadgets::sha256;
 use crate::mp::bignat::BigNat;
-use crate::util::convert::{f_to_nat, f_to_usize};
+use crate::util::convert::{f_to_nat, f_to_usize, nat_to_f};
 use crate::util::num::Num as LimbNum;
 // use bellpepper::gadgets::num::{AllocatedNum, Num};
 use nova_snark::traits::circuit::StepCircuit;
@@ -218,34 +218,35 @@ where
 
         // 4. Total work addition
         //
-        let max_target = AllocatedNum::alloc(cs.namespace(|| "maximum target"), || {
-            let power_127 = F::from_u128(1 << 127);
-            let mut max_thresh = F::from_u128(0xFFFF << 81);
-            max_thresh.mul_assign(&power_127);
-
-            Ok(max_thresh)
-        }).unwrap();
-
+        // max_target / target = (0xFFFF * 256^26) / (mantissa * 256^(exponent - 3)), rounded down
+        //                     = (0xFFFF * 256^(29 - exponent)) / mantissa, rounded down
         let block_work = AllocatedNum::alloc(cs.namespace(|| "work or difficulty"), || {
-            let diff = max_target.get_value().unwrap();
-            let targ = target.get_value().unwrap();
+            let dividend = max_scale.get_value().ok_or(SynthesisError::AssignmentMissing)? * F::from(0xFFFFu64);
+            let divisor = mantissa.get_value().ok_or(SynthesisError::AssignmentMissing)?;
+            let work = f_to_nat(&dividend) / f_to_nat(&divisor);
 
-            let diff_big = f_to_nat(&diff);
-            let tar_big = f_to_nat(&targ);
-            let work = diff_big / tar_big;
+            nat_to_f(&work).ok_or(SynthesisError::Unsatisfiable)
+        })?;
+        LimbNum::from(block_work.clone()).fits_in_bits(cs.namespace(|| "work below 2^224"), 224)?;
 
-            let (_s2, work_u64) = work.to_u64_digits();
+        let remainder = AllocatedNum::alloc(cs.namespace(|| "remainder of the work"), || {
+            let dividend = max_scale.get_value().ok_or(SynthesisError::AssignmentMissing)? * F::from(0xFFFFu64);
+            let divisor = mantissa.get_value().ok_or(SynthesisError::AssignmentMissing)?;
+            let work = block_work.get_value().ok_or(SynthesisError::AssignmentMissing)?;
 
-            Ok(F::from(work_u64[0] as u64))
-        }).unwrap();
+            Ok(dividend - work * divisor)
+        })?;
+        LimbNum::from(remainder.clone()).fits_in_bits(cs.namespace(|| "remainder below 2^24"), 24)?;
+        let r_remainder = median::less_than(cs.namespace(|| "remainder below mantissa"), &remainder, &mantissa, 24)?;
+        enforce_true(cs.namespace(|| "work is the quotient"), &r_remainder)?;
 
         // Constrain allocation:
-        // max_target = target * block_work
+        // work * mantissa + remainder = 0xFFFF * 256^(29 - exponent)
         cs.enforce(
-            || "max_target = target * block_work",
-            |lc| lc + target.get_variable(),
+            || "work * mantissa + remainder = 0xFFFF * 256^(29 - exponent)",
             |lc| lc + block_work.get_variable(),
-            |lc| lc + max_target.get_variable(),
+            |lc| lc + mantissa.get_variable(),
+            |lc| lc + (F::from(0xFFFFu64), max_scale.get_variable()) - remainder.get_variable(),
         );
 
         // 5. Target update
-- 
2.43.0


From 581c65c1c44e63006a435c95684e8b2a1232549e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:39 +0000
Subject: [PATCH 24/26] fix: start a period at its first block and count 2016
 blocks

the start of the period was never updated and the counter did not wrap at 2016
---
 src/btc_validation/header_step.rs | 35 ++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/src/btc_validation/header_step.rs b/src/btc_validation/header_step.rs
index a53b8e8..4cc626a 100644
--- a/src/btc_validation/header_step.rs
+++ b/src/btc_validation/header_step.rs
@@ -382,25 +382,40 @@ where
             |lc| lc + z_out[12].get_variable() - target.get_variable(),
         );
 
-        z_out.push(start_time_epoch.clone());
+        // If the counter z_i[14] is 0, the period starts with the current block
+        z_out.push(AllocatedNum::alloc(cs.namespace(|| "start time epoch"), || {
+            let first = t.get_value().ok_or(SynthesisError::AssignmentMissing)?.is_zero();
+            let prev = start_time_epoch.get_value().ok_or(SynthesisError::AssignmentMissing)?;
+            let curr = curr_timestamp.get_value().ok_or(SynthesisError::AssignmentMissing)?;
+
+            Ok(F::conditional_select(&prev, &curr, first))
+        })?);
         cs.enforce(
             || "current start time epoch out", 
-            |lc| lc,
-            |lc| lc,
-            |lc| lc + z_out[13].get_variable() - start_time_epoch.get_variable(),
+            |lc| lc + t.get_variable(),
+            |lc| lc + start_time_epoch.get_variable() - curr_timestamp.get_variable(),
+            |lc| lc + z_out[13].get_variable() - curr_timestamp.get_variable(),
         );
 
+        let last_counter = AllocatedNum::alloc(cs.namespace(|| "2015"), || Ok(F::from(2015u64)))?;
+        cs.enforce(
+            || "last counter = 2015",
+            |lc| lc + last_counter.get_variable() - (F::from(2015u64), CS::one()),
+            |lc| lc + CS::one(),
+            |lc| lc,
+        );
+        let is_last = BigNat::equals(cs.namespace(|| "counter is 2015"), &z_i[14], &last_counter)?;
         z_out.push(AllocatedNum::alloc(cs.namespace(|| "target counter"), || {
-            let mut prev_ctr = z_i[14].get_value().unwrap();
+            let prev_ctr = z_i[14].get_value().ok_or(SynthesisError::AssignmentMissing)?;
+            let last = is_last.get_value().ok_or(SynthesisError::AssignmentMissing)?;
 
-            prev_ctr.add_assign(F::ONE);
-            Ok(prev_ctr)
-        }).unwrap());
+            Ok(if last { F::ZERO } else { prev_ctr + F::ONE })
+        })?);
 
         cs.enforce(
-            || "z_out[14] = z_i[14] + 1", 
+            || "z_out[14] = z_i[14] + 1 or 0", 
             |lc| lc + CS::one() + z_i[14].get_variable(),
-            |lc| lc + CS::one(),
+            |lc| lc + CS::one() - &is_last.lc(CS::one(), F::ONE),
             |lc| lc + z_out[14].get_variable(),
         );
 
-- 
2.43.0


From ea7cb1723530efb1ad17203f63e664524676ea4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:52 +0000
Subject: [PATCH 25/26] fix: retarget with the time that the period took

the retarget used the wrong timespan and compared exactly instead of at the precision of the exponent; the verdict was free in the other blocks
---
 src/btc_validation/header_step.rs | 77 +++++++++++++++++--------------
 1 file changed, 43 insertions(+), 34 deletions(-)

diff --git a/src/btc_validation/header_step.rs b/src/btc_validation/header_step.rs
index 4cc626a..cf9c8ea 100644
--- a/src/btc_validation/header_step.rs
+++ b/src/btc_validation/header_step.rs
@@ -5,7 +5,7 @@ use crate::btc_validation::{difficulty_update, median};
 use bellpepper_core::{
     boolean,
     num::{AllocatedNum, Num},
-    ConstraintSystem, SynthesisError,
+    ConstraintSystem, LinearCombination, SynthesisError,
 };
 use ff::{PrimeField, PrimeFieldBits};
 use bellpepper::gadgets::sha256;
@@ -263,29 +263,7 @@ where
             |lc| lc,
         );
 
-        let start_time_epoch = z_i[13].clone();
-        let target_calc = difficulty_update::calculate_difficulty_update(cs.namespace(|| "target calculated"), &z_i[12], &z_i[13]).unwrap();
-        let bigint_tar = target_calc.value.unwrap();
-        let (_s2_calc, target_u64_calc) = bigint_tar.to_u64_digits();
-
-        let calculated_target = AllocatedNum::alloc(cs.namespace(|| "target updated"), || {
-            let exponent = 8 * ((header[9] >> 32) % 256 - 3) as usize;
-            let ls_tar = F::from_u128(((target_u64_calc[0] as u128) + (target_u64_calc[1] as u128) << 64) >> exponent);
-            let ms64b = F::from_u128((target_u64_calc[2] as u128) << 64);
-            let mut pow_2 = F::from_u128((1 << 64)>>exponent);
-
-            pow_2.mul_assign(&ms64b);
-            pow_2.add_assign(&ls_tar);
-
-            let exp_2 = F::from_u128(1u128 << exponent);
-            pow_2.mul_assign(&exp_2);
-
-            Ok(pow_2)
-        }).unwrap();
-
-        // let _r = BigNat::equals(cs.namespace(|| "verify target update"), &target, &calculated_target).unwrap();
-        
-        // Either the counter z_i[14] is non-zero or curr_target = calc_target = z_i[12] * t_sum / (2016*10*60)
+        // t tells if the counter z_i[14] is non-zero
         let delta_inv = AllocatedNum::alloc(cs.namespace(|| "delta_inv"), || {
             let delta = z_i[14].get_value().unwrap();
 
@@ -327,20 +305,51 @@ where
             |lc| lc,
         );
 
-        // Constrain:
-        // (curr_target - calc_target) * (t - 1) == 0
-        // This enforces that correct `delta_inv` was provided,
-        // and thus `t` is 1 if `z_i[14]` is non zero
+        // The time that the last 2015 blocks took if the counter is 0, and two weeks otherwise: then the result is not used
+        let start_time_epoch = z_i[13].clone();
+        let two_weeks = F::from(2016 * 10 * 60);
+        let timespan = AllocatedNum::alloc(cs.namespace(|| "timespan"), || {
+            let first = t.get_value().ok_or(SynthesisError::AssignmentMissing)?.is_zero();
+            let start = start_time_epoch.get_value().ok_or(SynthesisError::AssignmentMissing)?;
+            let end = z_i[11].get_value().ok_or(SynthesisError::AssignmentMissing)?;
+
+            Ok(F::conditional_select(&two_weeks, &(end - start), first))
+        })?;
         cs.enforce(
-            || "(curr_target - calc_target) * (t - 1) == 0",
-            |lc| lc + target.get_variable() - calculated_target.get_variable(),
-            |lc| lc + t.get_variable() - CS::one(),
-            |lc| lc,
+            || "timespan = z_i[11] - z_i[13] or two weeks",
+            |lc| lc + CS::one() - t.get_variable(),
+            |lc| lc + z_i[11].get_variable() - start_time_epoch.get_variable() - (two_weeks, CS::one()),
+            |lc| lc + timespan.get_variable() - (two_weeks, CS::one()),
         );
+        LimbNum::from(timespan.clone()).fits_in_bits(cs.namespace(|| "timespan below 2^32"), 32)?;
+        let target_calc = difficulty_update::calculate_difficulty_update(cs.namespace(|| "target calculated"), &z_i[12], &timespan)?;
+
+        // Either the counter z_i[14] is non-zero or curr_target is calc_target = z_i[12] * t_sum / (2016*10*60) without
+        // the digits for which the exponent leaves no room
+        let mut calc_target = LinearCombination::<F>::zero();
+        for (i, limb) in target_calc.as_limbs::<CS>().iter().enumerate() {
+            calc_target = calc_target + (F::from(2u64).pow_vartime([64 * i as u64]), &limb.num);
+        }
+        let low_digits = AllocatedNum::alloc(cs.namespace(|| "low digits of the calculated target"), || {
+            let first = t.get_value().ok_or(SynthesisError::AssignmentMissing)?.is_zero();
+            let calc = target_calc.value.as_ref().ok_or(SynthesisError::AssignmentMissing)?;
+            let calc: F = nat_to_f(calc).ok_or(SynthesisError::Unsatisfiable)?;
+            let curr = target.get_value().ok_or(SynthesisError::AssignmentMissing)?;
 
-        
-        // Either the counter z_i[14] is not equal to 2015 or start_time_epoch = z_i[13]
+            Ok(F::conditional_select(&F::ZERO, &(calc - curr), first))
+        })?;
 
+        // Constrain:
+        // (calc_target - curr_target) * (1 - t) == low_digits < 256^(exponent - 3)
+        cs.enforce(
+            || "(calc_target - curr_target) * (1 - t) == low_digits",
+            |lc| lc + &calc_target - target.get_variable(),
+            |lc| lc + CS::one() - t.get_variable(),
+            |lc| lc + low_digits.get_variable(),
+        );
+        LimbNum::from(low_digits.clone()).fits_in_bits(cs.namespace(|| "low digits below 2^216"), 216)?;
+        let r_low_digits = median::less_than(cs.namespace(|| "low digits below scale"), &low_digits, &scale, 216)?;
+        enforce_true(cs.namespace(|| "target is updated"), &r_low_digits)?;
 
         // 6. z_out
         //
-- 
2.43.0


From 55efc279e535ad1107f9f3e66b32bc8910370e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:02 +0000
Subject: [PATCH 26/26] fix: the header step can be synthesised without a
 witness

synthesis without a witness panicked
---
 src/btc_validation/header_step.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/btc_validation/header_step.rs b/src/btc_validation/header_step.rs
index cf9c8ea..0fd77ae 100644
--- a/src/btc_validation/header_step.rs
+++ b/src/btc_validation/header_step.rs
@@ -265,7 +265,7 @@ where
 
         // t tells if the counter z_i[14] is non-zero
         let delta_inv = AllocatedNum::alloc(cs.namespace(|| "delta_inv"), || {
-            let delta = z_i[14].get_value().unwrap();
+            let delta = z_i[14].get_value().ok_or(SynthesisError::AssignmentMissing)?;
 
             if delta.is_zero().unwrap_u8() == 1 {
                 Ok(F::ONE) // we can return any number here, it doesn't matter
@@ -279,8 +279,8 @@ where
         // If `z_i[14]` is zero, `t` will equal 0
 
         let t = AllocatedNum::alloc(cs.namespace(|| "t"), || {
-            let mut tmp = z_i[14].get_value().unwrap();
-            tmp.mul_assign(&(delta_inv.get_value().unwrap()));
+            let mut tmp = z_i[14].get_value().ok_or(SynthesisError::AssignmentMissing)?;
+            tmp.mul_assign(&(delta_inv.get_value().ok_or(SynthesisError::AssignmentMissing)?));
 
             Ok(tmp)
         })?;
@@ -430,8 +430,8 @@ where
 
         // total work
         z_out.push(AllocatedNum::alloc(cs.namespace(|| "total work"), || {
-            let prev_total = z_i[15].get_value().unwrap();
-            let mut curr_work = block_work.get_value().unwrap();
+            let prev_total = z_i[15].get_value().ok_or(SynthesisError::AssignmentMissing)?;
+            let mut curr_work = block_work.get_value().ok_or(SynthesisError::AssignmentMissing)?;
 
             curr_work.add_assign(&prev_total);
             Ok(curr_work)
-- 
2.43.0

