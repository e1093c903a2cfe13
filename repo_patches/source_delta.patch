From 86f654f8f994479993b24866ad08fdb10b1a7840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:19 +0000
Subject: [PATCH 01/14] fix: division by real one returns the dividend, not the
 divisor

---
 src/arithmetics/division.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arithmetics/division.rs b/src/arithmetics/division.rs
index d89d13f..de9dc52 100644
--- a/src/arithmetics/division.rs
+++ b/src/arithmetics/division.rs
@@ -71,7 +71,7 @@ impl Expression {
             }
             Expression::Real(real_divisor) => {
                 if real_divisor == &Symbol::real(1.0) {
-                    return divisor;
+                    return dividend;
                 }
                 if real_divisor == &Symbol::real(-1.0) {
                     return Expression::multiplication(vec![dividend, Symbol::real(-1.0).expr()]);
-- 
2.43.0


From 4918213f579dbfbc9e87b20e8b3a6741d9cad240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:31 +0000
Subject: [PATCH 02/14] fix: integer power of a negated exponent no longer
 recurses forever

---
 src/exponential/power.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/exponential/power.rs b/src/exponential/power.rs
index 10623f0..145977f 100644
--- a/src/exponential/power.rs
+++ b/src/exponential/power.rs
@@ -155,7 +155,8 @@ impl Expression {
                         }
                         if let Some(integer_exponent_factor) =
                             exponent_factors.get_one(&|factor| match factor {
-                                Expression::Integer(_) => true,
+                                /* a sign alone can't be evaluated: n ^ (-1 * b) is kept as it is */
+                                Expression::Integer(n) => n != &Symbol::integer(-1),
                                 _ => false,
                             })
                         {
-- 
2.43.0


From 712d48f4270e3a61cb175f336f97ca9d9c812bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:54 +0000
Subject: [PATCH 03/14] fix: reals have lawful Eq, Ord and Hash for infinities,
 NaN and signed zero

---
 src/symbols/real.rs | 39 ++++++++++++---------------------------
 1 file changed, 12 insertions(+), 27 deletions(-)

diff --git a/src/symbols/real.rs b/src/symbols/real.rs
index 1a90303..3256ecc 100644
--- a/src/symbols/real.rs
+++ b/src/symbols/real.rs
@@ -21,7 +21,15 @@ impl Symbol<f64> {
 use std::hash::{Hash, Hasher};
 impl Hash for Symbol<f64> {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        let (m, e, s) = num::Float::integer_decode(self.data);
+        /* equal values must share a single representation: 0.0 == -0.0 and NaN == NaN */
+        let data = if self.data == 0.0 {
+            0.0
+        } else if self.data.is_nan() {
+            std::f64::NAN
+        } else {
+            self.data
+        };
+        let (m, e, s) = num::Float::integer_decode(data);
         m.hash(state);
         e.hash(state);
         s.hash(state);
@@ -34,7 +42,7 @@ impl Hash for Symbol<f64> {
 impl Eq for Symbol<f64> {}
 impl PartialEq for Symbol<f64> {
     fn eq(&self, other: &Self) -> bool {
-        self.data == other.data
+        self.data == other.data || (self.data.is_nan() && other.data.is_nan())
     }
 }
 impl Ord for Symbol<f64> {
@@ -44,36 +52,13 @@ impl Ord for Symbol<f64> {
         } else if self.data < other.data {
             return std::cmp::Ordering::Less;
         } else {
-            return std::cmp::Ordering::Equal;
+            /* equal numbers or NaN, which equals itself and follows every number */
+            return self.data.is_nan().cmp(&other.data.is_nan());
         }
     }
 }
 impl PartialOrd for Symbol<f64> {
     fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
-        let both_nan = self.data == std::f64::NAN || other.data == std::f64::NAN;
-        let both_ninf = self.data == std::f64::NEG_INFINITY && other.data == std::f64::NEG_INFINITY;
-        let both_inf = self.data == std::f64::INFINITY && other.data == std::f64::INFINITY;
-
-        let first_ninf =
-            self.data == std::f64::NEG_INFINITY && other.data != std::f64::NEG_INFINITY;
-        let second_ninf =
-            other.data == std::f64::NEG_INFINITY && self.data != std::f64::NEG_INFINITY;
-
-        let first_inf = self.data == std::f64::INFINITY && other.data != std::f64::INFINITY;
-        let second_inf = other.data == std::f64::INFINITY && self.data != std::f64::INFINITY;
-
-        if both_nan || both_inf || both_ninf {
-            return None;
-        }
-
-        if first_ninf || second_inf {
-            return Some(std::cmp::Ordering::Less);
-        }
-
-        if first_inf || second_ninf {
-            return Some(std::cmp::Ordering::Less);
-        }
-
         Some(self.cmp(other))
     }
 }
-- 
2.43.0


From 6dd3ae90f63bf1471d0342dcef2190219c9ebd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:11 +0000
Subject: [PATCH 04/14] fix: like addends are counted exactly whatever their
 size

---
 .../factoring/additive_common_addend.rs       | 25 +++++++++++++------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/manipulation/simplification_rules/factoring/additive_common_addend.rs b/src/manipulation/simplification_rules/factoring/additive_common_addend.rs
index 1c54e1e..5819e8f 100644
--- a/src/manipulation/simplification_rules/factoring/additive_common_addend.rs
+++ b/src/manipulation/simplification_rules/factoring/additive_common_addend.rs
@@ -2,6 +2,7 @@ use crate::base::expression::Expression;
 use crate::base::symbol::Symbol;
 use crate::manipulation::simplification_rules::rule::Rule;
 
+use num::bigint::BigInt;
 use std::collections::HashMap;
 
 pub struct AdditiveCommonAddend {}
@@ -9,12 +10,12 @@ impl Rule for AdditiveCommonAddend {
     fn apply(expression: &Expression) -> Expression {
         match expression {
             Expression::Addition(addends) => {
-                let mut addend_count_list: HashMap<Expression, isize> = HashMap::new();
+                let mut addend_count_list: HashMap<Expression, Symbol<BigInt>> = HashMap::new();
 
                 fn update_addend_list(
-                    mapping: &mut HashMap<Expression, isize>,
+                    mapping: &mut HashMap<Expression, Symbol<BigInt>>,
                     addend: &Expression,
-                    counter: isize,
+                    counter: Symbol<BigInt>,
                 ) {
                     let opposite = &-addend;
 
@@ -45,26 +46,34 @@ impl Rule for AdditiveCommonAddend {
                                     update_addend_list(
                                         &mut addend_count_list,
                                         &Expression::multiplication(remaining_factors),
-                                        integer.value().unwrap(),
+                                        integer,
                                     );
                                 }
 
                                 /* No Integer factor in multiplication */
                                 _ => {
-                                    update_addend_list(&mut addend_count_list, addend, 1);
+                                    update_addend_list(
+                                &mut addend_count_list,
+                                addend,
+                                Symbol::integer(1),
+                            );
                                 }
                             };
                         }
                         /* Not multiplication */
                         _ => {
-                            update_addend_list(&mut addend_count_list, addend, 1);
+                            update_addend_list(
+                                &mut addend_count_list,
+                                addend,
+                                Symbol::integer(1),
+                            );
                         }
                     }
                 }
                 let addends: Vec<Expression> = addend_count_list
                     .iter()
-                    .filter(|&(_, counter)| counter != &0)
-                    .map(|(expression, counter)| Symbol::integer(*counter).expr() * expression)
+                    .filter(|&(_, counter)| counter != &Symbol::integer(0))
+                    .map(|(expression, counter)| counter.clone().expr() * expression)
                     .collect();
 
                 return Expression::addition(addends);
-- 
2.43.0


From 7b67a7df2d771d002635622553aacbbe5c3e06b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:12 +0000
Subject: [PATCH 05/14] fix: integers out of the machine range no longer panic
 next to reals and logarithms

---
 src/arithmetics/multiplication.rs |  4 +---
 src/exponential/logarithm.rs      |  6 +++++-
 src/exponential/power.rs          |  4 ++--
 src/symbols/integer.rs            | 11 +++++++++++
 4 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/arithmetics/multiplication.rs b/src/arithmetics/multiplication.rs
index 92d11cb..98bce9a 100644
--- a/src/arithmetics/multiplication.rs
+++ b/src/arithmetics/multiplication.rs
@@ -59,9 +59,7 @@ impl Expression {
         }
 
         if integer < Symbol::integer(-1) && real != Symbol::real(1.0) {
-            let real_value = real.value().unwrap();
-            let integer_value = integer.value().unwrap();
-            real = Symbol::real(real_value * (integer_value * -1) as f64);
+            real = real * integer.opposite().to_real();
             integer = Symbol::integer(-1);
         }
 
diff --git a/src/exponential/logarithm.rs b/src/exponential/logarithm.rs
index c228335..fbd315b 100644
--- a/src/exponential/logarithm.rs
+++ b/src/exponential/logarithm.rs
@@ -13,7 +13,11 @@ impl Expression {
             Expression::Integer(integer_argument) => match &base {
                 Expression::Integer(integer_base) => {
                     let log_result: f64 =
-                        (integer_argument.value().unwrap() as f64).log(integer_base.value().unwrap() as f64);
+                        integer_argument
+                        .to_real()
+                        .value()
+                        .unwrap()
+                        .log(integer_base.to_real().value().unwrap());
                     if (log_result as isize) as f64 == log_result {
                         return Symbol::integer(log_result as isize).expr();
                     }
diff --git a/src/exponential/power.rs b/src/exponential/power.rs
index 145977f..4dd4331 100644
--- a/src/exponential/power.rs
+++ b/src/exponential/power.rs
@@ -132,7 +132,7 @@ impl Expression {
                     }
                     /* Simplification (Integer to Real) */
                     Expression::Real(real_exponent) => {
-                        let base_value: f64 = integer_base.value().unwrap() as f64;
+                        let base_value: f64 = integer_base.to_real().value().unwrap();
                         let exp_value: f64 = real_exponent.value().unwrap();
                         return Symbol::real(base_value.powf(exp_value)).expr();
                     }
@@ -189,7 +189,7 @@ impl Expression {
                     /* Simplification (Real to Integer) */
                     Expression::Integer(integer_exponent) => {
                         let base_value: f64 = real_base.value().unwrap();
-                        let exp_value: f64 = integer_exponent.value().unwrap() as f64;
+                        let exp_value: f64 = integer_exponent.to_real().value().unwrap();
                         return Symbol::real(base_value.powf(exp_value)).expr();
                     }
                     /* Simplification (Real to multiplication with Integer or Real) */
diff --git a/src/symbols/integer.rs b/src/symbols/integer.rs
index 8d787b1..c633a68 100644
--- a/src/symbols/integer.rs
+++ b/src/symbols/integer.rs
@@ -13,6 +13,17 @@ impl Symbol<BigInt> {
     pub fn value(&self) -> Option<isize> {
         num::traits::ToPrimitive::to_isize(&self.data)
     }
+    /**
+     * Closest real, infinite when out of range
+     */
+    pub fn to_real(&self) -> Symbol<f64> {
+        let out_of_range = if self.is_negative() {
+            std::f64::NEG_INFINITY
+        } else {
+            std::f64::INFINITY
+        };
+        Symbol::real(num::traits::ToPrimitive::to_f64(&self.data).unwrap_or(out_of_range))
+    }
     pub fn label(&self) -> String {
         format!("{}", self.data)
     }
-- 
2.43.0


From c35d08122ce3087a7e2358493345b457f4fd31e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:38 +0000
Subject: [PATCH 06/14] fix: integer logarithm is simplified only when it is
 exact

---
 src/exponential/logarithm.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/exponential/logarithm.rs b/src/exponential/logarithm.rs
index fbd315b..2e08566 100644
--- a/src/exponential/logarithm.rs
+++ b/src/exponential/logarithm.rs
@@ -19,7 +19,11 @@ impl Expression {
                         .unwrap()
                         .log(integer_base.to_real().value().unwrap());
                     if (log_result as isize) as f64 == log_result {
-                        return Symbol::integer(log_result as isize).expr();
+                        /* the floating point result is a guess, the power is exact */
+                        let exponent = Symbol::integer(log_result as isize);
+                        if integer_base.pow(&exponent).as_ref() == Some(integer_argument) {
+                            return exponent.expr();
+                        }
                     }
                 }
                 _ => {}
-- 
2.43.0


From dac20c770433c5b9bc96c5c98fb5a2bd67ac937d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:39 +0000
Subject: [PATCH 07/14] fix: powers with an exponent out of the machine range
 are left unexpanded

---
 .../expansion_rules/power_distributive_addition.rs          | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/manipulation/expansion_rules/power_distributive_addition.rs b/src/manipulation/expansion_rules/power_distributive_addition.rs
index 4513cff..521757e 100644
--- a/src/manipulation/expansion_rules/power_distributive_addition.rs
+++ b/src/manipulation/expansion_rules/power_distributive_addition.rs
@@ -15,7 +15,11 @@ impl Rule for PowerDistributiveAddition {
                 Expression::Addition(_) => match power.modifier() {
                     /* Single Integer exponent */
                     Expression::Integer(integer_exponent) => {
-                        let exponent = integer_exponent.value().unwrap();
+                        let exponent = match integer_exponent.value() {
+                            Some(exponent) => exponent,
+                            /* too many factors to be expanded */
+                            None => return expression.clone(),
+                        };
                         let mut factors: Vec<Expression> = Vec::new();
 
                         for _ in 0..exponent.abs() {
-- 
2.43.0


From b6610744c3ba50aec96a895bd8a0579d9234dd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:40 +0000
Subject: [PATCH 08/14] fix: products with non rational factors are not read as
 rationals

---
 src/manipulation/simplification_rules/rational/rationals.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/manipulation/simplification_rules/rational/rationals.rs b/src/manipulation/simplification_rules/rational/rationals.rs
index 8b4d7ff..db59120 100644
--- a/src/manipulation/simplification_rules/rational/rationals.rs
+++ b/src/manipulation/simplification_rules/rational/rationals.rs
@@ -25,6 +25,11 @@ impl Rational {
                 _ => return None,
             },
             Expression::Multiplication(factors) => {
+                /* every factor must be rational */
+                if !factors.get_non_rationals().is_empty() {
+                    return None;
+                }
+
                 let numerator = factors
                     .get_rational_numerators()
                     .iter()
-- 
2.43.0


From 053f995d78062d7d292994522497027a7581d591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:41 +0000
Subject: [PATCH 09/14] fix: negated product exponents keep their base when
 denominators are merged

---
 .../factoring/single_algebraic_denominator.rs        | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/manipulation/simplification_rules/factoring/single_algebraic_denominator.rs b/src/manipulation/simplification_rules/factoring/single_algebraic_denominator.rs
index 2aea09d..1010447 100644
--- a/src/manipulation/simplification_rules/factoring/single_algebraic_denominator.rs
+++ b/src/manipulation/simplification_rules/factoring/single_algebraic_denominator.rs
@@ -31,16 +31,14 @@ impl Rule for SingleAlgebraicDenominator {
                                 return power.argument().pow((n * Symbol::integer(-1)).expr())
                             }
                             Expression::Multiplication(power_factors) => {
-                                return Expression::multiplication(power_factors.map(&|factor| {
-                                    match factor {
+                                return power.argument().pow(Expression::multiplication(
+                                    power_factors.map(&|factor| match factor {
                                         Expression::Integer(n) => {
-                                            return power
-                                                .argument()
-                                                .pow((n * Symbol::integer(-1)).expr())
+                                            return (n * Symbol::integer(-1)).expr()
                                         }
                                         _ => return factor.clone(),
-                                    }
-                                }))
+                                    }),
+                                ))
                             }
                             _ => return denominator.clone(),
                         },
-- 
2.43.0


From 314ffc2da4a437a557cd103d07d154aa205f2e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:42 +0000
Subject: [PATCH 10/14] fix: simplify returns the expanded symbol instead of
 the unexpanded expression

---
 src/manipulation/simplifiable.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/manipulation/simplifiable.rs b/src/manipulation/simplifiable.rs
index 6422a0d..6e73e6d 100644
--- a/src/manipulation/simplifiable.rs
+++ b/src/manipulation/simplifiable.rs
@@ -50,7 +50,7 @@ impl Expression {
                 return Expression::logarithm(log.argument().simplify(), log.modifier().simplify())
             }
 
-            _ => return self,
+            expanded => return expanded,
         }
     }
 }
-- 
2.43.0


From 4f02114d8d93db7dad79b745238cbcd07fd56c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:13 +0000
Subject: [PATCH 11/14] fix: numeric differences that are products, sums or
 fractions are compared

---
 src/manipulation/expression_comparison.rs | 86 ++++++++++++++---------
 1 file changed, 52 insertions(+), 34 deletions(-)

diff --git a/src/manipulation/expression_comparison.rs b/src/manipulation/expression_comparison.rs
index 6e3d833..f5ba06f 100644
--- a/src/manipulation/expression_comparison.rs
+++ b/src/manipulation/expression_comparison.rs
@@ -1,65 +1,83 @@
 use crate::base::expression::Expression;
 use crate::base::symbol::Symbol;
+use std::cmp::Ordering;
 
 impl Expression {
     pub fn comparable(&self, other: &Expression) -> bool {
-        match (self - other).simplify() {
-            Expression::Integer(_) => return true,
-            Expression::Real(_) => return true,
-            _ => return false,
-        }
+        self.difference_sign(other).is_some()
     }
 
     pub fn equal(&self, other: &Self) -> bool {
-        let simplified_difference = (self - other).simplify();
-        match simplified_difference {
-            Expression::Integer(n) => return n == Symbol::integer(0),
-            Expression::Real(r) => return r == Symbol::real(0.0),
-            _ => return false,
+        match self.difference_sign(other) {
+            Some(sign) => return sign == Ordering::Equal,
+            None => return false,
         }
     }
 
     pub fn not_equal(&self, other: &Self) -> bool {
-        let simplified_difference = (self - other).simplify();
-        match simplified_difference {
-            Expression::Integer(n) => return n != Symbol::integer(0),
-            Expression::Real(r) => return r != Symbol::real(0.0),
-            _ => return false,
+        match self.difference_sign(other) {
+            Some(sign) => return sign != Ordering::Equal,
+            None => return false,
         }
     }
 
     pub fn greater(&self, other: &Self) -> bool {
-        let simplified_difference = (self - other).simplify();
-        match simplified_difference {
-            Expression::Integer(n) => return n > Symbol::integer(0),
-            Expression::Real(r) => return r > Symbol::real(0.0),
-            _ => return false,
+        match self.difference_sign(other) {
+            Some(sign) => return sign == Ordering::Greater,
+            None => return false,
         }
     }
 
     pub fn lesser(&self, other: &Self) -> bool {
-        let simplified_difference = (self - other).simplify();
-        match simplified_difference {
-            Expression::Integer(n) => return n < Symbol::integer(0),
-            Expression::Real(r) => return r < Symbol::real(0.0),
-            _ => return false,
+        match self.difference_sign(other) {
+            Some(sign) => return sign == Ordering::Less,
+            None => return false,
         }
     }
 
     pub fn greater_equal(&self, other: &Self) -> bool {
-        let simplified_difference = (self - other).simplify();
-        match simplified_difference {
-            Expression::Integer(n) => return n == Symbol::integer(0) || n > Symbol::integer(0),
-            Expression::Real(r) => return r == Symbol::real(0.0) || r > Symbol::real(0.0),
-            _ => return false,
+        match self.difference_sign(other) {
+            Some(sign) => return sign == Ordering::Equal || sign == Ordering::Greater,
+            None => return false,
         }
     }
     pub fn lesser_equal(&self, other: &Self) -> bool {
+        match self.difference_sign(other) {
+            Some(sign) => return sign == Ordering::Equal || sign == Ordering::Less,
+            None => return false,
+        }
+    }
+
+    /**
+     * Sign of the simplified difference, if it is a number
+     */
+    fn difference_sign(&self, other: &Self) -> Option<Ordering> {
         let simplified_difference = (self - other).simplify();
-        match simplified_difference {
-            Expression::Integer(n) => return n == Symbol::integer(0) || n < Symbol::integer(0),
-            Expression::Real(r) => return r == Symbol::real(0.0) || r < Symbol::real(0.0),
-            _ => return false,
+        match &simplified_difference {
+            Expression::Integer(n) => return Some(n.cmp(&Symbol::integer(0))),
+            _ => return simplified_difference.number()?.partial_cmp(&0.0),
+        }
+    }
+
+    /**
+     * Numeric value of sums, products and powers of numbers:
+     *  - a negative real is a product and a fraction is a power
+     */
+    fn number(&self) -> Option<f64> {
+        match self {
+            Expression::Integer(n) => return n.to_real().value(),
+            Expression::Real(r) => return r.value(),
+            Expression::Addition(addends) => {
+                return addends.items().iter().map(|addend| addend.number()).sum()
+            }
+            Expression::Multiplication(factors) => {
+                return factors.items().iter().map(|factor| factor.number()).product()
+            }
+            Expression::Power(power) => {
+                let base = power.argument().number()?;
+                return Some(base.powf(power.modifier().number()?));
+            }
+            _ => return None,
         }
     }
 }
-- 
2.43.0


From 74356c7313a6ce3ee4a4d5cf81e705596b2588cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:40 +0000
Subject: [PATCH 12/14] fix: powers with the smallest machine exponent are left
 unexpanded

---
 .../expansion_rules/power_distributive_addition.rs            | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/manipulation/expansion_rules/power_distributive_addition.rs b/src/manipulation/expansion_rules/power_distributive_addition.rs
index 521757e..8622d28 100644
--- a/src/manipulation/expansion_rules/power_distributive_addition.rs
+++ b/src/manipulation/expansion_rules/power_distributive_addition.rs
@@ -16,9 +16,9 @@ impl Rule for PowerDistributiveAddition {
                     /* Single Integer exponent */
                     Expression::Integer(integer_exponent) => {
                         let exponent = match integer_exponent.value() {
-                            Some(exponent) => exponent,
+                            Some(exponent) if exponent != std::isize::MIN => exponent,
                             /* too many factors to be expanded */
-                            None => return expression.clone(),
+                            _ => return expression.clone(),
                         };
                         let mut factors: Vec<Expression> = Vec::new();
 
-- 
2.43.0


From b1bce657ba0e8bc1dda606d05f0cd7a561931a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:55 +0000
Subject: [PATCH 13/14] fix: real negative one is added to the integer part of
 a sum

---
 src/arithmetics/addition.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/arithmetics/addition.rs b/src/arithmetics/addition.rs
index 62e070b..23f219f 100644
--- a/src/arithmetics/addition.rs
+++ b/src/arithmetics/addition.rs
@@ -45,6 +45,12 @@ impl Expression {
             }
         }
 
+        if real == Symbol::real(-1.0) {
+            /* negative one is represented by an integer */
+            integer = integer - Symbol::integer(1);
+            real = Symbol::real(0.0);
+        }
+
         if integer < Symbol::integer(0) {
             items_vec.push(Expression::multiplication(vec![
                 Symbol::integer(-1).expr(),
-- 
2.43.0


From 5acbbfac62479f16a834ee7f7ce291e3b24f5872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:26 +0000
Subject: [PATCH 14/14] fix: collect the exponents that merging the powers of
 one base adds up

---
 .../factoring/multiplicative_common_factor.rs                   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/manipulation/simplification_rules/factoring/multiplicative_common_factor.rs b/src/manipulation/simplification_rules/factoring/multiplicative_common_factor.rs
index 7fc64a4..97aa21b 100644
--- a/src/manipulation/simplification_rules/factoring/multiplicative_common_factor.rs
+++ b/src/manipulation/simplification_rules/factoring/multiplicative_common_factor.rs
@@ -50,7 +50,7 @@ impl Rule for MultiplicativeCommonFactor {
                         exponent != &Symbol::integer(0).expr()
                             && exponent != &Symbol::real(0.0).expr()
                     })
-                    .map(|(base, exponent)| Expression::power(base.clone(), exponent.clone()))
+                    .map(|(base, exponent)| Expression::power(base.clone(), exponent.clone().simplify()))
                     .collect();
 
                 return Expression::multiplication(factors);
-- 
2.43.0

