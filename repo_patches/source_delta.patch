From 13c26fb16c1ad22a625f02343965cd0f25ab5509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:18 +0000
Subject: [PATCH 01/37] fix: Binomial log-density includes its coefficient and
 is defined at p = 0 and 1

---
 .../src/distributions/discrete/binomial.rs    | 20 ++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/measures-distributions/src/distributions/discrete/binomial.rs b/measures-distributions/src/distributions/discrete/binomial.rs
index 12c1f94..c2e8eb6 100644
--- a/measures-distributions/src/distributions/discrete/binomial.rs
+++ b/measures-distributions/src/distributions/discrete/binomial.rs
@@ -19,7 +19,9 @@
 //! let log_density_value: f64 = ld.at(&3);
 //! ```
 
-use measures_combinators::measures::derived::binomial_coefficient::BinomialCoefficientMeasure;
+use measures_combinators::measures::derived::binomial_coefficient::{
+    BinomialCoefficientMeasure, log_binomial_coefficient,
+};
 use measures_core::primitive::counting::CountingMeasure;
 use measures_core::{False, True};
 use measures_core::{Measure, MeasureMarker};
@@ -151,8 +153,20 @@ impl<T: Float> measures_core::HasLogDensity<u64, T> for Binomial<T> {
             let k = T::from(*x).unwrap();
             let n = T::from(self.n).unwrap();
 
-            // Use log binomial coefficient (this is handled by the base measure)
-            k * self.prob.ln() + (n - k) * (T::one() - self.prob).ln()
+            // 0 * log(0) is 0 here: an outcome that needs no success (or no failure)
+            // is not affected by success (or failure) being impossible
+            let successes = if *x == 0 {
+                T::zero()
+            } else {
+                k * self.prob.ln()
+            };
+            let failures = if *x == self.n {
+                T::zero()
+            } else {
+                (n - k) * (T::one() - self.prob).ln()
+            };
+
+            log_binomial_coefficient::<T>(self.n, *x) + successes + failures
         } else {
             T::neg_infinity() // Outside support
         }
-- 
2.43.0


From 975ff96990e34043a1b8f3f0733ec5d45f333a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:18 +0000
Subject: [PATCH 02/37] fix: NegativeBinomial log-density counts successes
 before failures and includes its coefficient

---
 .../distributions/discrete/negative_binomial.rs    | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/measures-distributions/src/distributions/discrete/negative_binomial.rs b/measures-distributions/src/distributions/discrete/negative_binomial.rs
index 4d7f4e8..5f4076e 100644
--- a/measures-distributions/src/distributions/discrete/negative_binomial.rs
+++ b/measures-distributions/src/distributions/discrete/negative_binomial.rs
@@ -20,7 +20,9 @@
 //! let log_density_value: f64 = ld.at(&3);
 //! ```
 
-use measures_combinators::measures::derived::negative_binomial_coefficient::NegativeBinomialCoefficientMeasure;
+use measures_combinators::measures::derived::negative_binomial_coefficient::{
+    NegativeBinomialCoefficientMeasure, log_negative_binomial_coefficient,
+};
 use measures_core::primitive::counting::CountingMeasure;
 use measures_core::{False, True};
 use measures_core::{Measure, MeasureMarker};
@@ -159,12 +161,14 @@ where
 // Implementation of HasLogDensity for NegativeBinomial distribution
 impl<T: Float> measures_core::HasLogDensity<u64, T> for NegativeBinomial<T> {
     fn log_density_wrt_root(&self, x: &u64) -> T {
-        // Negative Binomial PMF: P(X = k) = C(k+r-1, k) * p^r * (1-p)^k
-        // log P(X = k) = log(C(k+r-1, k)) + r*log(p) + k*log(1-p)
+        // k successes (probability p each) before r failures:
+        // P(X = k) = C(k+r-1, k) * p^k * (1-p)^r
+        // log P(X = k) = log(C(k+r-1, k)) + k*log(p) + r*log(1-p)
         let k = T::from(*x).unwrap();
         let r = T::from(self.r).unwrap();
 
-        // The log binomial coefficient is handled by the base measure
-        r * self.prob.ln() + k * (T::one() - self.prob).ln()
+        log_negative_binomial_coefficient::<T>(self.r, *x)
+            + k * self.prob.ln()
+            + r * (T::one() - self.prob).ln()
     }
 }
-- 
2.43.0


From dca0c3434ff2030c95e619cea70181a1d73a51fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:18 +0000
Subject: [PATCH 03/37] fix: Geometric log-density is 0 at the first trial when
 success is certain

---
 .../src/distributions/discrete/geometric.rs               | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/measures-distributions/src/distributions/discrete/geometric.rs b/measures-distributions/src/distributions/discrete/geometric.rs
index fd5928b..cf7b1ea 100644
--- a/measures-distributions/src/distributions/discrete/geometric.rs
+++ b/measures-distributions/src/distributions/discrete/geometric.rs
@@ -155,8 +155,12 @@ impl<T: Float> measures_core::HasLogDensity<u64, T> for Geometric<T> {
         // Geometric PMF: P(X = k) = (1-p)^(k-1) * p for k = 1, 2, 3, ...
         // log P(X = k) = (k-1)*log(1-p) + log(p)
         if *x >= 1 {
-            let k = T::from(*x).unwrap();
-            (k - T::one()) * (T::one() - self.prob).ln() + self.prob.ln()
+            let failures = if *x == 1 {
+                T::zero() // no failure needed, even when failure is impossible (p = 1)
+            } else {
+                T::from(*x - 1).unwrap() * (T::one() - self.prob).ln()
+            };
+            failures + self.prob.ln()
         } else {
             T::neg_infinity() // Outside support (k must be >= 1)
         }
-- 
2.43.0


From eabbaf92cba23d275f88bf025da5532c2fe4eca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:18 +0000
Subject: [PATCH 04/37] fix: Geometric log-partition normalises over the trials
 1, 2, 3, ...

---
 .../src/distributions/discrete/geometric.rs                 | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/measures-distributions/src/distributions/discrete/geometric.rs b/measures-distributions/src/distributions/discrete/geometric.rs
index cf7b1ea..d5fd7de 100644
--- a/measures-distributions/src/distributions/discrete/geometric.rs
+++ b/measures-distributions/src/distributions/discrete/geometric.rs
@@ -30,7 +30,7 @@ use num_traits::Float;
 /// This is a member of the exponential family with:
 /// - Natural parameter: η = log(1-p)
 /// - Sufficient statistic: T(x) = x
-/// - Log partition: A(η) = -log(-η/(1+η)) = -log(1-p) - log(p)
+/// - Log partition: A(η) = η - log(1 - exp(η)) = log(1-p) - log(p)
 /// - Base measure: Counting measure on {1, 2, 3, ...}
 #[derive(Clone, Debug)]
 pub struct Geometric<T> {
@@ -117,8 +117,8 @@ where
     fn natural_and_log_partition(&self) -> (<Self as ExponentialFamily<u64, T>>::NaturalParam, T) {
         let natural_param = [self.failure_prob().ln()];
 
-        // Log partition: A(η) = -log(1 - exp(η)) = -log(p)
-        let log_partition = -self.prob.ln();
+        // Log partition over {1, 2, 3, ...}: A(η) = log(exp(η) / (1 - exp(η))) = log(1-p) - log(p)
+        let log_partition = self.failure_prob().ln() - self.prob.ln();
 
         (natural_param, log_partition)
     }
-- 
2.43.0


From 1b3e1cf005852eab5700e07815a668f91e8b7346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:18 +0000
Subject: [PATCH 05/37] fix: Exponential log-partition has the sign of
 -log(rate)

---
 .../src/distributions/continuous/exponential.rs                | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/measures-distributions/src/distributions/continuous/exponential.rs b/measures-distributions/src/distributions/continuous/exponential.rs
index ac5e04e..44632c4 100644
--- a/measures-distributions/src/distributions/continuous/exponential.rs
+++ b/measures-distributions/src/distributions/continuous/exponential.rs
@@ -100,7 +100,8 @@ where
 
     fn natural_and_log_partition(&self) -> (<Self as ExponentialFamily<T, T>>::NaturalParam, T) {
         let natural_param = [-self.rate];
-        let log_partition = self.rate.ln();
+        // Log partition: A(η) = -log(-η) = -log(λ)
+        let log_partition = -self.rate.ln();
         (natural_param, log_partition)
     }
 }
-- 
2.43.0


From bd7fe61687c35de3eb94efd1f27f3be348c8fcb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:18 +0000
Subject: [PATCH 06/37] fix: LogDensity no longer mistakes two zero-sized
 measures for one

---
 measures-core/src/core/density.rs | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/measures-core/src/core/density.rs b/measures-core/src/core/density.rs
index b021466..cea8b02 100644
--- a/measures-core/src/core/density.rs
+++ b/measures-core/src/core/density.rs
@@ -223,14 +223,6 @@ where
 {
     #[inline]
     fn at(&self, x: &T) -> F {
-        // Check if we're computing density with respect to self
-        if std::ptr::eq(
-            (&raw const self.measure).cast::<()>(),
-            (&raw const self.base_measure).cast::<()>(),
-        ) {
-            return F::zero(); // log(dm/dm) = 0
-        }
-
         // Use type-level dispatch based on IsExponentialFamily markers
         <(M1::IsExponentialFamily, M2::IsExponentialFamily) as ExpFamDispatch<T, M1, M2, F>>::compute(
             &self.measure,
-- 
2.43.0


From b5a3bc8e24a4e20a1176c899c7b4190f16c8a12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:49 +0000
Subject: [PATCH 07/37] fix: Categorical accepts single-precision probabilities
 that sum to 1 up to rounding

---
 .../src/distributions/discrete/categorical.rs                 | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/measures-distributions/src/distributions/discrete/categorical.rs b/measures-distributions/src/distributions/discrete/categorical.rs
index 1dddcad..f3329fb 100644
--- a/measures-distributions/src/distributions/discrete/categorical.rs
+++ b/measures-distributions/src/distributions/discrete/categorical.rs
@@ -51,9 +51,11 @@ impl<T: Float + std::iter::Sum> Categorical<T> {
             "All probabilities must be non-negative"
         );
 
+        // The sum of k rounded probabilities may be off by k rounding errors of T
         let sum: T = probs.iter().copied().sum();
+        let rounding = T::epsilon() * T::from(probs.len()).unwrap();
         assert!(
-            (sum - T::one()).abs() < T::from(1e-10).unwrap(),
+            (sum - T::one()).abs() < T::from(1e-10).unwrap().max(rounding),
             "Probabilities must sum to 1"
         );
 
-- 
2.43.0


From 94f1f4b768cfc107232d555fe7fe2b0fa1349608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:49 +0000
Subject: [PATCH 08/37] fix: MixtureMeasure rejects negative weights and
 accepts single-precision weights summing to 1 up to rounding

---
 .../src/measures/combinators/superposition.rs        | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/measures-combinators/src/measures/combinators/superposition.rs b/measures-combinators/src/measures/combinators/superposition.rs
index 36cdcd8..d16994c 100644
--- a/measures-combinators/src/measures/combinators/superposition.rs
+++ b/measures-combinators/src/measures/combinators/superposition.rs
@@ -34,7 +34,8 @@ impl<M, F: Float> MixtureMeasure<M, F> {
     /// * `weights` - Vector of mixture weights (should sum to 1)
     ///
     /// # Panics
-    /// Panics if components and weights have different lengths or if weights don't sum to 1.
+    /// Panics if components and weights have different lengths, if a weight is negative,
+    /// or if weights don't sum to 1.
     #[must_use]
     pub fn new(components: Vec<M>, weights: Vec<F>) -> Self {
         assert_eq!(
@@ -43,9 +44,16 @@ impl<M, F: Float> MixtureMeasure<M, F> {
             "Components and weights must have same length"
         );
 
+        assert!(
+            weights.iter().all(|&w| w >= F::zero()),
+            "Weights must be non-negative"
+        );
+
+        // The sum of k rounded weights may be off by k rounding errors of F
+        let rounding = F::epsilon() * F::from(weights.len()).unwrap();
         let weight_sum: F = weights.iter().copied().fold(F::zero(), |acc, w| acc + w);
         assert!(
-            (weight_sum - F::one()).abs() < F::from(1e-10).unwrap(),
+            (weight_sum - F::one()).abs() < F::from(1e-10).unwrap().max(rounding),
             "Weights must sum to 1"
         );
 
-- 
2.43.0


From daf21008de2d0b73e931764a9a4c74ca010c02db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:49 +0000
Subject: [PATCH 09/37] fix: a mixture is not NaN where a component density is
 infinite

---
 .../src/measures/combinators/superposition.rs                | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/measures-combinators/src/measures/combinators/superposition.rs b/measures-combinators/src/measures/combinators/superposition.rs
index d16994c..06f0fbe 100644
--- a/measures-combinators/src/measures/combinators/superposition.rs
+++ b/measures-combinators/src/measures/combinators/superposition.rs
@@ -125,6 +125,7 @@ where
             .components
             .iter()
             .zip(&self.weights)
+            .filter(|&(_, &weight)| weight > F::zero())
             .map(|(component, &weight)| {
                 let log_density = component.log_density_wrt_root(x);
                 weight.ln() + log_density
@@ -149,8 +150,8 @@ fn log_sum_exp<F: Float>(log_values: &[F]) -> F {
         .copied()
         .fold(F::neg_infinity(), |acc, x| if x > acc { x } else { acc });
 
-    if max_val.is_infinite() && max_val < F::zero() {
-        return F::neg_infinity();
+    if max_val.is_infinite() {
+        return max_val;
     }
 
     // Compute log(Σᵢ exp(xᵢ - max)) + max
-- 
2.43.0


From 93299600fa5db09f65450cbd86f4d1e725dac071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:14 +0000
Subject: [PATCH 10/37] fix: a pushforward has no density outside the image of
 its map

---
 .../src/measures/combinators/pushforward.rs                 | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/measures-combinators/src/measures/combinators/pushforward.rs b/measures-combinators/src/measures/combinators/pushforward.rs
index 7ebf117..8f24fdf 100644
--- a/measures-combinators/src/measures/combinators/pushforward.rs
+++ b/measures-combinators/src/measures/combinators/pushforward.rs
@@ -64,7 +64,8 @@ where
     fn in_support(&self, y: f64) -> bool {
         // y is in support if f⁻¹(y) is in support of the base measure
         let x = (self.inverse)(&y);
-        self.base_measure.in_support(x)
+        // (a y with no finite preimage is not in the image of f)
+        x.is_finite() && self.base_measure.in_support(x)
     }
 
     fn root_measure(&self) -> Self::RootMeasure {
@@ -83,6 +84,9 @@ where
         // Change of variables formula:
         // log(dν/dλ)(y) = log(dμ/dλ)(f⁻¹(y)) + log|det(Df⁻¹(y))|
         let x = (self.inverse)(y);
+        if !x.is_finite() {
+            return f64::NEG_INFINITY; // y is not in the image of f
+        }
         let base_log_density = self.base_measure.log_density_wrt_root(&x);
         let log_jacobian = (self.log_abs_det_jacobian)(y);
 
-- 
2.43.0


From 48675e0b41cc1b7e3479cd03671a786d3475f0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:14 +0000
Subject: [PATCH 11/37] fix: the logit transform does not overflow for large
 arguments

---
 .../src/measures/combinators/pushforward.rs              | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/measures-combinators/src/measures/combinators/pushforward.rs b/measures-combinators/src/measures/combinators/pushforward.rs
index 8f24fdf..7959762 100644
--- a/measures-combinators/src/measures/combinators/pushforward.rs
+++ b/measures-combinators/src/measures/combinators/pushforward.rs
@@ -169,14 +169,13 @@ pub mod transforms {
     ) {
         let forward = |x: &F| (*x / (F::one() - *x)).ln();
         let inverse = |y: &F| {
-            let exp_y = y.exp();
-            exp_y / (F::one() + exp_y)
+            (F::one() + (-*y).exp()).recip()
         };
         let log_abs_det_jacobian = |y: &F| {
             // d/dy sigmoid(y) = sigmoid(y) * (1 - sigmoid(y))
-            // log|det| = log(sigmoid(y)) + log(1 - sigmoid(y)) = -y - 2*log(1 + exp(-y))
-            let exp_neg_y = (-*y).exp();
-            -(*y) - (F::one() + exp_neg_y).ln() - (F::one() + exp_neg_y).ln()
+            // log|det| = log(sigmoid(y)) + log(1 - sigmoid(y)) = -|y| - 2*log(1 + exp(-|y|))
+            let log_norm = (F::one() + (-y.abs()).exp()).ln();
+            -y.abs() - log_norm - log_norm
         };
 
         (forward, inverse, log_abs_det_jacobian)
-- 
2.43.0


From 980f9760612baa371bb269dace25a22cbbfc5f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:23 +0000
Subject: [PATCH 12/37] fix: safe_convert keeps integers beyond 2^53 exact

---
 measures-core/src/core/utils.rs | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/measures-core/src/core/utils.rs b/measures-core/src/core/utils.rs
index 026e608..0b49237 100644
--- a/measures-core/src/core/utils.rs
+++ b/measures-core/src/core/utils.rs
@@ -2,6 +2,27 @@
 
 use num_traits::Float;
 
+/// Convert through an integer where the value is one, so that integers beyond
+/// the 53 bits of an `f64` are not rounded, and through `f64` otherwise.
+fn convert<T, U>(value: &T) -> Option<U>
+where
+    T: num_traits::ToPrimitive,
+    U: num_traits::FromPrimitive,
+{
+    let float = value.to_f64();
+    // Zero takes the floating-point route, which keeps its sign
+    if let Some(i) = value.to_i128() {
+        if i != 0 && float.is_none_or(|f| f == i as f64) {
+            return U::from_i128(i);
+        }
+    } else if let Some(u) = value.to_u128() {
+        if float.is_none_or(|f| f == u as f64) {
+            return U::from_u128(u);
+        }
+    }
+    float.and_then(U::from_f64)
+}
+
 /// Safe conversion from one numeric type to another.
 ///
 /// This provides a safer alternative to `.unwrap()` calls throughout the codebase.
@@ -11,11 +32,7 @@ where
     T: num_traits::ToPrimitive,
     U: num_traits::FromPrimitive + Default,
 {
-    if let Some(f64_val) = value.to_f64() {
-        U::from_f64(f64_val).unwrap_or_default()
-    } else {
-        U::default()
-    }
+    convert(&value).unwrap_or_default()
 }
 
 /// Safe conversion with explicit fallback value.
@@ -24,11 +41,7 @@ where
     T: num_traits::ToPrimitive,
     U: num_traits::FromPrimitive + Copy,
 {
-    if let Some(f64_val) = value.to_f64() {
-        U::from_f64(f64_val).unwrap_or(fallback)
-    } else {
-        fallback
-    }
+    convert(&value).unwrap_or(fallback)
 }
 
 /// Safe conversion for Float types with better error handling.
-- 
2.43.0


From 529996bd02ac2eac2de1337eed61b0bf39baa807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:01 +0000
Subject: [PATCH 13/37] fix: Expr::evaluate reports errors in a factor
 multiplied by zero

---
 symbolic-math/src/expr.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/symbolic-math/src/expr.rs b/symbolic-math/src/expr.rs
index 4ad3a3a..eff096d 100644
--- a/symbolic-math/src/expr.rs
+++ b/symbolic-math/src/expr.rs
@@ -196,7 +196,11 @@ impl Expr {
 
             Expr::Mul(left, right) => match (left.as_ref(), right.as_ref()) {
                 (Expr::Const(a), Expr::Const(b)) => Ok(a * b),
-                (Expr::Const(0.0), _) | (_, Expr::Const(0.0)) => Ok(0.0),
+                (Expr::Const(0.0), expr) | (expr, Expr::Const(0.0)) => {
+                    // The product is zero only where the other factor is defined
+                    expr.evaluate(vars)?;
+                    Ok(0.0)
+                }
                 (Expr::Const(1.0), expr) => expr.evaluate(vars),
                 (expr, Expr::Const(1.0)) => expr.evaluate(vars),
                 _ => Ok(left.evaluate(vars)? * right.evaluate(vars)?),
-- 
2.43.0


From 8353d492881f8b454675830afb47e28fa0033ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:01 +0000
Subject: [PATCH 14/37] fix: evaluate_batch_optimized reports unbound variables
 instead of using 0

---
 symbolic-math/src/expr.rs | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/symbolic-math/src/expr.rs b/symbolic-math/src/expr.rs
index eff096d..03bff07 100644
--- a/symbolic-math/src/expr.rs
+++ b/symbolic-math/src/expr.rs
@@ -310,14 +310,7 @@ impl Expr {
             }
         } else {
             // Standard path with HashMap reuse
-            let mut var_map = HashMap::with_capacity(vars.len());
-
-            // Pre-populate with any constants or other variables (if needed)
-            for var in &vars {
-                if var != var_name {
-                    var_map.insert(var.clone(), 0.0); // Will be overwritten if needed
-                }
-            }
+            let mut var_map = HashMap::with_capacity(1);
 
             for &value in values {
                 var_map.insert(var_name.to_string(), value);
-- 
2.43.0


From f76c0c661e3e4c7b6ba6fafaff8656cd0e62f45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:01 +0000
Subject: [PATCH 15/37] fix: simplify keeps sqrt(x^2), (x^a)^b and ln(x^a)
 where the rewrite is wrong for negative x

---
 symbolic-math/src/expr.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/symbolic-math/src/expr.rs b/symbolic-math/src/expr.rs
index 03bff07..a1ec697 100644
--- a/symbolic-math/src/expr.rs
+++ b/symbolic-math/src/expr.rs
@@ -491,8 +491,10 @@ impl Expr {
                 (_, Expr::Const(0.0)) => Expr::Const(1.0),
                 (expr, Expr::Const(1.0)) => expr,
                 (Expr::Const(1.0), _) => Expr::Const(1.0),
-                // (x^a)^b = x^(a*b)
-                (Expr::Pow(inner_base, inner_exp), outer_exp) => {
+                // (x^a)^b = x^(a*b), valid for every x only when b is an integer
+                (Expr::Pow(inner_base, inner_exp), outer_exp)
+                    if matches!(&outer_exp, Expr::Const(b) if b.fract() == 0.0) =>
+                {
                     let combined_exp = Expr::Mul(inner_exp, Box::new(outer_exp));
                     Expr::Pow(inner_base, Box::new(combined_exp.simplify()))
                 }
@@ -502,8 +504,10 @@ impl Expr {
                 Expr::Const(a) if a > 0.0 => Expr::Const(a.ln()),
                 Expr::Const(1.0) => Expr::Const(0.0),
                 Expr::Exp(inner) => *inner,
-                // ln(x^a) = a * ln(x)
-                Expr::Pow(base, exp) => Expr::Mul(exp, Box::new(Expr::Ln(base))),
+                // ln(x^a) = a * ln(x), unless a is even and x may be negative
+                Expr::Pow(base, exp) if matches!(exp.as_ref(), Expr::Const(a) if a % 2.0 != 0.0) => {
+                    Expr::Mul(exp, Box::new(Expr::Ln(base)))
+                }
                 expr => Expr::Ln(Box::new(expr)),
             },
             Expr::Exp(expr) => match expr.simplify() {
@@ -521,11 +525,6 @@ impl Expr {
                 Expr::Const(a) if a >= 0.0 => Expr::Const(a.sqrt()),
                 Expr::Const(0.0) => Expr::Const(0.0),
                 Expr::Const(1.0) => Expr::Const(1.0),
-                // sqrt(x^2) = |x| (simplified to x for positive domains)
-                Expr::Pow(base, exp) => match exp.as_ref() {
-                    Expr::Const(2.0) => *base,
-                    _ => Expr::Sqrt(Box::new(Expr::Pow(base, exp))),
-                },
                 expr => Expr::Sqrt(Box::new(expr)),
             },
             Expr::Sin(expr) => match expr.simplify() {
-- 
2.43.0


From d2ebb717996f3152f45bafb6aaa3c82752d2ce1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:01 +0000
Subject: [PATCH 16/37] fix: expression caches use keys that identify the
 expression and the assignment

---
 symbolic-math/src/expr.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/symbolic-math/src/expr.rs b/symbolic-math/src/expr.rs
index a1ec697..275e1a3 100644
--- a/symbolic-math/src/expr.rs
+++ b/symbolic-math/src/expr.rs
@@ -10,7 +10,7 @@
 //! - Constant folding and algebraic simplification
 //! - Type-safe expression construction
 
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 use std::fmt;
 use std::ops::{Add, Div, Mul, Neg, Sub};
 use std::sync::{Arc, Mutex};
@@ -549,7 +549,8 @@ impl Expr {
     /// Simplify the expression using algebraic rules with caching
     #[must_use]
     pub fn simplify_cached(self) -> Self {
-        let expr_str = format!("{self}");
+        // The debug form is injective, unlike the infix rendering
+        let expr_str = format!("{self:?}");
 
         // Check cache first
         if let Ok(cache) = SIMPLIFICATION_CACHE.lock()
@@ -578,8 +579,10 @@ impl Expr {
 
     /// Evaluate the expression with caching for repeated evaluations
     pub fn evaluate_cached(&self, vars: &HashMap<String, f64>) -> Result<f64, EvalError> {
-        let expr_str = format!("{self}");
-        let vars_str = format!("{vars:?}");
+        // The debug form is injective, unlike the infix rendering, and the assignment is
+        // sorted so that its key does not depend on the map's iteration order
+        let expr_str = format!("{self:?}");
+        let vars_str = format!("{:?}", vars.iter().collect::<BTreeMap<_, _>>());
         let cache_key = (expr_str.clone(), vars_str);
 
         // Check cache first
-- 
2.43.0


From dfd3f5aab45be5a5019aab3c8be4fd1a58ea8b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:01 +0000
Subject: [PATCH 17/37] fix: infix, LaTeX and Python renderings keep the
 grouping of the expression

---
 symbolic-math/src/expr.rs | 93 ++++++++++++++++++++++++++++-----------
 symbolic-math/src/lib.rs  |  4 +-
 2 files changed, 69 insertions(+), 28 deletions(-)

diff --git a/symbolic-math/src/expr.rs b/symbolic-math/src/expr.rs
index 275e1a3..38de6e1 100644
--- a/symbolic-math/src/expr.rs
+++ b/symbolic-math/src/expr.rs
@@ -724,7 +724,13 @@ impl fmt::Display for Expr {
             Expr::Sub(left, right) => write!(f, "({left} - {right})"),
             Expr::Mul(left, right) => write!(f, "({left} * {right})"),
             Expr::Div(left, right) => write!(f, "({left} / {right})"),
-            Expr::Pow(base, exponent) => write!(f, "({base}^{exponent})"),
+            // A negative constant needs parentheses of its own: -2^2 reads as -(2^2)
+            Expr::Pow(base, exponent) => match base.as_ref() {
+                Expr::Const(value) if value.is_sign_negative() => {
+                    write!(f, "(({value})^{exponent})")
+                }
+                _ => write!(f, "({base}^{exponent})"),
+            },
             Expr::Ln(expr) => write!(f, "ln({expr})"),
             Expr::Exp(expr) => write!(f, "exp({expr})"),
             Expr::Sqrt(expr) => write!(f, "sqrt({expr})"),
@@ -739,35 +745,66 @@ impl Expr {
     /// Format as LaTeX for mathematical documents
     #[must_use]
     pub fn to_latex(&self) -> String {
+        self.latex_level().0
+    }
+
+    /// LaTeX text together with how tightly it binds: 0 leading sign, 1 sum, 2 product,
+    /// 3 function, fraction or power, 4 atom
+    fn latex_level(&self) -> (String, u8) {
         match self {
             Expr::Const(value) => {
-                if value.fract() == 0.0 && value.abs() < 1e10 {
+                let text = if value.fract() == 0.0 && value.abs() < 1e10 {
                     format!("{}", *value as i64)
                 } else {
                     format!("{value}")
-                }
+                };
+                (text, if *value < 0.0 { 0 } else { 4 })
+            }
+            Expr::Var(name) => (name.clone(), 4),
+            Expr::Add(left, right) => {
+                let (left, level) = left.latex_level();
+                (format!("{left} + {}", right.latex_at(1)), level.min(1))
+            }
+            Expr::Sub(left, right) => {
+                let (left, level) = left.latex_level();
+                (format!("{left} - {}", right.latex_at(2)), level.min(1))
             }
-            Expr::Var(name) => name.clone(),
-            Expr::Add(left, right) => format!("{} + {}", left.to_latex(), right.to_latex()),
-            Expr::Sub(left, right) => format!("{} - {}", left.to_latex(), right.to_latex()),
             Expr::Mul(left, right) => match (left.as_ref(), right.as_ref()) {
-                (Expr::Const(c), _) if *c == 1.0 => right.to_latex(),
-                (Expr::Const(c), _) if *c == -1.0 => format!("-{}", right.to_latex()),
-                (Expr::Const(_), Expr::Var(_)) => {
-                    format!("{}{}", left.to_latex(), right.to_latex())
-                }
-                _ => format!("{} \\cdot {}", left.to_latex(), right.to_latex()),
+                (Expr::Const(c), _) if *c == 1.0 => right.latex_level(),
+                (Expr::Const(c), _) if *c == -1.0 => (format!("-{}", right.latex_at(2)), 0),
+                (Expr::Const(c), Expr::Var(_)) => (
+                    format!("{}{}", left.to_latex(), right.to_latex()),
+                    if *c < 0.0 { 0 } else { 2 },
+                ),
+                _ => (
+                    format!("{} \\cdot {}", left.latex_at(2), right.latex_at(2)),
+                    2,
+                ),
             },
-            Expr::Div(left, right) => {
-                format!("\\frac{{{}}}{{{}}}", left.to_latex(), right.to_latex())
-            }
-            Expr::Pow(base, exponent) => format!("{}^{{{}}}", base.to_latex(), exponent.to_latex()),
-            Expr::Ln(expr) => format!("\\ln({})", expr.to_latex()),
-            Expr::Exp(expr) => format!("e^{{{}}}", expr.to_latex()),
-            Expr::Sqrt(expr) => format!("\\sqrt{{{}}}", expr.to_latex()),
-            Expr::Sin(expr) => format!("\\sin({})", expr.to_latex()),
-            Expr::Cos(expr) => format!("\\cos({})", expr.to_latex()),
-            Expr::Neg(expr) => format!("-({})", expr.to_latex()),
+            Expr::Div(left, right) => (
+                format!("\\frac{{{}}}{{{}}}", left.to_latex(), right.to_latex()),
+                3,
+            ),
+            Expr::Pow(base, exponent) => (
+                format!("{}^{{{}}}", base.latex_at(4), exponent.to_latex()),
+                3,
+            ),
+            Expr::Ln(expr) => (format!("\\ln({})", expr.to_latex()), 3),
+            Expr::Exp(expr) => (format!("e^{{{}}}", expr.to_latex()), 3),
+            Expr::Sqrt(expr) => (format!("\\sqrt{{{}}}", expr.to_latex()), 3),
+            Expr::Sin(expr) => (format!("\\sin({})", expr.to_latex()), 3),
+            Expr::Cos(expr) => (format!("\\cos({})", expr.to_latex()), 3),
+            Expr::Neg(expr) => (format!("-({})", expr.to_latex()), 0),
+        }
+    }
+
+    /// LaTeX text for a position that requires at least the given level
+    fn latex_at(&self, minimum: u8) -> String {
+        let (text, level) = self.latex_level();
+        if level < minimum {
+            format!("({text})")
+        } else {
+            text
         }
     }
 
@@ -782,15 +819,19 @@ impl Expr {
             Expr::Sub(left, right) => format!("({} - {})", left.to_python(), right.to_python()),
             Expr::Mul(left, right) => format!("({} * {})", left.to_python(), right.to_python()),
             Expr::Div(left, right) => format!("({} / {})", left.to_python(), right.to_python()),
-            Expr::Pow(base, exponent) => {
-                format!("({} ** {})", base.to_python(), exponent.to_python())
-            }
+            // ** binds tighter than a sign: -2 ** 2 reads as -(2 ** 2)
+            Expr::Pow(base, exponent) => match base.as_ref() {
+                Expr::Const(value) if value.is_sign_negative() => {
+                    format!("(({value}) ** {})", exponent.to_python())
+                }
+                _ => format!("({} ** {})", base.to_python(), exponent.to_python()),
+            },
             Expr::Ln(expr) => format!("math.log({})", expr.to_python()),
             Expr::Exp(expr) => format!("math.exp({})", expr.to_python()),
             Expr::Sqrt(expr) => format!("math.sqrt({})", expr.to_python()),
             Expr::Sin(expr) => format!("math.sin({})", expr.to_python()),
             Expr::Cos(expr) => format!("math.cos({})", expr.to_python()),
-            Expr::Neg(expr) => format!("-({})", expr.to_python()),
+            Expr::Neg(expr) => format!("(-{})", expr.to_python()),
         }
     }
 }
diff --git a/symbolic-math/src/lib.rs b/symbolic-math/src/lib.rs
index 9688c90..f6761b3 100644
--- a/symbolic-math/src/lib.rs
+++ b/symbolic-math/src/lib.rs
@@ -299,13 +299,13 @@ pub mod display {
     /// Generate LaTeX representation of an expression
     #[must_use]
     pub fn latex(expr: &Expr) -> String {
-        format!("${expr}$")
+        format!("${}$", expr.to_latex())
     }
 
     /// Generate Python code representation of an expression
     #[must_use]
     pub fn python(expr: &Expr) -> String {
-        format!("lambda vars: {expr}")
+        format!("lambda vars: {}", expr.to_python())
     }
 
     /// Generate a mathematical equation string
-- 
2.43.0


From 84ad81cb59c50eae00e01819d02a02ea9d8e537c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:15 +0000
Subject: [PATCH 18/37] fix: symbolic densities keep their variable list in
 step with the expression

---
 symbolic-math/src/expr.rs | 2 ++
 symbolic-math/src/jit.rs  | 1 +
 2 files changed, 3 insertions(+)

diff --git a/symbolic-math/src/expr.rs b/symbolic-math/src/expr.rs
index 38de6e1..6f590a2 100644
--- a/symbolic-math/src/expr.rs
+++ b/symbolic-math/src/expr.rs
@@ -1137,6 +1137,7 @@ impl SymbolicLogDensity {
     #[must_use]
     pub fn simplify(mut self) -> Self {
         self.expression = self.expression.simplify();
+        self.variables = self.expression.variables();
         self
     }
 
@@ -1144,6 +1145,7 @@ impl SymbolicLogDensity {
     #[must_use]
     pub fn substitute_parameters(mut self) -> Self {
         self.expression = self.substitute_expr(self.expression.clone());
+        self.variables = self.expression.variables();
         self
     }
 
diff --git a/symbolic-math/src/jit.rs b/symbolic-math/src/jit.rs
index 4653189..62de118 100644
--- a/symbolic-math/src/jit.rs
+++ b/symbolic-math/src/jit.rs
@@ -1004,6 +1004,7 @@ impl CustomSymbolicLogDensity {
     #[must_use]
     pub fn simplify(mut self) -> Self {
         self.expression = self.expression.simplify();
+        self.variables = self.expression.variables();
         self
     }
 }
-- 
2.43.0


From 218ad9f1564fd228322eaa10db0995a6927448b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:15 +0000
Subject: [PATCH 19/37] fix: compile_custom_expression binds the input, not a
 parameter, to the argument

---
 symbolic-math/src/jit.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/symbolic-math/src/jit.rs b/symbolic-math/src/jit.rs
index 62de118..b4e1305 100644
--- a/symbolic-math/src/jit.rs
+++ b/symbolic-math/src/jit.rs
@@ -1019,8 +1019,12 @@ fn generate_custom_log_density(
     // Create a variable mapping with the input value
     let mut var_map = std::collections::HashMap::new();
 
-    // Assume the first variable in the expression is the input variable
-    if let Some(var_name) = symbolic.variables.first() {
+    // The input variable is the first one that has no parameter value
+    if let Some(var_name) = symbolic
+        .variables
+        .iter()
+        .find(|name| !symbolic.parameters.contains_key(*name))
+    {
         var_map.insert(var_name.clone(), x_val);
     }
 
-- 
2.43.0


From 8c34d638891fc0272c71b683f1bb8630e6d5f64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:49 +0000
Subject: [PATCH 20/37] fix: compiled functions receive their inputs the way
 the call methods pass them

call_batch handed two arrays to a function compiled to take every value in a
register, and call_data_params rejected all parameter counts but 2 and 3.
---
 symbolic-math/src/jit.rs | 184 +++++++++++++++++++--------------------
 1 file changed, 89 insertions(+), 95 deletions(-)

diff --git a/symbolic-math/src/jit.rs b/symbolic-math/src/jit.rs
index b4e1305..34abc85 100644
--- a/symbolic-math/src/jit.rs
+++ b/symbolic-math/src/jit.rs
@@ -158,21 +158,10 @@ impl GeneralJITFunction {
                 assert_eq!(params.len(), *n, "Parameter count mismatch");
                 #[cfg(feature = "jit")]
                 {
-                    // This would need dynamic dispatch based on parameter count
-                    // For now, support common cases
-                    match n {
-                        2 => {
-                            let func: fn(f64, f64, f64) -> f64 =
-                                unsafe { std::mem::transmute(self.function_ptr) };
-                            func(x, params[0], params[1])
-                        }
-                        3 => {
-                            let func: fn(f64, f64, f64, f64) -> f64 =
-                                unsafe { std::mem::transmute(self.function_ptr) };
-                            func(x, params[0], params[1], params[2])
-                        }
-                        _ => panic!("Unsupported parameter count: {n}"),
-                    }
+                    // The parameters are passed as a pointer to `n` values
+                    let func: fn(f64, *const f64) -> f64 =
+                        unsafe { std::mem::transmute(self.function_ptr) };
+                    func(x, params.as_ptr())
                 }
                 #[cfg(not(feature = "jit"))]
                 {
@@ -195,11 +184,10 @@ impl GeneralJITFunction {
                 assert_eq!(params.len(), *param_dims, "Parameter dimension mismatch");
                 #[cfg(feature = "jit")]
                 {
-                    // For batch processing, we'd typically pass pointers to arrays
-                    // This is a simplified version - real implementation would be more complex
-                    let func: fn(*const f64, usize, *const f64, usize) -> f64 =
+                    // Data and parameters are passed as pointers to arrays
+                    let func: fn(*const f64, *const f64) -> f64 =
                         unsafe { std::mem::transmute(self.function_ptr) };
-                    func(data.as_ptr(), data.len(), params.as_ptr(), params.len())
+                    func(data.as_ptr(), params.as_ptr())
                 }
                 #[cfg(not(feature = "jit"))]
                 {
@@ -262,18 +250,13 @@ impl GeneralJITCompiler {
         let start_time = std::time::Instant::now();
 
         // Create function signature based on inputs
+        let signature = determine_signature(data_vars, param_vars);
         let mut sig = self.module.make_signature();
-
-        // Add data parameters
-        for _ in data_vars {
-            sig.params.push(AbiParam::new(types::F64));
-        }
-
-        // Add parameter parameters
-        for _ in param_vars {
-            sig.params.push(AbiParam::new(types::F64));
-        }
-
+        add_input_params(
+            &mut sig,
+            &signature,
+            self.module.target_config().pointer_type(),
+        );
         sig.returns.push(AbiParam::new(types::F64));
 
         // Declare the function
@@ -292,19 +275,8 @@ impl GeneralJITCompiler {
         builder.switch_to_block(entry_block);
         builder.append_block_params_for_function_params(entry_block);
 
-        // Get input parameters
-        let block_params = builder.block_params(entry_block);
-        let mut var_map = std::collections::HashMap::new();
-
-        // Map data variables to their values
-        for (i, var_name) in data_vars.iter().enumerate() {
-            var_map.insert(var_name.clone(), block_params[i]);
-        }
-
-        // Map parameter variables to their values
-        for (i, var_name) in param_vars.iter().enumerate() {
-            var_map.insert(var_name.clone(), block_params[data_vars.len() + i]);
-        }
+        // Map data and parameter variables to their values
+        let var_map = bind_inputs(&mut builder, entry_block, &signature, data_vars, param_vars);
 
         // Generate CLIF IR for the expression
         let result = generate_clif_from_expr_with_vars(&mut builder, expr, &var_map, constants)?;
@@ -332,20 +304,6 @@ impl GeneralJITCompiler {
 
         let compilation_time = start_time.elapsed();
 
-        // Determine signature type
-        let signature = if data_vars.len() == 1 && param_vars.is_empty() {
-            JITSignature::SingleInput
-        } else if data_vars.len() == 1 && param_vars.len() == 1 {
-            JITSignature::DataAndParameter
-        } else if data_vars.len() == 1 && param_vars.len() > 1 {
-            JITSignature::DataAndParameters(param_vars.len())
-        } else {
-            JITSignature::MultipleDataAndParameters {
-                data_dims: data_vars.len(),
-                param_dims: param_vars.len(),
-            }
-        };
-
         // Create compilation statistics
         let stats = CompilationStats {
             code_size_bytes: 128, // Estimate - in practice we'd get this from Cranelift
@@ -451,18 +409,13 @@ impl GeneralJITCompiler {
         let start_time = std::time::Instant::now();
 
         // Create function signature based on inputs
+        let signature = determine_signature(data_vars, param_vars);
         let mut sig = self.module.make_signature();
-
-        // Add data parameters
-        for _ in data_vars {
-            sig.params.push(AbiParam::new(types::F64));
-        }
-
-        // Add parameter parameters
-        for _ in param_vars {
-            sig.params.push(AbiParam::new(types::F64));
-        }
-
+        add_input_params(
+            &mut sig,
+            &signature,
+            self.module.target_config().pointer_type(),
+        );
         sig.returns.push(AbiParam::new(types::F64));
 
         // Declare the function
@@ -481,19 +434,8 @@ impl GeneralJITCompiler {
         builder.switch_to_block(entry_block);
         builder.append_block_params_for_function_params(entry_block);
 
-        // Get input parameters
-        let block_params = builder.block_params(entry_block);
-        let mut var_map = std::collections::HashMap::new();
-
-        // Map data variables to their values
-        for (i, var_name) in data_vars.iter().enumerate() {
-            var_map.insert(var_name.clone(), block_params[i]);
-        }
-
-        // Map parameter variables to their values
-        for (i, var_name) in param_vars.iter().enumerate() {
-            var_map.insert(var_name.clone(), block_params[data_vars.len() + i]);
-        }
+        // Map data and parameter variables to their values
+        let mut var_map = bind_inputs(&mut builder, entry_block, &signature, data_vars, param_vars);
 
         // Add constants to the variable map as constant values
         for (name, &value) in constants {
@@ -527,20 +469,6 @@ impl GeneralJITCompiler {
 
         let compilation_time = start_time.elapsed();
 
-        // Determine signature type
-        let signature = if data_vars.len() == 1 && param_vars.is_empty() {
-            JITSignature::SingleInput
-        } else if data_vars.len() == 1 && param_vars.len() == 1 {
-            JITSignature::DataAndParameter
-        } else if data_vars.len() == 1 && param_vars.len() > 1 {
-            JITSignature::DataAndParameters(param_vars.len())
-        } else {
-            JITSignature::MultipleDataAndParameters {
-                data_dims: data_vars.len(),
-                param_dims: param_vars.len(),
-            }
-        };
-
         // Create compilation statistics
         let stats = CompilationStats {
             code_size_bytes: 128, // Estimate - in practice we'd get this from Cranelift
@@ -560,6 +488,72 @@ impl GeneralJITCompiler {
     }
 }
 
+/// Determine how the inputs of a compiled function are passed
+#[cfg(feature = "jit")]
+fn determine_signature(data_vars: &[String], param_vars: &[String]) -> JITSignature {
+    if data_vars.len() == 1 && param_vars.is_empty() {
+        JITSignature::SingleInput
+    } else if data_vars.len() == 1 && param_vars.len() == 1 {
+        JITSignature::DataAndParameter
+    } else if data_vars.len() == 1 {
+        JITSignature::DataAndParameters(param_vars.len())
+    } else {
+        JITSignature::MultipleDataAndParameters {
+            data_dims: data_vars.len(),
+            param_dims: param_vars.len(),
+        }
+    }
+}
+
+/// Add the native inputs that `GeneralJITFunction::call_*` passes for a signature
+#[cfg(feature = "jit")]
+fn add_input_params(
+    sig: &mut cranelift_codegen::ir::Signature,
+    signature: &JITSignature,
+    pointer: types::Type,
+) {
+    let inputs: &[types::Type] = match signature {
+        JITSignature::SingleInput => &[types::F64],
+        JITSignature::DataAndParameter => &[types::F64, types::F64],
+        JITSignature::DataAndParameters(_) => &[types::F64, pointer],
+        _ => &[pointer, pointer],
+    };
+    sig.params
+        .extend(inputs.iter().map(|&ty| AbiParam::new(ty)));
+}
+
+/// Map the variables to the native inputs declared by `add_input_params`
+#[cfg(feature = "jit")]
+fn bind_inputs(
+    builder: &mut FunctionBuilder,
+    block: cranelift_codegen::ir::Block,
+    signature: &JITSignature,
+    data_vars: &[String],
+    param_vars: &[String],
+) -> std::collections::HashMap<String, Value> {
+    let inputs = builder.block_params(block).to_vec();
+    let mut load_all = |array: Value, len: usize| -> Vec<Value> {
+        (0..len)
+            .map(|i| {
+                let flags = cranelift_codegen::ir::MemFlags::trusted();
+                let offset = (i * std::mem::size_of::<f64>()) as i32;
+                builder.ins().load(types::F64, flags, array, offset)
+            })
+            .collect()
+    };
+    let (data, params) = match signature {
+        JITSignature::SingleInput => (vec![inputs[0]], Vec::new()),
+        JITSignature::DataAndParameter => (vec![inputs[0]], vec![inputs[1]]),
+        JITSignature::DataAndParameters(n) => (vec![inputs[0]], load_all(inputs[1], *n)),
+        _ => (
+            load_all(inputs[0], data_vars.len()),
+            load_all(inputs[1], param_vars.len()),
+        ),
+    };
+    let names = data_vars.iter().chain(param_vars);
+    names.cloned().zip(data.into_iter().chain(params)).collect()
+}
+
 /// Generate CLIF IR from expression with variable mapping support
 #[cfg(feature = "jit")]
 fn generate_clif_from_expr_with_vars(
-- 
2.43.0


From 5623996b56ad08637f931e50cca882fffcd757d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:00 +0000
Subject: [PATCH 21/37] fix: compiled sine and cosine are accurate for every
 argument

Three Taylor terms without range reduction were wrong in the first digit
from about |x| = 2.
---
 symbolic-math/src/jit.rs | 61 +++++++++++++++-------------------------
 1 file changed, 23 insertions(+), 38 deletions(-)

diff --git a/symbolic-math/src/jit.rs b/symbolic-math/src/jit.rs
index 34abc85..0f7898f 100644
--- a/symbolic-math/src/jit.rs
+++ b/symbolic-math/src/jit.rs
@@ -895,50 +895,35 @@ pub fn generate_exp_call(builder: &mut FunctionBuilder, val: Value) -> Result<Va
     Ok(result)
 }
 
-/// Generate CLIF IR for sine function using polynomial approximation
+/// Generate a call to a function of the host program
 #[cfg(feature = "jit")]
-pub fn generate_sin_call(builder: &mut FunctionBuilder, val: Value) -> Result<Value, JITError> {
-    // Use polynomial approximation for sin(x)
-    // sin(x) ≈ x - x³/6 + x⁵/120
-
-    let x2 = builder.ins().fmul(val, val);
-    let x3 = builder.ins().fmul(x2, val);
-    let x5 = builder.ins().fmul(x3, x2);
-
-    let coeff2 = builder.ins().f64const(-0.16666666667);
-    let coeff3 = builder.ins().f64const(0.00833333333);
-
-    let term1 = val;
-    let term2 = builder.ins().fmul(x3, coeff2);
-    let term3 = builder.ins().fmul(x5, coeff3);
-
-    let sum1 = builder.ins().fadd(term1, term2);
-    let result = builder.ins().fadd(sum1, term3);
+fn generate_host_call(builder: &mut FunctionBuilder, address: usize, args: &[Value]) -> Value {
+    let mut sig = cranelift_codegen::ir::Signature::new(builder.func.signature.call_conv);
+    sig.params
+        .extend(args.iter().map(|_| AbiParam::new(types::F64)));
+    sig.returns.push(AbiParam::new(types::F64));
+    let sig = builder.import_signature(sig);
+    let callee = builder.ins().iconst(types::I64, address as i64);
+    let call = builder.ins().call_indirect(sig, callee, args);
+    builder.inst_results(call)[0]
+}
 
-    Ok(result)
+/// Generate a call to the sine function of the standard library
+#[cfg(feature = "jit")]
+pub fn generate_sin_call(builder: &mut FunctionBuilder, val: Value) -> Result<Value, JITError> {
+    extern "C" fn sin(x: f64) -> f64 {
+        x.sin()
+    }
+    Ok(generate_host_call(builder, sin as usize, &[val]))
 }
 
-/// Generate CLIF IR for cosine function using polynomial approximation
+/// Generate a call to the cosine function of the standard library
 #[cfg(feature = "jit")]
 pub fn generate_cos_call(builder: &mut FunctionBuilder, val: Value) -> Result<Value, JITError> {
-    // Use polynomial approximation for cos(x)
-    // cos(x) ≈ 1 - x²/2 + x⁴/24
-
-    let one = builder.ins().f64const(1.0);
-    let x2 = builder.ins().fmul(val, val);
-    let x4 = builder.ins().fmul(x2, x2);
-
-    let coeff2 = builder.ins().f64const(-0.5);
-    let coeff3 = builder.ins().f64const(0.04166666667);
-
-    let term1 = one;
-    let term2 = builder.ins().fmul(x2, coeff2);
-    let term3 = builder.ins().fmul(x4, coeff3);
-
-    let sum1 = builder.ins().fadd(term1, term2);
-    let result = builder.ins().fadd(sum1, term3);
-
-    Ok(result)
+    extern "C" fn cos(x: f64) -> f64 {
+        x.cos()
+    }
+    Ok(generate_host_call(builder, cos as usize, &[val]))
 }
 
 /// Generate CLIF IR for square root using Cranelift's built-in instruction
-- 
2.43.0


From afdbfaa29f5b3f93c0cf4264597923b36e9bdfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:10 +0000
Subject: [PATCH 22/37] fix: compiled powers of negative and zero bases

exp(exponent * ln(base)) treated the base as positive: (-2)^(-3), 0^n and
x^n with a variable exponent came out wrong.
---
 symbolic-math/src/final_tagless.rs |  2 +-
 symbolic-math/src/jit.rs           | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/symbolic-math/src/final_tagless.rs b/symbolic-math/src/final_tagless.rs
index a7b217d..f7dbdbc 100644
--- a/symbolic-math/src/final_tagless.rs
+++ b/symbolic-math/src/final_tagless.rs
@@ -869,7 +869,7 @@ impl JITRepr {
                         Ok(builder.ins().f64const(1.0))
                     }
                     _ => {
-                        // General case: use exp(exponent * ln(base)) with accurate implementations
+                        // General case: standard library power function
                         let exp_val = exp.generate_ir(builder, var_map)?;
                         crate::jit::generate_pow_call(builder, base_val, exp_val)
                     }
diff --git a/symbolic-math/src/jit.rs b/symbolic-math/src/jit.rs
index 0f7898f..70913bf 100644
--- a/symbolic-math/src/jit.rs
+++ b/symbolic-math/src/jit.rs
@@ -635,7 +635,7 @@ fn generate_clif_from_expr_with_vars(
                     Ok(builder.ins().f64const(1.0))
                 }
                 _ => {
-                    // General case: use exp(exponent * ln(base)) with accurate implementations
+                    // General case: standard library power function
                     let exp_val =
                         generate_clif_from_expr_with_vars(builder, exp, var_map, constants)?;
                     generate_pow_call(builder, base_val, exp_val)
@@ -661,17 +661,17 @@ fn generate_clif_from_expr_with_vars(
     }
 }
 
-/// Generate a call to the pow function using basic math operations
+/// Generate a call to the power function of the standard library
 #[cfg(feature = "jit")]
 pub fn generate_pow_call(
     builder: &mut FunctionBuilder,
     base: Value,
     exponent: Value,
 ) -> Result<Value, JITError> {
-    // Use the standard approach: exp(exponent * ln(base))
-    let ln_base = generate_accurate_ln_call(builder, base)?;
-    let product = builder.ins().fmul(exponent, ln_base);
-    generate_exp_call(builder, product)
+    extern "C" fn pow(base: f64, exponent: f64) -> f64 {
+        base.powf(exponent)
+    }
+    Ok(generate_host_call(builder, pow as usize, &[base, exponent]))
 }
 
 /// Generate CLIF IR for natural logarithm using range reduction and rational function approximation
-- 
2.43.0


From 30629483b1e5a4fbfb3543c57738862c0c2e832b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:58 +0000
Subject: [PATCH 23/37] fix: compiled exp and ln at the ends of their range

exp trapped on NaN and on arguments beyond i32 and wrapped the exponent
outside about +-708; ln read zero, negative, subnormal and infinite
arguments as if they were positive normal numbers.
---
 symbolic-math/src/jit.rs | 118 ++++++++++++++++++++-------------------
 1 file changed, 60 insertions(+), 58 deletions(-)

diff --git a/symbolic-math/src/jit.rs b/symbolic-math/src/jit.rs
index 70913bf..967fd26 100644
--- a/symbolic-math/src/jit.rs
+++ b/symbolic-math/src/jit.rs
@@ -688,6 +688,20 @@ pub fn generate_accurate_ln_call(
         .ins()
         .fcmp(cranelift_codegen::ir::condcodes::FloatCC::Equal, val, one);
 
+    // Scale subnormal numbers into the normal range, where the exponent can be read off
+    let min_normal = builder.ins().f64const(f64::MIN_POSITIVE);
+    let is_small = builder.ins().fcmp(
+        cranelift_codegen::ir::condcodes::FloatCC::LessThan,
+        val,
+        min_normal,
+    );
+    let two_54 = builder.ins().f64const(18_014_398_509_481_984.0);
+    let scaled = builder.ins().fmul(val, two_54);
+    let x = builder.ins().select(is_small, scaled, val);
+    let bias_small = builder.ins().iconst(types::I64, 1023 + 54);
+    let bias_normal = builder.ins().iconst(types::I64, 1023);
+    let bias = builder.ins().select(is_small, bias_small, bias_normal);
+
     // Use range reduction: x = 2^k * m where 1.0 <= m < 2.0
     // Then ln(x) = k*ln(2) + ln(m)
     // This is the proper way to implement ln with good accuracy across all ranges
@@ -695,13 +709,12 @@ pub fn generate_accurate_ln_call(
     // Convert to integer bits for manipulation
     let x_bits = builder
         .ins()
-        .bitcast(types::I64, cranelift_codegen::ir::MemFlags::new(), val);
+        .bitcast(types::I64, cranelift_codegen::ir::MemFlags::new(), x);
 
     // Extract exponent (IEEE 754 format)
     let exponent_mask = builder.ins().iconst(types::I64, 0x7FF0000000000000);
     let exponent_bits = builder.ins().band(x_bits, exponent_mask);
     let exponent_shifted = builder.ins().ushr_imm(exponent_bits, 52);
-    let bias = builder.ins().iconst(types::I64, 1023);
     let k_i64 = builder.ins().isub(exponent_shifted, bias);
     let k = builder.ins().fcvt_from_sint(types::F64, k_i64);
 
@@ -769,7 +782,32 @@ pub fn generate_accurate_ln_call(
     let ln_x = builder.ins().fadd(k_ln_2, ln_m);
 
     // Return ln(1) = 0 exactly, otherwise return computed value
-    let result = builder.ins().select(is_one, zero, ln_x);
+    let mut result = builder.ins().select(is_one, zero, ln_x);
+
+    // ln(inf) = inf, ln(0) = -inf, and ln(x) is NaN for negative x and NaN
+    let infinity = builder.ins().f64const(f64::INFINITY);
+    let neg_infinity = builder.ins().f64const(f64::NEG_INFINITY);
+    let nan = builder.ins().f64const(f64::NAN);
+    for (cond, limit, value) in [
+        (
+            cranelift_codegen::ir::condcodes::FloatCC::Equal,
+            infinity,
+            infinity,
+        ),
+        (
+            cranelift_codegen::ir::condcodes::FloatCC::Equal,
+            zero,
+            neg_infinity,
+        ),
+        (
+            cranelift_codegen::ir::condcodes::FloatCC::UnorderedOrLessThan,
+            zero,
+            nan,
+        ),
+    ] {
+        let applies = builder.ins().fcmp(cond, val, limit);
+        result = builder.ins().select(applies, value, result);
+    }
     Ok(result)
 }
 
@@ -780,6 +818,12 @@ pub fn generate_exp_call(builder: &mut FunctionBuilder, val: Value) -> Result<Va
     // For range reduction: exp(x) = 2^k * exp(r) where r ∈ [0, ln(2)]
     // Split x = k*ln(2) + r where k is integer and r ∈ [0, ln(2)]
 
+    // Beyond these limits exp(x) is infinite or zero
+    let max_arg = builder.ins().f64const(709.79);
+    let min_arg = builder.ins().f64const(-745.14);
+    let val = builder.ins().fmin(val, max_arg);
+    let val = builder.ins().fmax(val, min_arg);
+
     let ln2 = builder.ins().f64const(std::f64::consts::LN_2);
     let ln2_inv = builder.ins().f64const(1.0 / std::f64::consts::LN_2);
 
@@ -835,62 +879,20 @@ pub fn generate_exp_call(builder: &mut FunctionBuilder, val: Value) -> Result<Va
     // Rational function result: exp(r)
     let exp_r = builder.ins().fdiv(numerator, denominator);
 
-    // Apply 2^k scaling - use a simpler conditional approach
-    let k_int = builder.ins().fcvt_to_sint(types::I32, k_float);
-
-    // For common small integer powers, use exact multiplication
-    // This avoids floating point precision issues
-    let zero = builder.ins().iconst(types::I32, 0);
-    let one_i32 = builder.ins().iconst(types::I32, 1);
-    let neg_one_i32 = builder.ins().iconst(types::I32, -1);
-
-    let two_f64 = builder.ins().f64const(2.0);
-    let half_f64 = builder.ins().f64const(0.5);
-
-    // Check for k = 0 (most common case)
-    let is_k_zero = builder
-        .ins()
-        .icmp(cranelift_codegen::ir::condcodes::IntCC::Equal, k_int, zero);
-    let result_k_zero = exp_r; // 2^0 = 1, so result = exp_r * 1 = exp_r
-
-    // Check for k = 1
-    let is_k_one = builder.ins().icmp(
-        cranelift_codegen::ir::condcodes::IntCC::Equal,
-        k_int,
-        one_i32,
-    );
-    let result_k_one = builder.ins().fmul(exp_r, two_f64); // 2^1 = 2
-
-    // Check for k = -1
-    let is_k_neg_one = builder.ins().icmp(
-        cranelift_codegen::ir::condcodes::IntCC::Equal,
-        k_int,
-        neg_one_i32,
-    );
-    let result_k_neg_one = builder.ins().fmul(exp_r, half_f64); // 2^(-1) = 0.5
-
-    // For other cases, use bit manipulation (ldexp-like operation)
-    let exp_r_bits =
-        builder
+    // Apply 2^k scaling in two steps, so that each factor is a normal number for every
+    // k in [-1075, 1024] (k is 0 and exp_r is NaN when the argument is NaN)
+    let k = builder.ins().fcvt_to_sint_sat(types::I64, k_float);
+    let k1 = builder.ins().sshr_imm(k, 1);
+    let k2 = builder.ins().isub(k, k1);
+    let mut result = exp_r;
+    for part in [k1, k2] {
+        let biased = builder.ins().iadd_imm(part, 1023);
+        let bits = builder.ins().ishl_imm(biased, 52);
+        let scale = builder
             .ins()
-            .bitcast(types::I64, cranelift_codegen::ir::MemFlags::new(), exp_r);
-    let k_64 = builder.ins().sextend(types::I64, k_int);
-    let exponent_shift = builder.ins().ishl_imm(k_64, 52); // Shift k to exponent position
-    let result_bits = builder.ins().iadd(exp_r_bits, exponent_shift);
-    let result_general = builder.ins().bitcast(
-        types::F64,
-        cranelift_codegen::ir::MemFlags::new(),
-        result_bits,
-    );
-
-    // Use select instructions to choose the right result
-    let temp_result = builder
-        .ins()
-        .select(is_k_zero, result_k_zero, result_general);
-    let temp_result2 = builder.ins().select(is_k_one, result_k_one, temp_result);
-    let result = builder
-        .ins()
-        .select(is_k_neg_one, result_k_neg_one, temp_result2);
+            .bitcast(types::F64, cranelift_codegen::ir::MemFlags::new(), bits);
+        result = builder.ins().fmul(result, scale);
+    }
 
     Ok(result)
 }
-- 
2.43.0


From c328c3adcd70221beacd1529f0a61e85fe107ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:09 +0000
Subject: [PATCH 24/37] fix: JITEval::compile takes the inputs in a
 reproducible order

The order followed a randomly seeded hash set, so that the meaning of the
arguments changed from run to run.
---
 symbolic-math/src/final_tagless.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/symbolic-math/src/final_tagless.rs b/symbolic-math/src/final_tagless.rs
index f7dbdbc..1db561f 100644
--- a/symbolic-math/src/final_tagless.rs
+++ b/symbolic-math/src/final_tagless.rs
@@ -992,9 +992,12 @@ impl MathExpr for JITEval {
 #[cfg(feature = "jit")]
 impl JITEval {
     /// Compile expression with automatic signature detection
+    ///
+    /// The variables become the inputs in alphabetical order.
     pub fn compile(expr: JITRepr) -> Result<GeneralJITFunction, JITError> {
         let variables = expr.collect_variables();
-        let var_list: Vec<String> = variables.into_iter().collect();
+        let mut var_list: Vec<String> = variables.into_iter().collect();
+        var_list.sort();
 
         let compiler = GeneralJITCompiler::new()?;
         compiler.compile_final_tagless(&expr, &var_list, &[], &HashMap::new())
-- 
2.43.0


From 851021fd5fe9f62f3f5e20b53405277b4b2c7c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:09 +0000
Subject: [PATCH 25/37] fix: compiled Bayesian functions of one data variable
 can be evaluated

evaluate_posterior and evaluate_likelihood always used the batch call, which
rejects the signatures the compiler picks for a single data variable.
---
 measures-bayesian/src/bayesian/mod.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/measures-bayesian/src/bayesian/mod.rs b/measures-bayesian/src/bayesian/mod.rs
index 1d003fc..150a962 100644
--- a/measures-bayesian/src/bayesian/mod.rs
+++ b/measures-bayesian/src/bayesian/mod.rs
@@ -132,6 +132,18 @@ pub mod expressions {
     }
 }
 
+/// Call a compiled function by the method its signature asks for
+#[cfg(feature = "jit")]
+fn call_compiled(f: &symbolic_math::GeneralJITFunction, data: &[f64], params: &[f64]) -> f64 {
+    use symbolic_math::jit::JITSignature;
+    match (&f.signature, data, params) {
+        (JITSignature::SingleInput, &[x], &[]) => f.call_single(x),
+        (JITSignature::DataAndParameter, &[x], &[theta]) => f.call_data_param(x, theta),
+        (JITSignature::DataAndParameters(_), &[x], _) => f.call_data_params(x, params),
+        _ => f.call_batch(data, params),
+    }
+}
+
 /// JIT compilation for Bayesian models
 #[cfg(feature = "jit")]
 pub struct BayesianJITOptimizer {
@@ -202,19 +214,21 @@ impl BayesianJITOptimizer {
     pub fn evaluate_posterior(&self, data: &[f64], params: &[f64]) -> Option<f64> {
         self.posterior_fn
             .as_ref()
-            .map(|f| f.call_batch(data, params))
+            .map(|f| call_compiled(f, data, params))
     }
 
     /// Evaluate the compiled likelihood function
     pub fn evaluate_likelihood(&self, data: &[f64], params: &[f64]) -> Option<f64> {
         self.likelihood_fn
             .as_ref()
-            .map(|f| f.call_batch(data, params))
+            .map(|f| call_compiled(f, data, params))
     }
 
     /// Evaluate the compiled prior function
     pub fn evaluate_prior(&self, params: &[f64]) -> Option<f64> {
-        self.prior_fn.as_ref().map(|f| f.call_batch(&[], params))
+        self.prior_fn
+            .as_ref()
+            .map(|f| call_compiled(f, &[], params))
     }
 }
 
-- 
2.43.0


From ec7f3f8adc4fa4558012fce9110bfbde83260608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:16 +0000
Subject: [PATCH 26/37] fix: egglog optimisation keeps the exact value of every
 constant

---
 symbolic-math/src/optimization.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolic-math/src/optimization.rs b/symbolic-math/src/optimization.rs
index 575e95b..c8a012f 100644
--- a/symbolic-math/src/optimization.rs
+++ b/symbolic-math/src/optimization.rs
@@ -193,7 +193,7 @@ impl EgglogOptimizer {
     /// Convert our Expr to egglog string representation
     fn expr_to_egglog(expr: &Expr) -> Result<String, egglog::Error> {
         match expr {
-            Expr::Const(c) => Ok(format!("(Const {c:.1})")),
+            Expr::Const(c) => Ok(format!("(Const {c:?})")),
             Expr::Var(name) => Ok(format!("(Var \"{name}\")")),
             Expr::Add(left, right) => {
                 let left_str = Self::expr_to_egglog(left)?;
-- 
2.43.0


From 0a64a44ca4cac6fb8d732c759feedf63ba7da113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:35 +0000
Subject: [PATCH 27/37] fix: egglog rules for (x^a)^b and ln(x^n) hold for
 negative x

---
 symbolic-math/src/optimization.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/symbolic-math/src/optimization.rs b/symbolic-math/src/optimization.rs
index c8a012f..dcbc3a0 100644
--- a/symbolic-math/src/optimization.rs
+++ b/symbolic-math/src/optimization.rs
@@ -97,7 +97,8 @@ impl EgglogOptimizer {
             ; Power laws
             (rewrite (Mul (Pow ?x ?a) (Pow ?x ?b)) (Pow ?x (Add ?a ?b)))
             (rewrite (Div (Pow ?x ?a) (Pow ?x ?b)) (Pow ?x (Sub ?a ?b)))
-            (rewrite (Pow (Pow ?x ?a) ?b) (Pow ?x (Mul ?a ?b)))
+            ; (x^a)^b -> x^(a*b), valid for every x only when b is an integer
+            (rewrite (Pow (Pow ?x ?a) (Const ?b)) (Pow ?x (Mul ?a (Const ?b))) :when ((= (% ?b 1.0) 0.0)))
             
             ; ENHANCED constant folding for common values
             (rewrite (Add (Const ?a) (Const ?b)) (Const (+ ?a ?b)))
@@ -129,8 +130,8 @@ impl EgglogOptimizer {
             ; Avoid very small constants that might be zero
             
             ; LOGARITHMIC and EXPONENTIAL advanced rules (simplified)
-            ; ln(x^n) -> n*ln(x)
-            (rewrite (Ln (Pow ?x ?n)) (Mul ?n (Ln ?x)))
+            ; ln(x^n) -> n*ln(x), unless n is even and x may be negative
+            (rewrite (Ln (Pow ?x (Const ?n))) (Mul (Const ?n) (Ln ?x)) :when ((!= (% ?n 2.0) 0.0)))
             ; exp(n*ln(x)) -> x^n
             (rewrite (Exp (Mul ?n (Ln ?x))) (Pow ?x ?n))
             ; ln(sqrt(x)) -> 0.5*ln(x)
-- 
2.43.0


From c734a6d2446e02eca4f0e63180ee1fbed8198521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:35 +0000
Subject: [PATCH 28/37] fix: an egglog optimisation does not depend on earlier
 ones

---
 symbolic-math/src/optimization.rs | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/symbolic-math/src/optimization.rs b/symbolic-math/src/optimization.rs
index dcbc3a0..3b4ee1b 100644
--- a/symbolic-math/src/optimization.rs
+++ b/symbolic-math/src/optimization.rs
@@ -9,8 +9,9 @@ use egglog::EGraph;
 
 /// Advanced optimizer using egglog for symbolic expression simplification
 pub struct EgglogOptimizer {
+    /// The rules alone; every optimization works on a copy, so that no expression
+    /// can influence the result for another
     egraph: EGraph,
-    expr_counter: usize,
 }
 
 impl EgglogOptimizer {
@@ -148,10 +149,7 @@ impl EgglogOptimizer {
         ",
         )?;
 
-        Ok(Self {
-            egraph,
-            expr_counter: 0,
-        })
+        Ok(Self { egraph })
     }
 
     /// Optimize an expression using egglog's equality saturation with limited iterations
@@ -160,22 +158,18 @@ impl EgglogOptimizer {
         let egglog_expr = Self::expr_to_egglog(expr)?;
 
         // Add the expression to the egraph
-        let expr_id = format!("expr_{}", self.expr_counter);
-        self.expr_counter += 1;
-
-        self.egraph
-            .parse_and_run_program(None, &format!("(let {expr_id} {egglog_expr})"))?;
+        let expr_id = "expr";
+        let mut egraph = self.egraph.clone();
+        egraph.parse_and_run_program(None, &format!("(let {expr_id} {egglog_expr})"))?;
 
         // Run equality saturation with LIMITED iterations to prevent explosion
-        self.egraph.parse_and_run_program(None, "(run 5)")?;
+        egraph.parse_and_run_program(None, "(run 5)")?;
 
         // Try to extract a simplified expression
         // For now, we'll use a simple approach: just extract the expression
         let extraction_program = format!("(extract {expr_id})");
 
-        let result = self
-            .egraph
-            .parse_and_run_program(None, &extraction_program)?;
+        let result = egraph.parse_and_run_program(None, &extraction_program)?;
 
         // Parse the extracted result back to our Expr type
         if let Some(extracted) = result.into_iter().next() {
-- 
2.43.0


From 804b9288da0cdba577226e4c7b22eac2ec0ce473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:35 +0000
Subject: [PATCH 29/37] fix: egglog optimisation reads square roots back and
 prints nothing

---
 symbolic-math/src/optimization.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/symbolic-math/src/optimization.rs b/symbolic-math/src/optimization.rs
index 3b4ee1b..b9d6168 100644
--- a/symbolic-math/src/optimization.rs
+++ b/symbolic-math/src/optimization.rs
@@ -174,8 +174,6 @@ impl EgglogOptimizer {
         // Parse the extracted result back to our Expr type
         if let Some(extracted) = result.into_iter().next() {
             let extracted_str = extracted.to_string();
-            println!("DEBUG: Extracted from egglog: {extracted_str}");
-
             if let Some(optimized_expr) = Self::egglog_to_expr(&extracted_str) {
                 return Ok(optimized_expr);
             }
@@ -322,6 +320,13 @@ impl EgglogOptimizer {
             }
         }
 
+        if trimmed.starts_with("(Sqrt ") && trimmed.ends_with(')') {
+            let inner = &trimmed[6..trimmed.len() - 1];
+            if let Some(inner_expr) = Self::egglog_to_expr(inner) {
+                return Some(Expr::Sqrt(Box::new(inner_expr)));
+            }
+        }
+
         if trimmed.starts_with("(Sin ") && trimmed.ends_with(')') {
             let inner = &trimmed[5..trimmed.len() - 1];
             if let Some(inner_expr) = Self::egglog_to_expr(inner) {
-- 
2.43.0


From 43c529c3ad15c808632c2cbdc7146e5a22066088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:51 +0000
Subject: [PATCH 30/37] fix: egglog optimisation does not panic on a division
 by the constant zero

---
 symbolic-math/src/optimization.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolic-math/src/optimization.rs b/symbolic-math/src/optimization.rs
index b9d6168..8f2462a 100644
--- a/symbolic-math/src/optimization.rs
+++ b/symbolic-math/src/optimization.rs
@@ -105,7 +105,7 @@ impl EgglogOptimizer {
             (rewrite (Add (Const ?a) (Const ?b)) (Const (+ ?a ?b)))
             (rewrite (Mul (Const ?a) (Const ?b)) (Const (* ?a ?b)))
             (rewrite (Sub (Const ?a) (Const ?b)) (Const (- ?a ?b)))
-            (rewrite (Div (Const ?a) (Const ?b)) (Const (/ ?a ?b)))
+            (rewrite (Div (Const ?a) (Const ?b)) (Const (/ ?a ?b)) :when ((> (abs ?b) 0.0)))
             
             ; POLYNOMIAL simplification rules
             ; Collect like terms: x + x -> 2*x
-- 
2.43.0


From 8ec0681aa5c57a2558561185a128f4afb0f5d09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:48 +0000
Subject: [PATCH 31/37] fix: pretty-printed powers of negative constants keep
 their base together

(-2)^x was printed as (-2 ^ x), which reads as -(2^x).
---
 mathjit/src/final_tagless.rs       | 7 ++++++-
 symbolic-math/src/final_tagless.rs | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/mathjit/src/final_tagless.rs b/mathjit/src/final_tagless.rs
index 1dc4c6d..fdc3ffb 100644
--- a/mathjit/src/final_tagless.rs
+++ b/mathjit/src/final_tagless.rs
@@ -695,7 +695,12 @@ impl MathExpr for PrettyPrint {
     }
 
     fn pow<T: NumericType + Float>(base: Self::Repr<T>, exp: Self::Repr<T>) -> Self::Repr<T> {
-        format!("({base} ^ {exp})")
+        // A negative constant needs parentheses of its own: -2 ^ 2 reads as -(2 ^ 2)
+        if base.starts_with('-') {
+            format!("(({base}) ^ {exp})")
+        } else {
+            format!("({base} ^ {exp})")
+        }
     }
 
     fn neg<T: NumericType + Neg<Output = T>>(expr: Self::Repr<T>) -> Self::Repr<T> {
diff --git a/symbolic-math/src/final_tagless.rs b/symbolic-math/src/final_tagless.rs
index 1db561f..26dacb8 100644
--- a/symbolic-math/src/final_tagless.rs
+++ b/symbolic-math/src/final_tagless.rs
@@ -544,7 +544,12 @@ impl MathExpr for PrettyPrint {
     }
 
     fn pow<T: NumericType + Float>(base: Self::Repr<T>, exp: Self::Repr<T>) -> Self::Repr<T> {
-        format!("({base} ^ {exp})")
+        // A negative constant needs parentheses of its own: -2 ^ 2 reads as -(2 ^ 2)
+        if base.starts_with('-') {
+            format!("(({base}) ^ {exp})")
+        } else {
+            format!("({base} ^ {exp})")
+        }
     }
 
     fn neg<T: NumericType + Neg<Output = T>>(expr: Self::Repr<T>) -> Self::Repr<T> {
-- 
2.43.0


From 41592143db722df4c857430f222db45a1e6ff986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:58 +0000
Subject: [PATCH 32/37] fix: DistributionEval::log_gamma is accurate above 12

The Stirling formula without its correction terms was off by up to 1/144.
---
 .../src/distributions/final_tagless.rs                 | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/measures-distributions/src/distributions/final_tagless.rs b/measures-distributions/src/distributions/final_tagless.rs
index a48772f..3b0ebf3 100644
--- a/measures-distributions/src/distributions/final_tagless.rs
+++ b/measures-distributions/src/distributions/final_tagless.rs
@@ -293,16 +293,10 @@ impl DistributionEval {
         }
     }
 
-    /// Log-gamma function approximation (Stirling's approximation for large values)
+    /// Log-gamma function
     #[must_use]
     pub fn log_gamma(x: f64) -> f64 {
-        if x > 12.0 {
-            // Stirling's approximation for large x
-            (x - 0.5) * x.ln() - x + 0.5 * (2.0 * std::f64::consts::PI).ln()
-        } else {
-            // Use built-in gamma function for smaller values
-            special::Gamma::ln_gamma(x).0
-        }
+        special::Gamma::ln_gamma(x).0
     }
 }
 
-- 
2.43.0


From 3ed01138bfff32c2e01e9d7e1e55f6f745b9a4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:57 +0000
Subject: [PATCH 33/37] fix: the static inline normal evaluator never squares
 the scale

---
 .../src/exponential_family/jit.rs                     | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/measures-exponential-family/src/exponential_family/jit.rs b/measures-exponential-family/src/exponential_family/jit.rs
index 72fb1ed..a3e6395 100644
--- a/measures-exponential-family/src/exponential_family/jit.rs
+++ b/measures-exponential-family/src/exponential_family/jit.rs
@@ -227,20 +227,19 @@ impl StaticInlineJITCompiler {
         mu: f64,
         sigma: f64,
     ) -> StaticInlineJITFunction<impl Fn(f64) -> f64 + Send + Sync> {
-        let sigma_sq = sigma * sigma;
-        let two_sigma_sq = 2.0 * sigma_sq;
-        let log_norm = -0.5 * (2.0 * std::f64::consts::PI * sigma_sq).ln();
+        // Never form sigma^2: it under- or overflows for scales whose density is representable
+        let log_norm = -0.5 * (2.0 * std::f64::consts::PI).ln() - sigma.ln();
 
         let computation = move |x: f64| -> f64 {
-            let diff = x - mu;
-            log_norm - (diff * diff) / two_sigma_sq
+            let z = (x - mu) / sigma;
+            log_norm - 0.5 * z * z
         };
 
         let stats = CompilationStats {
             code_size_bytes: 32,      // Estimate for inline function
             clif_instructions: 4,     // Very few operations
             compilation_time_us: 1,   // Essentially instant
-            embedded_constants: 3,    // mu, sigma_sq, log_norm
+            embedded_constants: 3,    // mu, sigma, log_norm
             estimated_speedup: 100.0, // Massive speedup for static inline
         };
 
-- 
2.43.0


From 404a8f015b3f4fca7b1fa06843f1d0d1b2a7223c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:12 +0000
Subject: [PATCH 34/37] fix: Binomial counts its failures exactly in every
 float width

---
 measures-distributions/src/distributions/discrete/binomial.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/measures-distributions/src/distributions/discrete/binomial.rs b/measures-distributions/src/distributions/discrete/binomial.rs
index c2e8eb6..a972e71 100644
--- a/measures-distributions/src/distributions/discrete/binomial.rs
+++ b/measures-distributions/src/distributions/discrete/binomial.rs
@@ -151,7 +151,7 @@ impl<T: Float> measures_core::HasLogDensity<u64, T> for Binomial<T> {
             // Binomial PMF: P(X = k) = C(n,k) * p^k * (1-p)^(n-k)
             // log P(X = k) = log(C(n,k)) + k*log(p) + (n-k)*log(1-p)
             let k = T::from(*x).unwrap();
-            let n = T::from(self.n).unwrap();
+            let n_minus_k = T::from(self.n - *x).unwrap();
 
             // 0 * log(0) is 0 here: an outcome that needs no success (or no failure)
             // is not affected by success (or failure) being impossible
@@ -163,7 +163,7 @@ impl<T: Float> measures_core::HasLogDensity<u64, T> for Binomial<T> {
             let failures = if *x == self.n {
                 T::zero()
             } else {
-                (n - k) * (T::one() - self.prob).ln()
+                n_minus_k * (T::one() - self.prob).ln()
             };
 
             log_binomial_coefficient::<T>(self.n, *x) + successes + failures
-- 
2.43.0


From aab6fd1a2a9180d02a3ad01f23b677076b7dc669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:43 +0000
Subject: [PATCH 35/37] fix: an empty sample has log-density zero also when a
 decomposition term is infinite

---
 measures-core/src/core/log_density_decomposition.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/measures-core/src/core/log_density_decomposition.rs b/measures-core/src/core/log_density_decomposition.rs
index 396df2d..4286781 100644
--- a/measures-core/src/core/log_density_decomposition.rs
+++ b/measures-core/src/core/log_density_decomposition.rs
@@ -152,6 +152,10 @@ impl<X, Theta, F: Float> LogDensityDecomposition<X, Theta, F> {
     where
         F: std::iter::Sum,
     {
+        // No samples: the empty sum, also when a parameter or constant term is infinite
+        if samples.is_empty() {
+            return F::zero();
+        }
         let n = F::from(samples.len()).unwrap();
 
         // Sum data terms across all samples
-- 
2.43.0


From 999d620c2d16e2fdc9f6c1ab919724bf4dde74ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:09 +0000
Subject: [PATCH 36/37] fix: Cauchy and Student t log-densities were -inf where
 the square of a far point overflows

---
 .../src/distributions/continuous/cauchy.rs    | 21 +++++++++++++------
 .../src/distributions/continuous/student_t.rs | 14 +++++++++++--
 2 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/measures-distributions/src/distributions/continuous/cauchy.rs b/measures-distributions/src/distributions/continuous/cauchy.rs
index ee64d76..461f4ea 100644
--- a/measures-distributions/src/distributions/continuous/cauchy.rs
+++ b/measures-distributions/src/distributions/continuous/cauchy.rs
@@ -89,10 +89,9 @@ impl<T: Float> Cauchy<T> {
     where
         T: NumCast,
     {
-        let standardized = (x - self.location) / self.scale;
         let pi = T::from(PI).unwrap();
 
-        -pi.ln() - self.scale.ln() - (T::one() + standardized * standardized).ln()
+        -pi.ln() - self.scale.ln() - log_one_plus_square(x - self.location, self.scale)
     }
 
     /// Compute log-density for IID samples efficiently using decomposition.
@@ -107,6 +106,18 @@ impl<T: Float> Cauchy<T> {
     }
 }
 
+/// ln(1 + (d/γ)²), also where the square leaves the number range
+fn log_one_plus_square<T: Float>(difference: T, scale: T) -> T {
+    let standardized = difference / scale;
+    let square = standardized * standardized;
+    if square.is_infinite() {
+        let log_standardized = difference.abs().ln() - scale.ln();
+        log_standardized + log_standardized
+    } else {
+        (T::one() + square).ln()
+    }
+}
+
 impl<T: Float> MeasureMarker for Cauchy<T> {
     type IsPrimitive = False;
     type IsExponentialFamily = False; // Cauchy is NOT an exponential family
@@ -130,8 +141,7 @@ impl<T: Float + Clone> Measure<T> for Cauchy<T> {
 impl<T: Float + FloatConst> HasLogDensity<T, T> for Cauchy<T> {
     fn log_density_wrt_root(&self, x: &T) -> T {
         let pi = float_constant::<T>(PI);
-        let standardized = (*x - self.location) / self.scale;
-        -(T::one() + standardized * standardized).ln() - self.scale.ln() - pi.ln()
+        -log_one_plus_square(*x - self.location, self.scale) - self.scale.ln() - pi.ln()
     }
 }
 
@@ -155,8 +165,7 @@ impl<T: Float + FloatConst + NumCast> HasLogDensityDecomposition<T, CauchyParams
             // Mixed term: -log(1 + ((x-x₀)/γ)²)
             .mixed_term(
                 |x: &T, (location, scale): &CauchyParams<T>| {
-                    let standardized = (*x - *location) / *scale;
-                    -(T::one() + standardized * standardized).ln()
+                    -log_one_plus_square(*x - *location, *scale)
                 },
                 "negative log of standardized squared plus one",
             )
diff --git a/measures-distributions/src/distributions/continuous/student_t.rs b/measures-distributions/src/distributions/continuous/student_t.rs
index 736ecbf..b638bd8 100644
--- a/measures-distributions/src/distributions/continuous/student_t.rs
+++ b/measures-distributions/src/distributions/continuous/student_t.rs
@@ -83,7 +83,7 @@ impl<T: Float> StudentT<T> {
             - 0.5 * (nu_f64 * std::f64::consts::PI).ln();
 
         // Compute -(ν+1)/2 * log(1 + x²/ν)
-        let log_kernel = -f64::midpoint(nu_f64, 1.0) * (1.0 + x_f64 * x_f64 / nu_f64).ln();
+        let log_kernel = -f64::midpoint(nu_f64, 1.0) * log_one_plus_ratio(x_f64, nu_f64);
 
         T::from(log_normalization + log_kernel).unwrap()
     }
@@ -100,6 +100,16 @@ impl<T: Float> StudentT<T> {
     }
 }
 
+/// ln(1 + x²/ν), also where x² leaves the number range
+fn log_one_plus_ratio(x: f64, nu: f64) -> f64 {
+    let square = x * x;
+    if square.is_finite() {
+        (1.0 + square / nu).ln()
+    } else {
+        2.0 * nu.sqrt().hypot(x).ln() - nu.ln()
+    }
+}
+
 impl<T: Float> MeasureMarker for StudentT<T> {
     type IsPrimitive = False;
     type IsExponentialFamily = False; // Student's t is NOT an exponential family
@@ -151,7 +161,7 @@ impl<T: Float + FloatConst + std::fmt::Debug> HasLogDensityDecomposition<T, Stud
                     let nu_f64 = nu.to_f64().unwrap();
                     let x_f64 = x.to_f64().unwrap();
                     let log_kernel =
-                        -f64::midpoint(nu_f64, 1.0) * (1.0 + x_f64 * x_f64 / nu_f64).ln();
+                        -f64::midpoint(nu_f64, 1.0) * log_one_plus_ratio(x_f64, nu_f64);
                     T::from(log_kernel).unwrap()
                 },
                 "negative scaled log of one plus standardized squared",
-- 
2.43.0


From ef32ba7e5a1f718def640a7e02452524c4088b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:57 +0000
Subject: [PATCH 37/37] fix: LinearTransform rounded its matrix to single
 precision and always reported determinant 1

---
 .../src/measures/combinators/transform.rs     | 39 +++++++++++++++++--
 1 file changed, 35 insertions(+), 4 deletions(-)

diff --git a/measures-combinators/src/measures/combinators/transform.rs b/measures-combinators/src/measures/combinators/transform.rs
index 9c13878..b572999 100644
--- a/measures-combinators/src/measures/combinators/transform.rs
+++ b/measures-combinators/src/measures/combinators/transform.rs
@@ -48,14 +48,45 @@ impl<T: AD> LinearTransform<T> {
         assert_eq!(matrix.len(), input_dim * output_dim);
         assert_eq!(offset.len(), output_dim);
 
+        let log_abs_det = if input_dim == output_dim {
+            log_abs_determinant(matrix.clone(), input_dim)
+        } else {
+            0.0 // no determinant
+        };
+
         Self {
-            matrix: matrix.into_iter().map(|x| T::from(x as f32)).collect(),
-            offset: offset.into_iter().map(|x| T::from(x as f32)).collect(),
+            matrix: matrix.into_iter().map(T::constant).collect(),
+            offset: offset.into_iter().map(T::constant).collect(),
             input_dim,
             output_dim,
-            log_abs_det: 1.0,
+            log_abs_det,
+        }
+    }
+}
+
+/// ln |det A| of a square matrix (row-major), by elimination with partial pivoting
+#[cfg(feature = "autodiff")]
+fn log_abs_determinant(mut a: Vec<f64>, dim: usize) -> f64 {
+    let mut log_abs_det = 0.0;
+    for k in 0..dim {
+        let pivot = (k..dim)
+            .max_by(|&i, &j| a[i * dim + k].abs().total_cmp(&a[j * dim + k].abs()))
+            .unwrap_or(k);
+        for j in k..dim {
+            a.swap(k * dim + j, pivot * dim + j);
+        }
+        log_abs_det += a[k * dim + k].abs().ln();
+        if a[k * dim + k] == 0.0 {
+            return log_abs_det;
+        }
+        for i in k + 1..dim {
+            let factor = a[i * dim + k] / a[k * dim + k];
+            for j in k..dim {
+                a[i * dim + j] -= factor * a[k * dim + j];
+            }
         }
     }
+    log_abs_det
 }
 
 #[cfg(feature = "autodiff")]
@@ -87,7 +118,7 @@ impl<T: AD> DifferentiableTransform<T> for LinearTransform<T> {
 
     fn log_abs_det_jacobian(&self, _input: &T) -> T {
         // For linear transformations, the Jacobian determinant is constant
-        T::from(self.log_abs_det.abs().ln() as f32)
+        T::constant(self.log_abs_det)
     }
 }
 
-- 
2.43.0

