From d1211808833f3ded306fa1c17786aaf1dae73c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:49 +0000
Subject: [PATCH 01/18] fix: SE2 exp and Jacobian coefficients cancel to zero
 at small angles

1 - cos(theta) and theta - sin(theta) lost every digit for angles between the
30 eps cutoff and about 1e-5 (1e-3 in f32): left_jacobian([1, 2, 1e-8]) had
a zero translation coupling instead of (1, -0.5).
---
 crates/multicalc/src/spatial/lie/se2.rs | 39 +++++++++++++++++++------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/crates/multicalc/src/spatial/lie/se2.rs b/crates/multicalc/src/spatial/lie/se2.rs
index c5ba7a6..81b5c19 100644
--- a/crates/multicalc/src/spatial/lie/se2.rs
+++ b/crates/multicalc/src/spatial/lie/se2.rs
@@ -5,7 +5,26 @@ use core::ops::Mul;
 use crate::linear_algebra::{Matrix, Matrix3D, Vector, Vector2D, Vector3D};
 use crate::scalar::Numeric;
 use crate::spatial::lie::SO2;
-use crate::spatial::small_angle_sq;
+use crate::spatial::{small_angle_so3_sq, small_angle_sq};
+
+/// `1 − cosθ` as `2 sin²(θ/2)`, which keeps its digits where the difference cancels.
+#[inline]
+fn one_minus_cos<T: Numeric>(theta: T) -> T {
+    let half_sin = (theta * T::HALF).sin();
+    T::TWO * half_sin * half_sin
+}
+
+/// `(θ − sinθ)/θ²`, on its series below the angle where the difference cancels.
+#[inline]
+fn theta_minus_sin_over_sq<T: Numeric>(theta: T) -> T {
+    let theta_sq = theta * theta;
+    let (_, series_cutoff) = small_angle_so3_sq::<T>();
+    if theta_sq < series_cutoff {
+        theta * (T::ONE / T::from_f64(6.0) - theta_sq / T::from_f64(120.0))
+    } else {
+        (theta - theta.sin()) / theta_sq
+    }
+}
 
 /// A 2D rigid-body transform: a rotation and a translation. The tangent is `[vx, vy, ω]`.
 #[derive(Debug, Clone, Copy, PartialEq)]
@@ -89,7 +108,7 @@ impl<T: Numeric> SE2<T> {
                 omega * (T::HALF - theta_sq / T::from_f64(24.0)),
             )
         } else {
-            (omega.sin() / omega, (T::ONE - omega.cos()) / omega)
+            (omega.sin() / omega, one_minus_cos(omega) / omega)
         };
         let translation = Vector::new([a * lin_x - b * lin_y, b * lin_x + a * lin_y]);
         SE2 {
@@ -216,12 +235,12 @@ impl<T: Numeric> SE2<T> {
                 omega * (T::ONE / T::from_f64(6.0) - theta_sq / T::from_f64(120.0)),
             )
         } else {
-            let (sin, cos) = (omega.sin(), omega.cos());
+            let one_minus_cos = one_minus_cos(omega);
             (
-                sin / omega,
-                (T::ONE - cos) / omega,
-                (T::ONE - cos) / theta_sq,
-                (omega - sin) / theta_sq,
+                omega.sin() / omega,
+                one_minus_cos / omega,
+                one_minus_cos / theta_sq,
+                theta_minus_sin_over_sq(omega),
             )
         };
         let coupling_x = p_coeff * rho_y + r_coeff * rho_x;
@@ -252,8 +271,10 @@ impl<T: Numeric> SE2<T> {
                 omega * (T::ONE / T::from_f64(6.0) - theta_sq / T::from_f64(120.0)),
             )
         } else {
-            let (sin, cos) = (omega.sin(), omega.cos());
-            ((T::ONE - cos) / theta_sq, (omega - sin) / theta_sq)
+            (
+                one_minus_cos(omega) / theta_sq,
+                theta_minus_sin_over_sq(omega),
+            )
         };
         let coupling_x = p_coeff * rho_y + r_coeff * rho_x;
         let coupling_y = r_coeff * rho_y - p_coeff * rho_x;
-- 
2.43.0


From 29e27798b792d0f400bff1d9f9ce49bba3ebaebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:09 +0000
Subject: [PATCH 02/18] fix: reference pair with north along up squares up to a
 rounding-noise north

---
 crates/multicalc/src/estimation/madgwick_filter.rs | 4 ++++
 crates/multicalc/src/estimation/mahony_filter.rs   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/crates/multicalc/src/estimation/madgwick_filter.rs b/crates/multicalc/src/estimation/madgwick_filter.rs
index 87f0acd..e8515ca 100644
--- a/crates/multicalc/src/estimation/madgwick_filter.rs
+++ b/crates/multicalc/src/estimation/madgwick_filter.rs
@@ -124,6 +124,10 @@ impl<T: Numeric> MadgwickFilter<T> {
             return self;
         };
         let levelled = north_reference - upward * north_reference.dot(upward);
+        // A north along up levels to nothing but rounding, which is no direction at all.
+        if levelled.norm() <= north_reference.norm() * T::EPSILON_X30 {
+            return self;
+        }
         let Some(north) = levelled.try_normalized() else {
             return self;
         };
diff --git a/crates/multicalc/src/estimation/mahony_filter.rs b/crates/multicalc/src/estimation/mahony_filter.rs
index 5bb30a3..6cb6fbd 100644
--- a/crates/multicalc/src/estimation/mahony_filter.rs
+++ b/crates/multicalc/src/estimation/mahony_filter.rs
@@ -120,6 +120,10 @@ impl<T: Numeric> MahonyFilter<T> {
             return self;
         };
         let levelled = north_reference - upward * north_reference.dot(upward);
+        // A north along up levels to nothing but rounding, which is no direction at all.
+        if levelled.norm() <= north_reference.norm() * T::EPSILON_X30 {
+            return self;
+        }
         let Some(north) = levelled.try_normalized() else {
             return self;
         };
-- 
2.43.0


From 804fb374e1f4b037e9cb659190dd9b027a4ae5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:36 +0000
Subject: [PATCH 03/18] fix: a refused particle weight update leaves
 unnormalised or NaN weights behind

---
 crates/multicalc/src/estimation/particle_filter.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/crates/multicalc/src/estimation/particle_filter.rs b/crates/multicalc/src/estimation/particle_filter.rs
index 1556cb2..a06ab52 100644
--- a/crates/multicalc/src/estimation/particle_filter.rs
+++ b/crates/multicalc/src/estimation/particle_filter.rs
@@ -637,11 +637,12 @@ where
         }
 
         // Back to plain weights, measured relative to the heaviest particle, and total them.
+        // They stay in the scratch buffer until the total is known to be usable, so a refused update
+        // leaves the cloud's weights alone.
         let mut sum = T::ZERO;
-        for i in 0..self.weights.len() {
-            let weight = (self.log_weight_scratch[i] - largest).exp();
-            self.weights[i] = weight;
-            sum += weight;
+        for weight in self.log_weight_scratch.iter_mut() {
+            *weight = (*weight - largest).exp();
+            sum += *weight;
         }
 
         // A zero or non-finite total leaves nothing to divide by, so the cloud has degenerated.
@@ -650,8 +651,8 @@ where
         }
 
         // Scale so the weights sum to one.
-        for weight in self.weights.iter_mut() {
-            *weight /= sum;
+        for (weight, &unscaled) in self.weights.iter_mut().zip(&self.log_weight_scratch) {
+            *weight = unscaled / sum;
         }
 
         // If the weight has piled onto too few particles, refresh the cloud before it collapses.
-- 
2.43.0


From db45d116b327bcb4efff8b90e987c0ebda106d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:34 +0000
Subject: [PATCH 04/18] fix: a reverse-acting controller winds up in saturation

The anti-windup test looked at the sign of the error, which is the sign of the
integral action only when the integral gain is positive. With a negative gain the
integral kept winding further into the active limit and was held on the way out.
---
 crates/multicalc/src/control/pid.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/multicalc/src/control/pid.rs b/crates/multicalc/src/control/pid.rs
index e205e01..815fcef 100644
--- a/crates/multicalc/src/control/pid.rs
+++ b/crates/multicalc/src/control/pid.rs
@@ -199,7 +199,8 @@ impl<T: Numeric> Pid<T> {
         self.previous_error = error;
         self.has_previous_measurement = true;
 
-        let candidate_integral = self.integral + self.integral_gain * error * self.timestep;
+        let integral_step = self.integral_gain * error * self.timestep;
+        let candidate_integral = self.integral + integral_step;
         let unsaturated = proportional_term + candidate_integral + derivative_term;
         let output = unsaturated
             .max(self.output_minimum)
@@ -207,8 +208,8 @@ impl<T: Numeric> Pid<T> {
 
         let saturated_high = unsaturated > self.output_maximum;
         let saturated_low = unsaturated < self.output_minimum;
-        let pushing_deeper =
-            (saturated_high && error > T::ZERO) || (saturated_low && error < T::ZERO);
+        let pushing_deeper = (saturated_high && integral_step > T::ZERO)
+            || (saturated_low && integral_step < T::ZERO);
         if !pushing_deeper {
             self.integral = candidate_integral;
         }
-- 
2.43.0


From dbc754860c8627e0334135f9e3959261dae227d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:20 +0000
Subject: [PATCH 05/18] fix: a band-pass or notch wider than half the sampling
 rate came out unstable

The tangent of the half width changes sign past a quarter turn, so a low quality
factor gave a filter that grows without bound instead of an error.
---
 .../multicalc/src/signal_processing/biquad.rs   | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/crates/multicalc/src/signal_processing/biquad.rs b/crates/multicalc/src/signal_processing/biquad.rs
index 4127e6b..687ea95 100644
--- a/crates/multicalc/src/signal_processing/biquad.rs
+++ b/crates/multicalc/src/signal_processing/biquad.rs
@@ -124,8 +124,8 @@ impl<T: Numeric> BiquadCoefficients<T> {
     /// Returns [`SignalError::NonFinite`] if any argument is not finite,
     /// [`SignalError::NonPositiveTimestep`] if `timestep` is not strictly positive,
     /// [`SignalError::NonPositiveQualityFactor`] if `quality_factor` is not strictly positive, or
-    /// [`SignalError::FrequencyOutOfRange`] if `center_hz` is not strictly positive or reaches half
-    /// the sampling rate.
+    /// [`SignalError::FrequencyOutOfRange`] if `center_hz` is not strictly positive, or if it or the
+    /// width of the band around it, `center_hz / quality_factor`, reaches half the sampling rate.
     ///
     /// ```
     /// use multicalc::signal_processing::BiquadCoefficients;
@@ -145,8 +145,8 @@ impl<T: Numeric> BiquadCoefficients<T> {
     /// Returns [`SignalError::NonFinite`] if any argument is not finite,
     /// [`SignalError::NonPositiveTimestep`] if `timestep` is not strictly positive,
     /// [`SignalError::NonPositiveQualityFactor`] if `quality_factor` is not strictly positive, or
-    /// [`SignalError::FrequencyOutOfRange`] if `center_hz` is not strictly positive or reaches half
-    /// the sampling rate.
+    /// [`SignalError::FrequencyOutOfRange`] if `center_hz` is not strictly positive, or if it or the
+    /// width of the band around it, `center_hz / quality_factor`, reaches half the sampling rate.
     ///
     /// ```
     /// use multicalc::signal_processing::BiquadCoefficients;
@@ -328,7 +328,14 @@ impl<T: Numeric> BiquadCoefficients<T> {
         // which is a different filter rather than a rounding difference.
         let alpha = match design {
             Design::LowPass | Design::HighPass => angle.sin() / (T::TWO * quality_factor),
-            Design::BandPass | Design::Notch => (angle / (T::TWO * quality_factor)).tan(),
+            Design::BandPass | Design::Notch => {
+                let half_width = angle / (T::TWO * quality_factor);
+                // Past a quarter turn the tangent changes sign and the filter would be unstable.
+                if half_width >= T::PI * T::HALF {
+                    return Err(SignalError::FrequencyOutOfRange);
+                }
+                half_width.tan()
+            }
         };
 
         let feed_forward = match design {
-- 
2.43.0


From 9f6cc59f6186f892a0096a85cbaeb2ff6fe43faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:20 +0000
Subject: [PATCH 06/18] fix: SavitzkyGolay::latest panics on an empty window

The read position underflowed before the documented WindowTooShort check.
---
 crates/multicalc/src/signal_processing/savitzky_golay.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/multicalc/src/signal_processing/savitzky_golay.rs b/crates/multicalc/src/signal_processing/savitzky_golay.rs
index 018564e..b352fc0 100644
--- a/crates/multicalc/src/signal_processing/savitzky_golay.rs
+++ b/crates/multicalc/src/signal_processing/savitzky_golay.rs
@@ -90,7 +90,7 @@ impl<const WINDOW: usize, const POLYNOMIAL_TERMS: usize, T: Numeric>
     /// [`SignalError::PolynomialOrderTooHigh`] if there are more terms than samples to fit them,
     /// and [`SignalError::Linalg`] if the fit cannot be worked out.
     pub fn latest(timestep: T) -> Result<Self, SignalError> {
-        Self::build(timestep, WINDOW - 1)
+        Self::build(timestep, WINDOW.saturating_sub(1))
     }
 
     /// Feeds one sample and returns the smoothed value of the window it now sits in.
-- 
2.43.0


From cc790b2fe79f7692a09797d4d6c8b66ede405fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:52 +0000
Subject: [PATCH 07/18] fix: root counting no longer loses roots above a
 repeated root at an end of the range

---
 crates/multicalc/src/polynomial/roots.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/crates/multicalc/src/polynomial/roots.rs b/crates/multicalc/src/polynomial/roots.rs
index 4ad3109..cdcde08 100644
--- a/crates/multicalc/src/polynomial/roots.rs
+++ b/crates/multicalc/src/polynomial/roots.rs
@@ -362,7 +362,10 @@ fn add_range<T: Numeric>(pending: &mut [(T, T)], length: &mut usize, range: (T,
     }
 }
 
-/// How many times the chain's values change sign at `point`, skipping any that land exactly on zero.
+/// How many times the chain's values change sign just above `point`.
+///
+/// An entry that is zero at `point` takes the sign of its first derivative that is not. Every entry
+/// vanishes together at a repeated root, so leaving them out would lose the roots above it.
 fn sign_changes<const COEFFICIENT_COUNT: usize, T: Numeric>(
     chain: &[Polynomial<COEFFICIENT_COUNT, T>; COEFFICIENT_COUNT],
     length: usize,
@@ -371,7 +374,15 @@ fn sign_changes<const COEFFICIENT_COUNT: usize, T: Numeric>(
     let mut changes = 0;
     let mut previous_positive = None;
     for polynomial in chain.iter().take(length) {
-        let value = polynomial.evaluate(point);
+        let mut slope = *polynomial;
+        let mut value = slope.evaluate(point);
+        for _ in 1..COEFFICIENT_COUNT {
+            if value != T::ZERO {
+                break;
+            }
+            slope = slope.derivative();
+            value = slope.evaluate(point);
+        }
         if value == T::ZERO {
             continue;
         }
-- 
2.43.0


From 9b56fe5ca17318bc9ca910a16d12001e55d505f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:10 +0000
Subject: [PATCH 08/18] fix: cubic real_roots reports a triple root three
 times, repeats included

---
 crates/multicalc/src/polynomial/roots.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/multicalc/src/polynomial/roots.rs b/crates/multicalc/src/polynomial/roots.rs
index cdcde08..10ba197 100644
--- a/crates/multicalc/src/polynomial/roots.rs
+++ b/crates/multicalc/src/polynomial/roots.rs
@@ -172,7 +172,7 @@ impl<T: Numeric> Polynomial<3, T> {
 }
 
 impl<T: Numeric> Polynomial<4, T> {
-    /// The real roots: three, or one, or two with one of them repeated.
+    /// The real roots: three with repeats included, or one.
     ///
     /// Returns [`PolynomialError::LeadingCoefficientZero`] when the `x³` coefficient is zero, and
     /// [`PolynomialError::NonFinite`] when any coefficient is infinite or NaN.
@@ -207,7 +207,12 @@ impl<T: Numeric> Polynomial<4, T> {
             / (twenty_seven * cubic * cubic * cubic);
 
         let mut roots = RealRoots::new();
-        if reduced_linear == T::ZERO {
+        if reduced_linear == T::ZERO && reduced_constant == T::ZERO {
+            // A perfect cube, whose one root counts three times.
+            for _ in 0..3 {
+                roots.push(slide);
+            }
+        } else if reduced_linear == T::ZERO {
             roots.push((-reduced_constant).cbrt() + slide);
         } else if four * reduced_linear.powi(3) + twenty_seven * reduced_constant * reduced_constant
             <= T::ZERO
-- 
2.43.0


From 877bae68d198bdc8b599e78b4dcbca177829458e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:08 +0000
Subject: [PATCH 09/18] fix: count_real_roots no longer underflows on a
 constant polynomial

---
 crates/multicalc/src/polynomial/roots.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/crates/multicalc/src/polynomial/roots.rs b/crates/multicalc/src/polynomial/roots.rs
index 10ba197..97afa61 100644
--- a/crates/multicalc/src/polynomial/roots.rs
+++ b/crates/multicalc/src/polynomial/roots.rs
@@ -456,11 +456,12 @@ impl<const COEFFICIENT_COUNT: usize, T: Numeric> Polynomial<COEFFICIENT_COUNT, T
             length = 1;
         }
         // Its derivative comes next, unless it is a flat line with nothing to differentiate.
-        if degree >= 1 {
-            if let Some(slot) = chain.get_mut(1) {
-                *slot = self.derivative();
-                length = 2;
-            }
+        if degree == 0 {
+            return Ok((chain, length));
+        }
+        if let Some(slot) = chain.get_mut(1) {
+            *slot = self.derivative();
+            length = 2;
         }
 
         while length < COEFFICIENT_COUNT {
-- 
2.43.0


From b081ad709f8b2f55fad632c387b52ab90ceba6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:41 +0000
Subject: [PATCH 10/18] fix: quartic real_roots keeps its roots when the
 depressed linear term is nearly zero

---
 crates/multicalc/src/polynomial/roots.rs | 42 ++++++++++++++++--------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/crates/multicalc/src/polynomial/roots.rs b/crates/multicalc/src/polynomial/roots.rs
index 97afa61..a8dd081 100644
--- a/crates/multicalc/src/polynomial/roots.rs
+++ b/crates/multicalc/src/polynomial/roots.rs
@@ -282,7 +282,35 @@ impl<T: Numeric> Polynomial<5, T> {
             / (two_hundred_fifty_six * quartic.powi(4));
 
         let mut roots = RealRoots::new();
-        if reduced_linear == T::ZERO {
+        // The quartic splits into two quadratics once this helper cubic is solved. Its lowest
+        // coefficient is negative, so it always has a positive root, and the largest root is
+        // the one that works.
+        let mut largest = T::ZERO;
+        if reduced_linear != T::ZERO {
+            let helper = Polynomial::<4, T>::new([
+                -reduced_linear * reduced_linear,
+                T::TWO * reduced_quadratic * reduced_quadratic - eight * reduced_constant,
+                eight * reduced_quadratic,
+                eight,
+            ]);
+            largest = helper
+                .real_roots()?
+                .as_slice()
+                .last()
+                .copied()
+                .unwrap_or(T::ZERO);
+            // A root near zero comes out of the cubic formula with none of its digits right, and
+            // both quadratics are divided through by it, so bring it home with a few Newton steps.
+            let slope = helper.derivative();
+            for _ in 0..3 {
+                let step = helper.evaluate(largest) / slope.evaluate(largest);
+                if step.is_finite() {
+                    largest -= step;
+                }
+            }
+        }
+
+        if largest <= T::ZERO {
             // Only even powers are left, so solve for y² and take both square roots of each answer.
             let squares = Polynomial::<3, T>::new([reduced_constant, reduced_quadratic, T::ONE])
                 .real_roots()?;
@@ -294,18 +322,6 @@ impl<T: Numeric> Polynomial<5, T> {
                 }
             }
         } else {
-            // The quartic splits into two quadratics once this helper cubic is solved. Its lowest
-            // coefficient is negative, so it always has a positive root, and the largest root is
-            // the one that works.
-            let helper = Polynomial::<4, T>::new([
-                -reduced_linear * reduced_linear,
-                T::TWO * reduced_quadratic * reduced_quadratic - eight * reduced_constant,
-                eight * reduced_quadratic,
-                eight,
-            ])
-            .real_roots()?;
-            let largest = helper.as_slice().last().copied().unwrap_or(T::ZERO);
-
             let separation = (T::TWO * largest).sqrt();
             let shared = reduced_quadratic * T::HALF + largest;
             let apart = reduced_linear / (T::TWO * separation);
-- 
2.43.0


From 8b56869cc77eee1972c962e78368b95ec1575d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:21 +0000
Subject: [PATCH 11/18] fix: Rk45 lands exactly on the end time, so
 solve_on_grid no longer loses its last sample

---
 crates/multicalc/src/ode/rk45.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/multicalc/src/ode/rk45.rs b/crates/multicalc/src/ode/rk45.rs
index 3438892..9ee9946 100644
--- a/crates/multicalc/src/ode/rk45.rs
+++ b/crates/multicalc/src/ode/rk45.rs
@@ -366,8 +366,12 @@ impl<T: Numeric> Rk45<T> {
             if accept {
                 // Kahan-compensated time += h.
                 let delta = h - kahan_c;
-                let tnew = time + delta;
+                let mut tnew = time + delta;
                 kahan_c = (tnew - time) - delta;
+                // Rounding can stop a hair short of the end; land on it, so the last step covers it.
+                if (time_final - tnew).abs() <= T::EPSILON * (T::ONE + time_final.abs()) {
+                    tnew = time_final;
+                }
                 let step = Step {
                     time_start: time,
                     time_end: tnew,
@@ -380,7 +384,7 @@ impl<T: Numeric> Rk45<T> {
                 time = tnew;
                 y = state5;
                 stage1 = stage7; // FSAL
-                if (time_final - time).abs() <= T::EPSILON * (T::ONE + time_final.abs()) {
+                if time == time_final {
                     return Ok(y);
                 }
             }
-- 
2.43.0


From 6b23bd165e0edd85911032069e9a631318542772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:22 +0000
Subject: [PATCH 12/18] fix: Rk45::solve_on_grid refuses times out of order
 inside one step

---
 crates/multicalc/src/ode/rk45.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/crates/multicalc/src/ode/rk45.rs b/crates/multicalc/src/ode/rk45.rs
index 9ee9946..b0a73ff 100644
--- a/crates/multicalc/src/ode/rk45.rs
+++ b/crates/multicalc/src/ode/rk45.rs
@@ -464,6 +464,19 @@ impl<T: Numeric> Rk45<T> {
             return Ok(());
         }
         let time_final = times[times.len() - 1];
+        let forward = time_final >= time_start;
+        let mut previous = time_start;
+        for &time in times {
+            let in_order = if forward {
+                time >= previous
+            } else {
+                time <= previous
+            };
+            if !in_order {
+                return Err(IntegrateError::LimitsIllDefined);
+            }
+            previous = time;
+        }
         let mut next = 0usize;
         let _ = self.for_each_step(f, time_start, state_start, time_final, |step| {
             // Consume every requested time that falls in this accepted step (times are sorted).
-- 
2.43.0


From 12dc098763f1965a68ecac68ae082148e472c16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:57 +0000
Subject: [PATCH 13/18] fix: a point, beam or edge that is not finite is off
 the occupancy grid

---
 crates/multicalc/src/mapping/occupancy_grid.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/multicalc/src/mapping/occupancy_grid.rs b/crates/multicalc/src/mapping/occupancy_grid.rs
index 7ef7c61..da82377 100644
--- a/crates/multicalc/src/mapping/occupancy_grid.rs
+++ b/crates/multicalc/src/mapping/occupancy_grid.rs
@@ -83,7 +83,8 @@ pub trait OccupancyMap<T: Numeric + Primal = f64> {
         let row = ((point[1] - origin[1]) / self.resolution())
             .floor()
             .to_f64();
-        if column < 0.0 || row < 0.0 {
+        // Asked this way round so that a coordinate that is not a number is off the map too.
+        if !(column >= 0.0 && row >= 0.0) {
             return None;
         }
         let (row, column) = (row as usize, column as usize);
@@ -152,6 +153,11 @@ pub trait OccupancyMap<T: Numeric + Primal = f64> {
         if self.columns() == 0 || self.rows() == 0 {
             return None;
         }
+        // A beam from nowhere, or in no direction, meets nothing.
+        if !bearing.is_finite() || start_position.iter().any(|axis| !axis.is_finite()) {
+            return None;
+        }
+
         let direction = [bearing.cos(), bearing.sin()];
 
         // Where the beam meets the map. A beam starting inside enters at zero.
@@ -327,6 +333,10 @@ pub trait MutableOccupancyMap<T: Numeric + Primal = f64>: OccupancyMap<T> {
                 continue;
             };
             let length = (end[0] - start[0]).hypot(end[1] - start[1]);
+            // An edge that runs off to infinity has no points to mark.
+            if !length.is_finite() {
+                continue;
+            }
             let samples = (length / step).ceil().max(T::ONE).to_f64() as usize;
             for sample in 0..=samples {
                 let fraction = T::from_usize(sample) / T::from_usize(samples);
-- 
2.43.0


From 02e3a754904fb12ffda642b367eddded84c943e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:28 +0000
Subject: [PATCH 14/18] fix: a wide circle on an occupancy grid has no gaps in
 its rim

---
 crates/multicalc/src/mapping/occupancy_grid.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/multicalc/src/mapping/occupancy_grid.rs b/crates/multicalc/src/mapping/occupancy_grid.rs
index da82377..974c233 100644
--- a/crates/multicalc/src/mapping/occupancy_grid.rs
+++ b/crates/multicalc/src/mapping/occupancy_grid.rs
@@ -395,7 +395,13 @@ pub trait MutableOccupancyMap<T: Numeric + Primal = f64>: OccupancyMap<T> {
     /// }
     /// ```
     fn occupy_circle(&mut self, center: [T; 2], radius: T) {
-        let step = (T::from_f64(0.4) * self.resolution() / radius).max(T::from_f64(1e-3));
+        let radius = radius.abs();
+        if !radius.is_finite() {
+            return;
+        }
+        // The floor only keeps the walk moving when the rim is millions of cells away.
+        let floor = T::from_f64(1e-7).max(T::from_f64(16.0) * T::EPSILON);
+        let step = (T::from_f64(0.4) * self.resolution() / radius).max(floor);
         let mut angle = T::ZERO;
         while angle < T::TWO_PI {
             self.occupy_point([
-- 
2.43.0


From 551570fb693490b507b32bad0e73034162391b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:51 +0000
Subject: [PATCH 15/18] fix: a floating joint's slide columns follow its
 origin's axes

---
 .../multicalc/src/kinematics/kinematic_tree.rs   | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/crates/multicalc/src/kinematics/kinematic_tree.rs b/crates/multicalc/src/kinematics/kinematic_tree.rs
index 5386a61..9ad66d0 100644
--- a/crates/multicalc/src/kinematics/kinematic_tree.rs
+++ b/crates/multicalc/src/kinematics/kinematic_tree.rs
@@ -541,14 +541,16 @@ impl<const MAX_JOINTS: usize, const MAX_CONFIG: usize, T: Numeric>
                         let basis = Vector::<3, T>::from_fn(|row| {
                             if row == local_axis { T::ONE } else { T::ZERO }
                         });
-                        // Sliding along a world axis carries every point in the subtree, tool
-                        // included, by the same amount, in that fixed world direction — no
-                        // turning. Unlike every other joint's own axis, this one is not carried
-                        // by the joint's own orientation: a floating joint's slide reading is a
-                        // world position directly (MuJoCo's own free-joint convention), so world
-                        // axis 0 always means world axis 0, whichever way the body is turned.
+                        // Sliding along an axis of the joint's origin carries every point in the
+                        // subtree, tool included, by the same amount, in that fixed direction —
+                        // no turning. Unlike every other joint's own axis, this one is not
+                        // carried by the joint's own orientation: a floating joint's slide
+                        // reading is a position in its origin's frame (the world frame itself,
+                        // MuJoCo's own free-joint convention, when the origin is the identity),
+                        // so axis 0 means the same direction whichever way the body is turned.
+                        let slide_in_world = joint.origin().rotation().act(basis);
                         if let Some(slot) = columns.get_mut(local_axis) {
-                            *slot = Some((basis, Vector::zeros()));
+                            *slot = Some((slide_in_world, Vector::zeros()));
                         }
                         // Turning about this axis sweeps the tool around the joint's own origin,
                         // the same formula a revolute joint's single axis already uses. The turn
-- 
2.43.0


From 0af7a4d6938cc00ead361d41cd6e69a8ca5e5cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:12 +0000
Subject: [PATCH 16/18] fix: small capsules that cross are not taken for
 parallel ones

---
 crates/multicalc/src/kinematics/collision.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/multicalc/src/kinematics/collision.rs b/crates/multicalc/src/kinematics/collision.rs
index ee65736..d66bd1e 100644
--- a/crates/multicalc/src/kinematics/collision.rs
+++ b/crates/multicalc/src/kinematics/collision.rs
@@ -165,8 +165,10 @@ fn closest_points_between_segments<T: Numeric>(
         } else {
             let alignment = first_direction.dot(second_direction);
             let denominator = first_length_squared * second_length_squared - alignment * alignment;
-            // Parallel: denominator vanishes, so pin the first parameter and solve the second.
-            let candidate = if denominator > T::EPSILON {
+            // Parallel: denominator vanishes, so pin the first parameter and solve the second. It is
+            // the squared sine of the angle between them, scaled by both squared lengths.
+            let parallel = T::EPSILON * first_length_squared * second_length_squared;
+            let candidate = if denominator > parallel {
                 ((alignment * second_offset - first_offset * second_length_squared) / denominator)
                     .max(T::ZERO)
                     .min(T::ONE)
-- 
2.43.0


From e3e87fbf2b9680f5e53532d8eed3c2e40af67293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:12 +0000
Subject: [PATCH 17/18] fix: an inverse-kinematics solve that meets the target
 on its last step, or has no budget, reports so

---
 .../src/kinematics/inverse_kinematics.rs      | 27 ++++++++++---------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/crates/multicalc/src/kinematics/inverse_kinematics.rs b/crates/multicalc/src/kinematics/inverse_kinematics.rs
index 45a6a93..d437b93 100644
--- a/crates/multicalc/src/kinematics/inverse_kinematics.rs
+++ b/crates/multicalc/src/kinematics/inverse_kinematics.rs
@@ -273,8 +273,6 @@ impl<const MAX_CONFIG: usize, T: Numeric> InverseKinematics<MAX_CONFIG, T> {
         let mut configuration = *seed;
         self.hold_inside_limits(tree, &mut configuration);
 
-        let mut position_error = T::ZERO;
-        let mut orientation_error = T::ZERO;
         let mut iterations = 0;
 
         for _ in 0..self.maximum_iterations {
@@ -287,7 +285,7 @@ impl<const MAX_CONFIG: usize, T: Numeric> InverseKinematics<MAX_CONFIG, T> {
             // Body-frame pose error: log(T_current⁻¹ · T_target). The Jacobian below is taken in
             // the same frame so error and columns agree.
             let task_error = (current.inverse() * target).log();
-            (position_error, orientation_error) = split_error(task_error);
+            let (position_error, orientation_error) = split_error(task_error);
 
             if position_error <= self.position_tolerance
                 && orientation_error <= self.orientation_tolerance
@@ -393,21 +391,26 @@ impl<const MAX_CONFIG: usize, T: Numeric> InverseKinematics<MAX_CONFIG, T> {
             configuration = next;
         }
 
-        // Re-evaluate at the final configuration so the residuals match the returned q.
-        if iterations > 0 {
-            let state = tree.forward_kinematics(&configuration)?;
-            let current = state
-                .pose(tool_index)
-                .ok_or(KinematicsError::ToolIndexOutOfRange)?;
-            (position_error, orientation_error) = split_error((current.inverse() * target).log());
-        }
+        // Re-evaluate at the final configuration so the residuals, and whether the last step met the
+        // target, match the returned q.
+        let state = tree.forward_kinematics(&configuration)?;
+        let current = state
+            .pose(tool_index)
+            .ok_or(KinematicsError::ToolIndexOutOfRange)?;
+        let (position_error, orientation_error) = split_error((current.inverse() * target).log());
+        let reached = position_error <= self.position_tolerance
+            && orientation_error <= self.orientation_tolerance;
 
         Ok(InverseKinematicsReport {
             joint_positions: configuration,
             position_error,
             orientation_error,
             iterations,
-            termination: InverseKinematicsTermination::IterationBudget,
+            termination: if reached {
+                InverseKinematicsTermination::Converged
+            } else {
+                InverseKinematicsTermination::IterationBudget
+            },
         })
     }
 
-- 
2.43.0


From c9ec59027c1ea568cbf1fceb2ca896bdf18e8f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:48 +0000
Subject: [PATCH 18/18] fix: lyapunov and riccati settle against the size of
 the answer, so small costs are solved as accurately as large ones

---
 crates/multicalc/src/linear_algebra/lyapunov.rs | 2 +-
 crates/multicalc/src/linear_algebra/riccati.rs  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/multicalc/src/linear_algebra/lyapunov.rs b/crates/multicalc/src/linear_algebra/lyapunov.rs
index ea3689e..24680ac 100644
--- a/crates/multicalc/src/linear_algebra/lyapunov.rs
+++ b/crates/multicalc/src/linear_algebra/lyapunov.rs
@@ -78,7 +78,7 @@ pub fn solve_discrete_lyapunov<const N: usize, T: Numeric>(
         if !total.is_finite() || !increment_size.is_finite() || !total_size.is_finite() {
             return Err(LinalgError::DidNotConverge { iters: pass + 1 });
         }
-        let settled = increment_size <= T::EPSILON_X30 * total_size.max(T::ONE);
+        let settled = increment_size <= T::EPSILON_X30 * total_size;
         if settled {
             return Ok(total);
         }
diff --git a/crates/multicalc/src/linear_algebra/riccati.rs b/crates/multicalc/src/linear_algebra/riccati.rs
index 6081080..cc3947f 100644
--- a/crates/multicalc/src/linear_algebra/riccati.rs
+++ b/crates/multicalc/src/linear_algebra/riccati.rs
@@ -100,7 +100,7 @@ pub fn solve_discrete_riccati<const N: usize, const M: usize, T: Numeric>(
         {
             return Err(LinalgError::DidNotConverge { iters: pass + 1 });
         }
-        if increment_size <= T::EPSILON_X30 * cost_size.max(T::ONE) {
+        if increment_size <= T::EPSILON_X30 * cost_size {
             passes_taken = pass + 1;
             break;
         }
@@ -117,7 +117,7 @@ pub fn solve_discrete_riccati<const N: usize, const M: usize, T: Numeric>(
     // Deliberately looser than the settling test the passes use: the leftover is built from
     // several matrix products, so it carries far more rounding than the answer itself, and a
     // tighter bound would turn away correct answers on badly scaled systems.
-    let allowed = T::EPSILON.sqrt() * cost.frobenius_norm().max(T::ONE);
+    let allowed = T::EPSILON.sqrt() * cost.frobenius_norm();
     if !residual.is_finite() || residual.frobenius_norm() > allowed {
         return Err(LinalgError::DidNotConverge {
             iters: passes_taken,
-- 
2.43.0

