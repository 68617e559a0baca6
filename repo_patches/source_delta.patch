From 006cd9c9111d084076f97cb04d0637d11d504b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:03 +0000
Subject: [PATCH 01/62] fix: generate_rand_nbs reseeded numpy's global random
 stream

Drawing path shocks called np.random.seed(), so a simulation silently reset the
caller's own random stream, and concurrent simulations corrupted each other's
tapes. Use a local RandomState: the numbers for a given seed are the same.
---
 frm/pricing_engine/monte_carlo_generic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/frm/pricing_engine/monte_carlo_generic.py b/frm/pricing_engine/monte_carlo_generic.py
index 004003c..130de3d 100644
--- a/frm/pricing_engine/monte_carlo_generic.py
+++ b/frm/pricing_engine/monte_carlo_generic.py
@@ -33,7 +33,7 @@ def generate_rand_nbs(nb_steps: int,
     ValueError: If the number of random numbers to be generated exceeds 10 million, as this can lead to memory issues.
     """
 
-    np.random.seed(random_seed)
+    rng = np.random.RandomState(random_seed) # local stream, so the caller's global numpy stream is left untouched
 
     assert isinstance(nb_steps, int), type(nb_steps) 
     assert isinstance(nb_rand_vars, int), type(nb_rand_vars)
@@ -51,7 +51,7 @@ def generate_rand_nbs(nb_steps: int,
 
     if apply_antithetic_variates:
         nb_pairs = nb_simulations // 2
-        rand_nbs_normal = np.random.normal(0, 1, (nb_steps, nb_rand_vars, nb_simulations - nb_pairs)) # standard normal random numbers
+        rand_nbs_normal = rng.normal(0, 1, (nb_steps, nb_rand_vars, nb_simulations - nb_pairs)) # standard normal random numbers
         rand_nbs_antithetic_variate = -1 * rand_nbs_normal[:,:,:nb_pairs]
         rand_nbs = np.concatenate([rand_nbs_normal, rand_nbs_antithetic_variate], axis=2)
 
@@ -59,7 +59,7 @@ def generate_rand_nbs(nb_steps: int,
         idx = np.column_stack((np.arange(nb_pairs), np.arange(nb_pairs) + nb_pairs)).flatten()
         rand_nbs = rand_nbs[:, :, idx]
     else:    
-        rand_nbs = np.random.normal(0, 1, (nb_steps, nb_rand_vars, nb_simulations))
+        rand_nbs = rng.normal(0, 1, (nb_steps, nb_rand_vars, nb_simulations))
     
     return rand_nbs
 
-- 
2.43.0


From ff7a7dd7c54e05a05c226db380acf63609f26bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:03 +0000
Subject: [PATCH 02/62] fix: odd antithetic simulation counts lost a path and
 mispaired the rest

With an odd nb_simulations the reindexing returned nb_simulations-1 paths and
paired each normal draw with the negative of a different draw.
---
 frm/pricing_engine/monte_carlo_generic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/frm/pricing_engine/monte_carlo_generic.py b/frm/pricing_engine/monte_carlo_generic.py
index 130de3d..7f33580 100644
--- a/frm/pricing_engine/monte_carlo_generic.py
+++ b/frm/pricing_engine/monte_carlo_generic.py
@@ -56,7 +56,9 @@ def generate_rand_nbs(nb_steps: int,
         rand_nbs = np.concatenate([rand_nbs_normal, rand_nbs_antithetic_variate], axis=2)
 
         # Reindex to pair normal with antithetic variates
-        idx = np.column_stack((np.arange(nb_pairs), np.arange(nb_pairs) + nb_pairs)).flatten()
+        nb_normal = nb_simulations - nb_pairs
+        idx = np.column_stack((np.arange(nb_pairs), np.arange(nb_pairs) + nb_normal)).flatten()
+        idx = np.append(idx, np.arange(nb_pairs, nb_normal)) # the unpaired path, if nb_simulations is odd
         rand_nbs = rand_nbs[:, :, idx]
     else:    
         rand_nbs = rng.normal(0, 1, (nb_steps, nb_rand_vars, nb_simulations))
-- 
2.43.0


From a31bb0215e6bd689e54ef72ac84e57412ee0f03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:03 +0000
Subject: [PATCH 03/62] fix: normal_corr produced variates with the wrong
 covariance

numpy's cholesky is already the lower factor; transposing it gave shocks with
variance 1+rho^2 and covariance rho*sqrt(1-rho^2) instead of C.
---
 frm/pricing_engine/monte_carlo_generic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/pricing_engine/monte_carlo_generic.py b/frm/pricing_engine/monte_carlo_generic.py
index 7f33580..8de8187 100644
--- a/frm/pricing_engine/monte_carlo_generic.py
+++ b/frm/pricing_engine/monte_carlo_generic.py
@@ -79,7 +79,7 @@ def normal_corr(C: np.array,
     np.ndarray: Correlated pseudo random normal variates.
     """    
     
-    M = np.linalg.cholesky(C).T
+    M = np.linalg.cholesky(C) # lower triangular, C = M @ M.T
     return (M @ rand_nbs.T).T
 
 
-- 
2.43.0


From 9a8bd9c3c9aed5336f86cb06b0ae11928d1e4992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:03 +0000
Subject: [PATCH 04/62] fix: Heston euler schemes returned a negative variance
 at the last step

Absorption/reflection was only applied to a variance when it was used by the
next step, so the last row of every path could be negative.
---
 frm/pricing_engine/heston.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/frm/pricing_engine/heston.py b/frm/pricing_engine/heston.py
index 0f8580c..d2329cf 100644
--- a/frm/pricing_engine/heston.py
+++ b/frm/pricing_engine/heston.py
@@ -818,6 +818,12 @@ def heston_simulate_scalar(
             x[i, 1] = x[i - 1, 1] + kappa * (theta - x[i - 1, 1]) * dt + vv * np.sqrt(x[i - 1, 1]) * u[i - 1, 1]
             x[i, 0] = x[i - 1, 0] + x[i - 1, 0] * (mu * dt + np.sqrt(x[i - 1, 1]) * u[i - 1, 0])
 
+        # The final variance is not an input to a further step, but must be non-negative as well
+        if method == 'euler_with_absorption_of_volatility_process':
+            x[nb_timesteps, 1] = max(x[nb_timesteps, 1], 0)
+        elif method == 'euler_with_reflection_of_volatility_process':
+            x[nb_timesteps, 1] = abs(x[nb_timesteps, 1])
+
     return x
 
 
@@ -941,6 +947,12 @@ def heston_simulate(
             x[i, 0, :] = x[i - 1, 0, :] \
                          + x[i - 1, 0, :] * (mu * dt + np.sqrt(x[i - 1, 1, :]) * u[i - 1, 0, :])
 
+        # The final variance is not an input to a further step, but must be non-negative as well
+        if method == 'euler_with_absorption_of_volatility_process':
+            x[nb_timesteps, 1, :] = np.maximum(0, x[nb_timesteps, 1, :])
+        elif method == 'euler_with_reflection_of_volatility_process':
+            x[nb_timesteps, 1, :] = np.abs(x[nb_timesteps, 1, :])
+
     return x
 
 
-- 
2.43.0


From 6e453092160be9373157c16653cd4daf84c26c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:03 +0000
Subject: [PATCH 05/62] fix: simulate_gbm_path mixed up underlyings and
 simulations

Per-underlying prices, drifts and volatilities were broadcast along the
simulation axis: an error for most shapes, and silently wrong paths when the
number of underlyings equals the number of simulations.
---
 frm/pricing_engine/geometric_brownian_motion.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/frm/pricing_engine/geometric_brownian_motion.py b/frm/pricing_engine/geometric_brownian_motion.py
index 4676e87..9a60963 100644
--- a/frm/pricing_engine/geometric_brownian_motion.py
+++ b/frm/pricing_engine/geometric_brownian_motion.py
@@ -77,12 +77,14 @@ def simulate_gbm_path(initial_px: np.array,
 
     # Initialise shape and set initial value of underlying(s)
     x = np.zeros((rand_nbs.shape[0]+1, rand_nbs.shape[1], rand_nbs.shape[2]))
-    x[0, :, :] = initial_px
+    x[0, :, :] = initial_px.reshape(-1, 1)
 
     # Simulate per geometric brownian motion process
     for i in range(0, nb_timesteps):
-        x[i+1, :, :] = x[i, :, :] * np.exp((drift[i, :] - 0.5 * (forward_volatility[i, :] ** 2)) *
-                                           timestep_length[i] + forward_volatility[i, :] * np.sqrt(timestep_length[i]) * rand_nbs[i, :, :])
+        drift_i = drift[i, :, np.newaxis] # one row per underlying, to broadcast across the simulations
+        vol_i = forward_volatility[i, :, np.newaxis]
+        x[i+1, :, :] = x[i, :, :] * np.exp((drift_i - 0.5 * (vol_i ** 2)) *
+                                           timestep_length[i] + vol_i * np.sqrt(timestep_length[i]) * rand_nbs[i, :, :])
 
     return x
 
-- 
2.43.0


From 8be6bd4f40cd90344c88ab664d39d48bf8d409d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:09 +0000
Subject: [PATCH 06/62] fix: implied vol solvers returned vols that do not
 reprice the option

The bracketed solve stopped at an absolute 1e-6 in vol, which for ordinary
normal vols misses the 0.001% price tolerance, and the fallback accepted any
L-BFGS-B 'success', e.g. a stall at a bound with a 50% price error.
---
 frm/pricing_engine/black76_bachelier.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/frm/pricing_engine/black76_bachelier.py b/frm/pricing_engine/black76_bachelier.py
index b3c0a6a..a0de5cd 100644
--- a/frm/pricing_engine/black76_bachelier.py
+++ b/frm/pricing_engine/black76_bachelier.py
@@ -151,7 +151,7 @@ def black76_solve_implied_vol(
 
     # Want prices to be within 0.001% - i.e. if price is 100,000, acceptable range is (99999, 100001)
     # Hence set obj function tol to (0.001%)**2 = 1e-10 (due to the squaring of the relative error in the obj function)
-    xtol = 1e-6
+    xtol = 1e-12 # the solve is to terminate on the price error, which for a small vol needs far more than 1e-6 in vol
     obj_func_tol = 1e-5
     x0 = vol_sln_guess
     bounds = VOL_SLN_BOUNDS
@@ -174,8 +174,8 @@ def black76_solve_implied_vol(
             options = {'ftol': obj_func_tol, 'gtol': 0} # gtol set to 0, so optimisation is terminated based on ftol
             power = 2 # Use squared error for the optimisation
             res = minimize(fun=error_function, x0=np.atleast_1d(x0), bounds=[bounds], method='L-BFGS-B', options=options)
-            # 2nd condition required as we have overridden options to terminate based on ftol
-            if res.success or abs(res.fun) < obj_func_tol**power:
+            # Rely on the price error only, 'res.success' is also set if the optimiser stalls (ftol) away from the solution
+            if abs(res.fun) < obj_func_tol**power:
                 return res.x[0]
             else:
                 raise ValueError('Optimisation to solve normal volatility did not converge.')
@@ -296,7 +296,7 @@ def bachelier_solve_implied_vol(
 
     # Want prices to be within 0.001% - i.e. if price is 100,000, acceptable range is (99999, 100001)
     # Hence set obj function tol to (0.001%)**2 = 1e-10 (due to the squaring of the relative error in the obj function)
-    xtol = 1e-6
+    xtol = 1e-12 # the solve is to terminate on the price error, which for a small vol needs far more than 1e-6 in vol
     obj_func_tol = 1e-5
     x0 = vol_n_guess
     bounds = VOL_N_BOUNDS
@@ -319,8 +319,8 @@ def bachelier_solve_implied_vol(
             options = {'ftol': obj_func_tol, 'gtol': 0} # gtol set to 0, so optimisation is terminated based on ftol
             power = 2 # Use squared error for the optimisation
             res = minimize(fun=error_function, x0=np.atleast_1d(x0), bounds=[bounds], method='L-BFGS-B', options=options)
-            # 2nd condition required as we have overridden options to terminate based on ftol
-            if res.success or abs(res.fun) < obj_func_tol**power:
+            # Rely on the price error only, 'res.success' is also set if the optimiser stalls (ftol) away from the solution
+            if abs(res.fun) < obj_func_tol**power:
                 return res.x[0]
             else:
                 raise ValueError('Optimisation to solve normal volatility did not converge.')
-- 
2.43.0


From 5d3cc84900291c8bb53e63a3188e8ec936bc9ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:46 +0000
Subject: [PATCH 07/62] fix: vol conversions returned vols that do not reprice
 the option

shift_black76_vol and normal_vol_to_black76_sln accepted any L-BFGS-B 'success',
including stalls on a flat objective with a wrong (even 100% wrong) price.
Accept on the price error only, and fall back to the bracketed solve.
---
 frm/pricing_engine/black76_bachelier.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/frm/pricing_engine/black76_bachelier.py b/frm/pricing_engine/black76_bachelier.py
index a0de5cd..b601081 100644
--- a/frm/pricing_engine/black76_bachelier.py
+++ b/frm/pricing_engine/black76_bachelier.py
@@ -427,10 +427,14 @@ def shift_black76_vol(
                    bounds=[VOL_SLN_BOUNDS],
                    method='L-BFGS-B',
                    options=options)
-    # 2nd condition required as we have overridden options to terminate based on ftol
-    if res.success or abs(res.fun) < obj_func_tol:
+    # Rely on the price error only, 'res.success' is also set if the optimiser stalls (ftol) away from the solution
+    if abs(res.fun) < obj_func_tol:
         return res.x[0]
-    else:
+
+    try:
+        # Fallback to the bracketed solve
+        return black76_solve_implied_vol(F=F, tau=tau, cp=cp, K=K, ln_shift=to_ln_shift, X=black76_px)
+    except ValueError:
         # Further development could include:
         # (i) fallback to other optimisation methods (e.g. 'trust-constr')
         # (ii) addition of 'xtol' parameter into the optimisation (it is a parameter that is not available in 'L-BFGS-B')
@@ -483,10 +487,14 @@ def normal_vol_to_black76_sln(
                    bounds=[VOL_SLN_BOUNDS],
                    method='L-BFGS-B',
                    options=options)
-    # 2nd condition required as we have overridden options to terminate based on ftol
-    if res.success or abs(res.fun) < obj_func_tol:
+    # Rely on the price error only, 'res.success' is also set if the optimiser stalls (ftol) away from the solution
+    if abs(res.fun) < obj_func_tol:
         return res.x[0]
-    else:
+
+    try:
+        # Fallback to the bracketed solve
+        return black76_solve_implied_vol(F=F, tau=tau, cp=cp, K=K, ln_shift=ln_shift, X=bachelier_px)
+    except ValueError:
         # Further development could include:
         # (i) fallback to other optimisation methods (e.g. 'trust-constr')
         # (ii) addition of 'xtol' parameter into the optimisation (it is a parameter that is not available in 'L-BFGS-B')
-- 
2.43.0


From c219a8fd62bab3e6903631b69c8803a3708b5dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:46 +0000
Subject: [PATCH 08/62] fix: ZeroCurve added columns to the caller's pillar_df

Building a curve modified its input, so building a second curve (or retrying)
from the same DataFrame failed with 'Exactly two columns must be specified'.
---
 frm/term_structures/zero_curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index ebe7abd..2b3eec9 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -34,7 +34,7 @@ class ZeroCurve:
     
     def __post_init__(self, compounding_freq):
         
-        pillar_df = self.pillar_df
+        pillar_df = self.pillar_df.copy() # columns are added below, leave the caller's DataFrame as it is
         if compounding_freq is None and 'zero_rate' in pillar_df.columns:
             raise ValueError("'compounding_freq' must be specified zero rates specified in 'pillar_df'")
             
-- 
2.43.0


From a9bbfda7045d85a1b32c06d11115954f90bdf5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:46 +0000
Subject: [PATCH 09/62] fix: linear ZeroCurve rejected queries in years and t=0
 pillars

The years branch compared the interpolation enum to a string, so it always
raised ValueError for LINEAR_ON_LN_DISCOUNT, and a pillar at t=0 was rejected
as an invalid interpolation method.
---
 frm/term_structures/zero_curve.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index 2b3eec9..0e1fda5 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -132,6 +132,8 @@ class ZeroCurve:
 
         else:
             match self.interp_method:
+                case ZeroCurveInterpMethod.LINEAR_ON_LN_DISCOUNT:
+                    pass # interpolates on the pillar points, no spline definition to set up
                 case ZeroCurveInterpMethod.CUBIC_SPLINE_ON_LN_DISCOUNT:
                     x = pillar_df['years'].to_list()
                     y = np.log(pillar_df['discount_factor']).to_list()
@@ -328,7 +330,7 @@ class ZeroCurve:
             raise ValueError('Only one input among days, date, or years is allowed.')            
         
         if years is not None:
-            if self.interp_method == 'linear_on_ln_discount':
+            if self.interp_method == ZeroCurveInterpMethod.LINEAR_ON_LN_DISCOUNT:
                 ln_df_interp = np.interp(x=years, xp=self.pillar_df['years'], fp= np.log(self.pillar_df['discount_factor']))
                 cczr = -1 * ln_df_interp / years
                 discount_factor = np.exp(ln_df_interp)
-- 
2.43.0


From a17c198725d197b42e961f086befd8228c276934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:04 +0000
Subject: [PATCH 10/62] fix: ZeroCurve dropped and reordered dates outside the
 curve

The extrapolation enum was compared to strings, so dates outside the curve were
silently dropped (misaligning the result with the input, or IndexError for a
scalar) instead of returning NaN / the flat bound, and the remaining results
were regrouped. Results now align with the requested dates.
---
 frm/term_structures/zero_curve.py | 33 +++++++++++--------------------
 1 file changed, 12 insertions(+), 21 deletions(-)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index 0e1fda5..23c9b50 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -366,33 +366,24 @@ class ZeroCurve:
                 raise ValueError(f"Invalid extrapolation method {self.extrap_method}")
 
             # Check if any of the dates are outside the available data
+            cleaned_dates = dates
             min_date = self.daily_df['date'].min()
             below_range = dates < min_date
-            dates_below = []
             if any(below_range):
-                bound_date = self.daily_df['date'].min()
-                for i,date in enumerate(dates[below_range]):
-                    print('Date', date.strftime('%Y-%m-%d'), 'is below the min available data of ' + bound_date.strftime('%Y-%m-%d') + msg)
-                    if self.extrap_method == 'none':
-                        dates_below.append(np.nan)
-                    elif self.extrap_method == 'flat':
-                        dates_below.append(bound_date)
-            
+                for date in dates[below_range]:
+                    print('Date', date.strftime('%Y-%m-%d'), 'is below the min available data of ' + min_date.strftime('%Y-%m-%d') + msg)
+                bound_date = min_date if self.extrap_method == ZeroCurveExtrapMethod.FLAT else pd.NaT
+                cleaned_dates = cleaned_dates.where(~below_range, bound_date)
+
             max_date = self.daily_df['date'].max()
             above_range = dates > max_date
-            dates_above = []
             if any(above_range):
-                bound_date = self.daily_df['date'].max()
-                for i,date in enumerate(dates[above_range]):
-                    print('Date', date.strftime('%Y-%m-%d'), 'is above the max available data of ' + bound_date.strftime('%Y-%m-%d') + msg)
-                    if self.extrap_method == 'none':
-                        dates_above.append(np.nan)
-                    elif self.extrap_method == 'flat':
-                        dates_above.append(bound_date)
-          
-            in_range = np.logical_and(np.logical_not(below_range),np.logical_not(above_range))
-            cleaned_dates = dates_below + list(dates[in_range].values) + dates_above
-            df = pd.merge(pd.DataFrame(data=cleaned_dates, columns=['date']), self.daily_df, left_on='date',right_on='date', how='left')
+                for date in dates[above_range]:
+                    print('Date', date.strftime('%Y-%m-%d'), 'is above the max available data of ' + max_date.strftime('%Y-%m-%d') + msg)
+                bound_date = max_date if self.extrap_method == ZeroCurveExtrapMethod.FLAT else pd.NaT
+                cleaned_dates = cleaned_dates.where(~above_range, bound_date)
+
+            df = pd.merge(pd.DataFrame({'date': cleaned_dates}), self.daily_df, left_on='date',right_on='date', how='left')
             return df    
 
        
-- 
2.43.0


From 5a76bb88d1093ef535afbfec2ea0f6fe92cf969c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:04 +0000
Subject: [PATCH 11/62] fix: ZeroCurve with pillars in years ended at the last
 whole year

Dates between the last whole year and a fractional last pillar were treated as
outside the curve.
---
 frm/term_structures/zero_curve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index 23c9b50..e3bde6c 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -157,8 +157,8 @@ class ZeroCurve:
         if 'date' in self.pillar_df.columns:
             max_date = max(self.pillar_df['date'])
         else:
-            max_years = int(max(self.pillar_df['years']))
-            max_date = self.curve_date + relativedelta(years=max_years)
+            max_years = max(self.pillar_df['years'])
+            max_date = self.curve_date + relativedelta(years=int(max_years))
             while year_frac(self.curve_date, max_date, self.day_count_basis) < max_years:
                 max_date += dt.timedelta(days=1)
                 
-- 
2.43.0


From 0e5ba80eca684e280a20efbc1eae80c04695b9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:04 +0000
Subject: [PATCH 12/62] fix: ZeroCurve raised TypeError when queried with a
 Series of days

'days' is documented as an int or a pd.Series.
---
 frm/term_structures/zero_curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index e3bde6c..5ed2068 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -348,7 +348,7 @@ class ZeroCurve:
             return pd.DataFrame({'years': years, 'cczr': cczr, 'discount_factor': discount_factor})
         else:
             if days is not None:
-                dates = self.curve_date + dt.timedelta(days=days)
+                dates = self.curve_date + pd.to_timedelta(days, unit='D')
 
             dates = pd.to_datetime(dates)
             if not(isinstance(dates, pd.DatetimeIndex)):
-- 
2.43.0


From 814d5c672f1a23725176108283ac973e12bece6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:24 +0000
Subject: [PATCH 13/62] fix: FXVolatilitySurface rewrote the caller's market
 quotes

Building a surface renamed, added and dropped columns of the caller's vol_quotes
and normalised tenors in the caller's forward curve.
---
 frm/term_structures/fx_helpers.py            | 2 +-
 frm/term_structures/fx_volatility_surface.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/frm/term_structures/fx_helpers.py b/frm/term_structures/fx_helpers.py
index 8f26775..880ef76 100644
--- a/frm/term_structures/fx_helpers.py
+++ b/frm/term_structures/fx_helpers.py
@@ -68,7 +68,7 @@ def fx_forward_curve_helper(fx_forward_curve_df: pd.DataFrame,
                             spot_offset: int,
                             cal: np.busdaycalendar) -> pd.DataFrame:
 
-    fx_forward_curve_df = convert_column_to_consistent_data_type(fx_forward_curve_df)
+    fx_forward_curve_df = convert_column_to_consistent_data_type(fx_forward_curve_df.copy()) # leave the caller's DataFrame as it is
 
     mandatory_columns = ['fx_forward_rate']
     for column in mandatory_columns:
diff --git a/frm/term_structures/fx_volatility_surface.py b/frm/term_structures/fx_volatility_surface.py
index 970ba78..990e0a0 100644
--- a/frm/term_structures/fx_volatility_surface.py
+++ b/frm/term_structures/fx_volatility_surface.py
@@ -90,7 +90,7 @@ class FXVolatilitySurface:
         self.fx_spot_rate = self.fx_forward_curve_df.loc[mask, 'fx_forward_rate'].values[0]
 
         # Process volatility input and setup pillar dataframe and daily helper dataframe
-        vol_quotes = clean_vol_quotes_column_names(vol_quotes)
+        vol_quotes = clean_vol_quotes_column_names(vol_quotes.copy()) # leave the caller's DataFrame as it is
         vol_quotes_call_put = solve_call_put_quotes_from_strategy_quotes(vol_quotes)
         delta_smile_quote_details = get_delta_smile_quote_details(vol_quotes_call_put)
         self.quotes_column_names = np.array(delta_smile_quote_details['quotes_column_names'].to_list())
-- 
2.43.0


From 2b24d7ca14bf49a1abfd977260df9f7c91147a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:38 +0000
Subject: [PATCH 14/62] fix: mixed-case holiday calendars could not be looked
 up

get_busdaycal upper-cases its keys, so 'European_Central_Bank',
'ICE_Futures_Europe' and 'New_York_Stock_Exchange' always raised ValueError.
---
 frm/utils/business_day_calendar.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/frm/utils/business_day_calendar.py b/frm/utils/business_day_calendar.py
index 8f550fb..12b0249 100644
--- a/frm/utils/business_day_calendar.py
+++ b/frm/utils/business_day_calendar.py
@@ -20,12 +20,11 @@ with open(file_path_ccy_holiday, 'rb') as f:
 
 
 def get_holidays_object(key):
-    if key in CCY_HOLIDAY.keys():
-        return CCY_HOLIDAY[key]
-    elif key in LOCALE_HOLIDAY.keys():
-        return LOCALE_HOLIDAY[key]
-    else:
-        raise ValueError(f"Holidays not setup for {key}")
+    for holiday_dict in (CCY_HOLIDAY, LOCALE_HOLIDAY):
+        for name, holidays_object in holiday_dict.items():
+            if name.upper() == key.upper(): # not all names are in upper case, e.g. 'European_Central_Bank'
+                return holidays_object
+    raise ValueError(f"Holidays not setup for {key}")
 
 
 def convert_weekend_to_weekmask(weekend_set):
-- 
2.43.0


From f90d450b543ba1ae81b540e63f1e86866d9b6ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:38 +0000
Subject: [PATCH 15/62] fix: TermSwapCurve overwrote forward fixings with
 historical ones

The historical mask repeated the future condition, so future periods got the
last historical fixing and historical periods got NaN.
---
 frm/term_structures/swap_curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/term_structures/swap_curve.py b/frm/term_structures/swap_curve.py
index 1debf8b..4606339 100644
--- a/frm/term_structures/swap_curve.py
+++ b/frm/term_structures/swap_curve.py
@@ -45,7 +45,7 @@ class TermSwapCurve:
         fixings[mask_future] = forward_fixings
 
         # Get historical fixings
-        mask_historical = period_start >= self.zero_curve.curve_date
+        mask_historical = period_start < self.zero_curve.curve_date
         historical_fixings = self.historical_fixings.index_historical_fixings(
             fixing_dates=period_start[mask_historical])
         fixings[mask_historical] = historical_fixings
-- 
2.43.0


From dc3f92db813b04691a95097df729bc9c2f9bab25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:20 +0000
Subject: [PATCH 16/62] fix: RFRFixings accrued nothing until the first fixing
 inside a period

For a period starting on a day without a fixing the leading days dropped out of
the compounding (a silently lower rate), and the coverage check compared the
wrong end of the period, so missing history was not reported. Days before the
first fixing in the period now use the last fixing before it, and a period that
starts before the history raises.
---
 frm/term_structures/historical_swap_index_fixings.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/frm/term_structures/historical_swap_index_fixings.py b/frm/term_structures/historical_swap_index_fixings.py
index 63fbae8..f20c296 100644
--- a/frm/term_structures/historical_swap_index_fixings.py
+++ b/frm/term_structures/historical_swap_index_fixings.py
@@ -37,13 +37,10 @@ class RFRFixings(HistoricalSwapIndexFixings):
         observations_start = period_start
         observations_end = period_end - pd.DateOffset(days=1)
 
-        mask = np.logical_and(self.fixings['date'] >= observations_start.min(),
-                              self.fixings['date'] <= observations_end.max())
-        applicable_fixings = self.fixings.loc[mask,:].sort_values('date', ascending=True).reset_index(drop=True)
-
+        applicable_fixings = self.fixings.sort_values('date', ascending=True).reset_index(drop=True)
 
         if observations_end.max() > applicable_fixings['date'].max() \
-            or observations_end.min() < applicable_fixings['date'].min():
+            or observations_start.min() < applicable_fixings['date'].min():
             raise ValueError('Observation period extends beyond available fixing data.')
 
         coupon_rates = [self._calculate_coupon_rate(s, e, applicable_fixings, cpn_calc_method)
@@ -64,7 +61,8 @@ class RFRFixings(HistoricalSwapIndexFixings):
             return periods_ois_fixings['fixing'].mean()
 
         date_range = pd.date_range(start=observation_start, end=observation_end, freq='D')
-        df = pd.merge_asof(pd.DataFrame({'date': date_range}), periods_ois_fixings, on='date', direction='backward')
+        # Days without a fixing (weekends, holidays) use the last fixing before, which may be prior to the period
+        df = pd.merge_asof(pd.DataFrame({'date': date_range}), fixings, on='date', direction='backward')
 
         if method == RFRFixingCalcMethod.DAILY_COMPOUNDED:
             df['daily_interest'] = 1 + df['fixing'] / self.day_count_basis.days_per_year
-- 
2.43.0


From b78b0ad4b080218badc505addfb022196f6bcdd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:20 +0000
Subject: [PATCH 17/62] fix: a fixing delivered twice was counted twice in the
 simple average

---
 frm/term_structures/historical_swap_index_fixings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/term_structures/historical_swap_index_fixings.py b/frm/term_structures/historical_swap_index_fixings.py
index f20c296..f8cd8af 100644
--- a/frm/term_structures/historical_swap_index_fixings.py
+++ b/frm/term_structures/historical_swap_index_fixings.py
@@ -37,7 +37,7 @@ class RFRFixings(HistoricalSwapIndexFixings):
         observations_start = period_start
         observations_end = period_end - pd.DateOffset(days=1)
 
-        applicable_fixings = self.fixings.sort_values('date', ascending=True).reset_index(drop=True)
+        applicable_fixings = self.fixings.drop_duplicates('date', keep='last').sort_values('date', ascending=True).reset_index(drop=True)
 
         if observations_end.max() > applicable_fixings['date'].max() \
             or observations_start.min() < applicable_fixings['date'].min():
-- 
2.43.0


From 7447e795a6d1262ecf7784740fffdff89c9d7875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:29 +0000
Subject: [PATCH 18/62] fix: add_period_yearfrac failed on a schedule with no
 further columns

---
 frm/utils/schedule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/utils/schedule.py b/frm/utils/schedule.py
index 08f5355..b155425 100644
--- a/frm/utils/schedule.py
+++ b/frm/utils/schedule.py
@@ -123,7 +123,7 @@ class BaseSchedule:
         mask = np.logical_and(self.df['period_start'].notnull(), self.df['period_end'].notnull())
         years = np.full(self.df.shape[0], np.nan)
         years[mask] = year_frac(self.df['period_start'][mask], self.df['period_end'][mask], day_count_basis)
-        self.df.insert(loc=col_index + 2, column='period_yearfrac', value=years)
+        self.df.insert(loc=min(col_index + 2, self.df.shape[1]), column='period_yearfrac', value=years)
 
 
 @dataclass
-- 
2.43.0


From 6010ee49e2162f4a9899cf2c076274c30d78f964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:02 +0000
Subject: [PATCH 19/62] fix: HullWhite1Factor theta ignored the slope of the
 zero curve

A debugging remnant ('if True') replaced the instantaneous forward curve by r0
and dropped its derivative, so for any curve that is not flat neither the
simulation nor calc_discount_factor_by_solving_ode_1 reproduced the curve.
---
 frm/pricing_engine/hw1f.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/frm/pricing_engine/hw1f.py b/frm/pricing_engine/hw1f.py
index cd606b5..6f9bea3 100644
--- a/frm/pricing_engine/hw1f.py
+++ b/frm/pricing_engine/hw1f.py
@@ -135,14 +135,9 @@ class HullWhite1Factor:
         f_t_minus_dt = self.zero_curve.get_instantaneous_forward_rate(years=years-self.dt)
         df_dt = (f_t_plus_dt - f_t_minus_dt) / (2 * self.dt)
 
-        if True:
-            f_t = np.full_like(years, self.r0)
-            return α * f_t + (σ**2 / (2*α)) * (1 - np.exp(-2 * α * years))
-        else:
-
-            return df_dt \
-                   + α * f_t \
-                   + (σ**2 / (2*α)) * (1 - np.exp(-2 * α * years))
+        return df_dt \
+               + α * f_t \
+               + (σ**2 / (2*α)) * (1 - np.exp(-2 * α * years))
 
 
     def get_forward_rate_by_integration(self,t, T):
-- 
2.43.0


From 8eaeeb83f12ace1f0a851766484aff9acac76673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:25 +0000
Subject: [PATCH 20/62] fix: HullWhite1Factor.fit_theta always failed on the
 pillar at t=0

A ZeroCurve always has a pillar at t=0, for which the discount factor recalc
asserts t2 > t1, so fit_theta and calc_error_for_theta_fit raised.
---
 frm/pricing_engine/hw1f.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/frm/pricing_engine/hw1f.py b/frm/pricing_engine/hw1f.py
index 6f9bea3..edb011b 100644
--- a/frm/pricing_engine/hw1f.py
+++ b/frm/pricing_engine/hw1f.py
@@ -77,8 +77,9 @@ class HullWhite1Factor:
 
     def calc_error_for_theta_fit(self, print_results=False):
         """Calculate the basis point error between the pillar zero rates and the theta fit."""
-        years_pillars = self.zero_curve.pillar_df['years'].values
-        cczr_pillars = self.zero_curve.pillar_df['cczr'].values
+        mask = self.zero_curve.pillar_df['years'] > 0 # the pillar at t=0 is fitted by construction, it is r0
+        years_pillars = self.zero_curve.pillar_df.loc[mask,'years'].values
+        cczr_pillars = self.zero_curve.pillar_df.loc[mask,'cczr'].values
 
         cczr_recalcs = np.array([-1*np.log(self.calc_discount_factor_by_solving_ode_1(0, yr))/yr for yr in years_pillars])
         diff_bps = 1e4 * (cczr_pillars - cczr_recalcs)
-- 
2.43.0


From e6bcc3dbfab89d5550a87e11b22e6075e1c3ff34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:25 +0000
Subject: [PATCH 21/62] fix: HullWhite1Factor.fit_theta left theta of the last
 grid point in place

The best dt/num were stored with the theta spline of the last combination tried,
and an interrupted search left dt/num changed.
---
 frm/pricing_engine/hw1f.py | 41 +++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/frm/pricing_engine/hw1f.py b/frm/pricing_engine/hw1f.py
index edb011b..0e21249 100644
--- a/frm/pricing_engine/hw1f.py
+++ b/frm/pricing_engine/hw1f.py
@@ -49,17 +49,31 @@ class HullWhite1Factor:
                   nums=(10, 100, 1000, 10000)):
         """Simple grid search to find the best fit for theta grid granularity and dt for numerical differentiation."""
 
-        results = []
-        for dt in dts:
-            for num in nums:
-                self.dt = dt
-                self.num = num
-                self.setup_theta()
-                average_error_bps = self.calc_error_for_theta_fit(print_results=False)
-                results.append([dt, num, average_error_bps])
-
-        # Sort results by error
-        results = sorted(results, key=lambda x: x[2])
+        # Restored if the search does not complete, so dt, num and theta_spline are always consistent
+        initial_state = {k: self.__dict__[k] for k in ('dt', 'num', 'theta_spline') if k in self.__dict__}
+
+        try:
+            results = []
+            for dt in dts:
+                for num in nums:
+                    self.dt = dt
+                    self.num = num
+                    self.setup_theta()
+                    average_error_bps = self.calc_error_for_theta_fit(print_results=False)
+                    results.append([dt, num, average_error_bps])
+
+            # Sort results by error
+            results = sorted(results, key=lambda x: x[2])
+
+            # Best fit
+            dt, num, _ = results[0]
+            self.dt = dt
+            self.num = num
+            self.setup_theta()
+        except BaseException:
+            self.__dict__.pop('theta_spline', None)
+            self.__dict__.update(initial_state)
+            raise
 
         # Print error results
         print('')
@@ -69,11 +83,6 @@ class HullWhite1Factor:
         table.add_column("errors", [round(res[2],4) for res in results])
         print(table)
 
-        # Best fit
-        dt, num, _ = results[0]
-        self.dt = dt
-        self.num = num
-
 
     def calc_error_for_theta_fit(self, print_results=False):
         """Calculate the basis point error between the pillar zero rates and the theta fit."""
-- 
2.43.0


From a32af8ef766e09986cb379f19d4ef766b6e2254a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:13 +0000
Subject: [PATCH 22/62] fix: HullWhite1Factor.price_optionlet always failed on
 unknown keyword arguments

---
 frm/pricing_engine/hw1f.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frm/pricing_engine/hw1f.py b/frm/pricing_engine/hw1f.py
index 0e21249..b39b606 100644
--- a/frm/pricing_engine/hw1f.py
+++ b/frm/pricing_engine/hw1f.py
@@ -412,8 +412,8 @@ class HullWhite1Factor:
 
         # (2.26) in [1]
         K_ = 1 / (1 + K * (termination_years - effective_years)) # Strike for the zero-coupon bond option
-        px = self.price_zero_coupon_bond_option(expiry_years=effective_years,
-                                                maturity_years=termination_years,
+        px = self.price_zero_coupon_bond_option(option_expiry=effective_years,
+                                                bond_maturity=termination_years,
                                                 K=K_,
                                                 cp=cp_) / K_
         return px
-- 
2.43.0


From 1f5b661129b0f84a2638cf90632f0b952c2cbd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:45 +0000
Subject: [PATCH 23/62] fix: HullWhite1Factor.price_swaption always failed and
 lost the last coupon

---
 frm/pricing_engine/hw1f.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/frm/pricing_engine/hw1f.py b/frm/pricing_engine/hw1f.py
index b39b606..c6e6ba3 100644
--- a/frm/pricing_engine/hw1f.py
+++ b/frm/pricing_engine/hw1f.py
@@ -698,7 +698,7 @@ class HullWhite1Factor:
         )
 
         # Determine strikes and coefficients for each component bond option
-        coupon_strikes = critical_bond_prices[:-1]
+        coupon_strikes = critical_bond_prices[:len(coupon_payment_times)] # the last one is the notional's if paid together
         notional_strike = critical_bond_prices[-1]
 
         # For a payer swaption:
@@ -712,20 +712,20 @@ class HullWhite1Factor:
         # Price the bond options for coupon payments
         coupon_option_values = np.array([
             self.price_zero_coupon_bond_option(
-                expiry_years=swaption_expiry,
-                maturity_years=payment_time,
+                option_expiry=swaption_expiry,
+                bond_maturity=payment_time,
                 K=strike,
                 cp=cp
-            ) for payment_time, strike in zip(coupon_payment_times, coupon_strikes)
+            )[0] for payment_time, strike in zip(coupon_payment_times, coupon_strikes)
         ])
 
         # Price the bond option for notional payment
         notional_option_value = self.price_zero_coupon_bond_option(
-            expiry_years=swaption_expiry,
-            maturity_years=notional_payment_time,
+            option_expiry=swaption_expiry,
+            bond_maturity=notional_payment_time,
             K=notional_strike,
             cp=cp
-        )
+        )[0]
 
         # Sum up the components with their coefficients:
         # 1. Coupon payments: multiply by fixed_rate * year_fraction
-- 
2.43.0


From eb529f09388645b7783eae68d015a67a033a1110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:45 +0000
Subject: [PATCH 24/62] fix: zero-coupon bond options without variance were not
 discounted

---
 frm/pricing_engine/hw1f.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/frm/pricing_engine/hw1f.py b/frm/pricing_engine/hw1f.py
index c6e6ba3..c45fa49 100644
--- a/frm/pricing_engine/hw1f.py
+++ b/frm/pricing_engine/hw1f.py
@@ -367,10 +367,9 @@ class HullWhite1Factor:
         price = np.zeros(max_dim)
         price[~zero_σ_mask] = (cp * (P_t_S * norm.cdf(cp*h) - K * P_t_T * norm.cdf(cp*(h - σP))))[~zero_σ_mask]
 
-        # Handle zero variance case (set to intrinsic value)
+        # Handle zero variance case (set to the discounted intrinsic value)
         if np.any(zero_σ_mask):
-            F = P_t_S / P_t_T # forward bond price
-            price[zero_σ_mask] = np.maximum(cp * (F - K), 0.0)[zero_σ_mask]
+            price[zero_σ_mask] = np.maximum(cp * (P_t_S - K * P_t_T), 0.0)[zero_σ_mask]
 
         # Set option value to zero if maturity is before expiry
         price[bond_maturity < option_expiry] = 0.0
-- 
2.43.0


From e525f80900a30d2f7bfede2acddee2b9aa4cea0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:48 +0000
Subject: [PATCH 25/62] fix: Heston Lewis-Lipton integrand used kappa where it
 needs the integration variable

---
 frm/pricing_engine/heston.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frm/pricing_engine/heston.py b/frm/pricing_engine/heston.py
index d2329cf..5262354 100644
--- a/frm/pricing_engine/heston.py
+++ b/frm/pricing_engine/heston.py
@@ -700,8 +700,8 @@ def heston_lipton_vanilla_european_integral(v, S0, tau, r, q, K, var0, vv, kappa
     zeta_term = v**2 * vv**2 * (1 - rho**2) + 2j * v * vv * rho * kappa_hat + kappa_hat**2 + vv**2 / 4
     zeta = np.sqrt(zeta_term)
 
-    psi_plus = - (1j * kappa * rho * vv + kappa_hat) + zeta
-    psi_minus = (1j * kappa * rho * vv + kappa_hat) + zeta
+    psi_plus = - (1j * v * rho * vv + kappa_hat) + zeta
+    psi_minus = (1j * v * rho * vv + kappa_hat) + zeta
 
     numerator = psi_minus + psi_plus * np.exp(-zeta * tau)
     denominator = 2 * zeta
-- 
2.43.0


From 04c5f2602ba29ab5fbf7955884dc59edb3f6ce49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:10 +0000
Subject: [PATCH 26/62] fix: a ZeroCurve of simple zero rates interpolated the
 wrong continuous rates

---
 frm/term_structures/zero_curve.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index 5ed2068..365bde1 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -90,7 +90,12 @@ class ZeroCurve:
             pillar_df['discount_factor'] = compounding_freq.calc_discount_factor_from_zero_rate(
                 years=pillar_df['years'],
                 zero_rate=pillar_df['zero_rate'])
-            pillar_df['cczr'] = compounding_freq.convert_rate_to(zero_rate=pillar_df['zero_rate'], target_compounding_freq=CompoundingFreq.CONTINUOUS)
+            if compounding_freq == CompoundingFreq.SIMPLE:
+                # The equivalent continuous rate depends on the term. As the term tends to 0, the two rates are equal.
+                cczr = -1 * np.log(pillar_df['discount_factor']) / pillar_df['years']
+                pillar_df['cczr'] = cczr.where(pillar_df['years'] > 0, pillar_df['zero_rate'])
+            else:
+                pillar_df['cczr'] = compounding_freq.convert_rate_to(zero_rate=pillar_df['zero_rate'], target_compounding_freq=CompoundingFreq.CONTINUOUS)
             pillar_df.drop(columns=['zero_rate'], inplace=True)
         else:
             # Add continuously compounded interest rate for internal use
-- 
2.43.0


From 6558c202b10f2e89bb9f4e490e041231be3d9201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:30 +0000
Subject: [PATCH 27/62] fix: ZeroCurve with pillars in days always raised
 NameError

---
 frm/term_structures/zero_curve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index 365bde1..6cc9a78 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -121,8 +121,8 @@ class ZeroCurve:
                     x = [0.0] + pillar_df['years'].to_list()
                     y = [0.0] + np.log(pillar_df['discount_factor']).to_list()
                     self.cubic_spline_definition = splrep(x=x, y=y, k=3)
-                    dt = 1e-6 # small number to avoid division by zero
-                    first_row['cczr'] = -1 * splev(x=dt, tck=self.cubic_spline_definition, der=0) / dt
+                    t = 1e-6 # small number to avoid division by zero
+                    first_row['cczr'] = -1 * splev(x=t, tck=self.cubic_spline_definition, der=0) / t
                 case ZeroCurveInterpMethod.CUBIC_SPLINE_ON_CCZR:
                     x = pillar_df['years'].to_list()
                     y = pillar_df['cczr'].to_list()
-- 
2.43.0


From ad93fb11de128c2038455509156e50b43d023d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:30 +0000
Subject: [PATCH 28/62] fix: ZeroCurve.flat_shift always failed

---
 frm/term_structures/zero_curve.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index 6cc9a78..b044fce 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -202,17 +202,18 @@ class ZeroCurve:
        
     def flat_shift(self, 
                    basis_points: float=1) -> 'ZeroCurve':
-        dates = list(self.pillar_df.keys())
-        years = year_frac(self.curve_date, dates, self.day_count_basis)
-        shifted = - np.log(list(self.pillar_df.values)) / years + basis_points / 10000
-        shifted = pd.DataFrame({'date': dates,
-                                'years': years,
-                                'discount_factor':np.exp(-shifted * years)})
-        shifted.loc[0,'discount_factor'] = 1.0 # set the discount factor on the curve date to be 1.0
-        return ZeroCurve(curve_date=self.curve_date, 
+        # The pillar at t=0 is kept, its discount factor is 1.0 for any rate.
+        X_column = 'date' if 'date' in self.pillar_df.columns else 'years'
+        shifted = self.pillar_df[[X_column]].copy()
+        shifted['zero_rate'] = self.pillar_df['cczr'].fillna(0.0) + basis_points / 10000
+        return ZeroCurve(curve_date=self.curve_date,
                          pillar_df=shifted,
-                         day_count_basis=self.day_count_basis)
-                   
+                         compounding_freq=CompoundingFreq.CONTINUOUS,
+                         day_count_basis=self.day_count_basis,
+                         cal=self.cal,
+                         interp_method=self.interp_method,
+                         extrap_method=self.extrap_method)
+
     def get_forward_rates(self,
                           period_start: Union[pd.Timestamp, np.datetime64, dt.datetime, dt.date, pd.Series, pd.DatetimeIndex],
                           period_end: Union[pd.Timestamp, np.datetime64, dt.datetime, dt.date, pd.Series, pd.DatetimeIndex],
-- 
2.43.0


From 0d9e1ccaee25f92a75c2dbdf51fb766e9c8f5efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:03 +0000
Subject: [PATCH 29/62] fix: ZeroCurve duplicated a pillar on the curve date
 under ACT/ACT

---
 frm/term_structures/zero_curve.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/frm/term_structures/zero_curve.py b/frm/term_structures/zero_curve.py
index b044fce..9ce4a66 100644
--- a/frm/term_structures/zero_curve.py
+++ b/frm/term_structures/zero_curve.py
@@ -65,6 +65,7 @@ class ZeroCurve:
             pillar_df['days'] = (pillar_df['date'] - self.curve_date).dt.days
         def __calculate_years(): 
             pillar_df['years'] = year_frac(self.curve_date, pillar_df['date'], self.day_count_basis)
+            pillar_df.loc[pillar_df['date'] == self.curve_date, 'years'] = 0.0 # exactly, ACT/ACT leaves a rounding error
         
         match X_column_name:
             case 'tenor':
-- 
2.43.0


From ac0a3ad582ec86ac20d08b3dddbaf47931d1b5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:17 +0000
Subject: [PATCH 30/62] fix: garman_kohlhagen_solve_implied_vol returned
 volatilities that do not match the price

Newton's method stops on the step in volatility, which for a price below intrinsic ends at a spurious (or negative) volatility; and the result of Brent's method was used even when it reported that it did not converge.
---
 frm/pricing_engine/garman_kohlhagen.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/frm/pricing_engine/garman_kohlhagen.py b/frm/pricing_engine/garman_kohlhagen.py
index 0ad0f8e..bc8769e 100644
--- a/frm/pricing_engine/garman_kohlhagen.py
+++ b/frm/pricing_engine/garman_kohlhagen.py
@@ -402,13 +402,19 @@ def garman_kohlhagen_solve_implied_vol(
 
     try:
         # Try Netwon's method first (it's faster but less robust)
-        return newton(lambda vol_: error_function(vol_), x0=vol_guess, tol=1e-4, maxiter=50).item()
+        vol = newton(lambda vol_: error_function(vol_), x0=vol_guess, tol=1e-4, maxiter=50).item()
+        # Newton's method terminates on the step in vol, hence check that the price is matched
+        if vol > 0 and np.all(np.abs(error_function(vol)) < 1e-6 * S0):
+            return vol
     except RuntimeError:
-        # Fallback to Brent's method
-        try:
-            return root_scalar(lambda vol_: error_function(vol_), bracket=[0.0001, 2], method='brentq').root
-        except ValueError:
-            return np.inf
+        pass
+
+    # Fallback to Brent's method
+    try:
+        res = root_scalar(lambda vol_: error_function(vol_), bracket=[0.0001, 2], method='brentq')
+        return res.root if res.converged else np.inf
+    except ValueError:
+        return np.inf
 
 
 
-- 
2.43.0


From f8663c03a0318d7982eecbc6c2ebd948f10a75a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:32 +0000
Subject: [PATCH 31/62] fix: bootstrap helpers rewrote the caller's quotes

The cash and futures bootstrap helpers added columns to, sorted and renumbered the DataFrame of the caller.
---
 frm/term_structures/bootstrap_helpers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/frm/term_structures/bootstrap_helpers.py b/frm/term_structures/bootstrap_helpers.py
index 6dc12fd..d988e7c 100644
--- a/frm/term_structures/bootstrap_helpers.py
+++ b/frm/term_structures/bootstrap_helpers.py
@@ -16,6 +16,7 @@ def cash_rates_quote_helper(
         settlement_date: Optional[pd.Timestamp]=None,
         cal: np.busdaycalendar=np.busdaycalendar):
 
+    df = df.copy() # leave the caller's DataFrame as it is
     assert 'rate' in df.columns
     assert 'tenor' in df.columns or ('effective_date' in df.columns and 'maturity_date' in df.columns)
 
@@ -43,6 +44,7 @@ def bootstrap_cash_rates(
         curve_date: pd.Timestamp,
         day_count_basis_years: DayCountBasis=DayCountBasis.ACT_ACT):
 
+    df = df.copy() # leave the caller's DataFrame as it is
     df['effective_date_years'] = year_frac(curve_date, df['effective_date'], day_count_basis_years)
     df['maturity_date_years'] = year_frac(curve_date, df['maturity_date'], day_count_basis_years)
     df['effective_date_discount_factor'] = np.nan
@@ -78,6 +80,7 @@ def bootstrap_futures(
         day_count_basis: DayCountBasis,
         day_count_basis_years: DayCountBasis=DayCountBasis.ACT_ACT):
 
+    df = df.copy() # leave the caller's DataFrame as it is
     if 'futures_rate' not in df.columns:
         df['futures_rate'] = (100 - df['price']) / 100
     if 'convexity_bps' not in df.columns:
@@ -116,6 +119,7 @@ def futures_helper_asx_90day(
 
     # From the contract code, index the effective period of the BBSW 3M fixing of the contract.
 
+    df = df.copy() # leave the caller's DataFrame as it is
     if 'months' not in df.columns or 'years' not in df.columns:
 
         if 'ticker' in df.columns:
-- 
2.43.0


From 2630ebe03bb828b6023140e0d4cfeead4edd3097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:06 +0000
Subject: [PATCH 32/62] fix: HullWhite1Factor.fit_theta showed its trial grids
 to others using the model

The search ran on the model itself, so a reader next to it saw every dt and grid tried,
and could combine the dt of two of them in one numerical derivative. An error while
printing the table was raised after the model had changed.
---
 frm/pricing_engine/hw1f.py | 52 ++++++++++++++++++--------------------
 1 file changed, 24 insertions(+), 28 deletions(-)

diff --git a/frm/pricing_engine/hw1f.py b/frm/pricing_engine/hw1f.py
index c45fa49..3580233 100644
--- a/frm/pricing_engine/hw1f.py
+++ b/frm/pricing_engine/hw1f.py
@@ -1,4 +1,5 @@
 # -*- coding: utf-8 -*-
+import copy
 import numpy as np
 import pandas as pd
 import scipy
@@ -49,31 +50,22 @@ class HullWhite1Factor:
                   nums=(10, 100, 1000, 10000)):
         """Simple grid search to find the best fit for theta grid granularity and dt for numerical differentiation."""
 
-        # Restored if the search does not complete, so dt, num and theta_spline are always consistent
-        initial_state = {k: self.__dict__[k] for k in ('dt', 'num', 'theta_spline') if k in self.__dict__}
-
-        try:
-            results = []
-            for dt in dts:
-                for num in nums:
-                    self.dt = dt
-                    self.num = num
-                    self.setup_theta()
-                    average_error_bps = self.calc_error_for_theta_fit(print_results=False)
-                    results.append([dt, num, average_error_bps])
-
-            # Sort results by error
-            results = sorted(results, key=lambda x: x[2])
-
-            # Best fit
-            dt, num, _ = results[0]
-            self.dt = dt
-            self.num = num
-            self.setup_theta()
-        except BaseException:
-            self.__dict__.pop('theta_spline', None)
-            self.__dict__.update(initial_state)
-            raise
+        # The candidates are tried on copies, so nobody else using the model sees them and a failure leaves it as it was
+        results = []
+        best = None
+        for dt in dts:
+            for num in nums:
+                candidate = copy.copy(self)
+                candidate.dt = dt
+                candidate.num = num
+                candidate.setup_theta()
+                average_error_bps = candidate.calc_error_for_theta_fit(print_results=False)
+                results.append([dt, num, average_error_bps])
+                if best is None or average_error_bps < best[0]:
+                    best = (average_error_bps, candidate)
+
+        # Sort results by error
+        results = sorted(results, key=lambda x: x[2])
 
         # Print error results
         print('')
@@ -83,6 +75,9 @@ class HullWhite1Factor:
         table.add_column("errors", [round(res[2],4) for res in results])
         print(table)
 
+        # Best fit
+        self.__dict__.update({k: best[1].__dict__[k] for k in ('dt', 'num', 'theta_spline')})
+
 
     def calc_error_for_theta_fit(self, print_results=False):
         """Calculate the basis point error between the pillar zero rates and the theta fit."""
@@ -141,9 +136,10 @@ class HullWhite1Factor:
 
         # Calculate the derivative of the instantaneous forward rate  by numerical differentiation
         f_t = self.zero_curve.get_instantaneous_forward_rate(years=years)
-        f_t_plus_dt = self.zero_curve.get_instantaneous_forward_rate(years=years+self.dt)
-        f_t_minus_dt = self.zero_curve.get_instantaneous_forward_rate(years=years-self.dt)
-        df_dt = (f_t_plus_dt - f_t_minus_dt) / (2 * self.dt)
+        dt = self.dt # read once, as a calibration beside may change it
+        f_t_plus_dt = self.zero_curve.get_instantaneous_forward_rate(years=years+dt)
+        f_t_minus_dt = self.zero_curve.get_instantaneous_forward_rate(years=years-dt)
+        df_dt = (f_t_plus_dt - f_t_minus_dt) / (2 * dt)
 
         return df_dt \
                + α * f_t \
-- 
2.43.0


From 58f3aa623f21f198bb11cb830313f4108256612d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:12 +0000
Subject: [PATCH 33/62] fix: index fixings delivered out of order, without a
 value or not at all

Term fixings not in date order were rejected, a row without a value accrued nothing
for the day (or gave no rate), and an empty history gave an overnight rate of zero.
---
 frm/term_structures/historical_swap_index_fixings.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/frm/term_structures/historical_swap_index_fixings.py b/frm/term_structures/historical_swap_index_fixings.py
index f8cd8af..f1dc99b 100644
--- a/frm/term_structures/historical_swap_index_fixings.py
+++ b/frm/term_structures/historical_swap_index_fixings.py
@@ -24,6 +24,10 @@ class HistoricalSwapIndexFixings(ABC):
         assert isinstance(self.day_count_basis, DayCountBasis), \
             "'day_count_basis' must be an instance of DayCountBasis"
 
+    def _get_sorted_fixings(self) -> pd.DataFrame:
+        """The fixings in date order. A row without a value is not a fixing, the last row given for a date applies."""
+        return self.fixings.dropna(subset='fixing').drop_duplicates('date', keep='last').sort_values('date', ascending=True).reset_index(drop=True)
+
 
 @dataclass
 class RFRFixings(HistoricalSwapIndexFixings):
@@ -37,9 +41,10 @@ class RFRFixings(HistoricalSwapIndexFixings):
         observations_start = period_start
         observations_end = period_end - pd.DateOffset(days=1)
 
-        applicable_fixings = self.fixings.drop_duplicates('date', keep='last').sort_values('date', ascending=True).reset_index(drop=True)
+        applicable_fixings = self._get_sorted_fixings()
 
-        if observations_end.max() > applicable_fixings['date'].max() \
+        if applicable_fixings.empty \
+            or observations_end.max() > applicable_fixings['date'].max() \
             or observations_start.min() < applicable_fixings['date'].min():
             raise ValueError('Observation period extends beyond available fixing data.')
 
@@ -88,7 +93,7 @@ class TermFixings(HistoricalSwapIndexFixings):
         date_df_sorted = date_df.sort_values('date').reset_index(drop=False)
 
         # Perform merge_asof with the sorted dates
-        df = pd.merge_asof(date_df_sorted, self.fixings, on='date', direction='backward')
+        df = pd.merge_asof(date_df_sorted, self._get_sorted_fixings(), on='date', direction='backward')
 
         df_sorted_back = df.sort_values('index').set_index('index') # Restore the original order of the input dates
 
-- 
2.43.0


From 0363289a269a2c8db39bc9c2e1ace91cd7e1abc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:22 +0000
Subject: [PATCH 34/62] fix: schedules with rolled user dates left gaps at
 first_period_end and last_period_start

Only the first and last generated date were rolled: next to a user specified first_period_end or last_period_start
that is not a business day the end of one period was not the start of the next.
---
 frm/utils/schedule.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/frm/utils/schedule.py b/frm/utils/schedule.py
index b155425..6cf8c78 100644
--- a/frm/utils/schedule.py
+++ b/frm/utils/schedule.py
@@ -410,6 +410,11 @@ def make_schedule(
                 else:
                     raise ValueError("Unexpected logic branch - please raise GitHub issue")
 
+    if roll_user_specified_dates:
+        # The user specified dates are placed unadjusted above, next to generated dates which are adjusted already
+        d1, d2 = [pd.DatetimeIndex(np.busday_offset(pd.DatetimeIndex(d).to_numpy(dtype='datetime64[D]'), offsets=0, roll=roll_conv.value,
+                                                    busdaycal=cal)).astype('datetime64[ns]') for d in (d1, d2)]
+
     schedule = pd.DataFrame({'period_start': d1, 'period_end': d2})
     return schedule
 
-- 
2.43.0


From c00c3aa484b2ee8b4150aea440a76cfd1b85ce66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:48 +0000
Subject: [PATCH 35/62] fix: schedule decorations lost columns or repeated the
 notional exchange

add_period_daycount and add_period_yearfrac dropped the existing column before computing its replacement, and
add_notional_schedule changed the schedule step by step and prepended one more initial exchange row on every call:
a failed, interrupted or repeated call left the schedule damaged.
---
 frm/utils/schedule.py | 72 ++++++++++++++++++++++---------------------
 1 file changed, 37 insertions(+), 35 deletions(-)

diff --git a/frm/utils/schedule.py b/frm/utils/schedule.py
index 6cf8c78..e0401e1 100644
--- a/frm/utils/schedule.py
+++ b/frm/utils/schedule.py
@@ -74,11 +74,14 @@ class BaseSchedule:
         col_name: str
             Column name to use for the payment dates. The default is 'payment_date'.
         """
+        self.df[col_name] = self._payment_dates(self.df, payment_delay, payment_timing)
+
+    def _payment_dates(self, df: pd.DataFrame, payment_delay: int, payment_timing: TimingConvention) -> pd.DatetimeIndex:
         match payment_timing:
             case TimingConvention.IN_ARREARS:
-                dates = self.df['period_end'].to_numpy(dtype='datetime64[D]')
+                dates = df['period_end'].to_numpy(dtype='datetime64[D]')
             case TimingConvention.IN_ADVANCE:
-                dates = self.df['period_start'].to_numpy(dtype='datetime64[D]')
+                dates = df['period_start'].to_numpy(dtype='datetime64[D]')
             case _:
                 raise ValueError(f"Invalid payment_timing {payment_timing}")
 
@@ -91,39 +94,33 @@ class BaseSchedule:
         adjusted_dates[valid_dates_mask] = np.busday_offset(valid_dates, offsets=payment_delay, roll=self.roll_conv.value, busdaycal=self.cal)
         adjusted_dates[~valid_dates_mask] = 'NaT'
 
-        # Update DataFrame
-        self.df[col_name] = pd.DatetimeIndex(adjusted_dates).astype('datetime64[ns]')
+        return pd.DatetimeIndex(adjusted_dates).astype('datetime64[ns]')
 
     def add_period_daycount(self, day_count_basis: DayCountBasis):
         """ Add the period length in days to the schedule DataFrame, always replacing existing columns"""
 
-        # Remove 'period_days' and 'period_years' if they already exist
-        if 'period_daycount' in self.df.columns:
-            self.df.pop('period_daycount')
-
-        # Get the column index for 'period_end'
-        col_index = self.df.columns.get_loc('period_end')
-
-        # Insert 'period_days' and 'period_years' at the specified positions
         mask = np.logical_and(self.df['period_start'].notnull(), self.df['period_end'].notnull())
         days = np.full(self.df.shape[0], np.nan)
         days[mask] = day_count(self.df['period_start'][mask], self.df['period_end'][mask], day_count_basis)
-        self.df.insert(loc=col_index + 1, column='period_daycount',value=days)
+
+        # Replace or insert in one step: a call that fails or is interrupted leaves the schedule as it was
+        if 'period_daycount' in self.df.columns:
+            self.df['period_daycount'] = days
+        else:
+            self.df.insert(loc=self.df.columns.get_loc('period_end') + 1, column='period_daycount', value=days)
 
     def add_period_yearfrac(self, day_count_basis: DayCountBasis):
         """ Add the period length years to the schedule DataFrame, always replacing existing columns"""
 
-        if 'period_yearfrac' in self.df.columns:
-            self.df.pop('period_yearfrac')
-
-        # Get the column index for 'period_end'
-        col_index = self.df.columns.get_loc('period_end')
-
-        # Insert 'period_days' and 'period_years' at the specified positions
         mask = np.logical_and(self.df['period_start'].notnull(), self.df['period_end'].notnull())
         years = np.full(self.df.shape[0], np.nan)
         years[mask] = year_frac(self.df['period_start'][mask], self.df['period_end'][mask], day_count_basis)
-        self.df.insert(loc=min(col_index + 2, self.df.shape[1]), column='period_yearfrac', value=years)
+
+        # Replace or insert in one step: a call that fails or is interrupted leaves the schedule as it was
+        if 'period_yearfrac' in self.df.columns:
+            self.df['period_yearfrac'] = years
+        else:
+            self.df.insert(loc=min(self.df.columns.get_loc('period_end') + 2, self.df.shape[1]), column='period_yearfrac', value=years)
 
 
 @dataclass
@@ -141,34 +138,39 @@ class NotionalSchedule(BaseSchedule):
     def add_notional_schedule(self):
         """Adds columns 'notional', 'notional_payment' and 'notional_payment_date' to the schedule DataFrame"""
 
+        # Work on a copy of the periods, without the initial exchange row of an earlier call, and store it once complete:
+        # the method can be called again, and a call that fails or is interrupted leaves the schedule as it was
+        df = self.df[self.df['period_start'].notnull()].reset_index(drop=True)
+
         notional_amount = np.atleast_1d(self.notional_amount)
         if notional_amount.shape == (1,):
-            self.df['notional'] = notional_amount[0]
-            self.df['notional_payment'] = 0
-        elif notional_amount.shape == self.df.shape[0]:
-            self.df['notional'] = notional_amount
-            self.df['notional_payment'] = notional_amount[:-1] - notional_amount[1:]
+            df['notional'] = notional_amount[0]
+            df['notional_payment'] = 0
+        elif notional_amount.shape == df.shape[0]:
+            df['notional'] = notional_amount
+            df['notional_payment'] = notional_amount[:-1] - notional_amount[1:]
         else:
             raise ValueError("Invalid notional_amount shape")
 
-        self.add_payment_dates(self.notional_payment_delay, self.notional_payment_timing, col_name='notional_payment_date')
+        df['notional_payment_date'] = self._payment_dates(df, self.notional_payment_delay, self.notional_payment_timing)
 
         if self.exchange_notionals == ExchangeNotionals.START or self.exchange_notionals == ExchangeNotionals.BOTH:
-            column_order = self.df.columns
+            column_order = df.columns
             if self.initial_notional_exchange_date is None:
-                self.initial_notional_exchange_date = self.df['period_start'].iloc[0]
+                self.initial_notional_exchange_date = df['period_start'].iloc[0]
 
             row_data = {'notional_payment_date': self.initial_notional_exchange_date}
-            self.df = pd.concat([pd.DataFrame(row_data, index=[0]), self.df], ignore_index=True)
-            self.df = self.df[column_order]
-            self.df.reset_index(drop=True, inplace=True)
+            df = pd.concat([pd.DataFrame(row_data, index=[0]), df], ignore_index=True)
+            df = df[column_order].copy()
 
-            self.df.loc[self.df.index[0], 'notional'] = 0
-            self.df.loc[self.df.index[0], 'notional_payment'] = -1 * notional_amount[0]
+            df.loc[df.index[0], 'notional'] = 0
+            df.loc[df.index[0], 'notional_payment'] = -1 * notional_amount[0]
 
         if self.exchange_notionals == ExchangeNotionals.END or self.exchange_notionals == ExchangeNotionals.BOTH:
             # Add final notional exchange period
-            self.df.loc[self.df.index[-1], 'notional_payment'] = notional_amount[-1]
+            df.loc[df.index[-1], 'notional_payment'] = notional_amount[-1]
+
+        self.df = df
 
 
 @dataclass
-- 
2.43.0


From 4edff65835abf278b1128d54a0d4aafd5e1da94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:46 +0000
Subject: [PATCH 36/62] fix: theta and rho of currency options had the wrong
 sign for puts and the wrong discounting

---
 frm/pricing_engine/garman_kohlhagen.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/frm/pricing_engine/garman_kohlhagen.py b/frm/pricing_engine/garman_kohlhagen.py
index bc8769e..242a55d 100644
--- a/frm/pricing_engine/garman_kohlhagen.py
+++ b/frm/pricing_engine/garman_kohlhagen.py
@@ -121,9 +121,9 @@ def garman_kohlhagen_price(
         results['analytical_greeks']['vega'] = analytical_formula * 0.01 # normalised to 1% change
 
         # Per market convention, theta is normalised to the price decay for 1 calendar day.
-        analytical_formula = -(S0*np.exp(-r*tau)*norm.pdf(d1 * cp)*σ)/(2*np.sqrt(tau)) \
-            + q * np.exp(-q * tau) * S0 * norm.cdf(d1 * cp) \
-            - r * np.exp(-r * tau) * K * norm.cdf(d2 * cp)
+        analytical_formula = -(S0*np.exp(-q*tau)*norm.pdf(d1 * cp)*σ)/(2*np.sqrt(tau)) \
+            + cp * q * np.exp(-q * tau) * S0 * norm.cdf(d1 * cp) \
+            - cp * r * np.exp(-r * tau) * K * norm.cdf(d2 * cp)
         results['analytical_greeks']['theta'] = analytical_formula * 1/365.25 # normalised to 1 calendar day
 
         # In practice, gamma is  normalised to measure the change in Δ, for a 1% change in the underlying assets price.
@@ -133,7 +133,7 @@ def garman_kohlhagen_price(
 
         # In practice, Rho is normalised to measure the change in price for a 1% change in the underlying interest rate.
         # Hence, we have multiplied the analytical formula result by 0.01 (i.e. 1%)
-        analytical_formula = K * tau * np.exp(-q * tau) * norm.cdf(cp * d2)
+        analytical_formula = cp * K * tau * np.exp(-r * tau) * norm.cdf(cp * d2)
         results['analytical_greeks']['rho'] = analytical_formula * 0.01
 
 
-- 
2.43.0


From 8818f6e5106c61154fe97a2e476e5216f4ca38d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:46 +0000
Subject: [PATCH 37/62] fix: numerical greeks of currency options always
 failed, and their rho shifted the volatility instead of the rate

---
 frm/pricing_engine/garman_kohlhagen.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/frm/pricing_engine/garman_kohlhagen.py b/frm/pricing_engine/garman_kohlhagen.py
index 242a55d..ef2ddfa 100644
--- a/frm/pricing_engine/garman_kohlhagen.py
+++ b/frm/pricing_engine/garman_kohlhagen.py
@@ -138,7 +138,7 @@ def garman_kohlhagen_price(
 
 
     if numerical_greeks:
-        numerical_greeks = pd.DataFrame()
+        results['numerical_greeks'] = pd.DataFrame()
 
         Δ_shift = 1 / 100  # 1% shift
         σ_shift = 1 / 100  # 1% shift
@@ -161,7 +161,7 @@ def garman_kohlhagen_price(
         # and S0 is the fx spot price (whose units is DOM/FOR)
         # To get the Δ % applicable to the foreign currency notional multiply the below by S0.
         results['numerical_greeks']['spot_delta'] = (X_S_plus - X_S_minus) / (2 * S0 * Δ_shift)
-        results['numerical_greeks']['forward_delta'] = numerical_greeks['spot_delta'] / np.exp(-r_f * tau)
+        results['numerical_greeks']['forward_delta'] = results['numerical_greeks']['spot_delta'] / np.exp(-r_f * tau)
 
         # Vega, ν, is the change in an options price for a small change in the volatility input
         # ν = ∂X/∂σ ≈ (X(σ_plus) − X(σ_minus)) / (σ_plus - σ_minus).
@@ -187,8 +187,8 @@ def garman_kohlhagen_price(
 
         # Rho, ρ, is the rate at which the price of an option changes relative to a change in the interest rate.
         # This formulae will yield meaningfully different results on whether the forward rate is an input (or if it is calculated from the interest rate differential)
-        X_ρ_plus = garman_kohlhagen_price(S0=S0, tau=tau, r_d=r_d, r_f=r_f+ρ_shift, cp=cp, K=K, vol=σ+σ_shift, F=F)['price']
-        X_ρ_minus = garman_kohlhagen_price(S0=S0, tau=tau, r_d=r_d, r_f=r_f+ρ_shift, cp=cp, K=K, vol=σ-σ_shift, F=F)['price']
+        X_ρ_plus = garman_kohlhagen_price(S0=S0, tau=tau, r_d=r_d, r_f=r_f+ρ_shift, cp=cp, K=K, vol=σ, F=F)['price']
+        X_ρ_minus = garman_kohlhagen_price(S0=S0, tau=tau, r_d=r_d, r_f=r_f-ρ_shift, cp=cp, K=K, vol=σ, F=F)['price']
         results['numerical_greeks']['rho'] = (X_ρ_plus - X_ρ_minus) / 2
 
     return results
-- 
2.43.0


From 7eb6d93afd84142dcace334f2fff2d4b9f2c12cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:49 +0000
Subject: [PATCH 38/62] fix: numerical greeks of shifted lognormal options
 applied the shift twice

---
 frm/pricing_engine/black76_bachelier.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/frm/pricing_engine/black76_bachelier.py b/frm/pricing_engine/black76_bachelier.py
index b601081..88b2017 100644
--- a/frm/pricing_engine/black76_bachelier.py
+++ b/frm/pricing_engine/black76_bachelier.py
@@ -109,9 +109,10 @@ def black76_price(
         # Delta, Δ, is the change in an option's price for a small change in the underlying assets (forward) price.
         # Δ := ∂X/∂F ≈ (X(F_plus) − X(F_minus)) / (F_plus - F_minus)
         Δ_shift = 0.01
-        results_F_plus = black76_price(F=F*(1+Δ_shift), tau=tau, K=K, cp=cp, vol_sln=vol_sln, ln_shift=ln_shift,
+        # F and K include the shift already
+        results_F_plus = black76_price(F=F*(1+Δ_shift), tau=tau, K=K, cp=cp, vol_sln=vol_sln, ln_shift=0,
                            annuity_factor=annuity_factor, analytical_greeks=True)
-        results_F_minus = black76_price(F=F*(1-Δ_shift), tau=tau, K=K, cp=cp, vol_sln=vol_sln, ln_shift=ln_shift,
+        results_F_minus = black76_price(F=F*(1-Δ_shift), tau=tau, K=K, cp=cp, vol_sln=vol_sln, ln_shift=0,
                             annuity_factor=annuity_factor, analytical_greeks=True)
         results['numerical_greeks']['delta'] = (results_F_plus['price'] - results_F_minus['price']) / (2 * F * Δ_shift)
 
@@ -119,9 +120,9 @@ def black76_price(
         # ν = ∂X/∂σ ≈ (X(σ_plus) − X(σ_minus)) / (σ_plus - σ_minus).
         # We divide by 0.01 (1%) to normalise the vega to a 1% change in the volatility input, per market convention.
         σ_shift = 0.01
-        results_σ_plus = black76_price(F=F, tau=tau, K=K, cp=cp, vol_sln=vol_sln+σ_shift, ln_shift=ln_shift,
+        results_σ_plus = black76_price(F=F, tau=tau, K=K, cp=cp, vol_sln=vol_sln+σ_shift, ln_shift=0,
                            annuity_factor=annuity_factor, analytical_greeks=True)
-        results_σ_minus = black76_price(F=F, tau=tau, K=K, cp=cp, vol_sln=vol_sln-σ_shift, ln_shift=ln_shift,
+        results_σ_minus = black76_price(F=F, tau=tau, K=K, cp=cp, vol_sln=vol_sln-σ_shift, ln_shift=0,
                             annuity_factor=annuity_factor, analytical_greeks=True)
         results['numerical_greeks']['vega'] = (results_σ_plus['price'] - results_σ_minus['price']) / (2 * (σ_shift / 0.01))
 
-- 
2.43.0


From 298d5d484903ad4626dcca5d5e25440d9bc5aa39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:46 +0000
Subject: [PATCH 39/62] fix: theta of normal options was scaled up by the days
 of a year instead of down to one day

---
 frm/pricing_engine/black76_bachelier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/pricing_engine/black76_bachelier.py b/frm/pricing_engine/black76_bachelier.py
index 88b2017..bd38970 100644
--- a/frm/pricing_engine/black76_bachelier.py
+++ b/frm/pricing_engine/black76_bachelier.py
@@ -270,7 +270,7 @@ def bachelier_price(
         results['analytical_greeks']['vega'] = np.sqrt(tau) * norm.pdf(cp * d) * annuity_factor * 0.0001
 
         # Normalised to 1 calendar day.
-        results['analytical_greeks']['theta'] = (-0.5 * norm.pdf(d) * σN / np.sqrt(tau)) * annuity_factor / (1/365.25)
+        results['analytical_greeks']['theta'] = (-0.5 * norm.pdf(d) * σN / np.sqrt(tau)) * annuity_factor * (1/365.25)
 
     return results
 
-- 
2.43.0


From ee57666391b5e5ac65f6de45402da8eb9b36f3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:46 +0000
Subject: [PATCH 40/62] fix: intrinsic value of interest rate options ignored
 the annuity factor and failed for several strikes

---
 frm/pricing_engine/black76_bachelier.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/frm/pricing_engine/black76_bachelier.py b/frm/pricing_engine/black76_bachelier.py
index bd38970..5a73943 100644
--- a/frm/pricing_engine/black76_bachelier.py
+++ b/frm/pricing_engine/black76_bachelier.py
@@ -88,9 +88,7 @@ def black76_price(
 
     # Intrinsic / time value split
     if intrinsic_time_split:
-        intrinsic = np.full_like(X, np.nan)
-        intrinsic[tau>0] = np.maximum(0, cp * (F - K))[tau>0]
-        intrinsic[tau==0] = X[tau==0]
+        intrinsic = np.where(tau > 0, annuity_factor * np.maximum(0, cp * (F - K)), X)
         results['intrinsic'] = intrinsic
         results['time'] = X - intrinsic
 
@@ -255,9 +253,7 @@ def bachelier_price(
 
     # Intrinsic / time value split
     if intrinsic_time_split:
-        intrinsic = np.full_like(X, np.nan)
-        intrinsic[tau>0] = np.maximum(0, cp * (F - K))[tau>0]
-        intrinsic[tau==0] = X[tau==0]
+        intrinsic = np.where(tau > 0, annuity_factor * np.maximum(0, cp * (F - K)), X)
         results['intrinsic'] = intrinsic
         results['time'] = X - intrinsic
 
-- 
2.43.0


From 87482cd1957925a51a20dd26d64f49f5cbcf133b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:02 +0000
Subject: [PATCH 41/62] fix: futures tickers with two or four digit years were
 rejected or put into the wrong decade

---
 frm/term_structures/bootstrap_helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frm/term_structures/bootstrap_helpers.py b/frm/term_structures/bootstrap_helpers.py
index d988e7c..7e350ea 100644
--- a/frm/term_structures/bootstrap_helpers.py
+++ b/frm/term_structures/bootstrap_helpers.py
@@ -132,8 +132,8 @@ def futures_helper_asx_90day(
             assert futures_month_code.isin(['H', 'M', 'U', 'Z']).all() # 'H', 'M', 'U', 'Z' for Mar, Jun, Sep, Dec
             df['months'] = futures_month_code.map({'H': 3, 'M': 6, 'U': 9, 'Z': 12})
 
-            assert df['ticker'].str.len().isin([1, 2, 4]).all()
-            futures_year_code = df['ticker'].str[3:].astype(int)  # 1-4-digit year code
+            futures_year_code = df['ticker'].str[3:]  # 1, 2 or 4-digit year code
+            assert futures_year_code.str.len().isin([1, 2, 4]).all()
 
             def resolve_year(year_code):
                 year_code_str = str(year_code)
-- 
2.43.0


From 42b43a2ca9abbade35a0824b1197bb7f4765b935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:02 +0000
Subject: [PATCH 42/62] fix: futures quoted out of date order were given the
 dates of other contracts

---
 frm/term_structures/bootstrap_helpers.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/frm/term_structures/bootstrap_helpers.py b/frm/term_structures/bootstrap_helpers.py
index 7e350ea..d6ca200 100644
--- a/frm/term_structures/bootstrap_helpers.py
+++ b/frm/term_structures/bootstrap_helpers.py
@@ -160,18 +160,16 @@ def futures_helper_asx_90day(
 
 
     expiry_dates, settlement_dates = [], []
-    for years in range(df['years'].min(), df['years'].max()+1):
-        for months in [3, 6, 9, 12]:
-            if ((df['years'] == years) & (df['months'] == months)).any():
-                # Settlement Day = 2nd Friday of each delivery month (Mar, Jun, Sep, Dec).
-                # Start from the 1st of the month and get all Fridays in the month
-                month_start = pd.Timestamp(year=years, month=months, day=1)
-                fridays = [d for d in pd.date_range(month_start, month_start + pd.offsets.MonthEnd(), freq='W-FRI')]
-                settlement_date = fridays[1] # Get the second Friday
-                settlement_dates.append(settlement_date)
-
-                # Expiry date is the business day before settlement date
-                expiry_dates.append(settlement_date - pd.offsets.BDay(1))
+    for years, months in zip(df['years'], df['months']):
+        # Settlement Day = 2nd Friday of each delivery month (Mar, Jun, Sep, Dec).
+        # Start from the 1st of the month and get all Fridays in the month
+        month_start = pd.Timestamp(year=years, month=months, day=1)
+        fridays = [d for d in pd.date_range(month_start, month_start + pd.offsets.MonthEnd(), freq='W-FRI')]
+        settlement_date = fridays[1] # Get the second Friday
+        settlement_dates.append(settlement_date)
+
+        # Expiry date is the business day before settlement date
+        expiry_dates.append(settlement_date - pd.offsets.BDay(1))
 
     df['expiry_date'] = expiry_dates
     df['settlement_date'] = settlement_dates
-- 
2.43.0


From 0ee37dd682808e59d4b064d334acc501ef32803b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:02 +0000
Subject: [PATCH 43/62] fix: cash rates with given effective dates or without a
 settlement delay could not be bootstrapped

---
 frm/term_structures/bootstrap_helpers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/frm/term_structures/bootstrap_helpers.py b/frm/term_structures/bootstrap_helpers.py
index d6ca200..80478d9 100644
--- a/frm/term_structures/bootstrap_helpers.py
+++ b/frm/term_structures/bootstrap_helpers.py
@@ -20,7 +20,8 @@ def cash_rates_quote_helper(
     assert 'rate' in df.columns
     assert 'tenor' in df.columns or ('effective_date' in df.columns and 'maturity_date' in df.columns)
 
-    df['tenor'] = df['tenor'].apply(clean_tenor)
+    if 'tenor' in df.columns:
+        df['tenor'] = df['tenor'].apply(clean_tenor)
 
     if settlement_date is None:
         assert settlement_delay is not None
@@ -52,7 +53,7 @@ def bootstrap_cash_rates(
 
     df.sort_values(by='maturity_date', inplace=True)
     for i, row in df.iterrows():
-        if not row['has_settlement_delay']:
+        if row['effective_date'] == curve_date:
             df.at[i, 'effective_date_discount_factor'] = 1.0
             df.at[i, 'maturity_date_discount_factor'] = 1.0 / (1 + row['rate'] * row['period_years'])
         else:
-- 
2.43.0


From 36da687b81c81885df1284aa27f4ae5d1d39708e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:07 +0000
Subject: [PATCH 44/62] fix: cash rates with repeated row labels overwrote one
 another's discount factors

---
 frm/term_structures/bootstrap_helpers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/frm/term_structures/bootstrap_helpers.py b/frm/term_structures/bootstrap_helpers.py
index 80478d9..778fa9c 100644
--- a/frm/term_structures/bootstrap_helpers.py
+++ b/frm/term_structures/bootstrap_helpers.py
@@ -52,6 +52,8 @@ def bootstrap_cash_rates(
     df['maturity_date_discount_factor'] = np.nan
 
     df.sort_values(by='maturity_date', inplace=True)
+    labels = df.index # can repeat, for quotes of several sources put together
+    df.reset_index(drop=True, inplace=True)
     for i, row in df.iterrows():
         if row['effective_date'] == curve_date:
             df.at[i, 'effective_date_discount_factor'] = 1.0
@@ -68,6 +70,7 @@ def bootstrap_cash_rates(
             df.at[i, 'maturity_date_discount_factor'] = df.at[i, 'effective_date_discount_factor'] \
                                                                 / (1 + row['rate'] * row['period_years'])
 
+    df.index = labels
     #df = df.drop(columns=['effective_date_years', 'maturity_date_years'], errors='ignore')
 
     return df
-- 
2.43.0


From 27113013055d0ca83db5301fff14e807ee91c108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:13 +0000
Subject: [PATCH 45/62] fix: a given spot date was rejected and a given spot
 offset ignored

---
 frm/utils/tenor.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/frm/utils/tenor.py b/frm/utils/tenor.py
index 368d590..4678959 100644
--- a/frm/utils/tenor.py
+++ b/frm/utils/tenor.py
@@ -107,15 +107,12 @@ def calc_implied_business_day_offset(
         date: pd.Timestamp,
         offset_date: pd.Timestamp,
         cal: np.busdaycalendar) -> int:
-    assert date >= offset_date, "date must be greater than or equal to offset_date"
-
-    offset = 0
-    while date < offset_date:
-        offset += 1
-        date += pd.DateOffset(days=1)
-        date_np = date.to_numpy().astype('datetime64[D]')
-        date = np.busday_offset(date_np, offsets=0, roll='following', busdaycal=cal)
-    return offset
+    assert date <= offset_date, "date must be less than or equal to offset_date"
+
+    date_np = date.to_numpy().astype('datetime64[D]')
+    offset_date_np = offset_date.to_numpy().astype('datetime64[D]')
+    date_np = np.busday_offset(date_np, offsets=0, roll='following', busdaycal=cal)
+    return int(np.busday_count(date_np, offset_date_np, busdaycal=cal))
 
 
 def resolve_fx_curve_dates(
@@ -127,11 +124,11 @@ def resolve_fx_curve_dates(
 
     if curve_date is not None and spot_date is not None and spot_offset is not None:
         # All three dates are specified, check for consistency
-        check_day_offset_consistency(date=curve_date, offset_date=spot_date, offset=spot_offset, busdaycal=cal)
+        check_day_offset_consistency(date=curve_date, offset_date=spot_date, day_offset=spot_offset, busdaycal=cal)
     elif spot_offset is None and curve_date is not None and spot_date is not None:
         # Spot offset is not specified, calculate it based on curve date and spot date
         spot_offset = calc_implied_business_day_offset(curve_date, spot_date, cal)
-    else:
+    elif spot_offset is None:
         # Only one of {curve_date, spot_date} are specified, get spot_offset per market convention from ccy_pair
         spot_offset = get_fx_spot_day_offset(ccy_pair)
 
-- 
2.43.0


From 459af8e89d2c7ec60b58e15e83fd9a709482d9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:42 +0000
Subject: [PATCH 46/62] fix: currency quotes given by dates instead of tenors
 always failed or got the wrong delivery date

---
 frm/term_structures/fx_helpers.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/frm/term_structures/fx_helpers.py b/frm/term_structures/fx_helpers.py
index 880ef76..652966d 100644
--- a/frm/term_structures/fx_helpers.py
+++ b/frm/term_structures/fx_helpers.py
@@ -21,7 +21,8 @@ def fx_term_structure_helper(df: pd.DataFrame,
                              cal: np.busdaycalendar,
                              rate_set_date_str: str) -> pd.DataFrame:
 
-    df['tenor'] = df['tenor'].apply(clean_tenor)
+    if 'tenor' in df.columns:
+        df['tenor'] = df['tenor'].apply(lambda tenor: clean_tenor(tenor) if pd.notna(tenor) else tenor)
 
     mandatory_columns_at_least_one_of = [['tenor',rate_set_date_str,'delivery_date']]
     for column_set in mandatory_columns_at_least_one_of:
@@ -38,18 +39,20 @@ def fx_term_structure_helper(df: pd.DataFrame,
     # 3. Otherwise, calculate the rate-set date and delivery date from the tenor
     for i, row in df.iterrows():
         if pd.notna(row['delivery_date']):
-            pass
+            if pd.isna(row[rate_set_date_str]):
+                delivery_date_np = row['delivery_date'].to_numpy().astype('datetime64[D]')
+                df.at[i,rate_set_date_str] = np.busday_offset(delivery_date_np, offsets=-1*spot_offset, roll='preceding',busdaycal=cal)
         elif pd.notna(row[rate_set_date_str]):
-            rate_set_date_np = row[rate_set_date_str].astype('datetime64[D]')
-            df.at[i,'delivery_date'] = np.busday_offset(rate_set_date_np, offsets=-1*spot_offset, roll='preceding',busdaycal=cal)
-        elif pd.notna(row['tenor']):
+            rate_set_date_np = row[rate_set_date_str].to_numpy().astype('datetime64[D]')
+            df.at[i,'delivery_date'] = np.busday_offset(rate_set_date_np, offsets=spot_offset, roll='following',busdaycal=cal)
+        elif 'tenor' in df.columns and pd.notna(row['tenor']):
             date_offset = tenor_to_date_offset(row['tenor'])
             rate_set_date = curve_date + date_offset
             rate_set_date_np = rate_set_date.to_numpy().astype('datetime64[D]')
             df.at[i,rate_set_date_str] = np.busday_offset(rate_set_date_np, offsets=0, roll='following',busdaycal=cal)
             df.at[i,'delivery_date'] = np.busday_offset(rate_set_date_np, offsets=spot_offset, roll='following',busdaycal=cal)
         else:
-            raise ValueError("'delivery_date', '{rate_set_date_str}' and 'tenor' are all missing")
+            raise ValueError(f"'delivery_date', '{rate_set_date_str}' and 'tenor' are all missing")
 
     if 'tenor' in df.columns:
         time_column_order = ['tenor'] + [rate_set_date_str,'delivery_date']
-- 
2.43.0


From a161881f5a39746a735a759008d8e0ae184172a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:42 +0000
Subject: [PATCH 47/62] fix: currency quotes with repeated row labels were all
 given the dates of the last one

---
 frm/term_structures/fx_helpers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/frm/term_structures/fx_helpers.py b/frm/term_structures/fx_helpers.py
index 652966d..43a843a 100644
--- a/frm/term_structures/fx_helpers.py
+++ b/frm/term_structures/fx_helpers.py
@@ -33,6 +33,8 @@ def fx_term_structure_helper(df: pd.DataFrame,
             df[column] = np.nan
         df[column] = df[column].astype('datetime64[ns]')
 
+    df = df.reset_index(drop=True) # the row labels can repeat, for quotes of several sources put together
+
     # Input hierarchy is:
     # 1. Use the delivery date if it is available.
     # 2. Otherwise, calculate the delivery date from the rate-set date ('fixing_date' for forwards, 'expiry_date' for options
-- 
2.43.0


From 9d48f879d4130e0cba5093d3f5d1810c95ab5b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:26 +0000
Subject: [PATCH 48/62] fix: delta convention warning failed for currency
 quotes without tenors

---
 frm/term_structures/fx_helpers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/frm/term_structures/fx_helpers.py b/frm/term_structures/fx_helpers.py
index 43a843a..f270a8f 100644
--- a/frm/term_structures/fx_helpers.py
+++ b/frm/term_structures/fx_helpers.py
@@ -109,12 +109,13 @@ def validate_ccy_pair(ccy_pair):
 
 def check_delta_convention(df: pd.DataFrame, ccy_pair: str) -> pd.DataFrame:
 
+    expiry_column = next(column for column in ['tenor','expiry_date','delivery_date'] if column in df.columns)
     bool_cond = np.logical_and(ccy_pair in ['audusd', 'nzdeur', 'gbpusd', 'nzdusd'],
                                df['delta_convention'].str.contains('premium_adjusted'))
     df.loc[bool_cond, 'warnings'] += 'the regular delta is the market delta_convention for this currency pair\n'
     if bool_cond.any():
         warnings.warn('The delta_convention is premium_adjusted for the following tenors: '
-                      f'{df.loc[bool_cond, "tenor"].unique()} for the currency pair {ccy_pair}. '
+                      f'{df.loc[bool_cond, expiry_column].unique()} for the currency pair {ccy_pair}. '
                       'The market convention is to use the regular delta. '
                       'Please ensure that the delta_convention is consistent with the market convention.')
 
@@ -127,7 +128,7 @@ def check_delta_convention(df: pd.DataFrame, ccy_pair: str) -> pd.DataFrame:
 
     if bool_cond.any():
         warnings.warn('The delta_convention is regular for the following tenors: '
-                      f'{df.loc[bool_cond, "tenor"].unique()} for the currency pair {ccy_pair}. '
+                      f'{df.loc[bool_cond, expiry_column].unique()} for the currency pair {ccy_pair}. '
                       'The market convention is to use the premium adjusted delta. '
                       'Please ensure that the delta_convention is consistent with the market convention.')
 
-- 
2.43.0


From 697e11b70806b912af5fb380b51fc108afdf965c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:25 +0000
Subject: [PATCH 49/62] fix: Optionlet builds its caplet schedule, from the
 unrolled dates, and leaves the caller's quotes alone

make_schedule was passed an attribute which does not exist and returned a plain frame, so no Optionlet could be made.
---
 frm/term_structures/optionlet.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/frm/term_structures/optionlet.py b/frm/term_structures/optionlet.py
index 7121f2e..c374c33 100644
--- a/frm/term_structures/optionlet.py
+++ b/frm/term_structures/optionlet.py
@@ -12,8 +12,8 @@ import numbers
 # Own Project imports
 from frm.pricing_engine.black76_bachelier import black76_price, bachelier_price, black76_solve_implied_vol, bachelier_solve_implied_vol, normal_vol_to_black76_sln, black76_sln_to_normal_vol, black76_sln_to_normal_vol_analytical, normal_vol_atm_to_black76_sln_atm, VOL_N_BOUNDS
 from frm.pricing_engine.sabr import solve_alpha_from_sln_vol, calc_sln_vol_for_strike_from_sabr_params
-from frm.utils import year_frac, clean_tenor, tenor_to_date_offset, convert_column_to_consistent_data_type, BaseSchedule, make_schedule
-from frm.enums import DayCountBasis, PeriodFreq, TermRate
+from frm.utils import year_frac, clean_tenor, tenor_to_date_offset, convert_column_to_consistent_data_type, BaseSchedule
+from frm.enums import DayCountBasis, PeriodFreq, RollConv, TermRate
 from frm.term_structures.zero_curve import ZeroCurve
 from frm.term_structures.interest_rate_option_helpers import standardise_relative_quote_col_names
 
@@ -49,6 +49,9 @@ class Optionlet:
 
         self.day_count_basis = self.zero_curve.day_count_basis
 
+        # The caller's quotes are left as they are
+        self.quote_vol_sln = self.quote_vol_sln.reset_index(drop=True)
+
         # Identical for Cap/Floor and IRS bootstrapping
         if self.settlement_date is None and self.settlement_delay is None:
             raise ValueError('Either settlement_date or settlement_delay must be provided.')
@@ -105,11 +108,16 @@ class Optionlet:
         self.quote_cols = list(quote_str_map.keys())
     
         nb_quotes = len(self.quote_vol_sln) - 1
-        self.term_structure = make_schedule(start_date=self.quote_vol_sln.loc[nb_quotes, 'effective_date'],
-                                           end_date=self.quote_vol_sln.loc[nb_quotes, 'termination_date'],
-                                           freq=self.optionlet_freq,
-                                           cal=self.cal)
-        self.term_structure.add_period_yearfrac(day_count_basis=self.day_count_basis)
+        # From the unrolled dates of the longest quote, rolled as the quotes are: a shorter quote ends on the end of a period
+        schedule = BaseSchedule(start_date=self.settlement_date + self.optionlet_freq.date_offset,
+                                end_date=self.settlement_date + tenor_to_date_offset(self.quote_vol_sln.loc[nb_quotes, 'tenor']),
+                                freq=self.optionlet_freq,
+                                roll_conv=RollConv.FOLLOWING,
+                                roll_user_specified_dates=True,
+                                cal=self.busdaycal)
+        schedule.add_payment_dates()
+        schedule.add_period_yearfrac(day_count_basis=self.day_count_basis)
+        self.term_structure = schedule.df
 
         self.term_structure['discount_factors'] = self.zero_curve.get_discount_factors(dates=self.term_structure['payment_date'])
         self.term_structure['annuity_factor'] = self.term_structure['period_yearfrac'] * self.term_structure['discount_factors']
-- 
2.43.0


From 819ca1a43aee897bda532d008b9579038b36a789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:25 +0000
Subject: [PATCH 50/62] fix: pricing optionlets leaves the caller's schedule as
 it was

---
 frm/term_structures/optionlet.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/frm/term_structures/optionlet.py b/frm/term_structures/optionlet.py
index c374c33..f794a64 100644
--- a/frm/term_structures/optionlet.py
+++ b/frm/term_structures/optionlet.py
@@ -1,4 +1,5 @@
 # -*- coding: utf-8 -*-
+import copy
 import os
 if __name__ == "__main__":
     os.chdir(os.environ.get('PROJECT_DIR_FRM'))
@@ -610,13 +611,16 @@ class Optionlet:
                           use_term_structure: bool = False,
                           solve_equivalent_flat_vol=False) -> pd.DataFrame:
 
-        schedule.add_period_yearfrac(day_count_basis=day_count_basis)
         schedule_length = len(schedule.df)
 
         # Validate inputs
         self._validate_strike_and_option_type(K, cp, schedule_length)
 
-        detail_df = schedule.df.copy()
+        # Year fractions go onto a copy: the schedule is the caller's, and may be shared
+        schedule = copy.copy(schedule)
+        schedule.df = schedule.df.copy()
+        schedule.add_period_yearfrac(day_count_basis=day_count_basis)
+        detail_df = schedule.df
 
         detail_df = self.interpolate_sabr_term_structure(schedule_df=detail_df)
 
-- 
2.43.0


From 05770183b306f00b07d20b749c7664e2017d8d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:05 +0000
Subject: [PATCH 51/62] fix: fitted SABR beta stays within 0 and 1

---
 frm/pricing_engine/sabr.py       | 2 +-
 frm/term_structures/optionlet.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/frm/pricing_engine/sabr.py b/frm/pricing_engine/sabr.py
index f084f74..602a7ee 100644
--- a/frm/pricing_engine/sabr.py
+++ b/frm/pricing_engine/sabr.py
@@ -245,7 +245,7 @@ def fit_sabr_params_to_sln_smile(tau: float,
     # rho has a valid range of -1≤ρ≤1
     # volvol has a valid range of 0<v≤∞
     x0 = np.array([0.00, 0.10]) if beta_overide is not None else np.array([0.0, 0.0, 0.1])
-    bounds = [(-1.0, 1.0), (0.0001, None)] if beta_overide is not None else [(-1.0, 1.0), (-1.0, 1.0), (0.0001, None)]
+    bounds = [(-1.0, 1.0), (0.0001, None)] if beta_overide is not None else [(0.0, 1.0), (-1.0, 1.0), (0.0001, None)]
     res = scipy.optimize.minimize(fun=lambda param: vol_sse(param), x0=x0, bounds=bounds)
 
     if res.success:
diff --git a/frm/term_structures/optionlet.py b/frm/term_structures/optionlet.py
index f794a64..d7fdf4d 100644
--- a/frm/term_structures/optionlet.py
+++ b/frm/term_structures/optionlet.py
@@ -491,7 +491,7 @@ class Optionlet:
         # rho has a valid range of -1≤ρ≤1
         # volvol has a valid range of 0<v≤∞
         x0 = np.array([0.00, 0.10]) if beta_overide is not None else np.array([0.0, 0.0, 0.1])
-        bounds = [(-1.0, 1.0), (0.0001, None)] if beta_overide is not None else [(-1.0, 1.0), (-1.0, 1.0),(0.0001, None)]
+        bounds = [(-1.0, 1.0), (0.0001, None)] if beta_overide is not None else [(0.0, 1.0), (-1.0, 1.0), (0.0001, None)]
         res = scipy.optimize.minimize(fun=lambda param: sse_sabr_for_pillar_optionlet(self=self, param=param),
                                       x0=x0,
                                       bounds=bounds,
-- 
2.43.0


From 29c69f48b5c91a806a02c0b483f0c1802f59dd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:01 +0000
Subject: [PATCH 52/62] fix: rolled schedules no longer begin or end with an
 empty period

Generated dates were compared with the unrolled ends: a period between the rolled date and itself was added when an end falls on a weekend.
---
 frm/utils/schedule.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frm/utils/schedule.py b/frm/utils/schedule.py
index e0401e1..e01f2ec 100644
--- a/frm/utils/schedule.py
+++ b/frm/utils/schedule.py
@@ -507,7 +507,7 @@ def generate_date_schedule(
         current_date = apply_specific_day_roll(start_date + freq.date_offset, day_roll)
         current_date = busday_offset_timestamp(current_date, 0, roll_conv.value, cal)
         
-        while current_date < end_date: 
+        while current_date < end_date_in_schedule:
             start_dates.append(current_date)
             end_dates.append(current_date)
             current_date = start_date + freq.multiply_date_offset(i+1)
@@ -522,7 +522,7 @@ def generate_date_schedule(
         current_date = apply_specific_day_roll(end_date - freq.date_offset, day_roll)
         current_date = busday_offset_timestamp(current_date, 0, roll_conv.value, cal)
         
-        while current_date > start_date:   
+        while current_date > start_date_in_schedule:
             start_dates.append(current_date)
             end_dates.append(current_date)
             current_date = end_date - freq.multiply_date_offset(i+1)
-- 
2.43.0


From 54fde58e2d6db7a415bb6537c8bcc6ae8c24b4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:54 +0000
Subject: [PATCH 53/62] fix: Optionlet with a single caplet before the second
 quote failed

---
 frm/term_structures/optionlet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frm/term_structures/optionlet.py b/frm/term_structures/optionlet.py
index d7fdf4d..d20cef1 100644
--- a/frm/term_structures/optionlet.py
+++ b/frm/term_structures/optionlet.py
@@ -301,7 +301,7 @@ class Optionlet:
 
             optionlets = self.term_structure.loc[mask_prior, :].copy()
 
-            vol_sln = calc_sln_vol_for_strike_from_sabr_params(
+            vol_sln = np.atleast_1d(calc_sln_vol_for_strike_from_sabr_params(
                     tau=optionlets['expiry_years'].values,
                     F=optionlets['F'].values,
                     alpha=optionlets['alpha'].values,
@@ -309,7 +309,7 @@ class Optionlet:
                     rho=optionlets['rho'].values,
                     volvol=optionlets['volvol'].values,
                     K=self.quote_strikes.loc[quote_nb, 'atmf'],
-                    ln_shift=self.ln_shift)
+                    ln_shift=self.ln_shift))
 
             optionlet_px = black76_price(
                 F=optionlets['F'].values,
-- 
2.43.0


From 10028d258b3967aa705bf1bfaede86f93dd8717c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:54 +0000
Subject: [PATCH 54/62] fix: caplet SABR fits stay off correlations of one,
 where the formula has no value

---
 frm/term_structures/optionlet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/term_structures/optionlet.py b/frm/term_structures/optionlet.py
index d20cef1..42a918d 100644
--- a/frm/term_structures/optionlet.py
+++ b/frm/term_structures/optionlet.py
@@ -491,7 +491,7 @@ class Optionlet:
         # rho has a valid range of -1≤ρ≤1
         # volvol has a valid range of 0<v≤∞
         x0 = np.array([0.00, 0.10]) if beta_overide is not None else np.array([0.0, 0.0, 0.1])
-        bounds = [(-1.0, 1.0), (0.0001, None)] if beta_overide is not None else [(0.0, 1.0), (-1.0, 1.0), (0.0001, None)]
+        bounds = [(-0.999, 0.999), (0.0001, None)] if beta_overide is not None else [(0.0, 1.0), (-0.999, 0.999), (0.0001, None)]
         res = scipy.optimize.minimize(fun=lambda param: sse_sabr_for_pillar_optionlet(self=self, param=param),
                                       x0=x0,
                                       bounds=bounds,
-- 
2.43.0


From 2fe954cdf90687f9828caa6971590a745d11cea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:54 +0000
Subject: [PATCH 55/62] fix: caplet SABR fits stopped at their first guess and
 missed the quotes by percents

---
 frm/term_structures/optionlet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/term_structures/optionlet.py b/frm/term_structures/optionlet.py
index 42a918d..e12f9be 100644
--- a/frm/term_structures/optionlet.py
+++ b/frm/term_structures/optionlet.py
@@ -495,7 +495,7 @@ class Optionlet:
         res = scipy.optimize.minimize(fun=lambda param: sse_sabr_for_pillar_optionlet(self=self, param=param),
                                       x0=x0,
                                       bounds=bounds,
-                                      tol=1e-5)
+                                      options={'ftol': 1e-10, 'gtol': 1e-6})
         if res.success:
             beta_pillar, rho_pillar, volvol_pillar = (beta_overide, *res.x) if beta_overide is not None else res.x
         else:
-- 
2.43.0


From 8e2e7f491afe54f8c84833bf6b9860884403db48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:24 +0000
Subject: [PATCH 56/62] fix: quote columns were relabelled one basis point off,
 and percentages as basis points

---
 frm/term_structures/interest_rate_option_helpers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/frm/term_structures/interest_rate_option_helpers.py b/frm/term_structures/interest_rate_option_helpers.py
index c8d0fb2..a0b5a7f 100644
--- a/frm/term_structures/interest_rate_option_helpers.py
+++ b/frm/term_structures/interest_rate_option_helpers.py
@@ -167,13 +167,13 @@ def standardise_relative_quote_col_names(col_names: list[str]):
     for col_name in col_names:
         if re.search(bps_quote, col_name, re.IGNORECASE):
             v = round(float(col_name.replace('bps', '').replace('bp', '').replace(' ', '')) / 10000,8)
-            new_col_name = (str(int(v * 10000)) if (round(v * 10000,8)).is_integer() else str(round(v * 10000, 8))) + 'bps'
+            new_col_name = (str(int(round(v * 10000, 8))) if (round(v * 10000,8)).is_integer() else str(round(v * 10000, 8))) + 'bps'
             col_name_update[col_name] = new_col_name
             col_name_adj_to_forward[new_col_name] = v
 
         elif re.search(percentage_quote, col_name, re.IGNORECASE):
             v = round(float(col_name.replace('%', '').replace(' ', '')) / 100,8)
-            new_col_name = (str(int(v * 100)) if (round(v * 100,8)).is_integer() else str(round(v * 100, 8))) + 'bps'
+            new_col_name = (str(int(round(v * 10000, 8))) if (round(v * 10000,8)).is_integer() else str(round(v * 10000, 8))) + 'bps'
             col_name_update[col_name] = new_col_name
             col_name_adj_to_forward[new_col_name] = v
 
@@ -189,13 +189,13 @@ def standardise_absolute_quote_col_names(col_names: list[str]):
     for col_name in col_names:
         if re.search(bps_quote, col_name, re.IGNORECASE):
             v = round(float(col_name.replace('bps', '').replace('bp', '').replace(' ', '')) / 10000,8)
-            new_col_name = (str(int(v * 10000)) if (round(v * 10000,8)).is_integer() else str(round(v * 10000, 8))) + 'bps'
+            new_col_name = (str(int(round(v * 10000, 8))) if (round(v * 10000,8)).is_integer() else str(round(v * 10000, 8))) + 'bps'
             col_name_update[col_name] = new_col_name
             col_name_strike[new_col_name] = v
 
         elif re.search(percentage_quote, col_name, re.IGNORECASE):
             v = round(float(col_name.replace('%', '').replace(' ', '')) / 100,8)
-            new_col_name = (str(int(v * 100)) if (round(v * 100,8)).is_integer() else str(round(v * 100, 8))) + 'bps'
+            new_col_name = (str(int(round(v * 10000, 8))) if (round(v * 10000,8)).is_integer() else str(round(v * 10000, 8))) + 'bps'
             col_name_update[col_name] = new_col_name
             col_name_strike[new_col_name] = v
 
-- 
2.43.0


From f193586e0ae8274103aa51ad783a7cb3452d741b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:36 +0000
Subject: [PATCH 57/62] fix: caplet SABR fits failed when the line search gave
 up at the optimum

---
 frm/term_structures/optionlet.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/frm/term_structures/optionlet.py b/frm/term_structures/optionlet.py
index e12f9be..02000cc 100644
--- a/frm/term_structures/optionlet.py
+++ b/frm/term_structures/optionlet.py
@@ -496,7 +496,8 @@ class Optionlet:
                                       x0=x0,
                                       bounds=bounds,
                                       options={'ftol': 1e-10, 'gtol': 1e-6})
-        if res.success:
+        # 2nd condition (the quotes are met to within 1%) required as the line search can give up just short of the tight 'ftol' and 'gtol'
+        if res.success or res.fun < 0.01**2:
             beta_pillar, rho_pillar, volvol_pillar = (beta_overide, *res.x) if beta_overide is not None else res.x
         else:
             print(res)
-- 
2.43.0


From 7e1490a8abcf84c89b563e0a56d216df98515217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:24 +0000
Subject: [PATCH 58/62] fix: make_schedule stays importable from the optionlet
 module

---
 frm/term_structures/optionlet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/term_structures/optionlet.py b/frm/term_structures/optionlet.py
index 02000cc..5796f2a 100644
--- a/frm/term_structures/optionlet.py
+++ b/frm/term_structures/optionlet.py
@@ -13,7 +13,7 @@ import numbers
 # Own Project imports
 from frm.pricing_engine.black76_bachelier import black76_price, bachelier_price, black76_solve_implied_vol, bachelier_solve_implied_vol, normal_vol_to_black76_sln, black76_sln_to_normal_vol, black76_sln_to_normal_vol_analytical, normal_vol_atm_to_black76_sln_atm, VOL_N_BOUNDS
 from frm.pricing_engine.sabr import solve_alpha_from_sln_vol, calc_sln_vol_for_strike_from_sabr_params
-from frm.utils import year_frac, clean_tenor, tenor_to_date_offset, convert_column_to_consistent_data_type, BaseSchedule
+from frm.utils import year_frac, clean_tenor, tenor_to_date_offset, convert_column_to_consistent_data_type, BaseSchedule, make_schedule
 from frm.enums import DayCountBasis, PeriodFreq, RollConv, TermRate
 from frm.term_structures.zero_curve import ZeroCurve
 from frm.term_structures.interest_rate_option_helpers import standardise_relative_quote_col_names
-- 
2.43.0


From cb2b3fa1dd41f6aa30aaf028b0b18013a58bca97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:41 +0000
Subject: [PATCH 59/62] fix: schedules of changing notionals were refused

---
 frm/utils/schedule.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frm/utils/schedule.py b/frm/utils/schedule.py
index e01f2ec..dccb6b0 100644
--- a/frm/utils/schedule.py
+++ b/frm/utils/schedule.py
@@ -146,9 +146,9 @@ class NotionalSchedule(BaseSchedule):
         if notional_amount.shape == (1,):
             df['notional'] = notional_amount[0]
             df['notional_payment'] = 0
-        elif notional_amount.shape == df.shape[0]:
+        elif notional_amount.shape == (df.shape[0],):
             df['notional'] = notional_amount
-            df['notional_payment'] = notional_amount[:-1] - notional_amount[1:]
+            df['notional_payment'] = np.append(notional_amount[:-1] - notional_amount[1:], 0)
         else:
             raise ValueError("Invalid notional_amount shape")
 
-- 
2.43.0


From 27eda4f69779292a88d8e04bb6d4f2cbaffe158b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:41 +0000
Subject: [PATCH 60/62] fix: long stubs on schedules of one period failed

---
 frm/utils/schedule.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/frm/utils/schedule.py b/frm/utils/schedule.py
index dccb6b0..48a197c 100644
--- a/frm/utils/schedule.py
+++ b/frm/utils/schedule.py
@@ -294,12 +294,12 @@ def make_schedule(
 
             if last_stub == Stub.NONE:
                 d1, d2 = generate_date_schedule(start_date, end_date, freq, 'backward', roll_conv, day_roll, roll_user_specified_dates, cal)
-                if first_stub == Stub.LONG:
+                if first_stub == Stub.LONG and len(d1) > 1:
                     d1 = [d1[0]] + d1[2:]
                     d2 = d2[1:]
             elif first_stub == Stub.NONE and last_stub != Stub.NONE:
                 d1, d2 = generate_date_schedule(start_date, end_date, freq, 'forward', roll_conv, day_roll, roll_user_specified_dates, cal)
-                if last_stub == Stub.LONG:
+                if last_stub == Stub.LONG and len(d1) > 1:
                     d1 = d1[:-1]
                     d2 = d2[:-2] + [d2[-1]]
             elif first_stub in [Stub.SHORT, Stub.LONG] and last_stub in [Stub.SHORT, Stub.LONG]:
@@ -382,7 +382,7 @@ def make_schedule(
                 d1, d2 = generate_date_schedule(first_period_end, end_date, freq, 'forward', roll_conv, day_roll, roll_user_specified_dates, cal)
                 d1 = [start_date] + d1
                 d2 = [first_period_end] + d2
-                if last_stub == Stub.LONG:
+                if last_stub == Stub.LONG and len(d1) > 2:
                     d1 = d1[:-1]
                     d2 = d2[:-2] + [d2[-1]]
             elif first_stub != Stub.DEFINED_PER_FIRST_PERIOD_END_DATE and last_stub == Stub.DEFINED_PER_LAST_PERIOD_START_DATE:
@@ -390,7 +390,7 @@ def make_schedule(
                 d1, d2 = generate_date_schedule(start_date, last_period_start, freq, 'backward', roll_conv, day_roll, roll_user_specified_dates, cal)
                 d1 = d1 + [last_period_start]
                 d2 = d2 + [end_date]
-                if first_stub == Stub.LONG:
+                if first_stub == Stub.LONG and len(d1) > 2:
                     d1 = [d1[0]] + d1[2:]
                     d2 = d2[1:]
             else:
-- 
2.43.0


From 4edee4f2efe4f95ea831d47c23338f6f1508a06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:41 +0000
Subject: [PATCH 61/62] fix: schedules given a first period end and a last
 period start ignored one of them or were refused

---
 frm/utils/schedule.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/frm/utils/schedule.py b/frm/utils/schedule.py
index 48a197c..3828019 100644
--- a/frm/utils/schedule.py
+++ b/frm/utils/schedule.py
@@ -326,14 +326,28 @@ def make_schedule(
             # Step 2a : Check if the first_period_end matches any generated schedules
 
             direction = []
-            if first_period_end is not None:
+            if first_period_end is not None and last_period_start is not None:
+                # Both dates are to be met, hence they need to match the same generated schedule
+                if first_period_end == d2_forward[0] and last_period_start in d1_forward[-2:]:
+                    direction.append('forward')
+                    first_stub = Stub.NONE
+                    last_stub = Stub.SHORT if last_period_start == d1_forward[-1] else Stub.LONG
+                elif last_period_start == d1_backward[-1] and first_period_end in d2_backward[:2]:
+                    direction.append('backward')
+                    first_stub = Stub.SHORT if first_period_end == d2_backward[0] else Stub.LONG
+                    last_stub = Stub.NONE
+                else:
+                    # Need to construct schedule using first_period_end and last_period_start
+                    first_stub = Stub.DEFINED_PER_FIRST_PERIOD_END_DATE
+                    last_stub = Stub.DEFINED_PER_LAST_PERIOD_START_DATE
+            elif first_period_end is not None:
                 if first_period_end == d2_forward[0]:
                     direction.append('forward')
                     first_stub = Stub.NONE
                 elif first_period_end == d2_backward[0]:
                     direction.append('backward')
                     first_stub = Stub.SHORT
-                elif first_period_end == d2_backward[1]:
+                elif first_period_end in d2_backward[1:2]:
                     direction.append('backward')
                     first_stub = Stub.LONG
                 else:
@@ -341,14 +355,14 @@ def make_schedule(
                     first_stub = Stub.DEFINED_PER_FIRST_PERIOD_END_DATE
 
             # Step 2a : Check if the last_period_start matches any generated schedules
-            if last_period_start is not None:
+            elif last_period_start is not None:
                 if last_period_start == d1_backward[-1]:
                     direction.append('backward')
                     last_stub = Stub.NONE
                 elif last_period_start == d1_forward[-1]:
                     direction.append('forward')
                     last_stub = Stub.SHORT
-                elif last_period_start == d1_forward[-2]:
+                elif last_period_start in d1_forward[-2:-1]:
                     direction.append('forward')
                     last_stub = Stub.LONG
                 else:
-- 
2.43.0


From dc21ea57c51e74ef45753d1496134c0925d2413e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:46 +0000
Subject: [PATCH 62/62] fix: schedules with one stub and an explicit Stub.NONE
 at the other end were refused

---
 frm/utils/schedule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frm/utils/schedule.py b/frm/utils/schedule.py
index 3828019..f62c9db 100644
--- a/frm/utils/schedule.py
+++ b/frm/utils/schedule.py
@@ -289,7 +289,7 @@ def make_schedule(
                 first_stub  = Stub.NONE
             elif last_stub == Stub.DEFAULT:
                 last_stub = Stub.NONE
-            else:
+            elif first_stub == Stub.NONE and last_stub == Stub.NONE:
                 raise ValueError("Unexpected logic branch - please raise GitHub issue")
 
             if last_stub == Stub.NONE:
-- 
2.43.0

