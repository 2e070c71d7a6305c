From 8d8c26f8e5f62d8a28adaaf4c1f39abfda44a35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:25 +0000
Subject: [PATCH 01/61] fix: treat a holiday observed on December 31st of the
 preceding year as a non-business day

---
 fixedIncome/src/scheduling_tools/scheduler.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/fixedIncome/src/scheduling_tools/scheduler.py b/fixedIncome/src/scheduling_tools/scheduler.py
index a97794a..a3a90a5 100644
--- a/fixedIncome/src/scheduling_tools/scheduler.py
+++ b/fixedIncome/src/scheduling_tools/scheduler.py
@@ -4,7 +4,7 @@ An object for
 Unit tests are contained in fixedIncome.tests.test_scheduling_tools.test_scheduler.py
 """
 
-from datetime import date, datetime, timedelta
+from datetime import MAXYEAR, MINYEAR, date, datetime, timedelta
 from dateutil.relativedelta import relativedelta
 import pandas as pd  # type: ignore
 from fixedIncome.src.scheduling_tools.schedule_enumerations import Weekdays
@@ -100,8 +100,9 @@ class Scheduler(object):
         """
         is_weekday = date_obj.weekday() != Weekdays.SATURDAY.value and date_obj.weekday() != Weekdays.SUNDAY.value
         year = date_obj.year
-        not_holiday = date_obj not in generate_all_holidays(from_year=year,
-                                                            to_year=year,
+        # an adjustment can move an observed holiday across the year end (e.g. New Year's 2022 -> 2021-12-31)
+        not_holiday = date_obj not in generate_all_holidays(from_year=max(year - 1, MINYEAR),
+                                                            to_year=min(year + 1, MAXYEAR),
                                                             holiday_calendar=holiday_calendar)
 
         return not_holiday and is_weekday
-- 
2.43.0


From ef358a5672ef099bf49358d842190e94451de7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:40 +0000
Subject: [PATCH 02/61] fix: generate incremental dates from the start date so
 that month-end schedules do not drift

---
 fixedIncome/src/scheduling_tools/scheduler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixedIncome/src/scheduling_tools/scheduler.py b/fixedIncome/src/scheduling_tools/scheduler.py
index a3a90a5..d6ae822 100644
--- a/fixedIncome/src/scheduling_tools/scheduler.py
+++ b/fixedIncome/src/scheduling_tools/scheduler.py
@@ -148,13 +148,13 @@ class Scheduler(object):
         if positive_delta:
             while date_obj <= end_date and count <= max_dates:
                 dates.append(date_obj)
-                date_obj += increment
                 count += 1
+                date_obj = start_date + count * increment  # from the start: no drift of month-end dates
         else:  # increment is a negative amount of time
             while date_obj >= end_date and count <= max_dates:
                 dates.append(date_obj)
-                date_obj += increment
                 count += 1
+                date_obj = start_date + count * increment  # from the start: no drift of month-end dates
 
         return dates
 
-- 
2.43.0


From 1099137e78786a9642ac42fb0f382a878b519c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:40 +0000
Subject: [PATCH 03/61] fix: 30/360 takes the last day of February from the
 calendar, leap years included

---
 fixedIncome/src/scheduling_tools/day_count_calculator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixedIncome/src/scheduling_tools/day_count_calculator.py b/fixedIncome/src/scheduling_tools/day_count_calculator.py
index fd71f73..42bee58 100644
--- a/fixedIncome/src/scheduling_tools/day_count_calculator.py
+++ b/fixedIncome/src/scheduling_tools/day_count_calculator.py
@@ -146,8 +146,8 @@ class DayCountCalculator(object):
 
         # date adjustments in order according to https://en.wikipedia.org/wiki/Day_count_convention#30/360_US
 
-        start_date_last_day_in_feb = (start_month == 2) and (start_day == 28)
-        end_date_last_day_in_feb = (end_month == 2) and (end_day == 28)
+        start_date_last_day_in_feb = (start_month == 2) and ((start_date + timedelta(days=1)).month == 3)
+        end_date_last_day_in_feb = (end_month == 2) and ((end_date + timedelta(days=1)).month == 3)
 
         # adjustment (1)
         if start_date_last_day_in_feb and end_date_last_day_in_feb:
-- 
2.43.0


From 0bd54d4445402fc053d7463b08e5c3f62fe2bac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:00 +0000
Subject: [PATCH 04/61] fix: pass the requested date to the adjustment beyond a
 curve's last knot

---
 fixedIncome/src/curves/base_curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedIncome/src/curves/base_curve.py b/fixedIncome/src/curves/base_curve.py
index 5f8d85f..595ab68 100644
--- a/fixedIncome/src/curves/base_curve.py
+++ b/fixedIncome/src/curves/base_curve.py
@@ -114,7 +114,7 @@ class Curve(Callable):
 
             match self.right_end_behavior:
                 case EndBehavior.CONSTANT:
-                    return last_val + adjustment(date)
+                    return last_val + adjustment(date_obj)
 
                 case EndBehavior.ERROR:
                     raise ValueError(f'Error in interpolate right end behavior. '
-- 
2.43.0


From 29cd8bf84af77004ee003008f5d9de9d596efd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:00 +0000
Subject: [PATCH 05/61] fix: weight path values by the distance to the opposite
 grid point when interpolating

---
 fixedIncome/src/stochastics/brownian_motion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedIncome/src/stochastics/brownian_motion.py b/fixedIncome/src/stochastics/brownian_motion.py
index 8e37177..ff72944 100644
--- a/fixedIncome/src/stochastics/brownian_motion.py
+++ b/fixedIncome/src/stochastics/brownian_motion.py
@@ -55,7 +55,7 @@ def datetime_to_path_call(
                                                                         end_date=datetime_grid[upper_datetime_index],
                                                                         dcc=day_count_convention)
 
-    interpolation_factor = time_to_next_grid_point / (time_to_next_grid_point + time_since_last_grid_point)
+    interpolation_factor = time_since_last_grid_point / (time_to_next_grid_point + time_since_last_grid_point)
 
     prev_value = path[:, lower_datetime_index]
     next_value = path[:, upper_datetime_index]
-- 
2.43.0


From bc1dfd8a18ea1b3f835c053428dcd5efcc064750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:00 +0000
Subject: [PATCH 06/61] fix: iterating over a CashflowCollection returns an
 iterator

---
 fixedIncome/src/assets/base_cashflow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedIncome/src/assets/base_cashflow.py b/fixedIncome/src/assets/base_cashflow.py
index bf4f632..e0dbb9e 100644
--- a/fixedIncome/src/assets/base_cashflow.py
+++ b/fixedIncome/src/assets/base_cashflow.py
@@ -121,7 +121,7 @@ class CashflowCollection(Set):
         return key in self.cashflows
     def __iter__(self):
         """ Iterates through the cashflows in the collection. """
-        return self.cashflows.items()
+        return iter(self.cashflows.items())
 
     def __getitem__(self, item: CashflowKeys | str) -> Cashflow:
         """
-- 
2.43.0


From b9c8703a88f2cc84f6c7d2760999cf06d21a2e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:32 +0000
Subject: [PATCH 07/61] fix: evaluate a path on the grid it was generated on,
 not on the latest grid of its Brownian motion

---
 fixedIncome/src/stochastics/base_processes.py  | 4 +++-
 fixedIncome/src/stochastics/brownian_motion.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/fixedIncome/src/stochastics/base_processes.py b/fixedIncome/src/stochastics/base_processes.py
index 2e49a02..6d67873 100644
--- a/fixedIncome/src/stochastics/base_processes.py
+++ b/fixedIncome/src/stochastics/base_processes.py
@@ -42,6 +42,7 @@ class DiffusionProcess(abc.Callable):
 
         self._dimension = len(self.drift_diffusion_collection)
         self._path = None
+        self._path_datetimes = None  # the grid on which the current path was generated
 
 
     @property
@@ -78,7 +79,7 @@ class DiffusionProcess(abc.Callable):
                                      start_date_time=self.start_date_time,
                                      end_date_time=self.end_date_time,
                                      path=self.path,
-                                     datetime_grid=self.brownian_motion.datetimes,
+                                     datetime_grid=self._path_datetimes,
                                      day_count_convention=self.day_count_convention)
 
     def generate_path(self,
@@ -109,6 +110,7 @@ class DiffusionProcess(abc.Callable):
         solution[:, brownian_increments.shape[1]] = current_val  # solution has one more slot
         if set_path:
             self._path = solution
+            self._path_datetimes = self.brownian_motion.datetimes
 
         return solution
 
diff --git a/fixedIncome/src/stochastics/brownian_motion.py b/fixedIncome/src/stochastics/brownian_motion.py
index ff72944..281581c 100644
--- a/fixedIncome/src/stochastics/brownian_motion.py
+++ b/fixedIncome/src/stochastics/brownian_motion.py
@@ -82,6 +82,7 @@ class BrownianMotion(Callable):
         self.lower_triangular_mat = np.linalg.cholesky(self.correlation_matrix)
         self._path = None
         self._datetimes = None
+        self._path_datetimes = None  # the grid on which the current path was generated
         self._dt_increments = None
         self.day_count_convention = day_count_convention
 
@@ -118,7 +119,7 @@ class BrownianMotion(Callable):
                                      start_date_time=self.start_date_time,
                                      end_date_time=self.end_date_time,
                                      day_count_convention=self.day_count_convention,
-                                     datetime_grid=self.datetimes,
+                                     datetime_grid=self._path_datetimes,
                                      path=self.path)
 
     def generate_increments(
@@ -161,6 +162,7 @@ class BrownianMotion(Callable):
 
         if set_path:
             self._path = brownian_paths
+            self._path_datetimes = self.datetimes
 
         return brownian_paths
 
-- 
2.43.0


From 682248fa81fa492c8661e01d083330637491be8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:32 +0000
Subject: [PATCH 08/61] fix: accept any numeric starting value and fewer or
 more Brownian dimensions than coordinates in path generation

---
 fixedIncome/src/stochastics/base_processes.py            | 7 +++----
 fixedIncome/src/stochastics/geometric_brownian_motion.py | 2 +-
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/fixedIncome/src/stochastics/base_processes.py b/fixedIncome/src/stochastics/base_processes.py
index 6d67873..0368a5c 100644
--- a/fixedIncome/src/stochastics/base_processes.py
+++ b/fixedIncome/src/stochastics/base_processes.py
@@ -7,7 +7,6 @@ from datetime import datetime, timedelta
 from dateutil.relativedelta import relativedelta
 from typing import Optional, NamedTuple, Callable
 import numpy as np
-import copy
 from fixedIncome.src.stochastics.brownian_motion import BrownianMotion, datetime_to_path_call
 from fixedIncome.src.scheduling_tools.schedule_enumerations import DayCountConvention
 
@@ -91,8 +90,8 @@ class DiffusionProcess(abc.Callable):
 
         """
         brownian_increments, dt_increments = self.brownian_motion.generate_increments(dt=self.dt, seed=seed)
-        solution = np.empty((brownian_increments.shape[0], brownian_increments.shape[1] + 1))
-        current_val = copy.deepcopy(starting_value)
+        solution = np.empty((self.dimension, brownian_increments.shape[1] + 1))
+        current_val = np.atleast_1d(np.array(starting_value, dtype=float))
         time = 0
         for index, (shock, dt) in enumerate(zip(brownian_increments.T, dt_increments)):  # used to be dt_increments.T
             solution[:, index] = current_val
@@ -104,7 +103,7 @@ class DiffusionProcess(abc.Callable):
                 diffusion_shock = drift_diffusion_functions.diffusion(time, current_val) @ shock  # shock contains sqrt(dt) scaling
                 next_step[row_index] = drift_increment + diffusion_shock
 
-            current_val += next_step
+            current_val = current_val + next_step
             time += dt
 
         solution[:, brownian_increments.shape[1]] = current_val  # solution has one more slot
diff --git a/fixedIncome/src/stochastics/geometric_brownian_motion.py b/fixedIncome/src/stochastics/geometric_brownian_motion.py
index 4465326..c8e961e 100644
--- a/fixedIncome/src/stochastics/geometric_brownian_motion.py
+++ b/fixedIncome/src/stochastics/geometric_brownian_motion.py
@@ -86,7 +86,7 @@ class GeometricBrownianMotion:
 
         brownian_increments, dt_increments = self.brownian_motion.generate_increments(dt=self.dt, seed=seed)
         solution = np.empty((self.dimension,  brownian_increments.shape[1]+1))
-        current_val = starting_value.flatten()
+        current_val = np.array(starting_value, dtype=float).flatten()
         time = 0
         for index, (shock, dt) in enumerate(zip(brownian_increments.T, dt_increments)):
             solution[:, index] = current_val
-- 
2.43.0


From f53293c811bdacf4ee87127de02717e6fa8ab502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:48 +0000
Subject: [PATCH 09/61] fix: integrate the short rate over each step's own
 accrual rather than the accrual from the start

---
 .../src/stochastics/short_rate_models/base_short_rate_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py b/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
index 2935b1f..9e91e59 100644
--- a/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
@@ -99,7 +99,7 @@ class ShortRateModel(DiffusionProcess):
                                                                increment=self.dt,
                                                                max_dates=1_000_000)
         running_integral = 0.0
-        old_time_accrual = 0
+        old_time_accrual = 0.0
         interpolation_values = [0.0]
 
         for start_dt, end_dt in itertools.pairwise(datetimes):
@@ -115,6 +115,7 @@ class ShortRateModel(DiffusionProcess):
                 next_trapezoid_val = min_rate * accrual + (max_rate - min_rate) * accrual / 2
             # compute integral
             running_integral += next_trapezoid_val
+            old_time_accrual = new_time_accrual
             interpolation_values.append(running_integral)
 
         self._integrated_path = np.array(interpolation_values)
-- 
2.43.0


From e9825949c97b2cd2a73d261e938ba6724c24e343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:48 +0000
Subject: [PATCH 10/61] fix: build the accrual curve from the integrated path
 without a duplicated first knot

---
 .../stochastics/short_rate_models/base_short_rate_model.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py b/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
index 9e91e59..ffedd50 100644
--- a/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
@@ -139,11 +139,10 @@ class ShortRateModel(DiffusionProcess):
                                                                max_dates=1_000_000)
 
         if self._integrated_path is None:
-            self.generate_integrated_path(start_date_time, end_date_time, datetimes)
+            self.generate_integrated_path(datetimes)
 
-        compound_interpolation_values = [KnotValuePair(start_date_time, 1.0)]
-        compound_interpolation_values += [KnotValuePair(datetime_obj, math.exp(integral))
-                                          for datetime_obj, integral in zip(datetimes, self._integrated_path)]
+        compound_interpolation_values = [KnotValuePair(datetime_obj, math.exp(integral))
+                                         for datetime_obj, integral in zip(datetimes, self._integrated_path)]
 
         self._continuously_compounded_accrual_curve = Curve(interpolation_values=compound_interpolation_values,
                                                             interpolation_method=InterpolationMethod.LINEAR,
-- 
2.43.0


From 53387f80689cfb7b9fbff0f2168b682748557f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:48 +0000
Subject: [PATCH 11/61] fix: short-rate models return their path, drop
 integrals and curves of an older path, and pass a new dt to their state
 variables

---
 .../base_short_rate_model.py                  | 33 ++++++++++++-------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py b/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
index ffedd50..47656c5 100644
--- a/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
@@ -62,16 +62,27 @@ class ShortRateModel(DiffusionProcess):
         A function which generates the short rate sample path from the underlying
         state variable diffusion sample paths.
         """
-        #self._reset_paths_and_curves()
-        self.state_variables_diffusion_process.generate_path(starting_value=starting_state_space_values,
-                                                             set_path=set_path,
-                                                             seed=seed)
-
-        path_length = self.state_variables_diffusion_process.path.shape[1]
-        self._path = np.zeros(shape=(path_length,))
+        state_variable_path = self.state_variables_diffusion_process.generate_path(
+            starting_value=starting_state_space_values,
+            set_path=set_path,
+            seed=seed
+        )
+
+        path_length = state_variable_path.shape[1]
+        short_rate_path = np.zeros(shape=(path_length,))
         for index in range(path_length):
-            self._path[index] = self.short_rate_transformation(self.state_variables_diffusion_process.path[:, index])
+            short_rate_path[index] = self.short_rate_transformation(state_variable_path[:, index])
+
+        if set_path:
+            self._reset_paths_and_curves()  # integrals and curves of the previous path are no longer valid
+            self._path = short_rate_path
+
+        return short_rate_path
 
+    def set_dt(self, new_dt: timedelta | relativedelta) -> None:
+        """ Sets a new increment dt for both the short rate and the underlying state variables. """
+        self.state_variables_diffusion_process.set_dt(new_dt)
+        super().set_dt(new_dt)
 
     def _reset_paths_and_curves(self) -> None:
         """
@@ -138,8 +149,7 @@ class ShortRateModel(DiffusionProcess):
                                                                increment=self.dt,
                                                                max_dates=1_000_000)
 
-        if self._integrated_path is None:
-            self.generate_integrated_path(datetimes)
+        self.generate_integrated_path(datetimes)  # the stored integral may belong to other datetimes
 
         compound_interpolation_values = [KnotValuePair(datetime_obj, math.exp(integral))
                                          for datetime_obj, integral in zip(datetimes, self._integrated_path)]
@@ -168,8 +178,7 @@ class ShortRateModel(DiffusionProcess):
                                                                increment=self.dt,
                                                                max_dates=1_000_000)
 
-        if self._integrated_path is None:
-            self.generate_integrated_path(datetimes)
+        self.generate_integrated_path(datetimes)  # the stored integral may belong to other datetimes
 
         discount_interpolation_values = np.exp(-self._integrated_path)
         discount_knot_values = [KnotValuePair(datetime_obj, df)
-- 
2.43.0


From 4d305c9f9e1495da7b1856e784e90cc152535de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:48 +0000
Subject: [PATCH 12/61] fix: the Vasicek short rate is a float, so that it can
 be integrated and discounted

---
 .../affine_yield_curve_models/vasicek_model.py                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
index 464a492..56fabb3 100644
--- a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
@@ -88,7 +88,7 @@ class VasicekModel(ShortRateModel, AffineModelMixin):
                                              brownian_motion=brownian_motion,
                                              dt=dt)
 
-        super().__init__(short_rate_transformation=lambda short_rate: short_rate,
+        super().__init__(short_rate_transformation=lambda short_rate: float(np.squeeze(short_rate)),
                          state_variables_diffusion_process=diffusion_process)
 
         self.convexity_limit = -self.volatility**2 / (2 * self.reversion_speed**2)
-- 
2.43.0


From 02ad921b01dec89ea9d0b400e7d3c707f7b95a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:48 +0000
Subject: [PATCH 13/61] fix: Vasicek prices, yields and yield volatilities use
 the purchase date they are given

---
 .../vasicek_model.py                          | 35 +++++++++++++------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
index 56fabb3..3c21fd1 100644
--- a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
@@ -205,12 +205,15 @@ class VasicekModel(ShortRateModel, AffineModelMixin):
 
         return {'intercept': intercept_deriv, 'coefficient': -exp_factor}
 
-    def _create_bond_yield_coeffs(self, maturity_date) -> None:
+    def _create_bond_yield_coeffs(self, maturity_date: date, purchase_date: Optional[date | datetime] = None) -> None:
         """
         Overrides the class method for setting the coefficients for calculating a zero-coupon bond yield.
         Reference:  Pages 165-171 of Rebonato *Bond Pricing and Yield Curve Modeling*.
         """
-        accrual = DayCountCalculator.compute_accrual_length(self.start_date_time,
+        if purchase_date is None:
+            purchase_date = self.start_date_time
+
+        accrual = DayCountCalculator.compute_accrual_length(purchase_date,
                                                             maturity_date,
                                                             self.day_count_convention)
         coefficient = -(1 - math.exp(-self.reversion_speed * accrual)) / self.reversion_speed
@@ -229,7 +232,7 @@ class VasicekModel(ShortRateModel, AffineModelMixin):
         if purchase_date is None:
             purchase_date = self.start_date_time
 
-        self._create_bond_price_coeffs(maturity_date)
+        self._create_bond_price_coeffs(maturity_date, purchase_date)
         return math.exp(self.price_state_variable_coeffs['intercept']
                         + self.price_state_variable_coeffs['coefficient'] * self(purchase_date))
 
@@ -243,22 +246,27 @@ class VasicekModel(ShortRateModel, AffineModelMixin):
         if purchase_date is None:
             purchase_date = self.start_date_time
 
-        self._create_bond_yield_coeffs(maturity_date)
+        self._create_bond_yield_coeffs(maturity_date, purchase_date)
         yield_value = self.yield_state_variable_coeffs['intercept'] \
                       + self.yield_state_variable_coeffs['coefficient'] * self(purchase_date)
 
         return yield_value
 
-    def yield_convexity(self, maturity_date: date | datetime) -> float:
+    def yield_convexity(self,
+                        maturity_date: date | datetime,
+                        purchase_date: Optional[date | datetime] = None) -> float:
         """
         Calculates the theoretical convexity of the Vasicek Model in yield terms. I.e., it calculates
         the difference between the actual yield for a time T zero-coupon bond and the pseudo-yield
         constructed by pricing a zero-coupon bond using the conditional expected value of the short rate path
         """
-        accrual = DayCountCalculator.compute_accrual_length(self.start_date_time,
+        if purchase_date is None:
+            purchase_date = self.start_date_time
+
+        accrual = DayCountCalculator.compute_accrual_length(purchase_date,
                                                             maturity_date,
                                                             self.day_count_convention)
-        self._create_bond_price_coeffs(maturity_date)
+        self._create_bond_price_coeffs(maturity_date, purchase_date)
         term1 = (-self.price_state_variable_coeffs['coefficient'] - accrual) / (2 * self.reversion_speed**2)
         term2 = self.price_state_variable_coeffs['coefficient']**2 / (4 * self.reversion_speed)
         return (self.volatility**2 / accrual) * (term1 + term2)
@@ -282,20 +290,25 @@ class VasicekModel(ShortRateModel, AffineModelMixin):
         bond_prices = np.array([self.zero_coupon_bond_price(maturity_date=maturity_date, purchase_date=purchase_date)
                                 for maturity_date in maturity_dates])
 
-        volatilities = np.array([self.yield_volatility(maturity_date=maturity_date)
+        volatilities = np.array([self.yield_volatility(maturity_date=maturity_date, purchase_date=purchase_date)
                         for maturity_date in maturity_dates])
 
         return -0.5 * accruals**2 * bond_prices * volatilities**2
 
 
-    def yield_volatility(self, maturity_date: date | datetime) -> float:
+    def yield_volatility(self,
+                         maturity_date: date | datetime,
+                         purchase_date: Optional[date | datetime] = None) -> float:
         """
         Returns the volatility for a zero-coupon bond's yield for time T-maturity bonds.
         """
-        accrual = DayCountCalculator.compute_accrual_length(self.start_date_time,
+        if purchase_date is None:
+            purchase_date = self.start_date_time
+
+        accrual = DayCountCalculator.compute_accrual_length(purchase_date,
                                                             maturity_date,
                                                             self.day_count_convention)
-        self._create_bond_price_coeffs(maturity_date)
+        self._create_bond_price_coeffs(maturity_date, purchase_date)
         return -(self.price_state_variable_coeffs['coefficient'] / accrual) * self.volatility
 
     def instantaneous_forward_rate(self,
-- 
2.43.0


From 7d096ed5c270ece5ec4de4bcd692255d197ba683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:48 +0000
Subject: [PATCH 14/61] fix: VasicekModel implements zero_coupon_bond_yield,
 imports Scheduler for plot and reads its starting state from the state
 variables

---
 .../affine_yield_curve_models/vasicek_model.py               | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
index 3c21fd1..d547c3c 100644
--- a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
@@ -21,6 +21,7 @@ from fixedIncome.src.stochastics.base_processes import DriftDiffusionPair
 from fixedIncome.src.stochastics.short_rate_models.affine_yield_curve_models.affine_model_mixin import AffineModelMixin
 from fixedIncome.src.scheduling_tools.schedule_enumerations import DayCountConvention
 from fixedIncome.src.scheduling_tools.day_count_calculator import DayCountCalculator
+from fixedIncome.src.scheduling_tools.scheduler import Scheduler
 
 
 class CalibrationParamterType(Enum):
@@ -130,7 +131,7 @@ class VasicekModel(ShortRateModel, AffineModelMixin):
     def set_state_variables_from_dict(self) -> None:
         """ Takes the shape parameter values stored in the param dict and sets the
          appropriate model parameters. """
-        new_params = self.parameter_calibration_dict[CalibrationParamterType.SHAPE]
+        new_params = self.parameter_calibration_dict[CalibrationParamterType.STATE_VARIABLES]
         self._calibrated_starting_short_rate = new_params[0]
 
 
@@ -252,6 +253,8 @@ class VasicekModel(ShortRateModel, AffineModelMixin):
 
         return yield_value
 
+    zero_coupon_bond_yield = zero_coupon_yield  # the name declared by the affine model mixin
+
     def yield_convexity(self,
                         maturity_date: date | datetime,
                         purchase_date: Optional[date | datetime] = None) -> float:
-- 
2.43.0


From e578ff74c2ad75c1d669c4c54e6c0dc83cc4c8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:48 +0000
Subject: [PATCH 15/61] fix: transpose the matrix exponential in the maturity
 derivative of the multivariate bond price coefficients

---
 .../affine_yield_curve_models/vasicek_model.py                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
index d547c3c..dd0e23b 100644
--- a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
@@ -934,7 +934,7 @@ class MultivariateVasicekModel(ShortRateModel, AffineModelMixin):
                         np.diag(exp_negative_eigen_times_accrual) @ \
                         self.reversion_matrix_eigenvectors_inv
 
-        return -exp_reversion @ self.short_rate_coefficients
+        return -exp_reversion.T @ self.short_rate_coefficients
 
     def _calculate_intercept_deriv_wrt_maturity(self, accrual: float) -> np.array:
         """
-- 
2.43.0


From 32e2ceecfdcec8e28caab1175aa28b9665ae23fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:48 +0000
Subject: [PATCH 16/61] fix: transform the state variable covariance back from
 the eigenvector basis

---
 .../affine_yield_curve_models/vasicek_model.py              | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
index dd0e23b..afb27c2 100644
--- a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
@@ -551,9 +551,9 @@ class MultivariateVasicekModel(ShortRateModel, AffineModelMixin):
         broadcast_mat = np.ones((self.dimension, self.dimension)) * self.reversion_matrix_eigenvalues
         sum_eigenvalues = broadcast_mat + broadcast_mat.T
         one_minus_exp_eigen_sum = 1 - np.exp(-sum_eigenvalues * accrual)
-        H_mat = self.reversion_matrix_eigenvectors_inv @ self.C_mat @ self.reversion_matrix_eigenvectors
-        covar = one_minus_exp_eigen_sum * H_mat / sum_eigenvalues
-        return covar
+        H_mat = self.reversion_matrix_eigenvectors_inv @ self.C_mat @ self.reversion_matrix_eigenvectors_inv.T
+        eigenvector_covar = one_minus_exp_eigen_sum * H_mat / sum_eigenvalues
+        return self.reversion_matrix_eigenvectors @ eigenvector_covar @ self.reversion_matrix_eigenvectors.T
 
 
     def short_rate_variance(self,
-- 
2.43.0


From 267f9ed741f1fcd6cce55396d93ad79e1bb280ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:48 +0000
Subject: [PATCH 17/61] fix: forward rate covariances accept any iterable of
 maturities

---
 .../affine_yield_curve_models/vasicek_model.py                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
index afb27c2..e0b2584 100644
--- a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
@@ -854,11 +854,11 @@ class MultivariateVasicekModel(ShortRateModel, AffineModelMixin):
         if purchase_date is None:
             purchase_date = self.start_date_time
 
+        maturity_dates = list(maturity_dates)
         if min(maturity_dates) <= purchase_date:
             raise ValueError(
                 f'Minimum maturity datetime {min(maturity_dates)} can not be less than or equal to the purchase datetime {purchase_date}.')
 
-        maturity_dates = list(maturity_dates)
         B_mat = np.empty((self.dimension, len(maturity_dates)))
         for index, maturity in enumerate(maturity_dates):
             self._create_bond_yield_coeffs(maturity_date=maturity, purchase_date=purchase_date)
-- 
2.43.0


From fe864d67fdaf2bd60f0e333cc616e4abdaf51d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:17 +0000
Subject: [PATCH 18/61] fix: a key rate without prior and next date is a
 constant bump

---
 fixedIncome/src/risk/key_rate.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fixedIncome/src/risk/key_rate.py b/fixedIncome/src/risk/key_rate.py
index 455d19c..8154090 100644
--- a/fixedIncome/src/risk/key_rate.py
+++ b/fixedIncome/src/risk/key_rate.py
@@ -175,6 +175,10 @@ class KeyRate(Callable):
 
         match (self.prior_date, self.key_rate_date, self.next_date):
 
+            case (None, middle, None):  # only key rate
+                def adjustment_fxcn(input_date: date) -> float:
+                    return self.bump_val
+
             case (None, middle, following):  # first key rate
 
                 def adjustment_fxcn(input_date: date) -> float:
@@ -245,10 +249,6 @@ class KeyRate(Callable):
 
                         return (time_to_next / total_time) * self.bump_val
 
-            case (None, middle, None):  # only key rate
-                def adjustment_fxcn(input_date: date) -> float:
-                    return self.bump_val
-
             case _:
                 raise ValueError(f'Case ({self.prior_date}, {self.key_rate_date}, {self.next_date})'
                                  f' not matched in call to self.create_bump_function method.')
-- 
2.43.0


From 6525e97b7859f1c6cec7064787d6d654550e5fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:17 +0000
Subject: [PATCH 19/61] fix: replacing the first, last or only key rate of a
 collection

---
 fixedIncome/src/risk/key_rate.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/fixedIncome/src/risk/key_rate.py b/fixedIncome/src/risk/key_rate.py
index 8154090..45c062e 100644
--- a/fixedIncome/src/risk/key_rate.py
+++ b/fixedIncome/src/risk/key_rate.py
@@ -302,12 +302,11 @@ class KeyRateCollection(MutableSequence[KeyRate], Callable):
         match self[key].prior_date, self[key].next_date:  # assumed to align with the
                                                                    # previous and next key_rate dates
 
-            case prior_date, next_date:  # one of the middle key rate indices
-                if prior_date < new_key_rate.key_rate_date < next_date:
+            case None, None:  # only key rate in collection
+                try:
                     self.key_rates[key] = new_key_rate
-                else:
-                    raise ValueError(f'New key_rate date {new_key_rate.key_rate_date} is not strictly within '
-                                     f'interval {prior_date} and {next_date}.')
+                except IndexError:
+                    raise IndexError(f'Failed to set new_key_rate at index {key}.')
 
             case None, next_date:  # first key rate index
                 if new_key_rate.key_rate_date < next_date:
@@ -326,11 +325,12 @@ class KeyRateCollection(MutableSequence[KeyRate], Callable):
                                      f'strictly greater than {prior_date} when new KeyRate object would be '
                                      f'last in the collection.')
 
-            case None, None:  # only key rate in collection
-                try:
+            case prior_date, next_date:  # one of the middle key rate indices
+                if prior_date < new_key_rate.key_rate_date < next_date:
                     self.key_rates[key] = new_key_rate
-                except IndexError:
-                    raise IndexError(f'Failed to set new_key_rate at index {key}.')
+                else:
+                    raise ValueError(f'New key_rate date {new_key_rate.key_rate_date} is not strictly within '
+                                     f'interval {prior_date} and {next_date}.')
 
             case _:
                 raise ValueError(f'New key rate object {new_key_rate} could not be set at index {key}.')
-- 
2.43.0


From 5bbacd27450f04648811038cd4fda9de3c441035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:17 +0000
Subject: [PATCH 20/61] fix: a key rate collection owns copies of its key rates

---
 fixedIncome/src/risk/key_rate.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/fixedIncome/src/risk/key_rate.py b/fixedIncome/src/risk/key_rate.py
index 45c062e..8955689 100644
--- a/fixedIncome/src/risk/key_rate.py
+++ b/fixedIncome/src/risk/key_rate.py
@@ -1,8 +1,9 @@
 from __future__ import annotations
 
 from collections.abc import MutableSequence
-import operator
 import bisect
+import copy
+import operator
 from datetime import date
 from typing import Optional, Callable, Union, Iterable
 from fixedIncome.src.scheduling_tools.day_count_calculator import DayCountConvention, DayCountCalculator
@@ -268,7 +269,8 @@ class KeyRateCollection(MutableSequence[KeyRate], Callable):
     def __init__(self, key_rates: Iterable[KeyRate]) -> None:
         """ Instantiates a KeyRateCollection object. """
         self.iter_index = 0
-        self.key_rates = sorted(list(key_rates))  # Sorts based on key_rate_date for each KeyRate object
+        # copies, as setting the neighbouring dates must not alter the key rates of the caller or of other collections
+        self.key_rates = sorted(copy.copy(key_rate) for key_rate in key_rates)  # Sorts based on key_rate_date for each KeyRate object
         self._set_dates_in_collection()
         self._create_combined_adjustment_function()
 
@@ -304,13 +306,13 @@ class KeyRateCollection(MutableSequence[KeyRate], Callable):
 
             case None, None:  # only key rate in collection
                 try:
-                    self.key_rates[key] = new_key_rate
+                    self.key_rates[key] = copy.copy(new_key_rate)
                 except IndexError:
                     raise IndexError(f'Failed to set new_key_rate at index {key}.')
 
             case None, next_date:  # first key rate index
                 if new_key_rate.key_rate_date < next_date:
-                    self.key_rates[key] = new_key_rate
+                    self.key_rates[key] = copy.copy(new_key_rate)
                 else:
                     raise ValueError(f'New key_rate date {new_key_rate.key_rate_date} is not '
                                      f'strictly less than {next_date} when new KeyRate object would be '
@@ -319,7 +321,7 @@ class KeyRateCollection(MutableSequence[KeyRate], Callable):
 
             case prior_date, None:  # last key rate index
                 if new_key_rate.key_rate_date > prior_date:
-                    self.key_rates[key] = new_key_rate
+                    self.key_rates[key] = copy.copy(new_key_rate)
                 else:
                     raise ValueError(f'New key_rate date {new_key_rate.key_rate_date} is not '
                                      f'strictly greater than {prior_date} when new KeyRate object would be '
@@ -327,7 +329,7 @@ class KeyRateCollection(MutableSequence[KeyRate], Callable):
 
             case prior_date, next_date:  # one of the middle key rate indices
                 if prior_date < new_key_rate.key_rate_date < next_date:
-                    self.key_rates[key] = new_key_rate
+                    self.key_rates[key] = copy.copy(new_key_rate)
                 else:
                     raise ValueError(f'New key_rate date {new_key_rate.key_rate_date} is not strictly within '
                                      f'interval {prior_date} and {next_date}.')
-- 
2.43.0


From f40ae71627aa537eaf6703a80d1881d1ab09b6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:17 +0000
Subject: [PATCH 21/61] fix: adding to a key rate collection in place, with +=
 , insert or append, and adding a single key rate

---
 fixedIncome/src/risk/key_rate.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/fixedIncome/src/risk/key_rate.py b/fixedIncome/src/risk/key_rate.py
index 8955689..f0fa64d 100644
--- a/fixedIncome/src/risk/key_rate.py
+++ b/fixedIncome/src/risk/key_rate.py
@@ -347,10 +347,12 @@ class KeyRateCollection(MutableSequence[KeyRate], Callable):
         del self.key_rates[key]
         self._create_combined_adjustment_function()
 
-    def insert(self, new_key_rate_object: KeyRate) -> None:  # required for subclassing MutableSequence ABC
-        """ Inerts a Key Rate into the collection. """
-
-        self + new_key_rate_object
+    def insert(self, index: int, new_key_rate_object: KeyRate) -> None:  # required for subclassing MutableSequence ABC
+        """
+        Inserts a Key Rate into the collection. The index required by MutableSequence is not used,
+        as the position of a key rate in the collection is determined by its key rate date.
+        """
+        self.__iadd__(new_key_rate_object)
 
     def __len__(self):
         """ Returns the number of KeyRate objects in the collection. """
@@ -391,7 +393,7 @@ class KeyRateCollection(MutableSequence[KeyRate], Callable):
         from the set union of all KeyRate objects ordered by key_Rate date.
         Returns a new KeyRateCollection or NotImplemented.
         """
-        if isinstance(other, KeyRateCollection):
+        if isinstance(other, (KeyRateCollection, KeyRate)):
             other_kr_dates = set(key_rate for key_rate in other)
             all_kr_dates = list(set(kr_date for kr_date in self) | other_kr_dates)
             return KeyRateCollection(all_kr_dates)
@@ -405,9 +407,9 @@ class KeyRateCollection(MutableSequence[KeyRate], Callable):
         by key_rate date. Returns a reference to self.
         """
         try:
-            other_kr_dates = set(key_rate for key_rate in other)
+            other_kr_dates = set(copy.copy(key_rate) for key_rate in other)
             all_kr_dates = list(set(kr_date for kr_date in self) | other_kr_dates)
-            self.key_rates = all_kr_dates
+            self.key_rates = sorted(all_kr_dates)
             self._create_combined_adjustment_function()
             return self
 
-- 
2.43.0


From 1081262e3eae2763b2dad77a1f36b6870932b5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:17 +0000
Subject: [PATCH 22/61] fix: membership test of a risk ladder

---
 fixedIncome/src/risk/risk_metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedIncome/src/risk/risk_metrics.py b/fixedIncome/src/risk/risk_metrics.py
index 76a6536..5ac0880 100644
--- a/fixedIncome/src/risk/risk_metrics.py
+++ b/fixedIncome/src/risk/risk_metrics.py
@@ -33,7 +33,7 @@ class RiskLadder(Collection[Risk]):
 
     def __contains__(self, risk: Risk) -> bool:
         """ Tests if the Risk ladder contains a specified risk unit."""
-        pass
+        return risk in self._risks
 
     def __iter__(self):
         return iter(self._risks)
-- 
2.43.0


From 19727cd0091435da3bff82c8be672c1ca177783c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:48 +0000
Subject: [PATCH 23/61] fix: key rate derivatives leave the bump of the
 provided key rate as it was

---
 fixedIncome/src/curves/yield_curves/yield_curve.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fixedIncome/src/curves/yield_curves/yield_curve.py b/fixedIncome/src/curves/yield_curves/yield_curve.py
index 64b850e..31da307 100644
--- a/fixedIncome/src/curves/yield_curves/yield_curve.py
+++ b/fixedIncome/src/curves/yield_curves/yield_curve.py
@@ -5,6 +5,7 @@ the YieldCurve object and the YieldCurveFactory object.
 from __future__ import annotations
 
 import bisect
+import copy
 import numpy as np  # type: ignore
 import matplotlib.pyplot as plt  # type: ignore
 import pandas as pd  # type: ignore
@@ -133,6 +134,7 @@ class YieldCurve(Curve):
         which is defined to be:
             (PV(plus key rate adjustment) - PV) / ONE BASIS POINT
         """
+        key_rate = copy.copy(key_rate)  # the caller's key rate keeps its bump value
         key_rate.create_adjustment_function()  # creates the default adjustment function with 1 bp movement
         key_rate.set_bump_val(-ONE_BASIS_POINT/2)
         pv_with_negative_adjustment = self.present_value(assets, key_rate)
@@ -141,7 +143,6 @@ class YieldCurve(Curve):
         key_rate.set_bump_val(ONE_BASIS_POINT / 2)
         pv_with_positive_adjustment = self.present_value(assets, key_rate)
 
-        key_rate.create_adjustment_function()  # reset key rate bump value
         key_rate_deriv = (pv_with_positive_adjustment - pv_with_negative_adjustment) / ONE_BASIS_POINT
         return key_rate_deriv
 
-- 
2.43.0


From 24e353260786dff1a0a411ff328c7ccd3ec6f0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:48 +0000
Subject: [PATCH 24/61] fix: each discount curve of a yield curve is its own
 object

---
 .../src/curves/yield_curves/yield_curve.py    | 37 ++++++++-----------
 1 file changed, 15 insertions(+), 22 deletions(-)

diff --git a/fixedIncome/src/curves/yield_curves/yield_curve.py b/fixedIncome/src/curves/yield_curves/yield_curve.py
index 31da307..44212ee 100644
--- a/fixedIncome/src/curves/yield_curves/yield_curve.py
+++ b/fixedIncome/src/curves/yield_curves/yield_curve.py
@@ -83,17 +83,14 @@ class YieldCurve(Curve):
                 interpolation_values = [KnotValuePair(knot=kv_pair.knot, value=self(kv_pair.knot, adjustment_fxcn))
                                         for kv_pair in self.interpolation_values]
 
-                if self.discount_curve is None:
-
-                    self.discount_curve = DiscountCurve(interpolation_values=interpolation_values,
-                                                        interpolation_method=self.interpolation_method,
-                                                        index=CurveIndex.US_TREASURY,
-                                                        interpolation_day_count_convention=self.interpolation_day_count_convention,
-                                                        reference_date=self.reference_date,
-                                                        left_end_behavior=EndBehavior.ERROR,
-                                                        right_end_behavior=EndBehavior.ERROR)
-                else:
-                    self.discount_curve.reset_interpolation_values(interpolation_values)
+                # a new object each time: curves handed out earlier keep their own values
+                self.discount_curve = DiscountCurve(interpolation_values=interpolation_values,
+                                                    interpolation_method=self.interpolation_method,
+                                                    index=CurveIndex.US_TREASURY,
+                                                    interpolation_day_count_convention=self.interpolation_day_count_convention,
+                                                    reference_date=self.reference_date,
+                                                    left_end_behavior=EndBehavior.ERROR,
+                                                    right_end_behavior=EndBehavior.ERROR)
 
                 return self.discount_curve
 
@@ -110,17 +107,13 @@ class YieldCurve(Curve):
                 interpolation_values = [KnotValuePair(knot=date_obj, value=df)
                                         for date_obj, df in zip(date_range, discount_factors)]
 
-                if self.discount_curve is None:
-                    self.discount_curve = DiscountCurve(interpolation_values=interpolation_values,
-                                                        interpolation_method=InterpolationMethod.LINEAR,  # because we fill the date range
-                                                        index=CurveIndex.US_TREASURY,
-                                                        interpolation_day_count_convention=self.interpolation_day_count_convention,
-                                                        reference_date=self.reference_date,
-                                                        left_end_behavior=EndBehavior.ERROR,
-                                                        right_end_behavior=EndBehavior.ERROR)
-
-                else:
-                    self.discount_curve.reset_interpolation_values(interpolation_values)
+                self.discount_curve = DiscountCurve(interpolation_values=interpolation_values,
+                                                    interpolation_method=InterpolationMethod.LINEAR,  # because we fill the date range
+                                                    index=CurveIndex.US_TREASURY,
+                                                    interpolation_day_count_convention=self.interpolation_day_count_convention,
+                                                    reference_date=self.reference_date,
+                                                    left_end_behavior=EndBehavior.ERROR,
+                                                    right_end_behavior=EndBehavior.ERROR)
 
                 return self.discount_curve
 
-- 
2.43.0


From 49a045917b4ea8a198540f42a496385b03e3b4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:48 +0000
Subject: [PATCH 25/61] fix: construct_yield_curve accepts any iterable of
 instruments

---
 fixedIncome/src/curves/yield_curves/yield_curve.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fixedIncome/src/curves/yield_curves/yield_curve.py b/fixedIncome/src/curves/yield_curves/yield_curve.py
index 44212ee..442aed9 100644
--- a/fixedIncome/src/curves/yield_curves/yield_curve.py
+++ b/fixedIncome/src/curves/yield_curves/yield_curve.py
@@ -266,6 +266,7 @@ class YieldCurveFactory(object):
                               interpolation_method: InterpolationMethod,
                               reference_date: date) -> YieldCurve:
 
+        instruments = list(instruments)
         knot_dates = [bond_obj.maturity_date for bond_obj in instruments]
         values = [0.0 for date_obj in knot_dates]
         market_prices = np.array([bond_obj.price for bond_obj in instruments])
-- 
2.43.0


From 8fe269753eb825295105ec3bef7b0eff5749a07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:48 +0000
Subject: [PATCH 26/61] fix: bootstrap the instruments in knot order and keep
 the solved knot values

---
 fixedIncome/src/curves/yield_curves/yield_curve.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/fixedIncome/src/curves/yield_curves/yield_curve.py b/fixedIncome/src/curves/yield_curves/yield_curve.py
index 442aed9..a4f2503 100644
--- a/fixedIncome/src/curves/yield_curves/yield_curve.py
+++ b/fixedIncome/src/curves/yield_curves/yield_curve.py
@@ -308,7 +308,8 @@ class YieldCurveFactory(object):
         """
         Constructs a yield curve by bootstrapping the PV values to match their market prices.
         """
-        instruments = list(instruments)
+        # the instruments are solved in the order of the knots which they calibrate
+        instruments = sorted(instruments, key=lambda bond_obj: bond_obj.to_knot_value_pair().knot)
 
         market_prices = [bond_obj.price for bond_obj in instruments]
 
@@ -343,10 +344,8 @@ class YieldCurveFactory(object):
                                                        tol=1e-10)
 
             solution_knot = KnotValuePair(knot=instrument.to_knot_value_pair().knot,
-                                          value=float(convergence_solution['x']))
-
-            if index == 4:  # TODO: What is this??
-                yield_curve_obj.present_value(instrument)
+                                          value=float(convergence_solution['x'][0]))
+            yield_curve_obj.reset_interpolation_value(new_value=solution_knot, index=index)
 
         return yield_curve_obj
 
-- 
2.43.0


From aeeb32ee8e1f1ee359406fefaff98333b4e3f724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:37 +0000
Subject: [PATCH 27/61] fix: payments are received from the bond's own
 settlement date on

---
 fixedIncome/src/assets/credit/corporate_bond.py           | 8 +++++++-
 .../us_treasury_instruments/us_treasury_instruments.py    | 4 +++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/fixedIncome/src/assets/credit/corporate_bond.py b/fixedIncome/src/assets/credit/corporate_bond.py
index 9f4fdb3..4b42edc 100644
--- a/fixedIncome/src/assets/credit/corporate_bond.py
+++ b/fixedIncome/src/assets/credit/corporate_bond.py
@@ -101,6 +101,10 @@ class FixedRateBond(CashflowCollection):
     def holiday_calendar(self) -> dict:
         return self._holiday_calendar
 
+    @property
+    def settlement_convention(self) -> SettlementConvention:
+        return self._settlement_convention
+
     @property
     def day_count_convention(self) -> DayCountConvention:
         return self._day_count_convention
@@ -155,7 +159,9 @@ class FixedRateBond(CashflowCollection):
         if reference_date is None:
             settlement_date = self.settlement_date
         else:
-            settlement_date = Scheduler.add_business_days(reference_date, 1, self.holiday_calendar)
+            settlement_date = Scheduler.calculate_settlement_date(purchase_date=reference_date,
+                                                                  settlement_convention=self.settlement_convention,
+                                                                  holiday_calendar=self.holiday_calendar)
         return payment.unadjusted_payment_date >= settlement_date
 
 
diff --git a/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py b/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
index dc97ab1..76de1df 100644
--- a/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
+++ b/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
@@ -242,7 +242,9 @@ class UsTreasuryBond(CashflowCollection):
         if reference_date is None:
             settlement_date = self.settlement_date
         else:
-            settlement_date = Scheduler.add_business_days(reference_date, 1, self.holiday_calendar)
+            settlement_date = Scheduler.calculate_settlement_date(purchase_date=reference_date,
+                                                                  settlement_convention=self.settlement_convention,
+                                                                  holiday_calendar=self.holiday_calendar)
         return payment.unadjusted_payment_date >= settlement_date
 
     def create_principal_repayment_cashflow(self) -> Cashflow:
-- 
2.43.0


From 80ce169c45febdf361f832d339b73c8342772056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:37 +0000
Subject: [PATCH 28/61] fix: accrue interest over the coupon period which
 contains the settlement date, of the reference date if one is given

---
 fixedIncome/src/assets/credit/corporate_bond.py          | 9 +++++----
 .../us_treasury_instruments/us_treasury_instruments.py   | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/fixedIncome/src/assets/credit/corporate_bond.py b/fixedIncome/src/assets/credit/corporate_bond.py
index 4b42edc..96116f4 100644
--- a/fixedIncome/src/assets/credit/corporate_bond.py
+++ b/fixedIncome/src/assets/credit/corporate_bond.py
@@ -279,8 +279,8 @@ class FixedRateBond(CashflowCollection):
         settlement_date = self.settlement_date if reference_date is None else Scheduler.calculate_settlement_date(purchase_date=reference_date,
                                                                                                                   settlement_convention=self.settlement_convention,
                                                                                                                   holiday_calendar=self.holiday_calendar)
-        if self.settlement_date < self.dated_date:
-            raise ValueError(f'Settlement date {self.settlement_date} is before the dated date {self.dated_date}'
+        if settlement_date < self.dated_date:
+            raise ValueError(f'Settlement date {settlement_date} is before the dated date {self.dated_date}'
                              f' for us_treasury_instruments\n{self}.')
 
         # Find last payment accrual date.
@@ -290,13 +290,14 @@ class FixedRateBond(CashflowCollection):
             following_date = self[CashflowKeys.COUPON_PAYMENTS][0].unadjusted_payment_date
 
         else:
-            date_index = bisect.bisect_right([payment.payment_date for payment in self[CashflowKeys.COUPON_PAYMENTS]], self.purchase_date)
+            # the coupon period which contains the settlement date, by the (unadjusted) dates between which interest accrues
+            date_index = bisect.bisect_left([payment.unadjusted_payment_date for payment in self[CashflowKeys.COUPON_PAYMENTS]], settlement_date)
             previous_date = self[CashflowKeys.COUPON_PAYMENTS][date_index-1].unadjusted_payment_date
             following_date = self[CashflowKeys.COUPON_PAYMENTS][date_index].unadjusted_payment_date
             reference_date = previous_date
 
         accrual_period = DayCountCalculator.compute_accrual_length(
-            reference_date, self.settlement_date, dcc=self.day_count_convention
+            reference_date, settlement_date, dcc=self.day_count_convention
         )
 
         accrual_fraction = accrual_period / DayCountCalculator.compute_accrual_length(
diff --git a/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py b/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
index 76de1df..17876e8 100644
--- a/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
+++ b/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
@@ -134,8 +134,8 @@ class UsTreasuryBond(CashflowCollection):
         settlement_date = self.settlement_date if reference_date is None else Scheduler.calculate_settlement_date(purchase_date=reference_date,
                                                                                                                   settlement_convention=self.settlement_convention,
                                                                                                                   holiday_calendar=self.holiday_calendar)
-        if self.settlement_date < self.dated_date:
-            raise ValueError(f'Settlement date {self.settlement_date} is before the dated date {self.dated_date}'
+        if settlement_date < self.dated_date:
+            raise ValueError(f'Settlement date {settlement_date} is before the dated date {self.dated_date}'
                              f' for us_treasury_instruments\n{self}.')
 
         # Find last payment accrual date.
@@ -145,13 +145,14 @@ class UsTreasuryBond(CashflowCollection):
             following_date = self[CashflowKeys.COUPON_PAYMENTS][0].unadjusted_payment_date
 
         else:
-            date_index = bisect.bisect_right([payment.payment_date for payment in self[CashflowKeys.COUPON_PAYMENTS]], self.purchase_date)
+            # the coupon period which contains the settlement date, by the (unadjusted) dates between which interest accrues
+            date_index = bisect.bisect_left([payment.unadjusted_payment_date for payment in self[CashflowKeys.COUPON_PAYMENTS]], settlement_date)
             previous_date = self[CashflowKeys.COUPON_PAYMENTS][date_index-1].unadjusted_payment_date
             following_date = self[CashflowKeys.COUPON_PAYMENTS][date_index].unadjusted_payment_date
             reference_date = previous_date
 
         accrual_period = DayCountCalculator.compute_accrual_length(
-            reference_date, self.settlement_date, dcc=self.day_count_convention
+            reference_date, settlement_date, dcc=self.day_count_convention
         )
 
         accrual_fraction = accrual_period / DayCountCalculator.compute_accrual_length(
-- 
2.43.0


From 90fde0c8b2c56e59209899954fedec1fdd28d200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:37 +0000
Subject: [PATCH 29/61] fix: the full price on a reference date includes the
 interest accrued by then

---
 fixedIncome/src/assets/credit/corporate_bond.py | 15 ++++++++-------
 .../us_treasury_instruments.py                  | 17 +++++++++--------
 2 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/fixedIncome/src/assets/credit/corporate_bond.py b/fixedIncome/src/assets/credit/corporate_bond.py
index 96116f4..aa37072 100644
--- a/fixedIncome/src/assets/credit/corporate_bond.py
+++ b/fixedIncome/src/assets/credit/corporate_bond.py
@@ -312,17 +312,18 @@ class FixedRateBond(CashflowCollection):
         price.) Which is equal to the clean market price plus the amount
         of accrued interest.
         """
-        reference_date = reference_date if reference_date is not None else self.purchase_date
-
-        if self.accrued_interest is None:
-            self.accrued_interest = self.calculate_accrued_interest(reference_date)
+        accrued_interest = self.calculate_accrued_interest(reference_date)
 
         # normalize the amount of accrued interest by the principal amount
         # Put into 100 principal convention.
-        normalized_accrued_interest = (self.accrued_interest / self.principal) * 100.0
-        self.full_price = self.price + normalized_accrued_interest
+        normalized_accrued_interest = (accrued_interest / self.principal) * 100.0
+        full_price = self.price + normalized_accrued_interest
+
+        if reference_date is None or reference_date == self.purchase_date:  # the bond's own full price
+            self.accrued_interest = accrued_interest
+            self.full_price = full_price
 
-        return self.full_price
+        return full_price
 
     def discount_cashflows_by_fixed_rate(self, fixed_rate: float | np.ndarray, reference_date: Optional[date] = None) -> float:
         """
diff --git a/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py b/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
index 17876e8..3739cc6 100644
--- a/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
+++ b/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
@@ -185,17 +185,18 @@ class UsTreasuryBond(CashflowCollection):
         price.) Which is equal to the clean market price plus the amount
         of accrued interest.
         """
-        reference_date = reference_date if reference_date is not None else self.purchase_date
-
-        if self.accrued_interest is None:
-            self.accrued_interest = self.calculate_accrued_interest(reference_date)
+        accrued_interest = self.calculate_accrued_interest(reference_date)
 
         # normalize the amount of accrued interest by the principal amount
         # Put into 100 principal convention.
-        normalized_accrued_interest = (self.accrued_interest / self.principal) * 100.0
-        self.full_price = self.price + normalized_accrued_interest
+        normalized_accrued_interest = (accrued_interest / self.principal) * 100.0
+        full_price = self.price + normalized_accrued_interest
+
+        if reference_date is None or reference_date == self.purchase_date:  # the bond's own full price
+            self.accrued_interest = accrued_interest
+            self.full_price = full_price
 
-        return self.full_price
+        return full_price
 
     def calculate_dated_date(self) -> date:
         """
@@ -344,7 +345,7 @@ class UsTreasuryBond(CashflowCollection):
 
         full_price = self.get_full_price(reference_date)
 
-        target_price = self.full_price * self.principal/100
+        target_price = full_price * self.principal/100
         def diff_from_full_price(fixed_rate) -> np.array:
             return np.array([target_price - self.discount_cashflows_by_fixed_rate(fixed_rate, reference_date)])
 
-- 
2.43.0


From 2b0a2109a5b7a64a89ce8bc983ec320d513d6f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:37 +0000
Subject: [PATCH 30/61] fix: bond convexity computes, and durations and
 convexities are relative to the price of the whole principal

---
 fixedIncome/src/assets/credit/corporate_bond.py           | 8 ++++----
 .../us_treasury_instruments/us_treasury_instruments.py    | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/fixedIncome/src/assets/credit/corporate_bond.py b/fixedIncome/src/assets/credit/corporate_bond.py
index aa37072..1c9b456 100644
--- a/fixedIncome/src/assets/credit/corporate_bond.py
+++ b/fixedIncome/src/assets/credit/corporate_bond.py
@@ -430,7 +430,7 @@ class FixedRateBond(CashflowCollection):
         defined to be:
         Duration = -1/P * dP/d ytm
         """
-        return -self.pv_deriv() / self.full_price  #TODO: determine if I need to use full price of clean price here
+        return -self.pv_deriv() / (self.full_price * self.principal / 100)  #TODO: determine if I need to use full price of clean price here
 
 
     def convexity(self) -> float:
@@ -439,10 +439,10 @@ class FixedRateBond(CashflowCollection):
         Reference: Tuckman and Serrat, 4th ed. equation (4.14).
         """
         ytm = self.yield_to_maturity()
-        derivative_positive_bump = self.calculate_pv_deriv(offset=ONE_BASIS_POINT/2, ytm=ytm)
-        derivative_negative_bump = self.calculate_pv_deriv(offset=-ONE_BASIS_POINT/2, ytm=ytm)
+        derivative_positive_bump = self.pv_deriv(offset=ONE_BASIS_POINT/2, ytm=ytm)
+        derivative_negative_bump = self.pv_deriv(offset=-ONE_BASIS_POINT/2, ytm=ytm)
         second_derivative = (derivative_positive_bump - derivative_negative_bump) / ONE_BASIS_POINT
-        return second_derivative / self.full_price  # TODO: Check if full price or clean price is needed
+        return second_derivative / (self.full_price * self.principal / 100)  # TODO: Check if full price or clean price is needed
 
 
 
diff --git a/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py b/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
index 3739cc6..9783b9f 100644
--- a/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
+++ b/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
@@ -374,7 +374,7 @@ class UsTreasuryBond(CashflowCollection):
         defined to be:
         Duration = -1/P * dP/d ytm
         """
-        return -self.pv_deriv() / self.full_price  #TODO: determine if I need to use full price of clean price here
+        return -self.pv_deriv() / (self.full_price * self.principal / 100)  #TODO: determine if I need to use full price of clean price here
 
     def convexity(self) -> float:
         """
@@ -382,10 +382,10 @@ class UsTreasuryBond(CashflowCollection):
         Reference: Tuckman and Serrat, 4th ed. equation (4.14).
         """
         ytm = self.yield_to_maturity()
-        derivative_positive_bump = self.calculate_pv_deriv(offset=ONE_BASIS_POINT/2, ytm=ytm)
-        derivative_negative_bump = self.calculate_pv_deriv(offset=-ONE_BASIS_POINT/2, ytm=ytm)
+        derivative_positive_bump = self.pv_deriv(offset=ONE_BASIS_POINT/2, ytm=ytm)
+        derivative_negative_bump = self.pv_deriv(offset=-ONE_BASIS_POINT/2, ytm=ytm)
         second_derivative = (derivative_positive_bump - derivative_negative_bump) / ONE_BASIS_POINT
-        return second_derivative / self.full_price  # TODO: Check if full price or clean price is needed
+        return second_derivative / (self.full_price * self.principal / 100)  # TODO: Check if full price or clean price is needed
 
 
 class UsTreasuryFuture(CashflowCollection):
-- 
2.43.0


From e7a2a6fe01462070a1b2e796ca387a446f1b4815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:37 +0000
Subject: [PATCH 31/61] fix: the Macaulay duration on a reference date uses the
 payments and the full price of that date

---
 fixedIncome/src/assets/credit/corporate_bond.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fixedIncome/src/assets/credit/corporate_bond.py b/fixedIncome/src/assets/credit/corporate_bond.py
index 1c9b456..66e0a4d 100644
--- a/fixedIncome/src/assets/credit/corporate_bond.py
+++ b/fixedIncome/src/assets/credit/corporate_bond.py
@@ -404,7 +404,7 @@ class FixedRateBond(CashflowCollection):
         pv_times_accrual = 0.0
         # Accumulate discounted coupon cashflows
         for payment in self[CashflowKeys.COUPON_PAYMENTS]:  # Zero-coupon bonds should have empty iterable here
-            if self.is_payment_received(payment):
+            if self.is_payment_received(payment, reference_date=reference_date):
                 accrual = DayCountCalculator.compute_accrual_length(reference_date, payment.payment_date, self.day_count_convention)
                 accrual_times_num_payments = accrual * self.num_payments_per_year
                 accrual_df = 1 / (1 + fixed_rate / self.num_payments_per_year) ** accrual_times_num_payments
@@ -412,14 +412,14 @@ class FixedRateBond(CashflowCollection):
 
         # add discounted principal re-payment
         for payment in self[CashflowKeys.SINGLE_PAYMENT]:
-            if self.is_payment_received(payment):
+            if self.is_payment_received(payment, reference_date=reference_date):
                 accrual = DayCountCalculator.compute_accrual_length(reference_date, payment.payment_date,
                                                                     self.day_count_convention)
                 accrual_times_num_payments = accrual * self.num_payments_per_year
                 accrual_df = 1 / (1 + fixed_rate / self.num_payments_per_year) ** accrual_times_num_payments
                 pv_times_accrual += accrual_df * payment.payment * accrual
 
-        scaled_full_price = self.full_price * self.principal / 100
+        scaled_full_price = self.get_full_price(reference_date) * self.principal / 100
 
         return pv_times_accrual/scaled_full_price
 
-- 
2.43.0


From b72e4f81871cc771add34be554a38b35a4e670fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:37 +0000
Subject: [PATCH 32/61] fix: a treasury future marks to market on the business
 days of its own calendar

---
 .../assets/us_treasury_instruments/us_treasury_instruments.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py b/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
index 9783b9f..18e69e9 100644
--- a/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
+++ b/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
@@ -413,7 +413,7 @@ class UsTreasuryFuture(CashflowCollection):
 
         business_days = Scheduler.generate_business_days(start_date=self.settlement_date,
                                                          end_date=self.maturity_date,
-                                                         holiday_calendar=US_FEDERAL_HOLIDAYS)
+                                                         holiday_calendar=self.holiday_calendar)
 
         mark_to_market_cashflow = Cashflow([Payment(payment_date=business_day, payment=None)
                                             for business_day in business_days])
-- 
2.43.0


From 2726e61f670469be8d126349ca78c13418d55a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:55 +0000
Subject: [PATCH 33/61] fix: loans paid at the end of the month pay on the last
 day of each month

---
 fixedIncome/src/assets/credit/loan.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/fixedIncome/src/assets/credit/loan.py b/fixedIncome/src/assets/credit/loan.py
index 6134b65..f44eb9f 100644
--- a/fixedIncome/src/assets/credit/loan.py
+++ b/fixedIncome/src/assets/credit/loan.py
@@ -1,5 +1,4 @@
 from datetime import date, datetime, timedelta
-import calendar
 from dateutil.relativedelta import relativedelta
 from typing import Optional, Iterable
 import itertools
@@ -78,10 +77,11 @@ class Loan(CashflowCollection):
         match self._payment_time:
 
             case PaymentTime.END_OF_MONTH:
-                _, last_day = calendar.monthrange(start_date.year, 11)
-                start_date = date(start_date.year, start_date.month, last_day)
+                end_of_month = relativedelta(day=31)  # the last day of the month of any date
+                start_date = start_date + end_of_month
 
             case PaymentTime.START_OF_MONTH:
+                end_of_month = relativedelta()
                 if start_date.month == 12:
                     start_date = date(start_date.year + 1, 1, 1)
                 else:
@@ -89,7 +89,7 @@ class Loan(CashflowCollection):
             case _:
                 raise ValueError(f'{self._payment_time} is not a valid payment time for a loan.')
 
-        end_date = start_date + self._term_length
+        end_date = start_date + self._term_length + end_of_month
 
         match self._payment_frequency:
             case PaymentFrequency.MONTHLY:
@@ -106,7 +106,7 @@ class Loan(CashflowCollection):
         payment_date = start_date
         while payment_date <= end_date:
             payment_dates.append(payment_date)
-            payment_date += payment_increment
+            payment_date = start_date + len(payment_dates) * payment_increment + end_of_month
 
         # unpack extra payments
         if extra_payments is not None:
-- 
2.43.0


From 4fd6ba6956731cd6d5388997911eed106d616131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:55 +0000
Subject: [PATCH 34/61] fix: the fixed payment of a loan without interest

---
 fixedIncome/src/assets/credit/loan.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fixedIncome/src/assets/credit/loan.py b/fixedIncome/src/assets/credit/loan.py
index f44eb9f..2f690b6 100644
--- a/fixedIncome/src/assets/credit/loan.py
+++ b/fixedIncome/src/assets/credit/loan.py
@@ -58,6 +58,9 @@ class Loan(CashflowCollection):
             self._origination_date, self._end_date, dcc=self._day_count_convention
         )
 
+        if self._interest_rate == 0:  # the limit of the formula below: equal repayments of the principal
+            return self.principal / (length_in_years * self._payment_frequency.value)
+
         compound_factor = (1+self._interest_rate/self._payment_frequency.value)**(length_in_years * self._payment_frequency.value)
         numerator = self.principal * compound_factor
         denominator = (1 - compound_factor)/(-self._interest_rate / self._payment_frequency.value)
-- 
2.43.0


From e826758fc871577af03d7cf1756c98d5b86b4499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:55 +0000
Subject: [PATCH 35/61] fix: the present value of a loan discounts the payments
 of its schedule

---
 fixedIncome/src/assets/credit/loan.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixedIncome/src/assets/credit/loan.py b/fixedIncome/src/assets/credit/loan.py
index 2f690b6..a7cd03a 100644
--- a/fixedIncome/src/assets/credit/loan.py
+++ b/fixedIncome/src/assets/credit/loan.py
@@ -191,8 +191,8 @@ class Loan(CashflowCollection):
 
     def present_value(self, discount_curve: DiscountCurve) -> float:
         ''' Calculates the present value of the loan payments.'''
-        payments = self.generate_payment_schedule()
-        return sum(discount_curve.present_value(payment) for payment in payments)
+        payments = self.generate_payment_schedule(payment_amount=self.calculate_fixed_payment_amount())
+        return Cashflow(payments).present_value(discount_curve)
 
     def to_knot_value_pair(self):
         pass
-- 
2.43.0


From 086f17df615805f553f0053a01496a6bcd566a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:43 +0000
Subject: [PATCH 36/61] fix: portfolio optimizations are carried out on an
 objective of order one, whatever the scale of the returns

---
 .../src/portfolio/portfolio_optimization.py   | 23 ++++++++++++++-----
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/fixedIncome/src/portfolio/portfolio_optimization.py b/fixedIncome/src/portfolio/portfolio_optimization.py
index a83a0f0..1da8f9e 100644
--- a/fixedIncome/src/portfolio/portfolio_optimization.py
+++ b/fixedIncome/src/portfolio/portfolio_optimization.py
@@ -51,17 +51,22 @@ class PortfolioOptimizer:
         else:
             bounds = [(float('-inf'), float('inf')) for _ in range(self.num_assets)]
 
+        # variances of returns are small: the optimizer stops on absolute changes, so its objective is of order one
+        scale = np.max(np.abs(self.covariance_matrix))
+        scaled_covariance_matrix = self.covariance_matrix / scale if scale > 0 else self.covariance_matrix
+
         def objective_func(weights: np.array) -> float:
-            return  weights.dot(self.covariance_matrix.dot(weights))
+            return  weights.dot(scaled_covariance_matrix.dot(weights))
 
         def gradient(weights: np.array) -> np.array:
-            return 2 * self.covariance_matrix.dot(weights)
+            return 2 * scaled_covariance_matrix.dot(weights)
 
         starting_weights = np.array([1/self.num_assets for _ in range(self.num_assets)])
         results = minimize(fun=objective_func, x0=starting_weights, jac=gradient,
                             bounds=bounds,
                            constraints=constraints,
-                           method='SLSQP')
+                           method='SLSQP',
+                           options={'ftol': 1e-12, 'maxiter': 1_000})
         return results['x']
 
 
@@ -119,16 +124,21 @@ class PortfolioOptimizer:
         equality_contraints['fun'] = equality_constraint_func
         constraints = [equality_contraints]
 
+        # the optimizer stops on absolute changes, so its objective is of order one
+        scale = max(np.max(np.abs(self.mean_vector)),
+                    np.max(np.abs(self.covariance_matrix)) * abs(param * initial_wealth / 2))
+        scale = scale if scale > 0 else 1.0
+
         # use negative of maximization object and minimize
         def objective_func(weights: np.array):
             mean_return = weights.dot(self.mean_vector)
             return_variance = weights.dot(self.covariance_matrix.dot(weights))
             scalar_factor = param * initial_wealth / 2
-            return -mean_return + return_variance * scalar_factor
+            return (-mean_return + return_variance * scalar_factor) / scale
 
         def gradient(weights: np.array) -> np.array:
             scalar_factor = param * initial_wealth / 2
-            return -self.mean_vector + 2 * scalar_factor * self.covariance_matrix.dot(weights)
+            return (-self.mean_vector + 2 * scalar_factor * self.covariance_matrix.dot(weights)) / scale
 
         if allow_short_positions:
             bounds = [(float('-inf'), float('inf')) for _ in range(self.num_assets)]
@@ -137,7 +147,8 @@ class PortfolioOptimizer:
 
         starting_weights = np.array([1/self.num_assets for _ in range(self.num_assets)])
         results = minimize(fun=objective_func, x0=starting_weights, jac=gradient,
-                           constraints=constraints, bounds=bounds, method='SLSQP')
+                           constraints=constraints, bounds=bounds, method='SLSQP',
+                           options={'ftol': 1e-12, 'maxiter': 1_000})
 
         return results['x']
 
-- 
2.43.0


From 5329679de58f1d9637c82af485a647e9f3b59bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:30 +0000
Subject: [PATCH 37/61] fix: swap legs accrue from the start accrual date, also
 with a short first period or month-end dates

---
 .../src/assets/rates/linear_rates/interest_rate_swap.py       | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fixedIncome/src/assets/rates/linear_rates/interest_rate_swap.py b/fixedIncome/src/assets/rates/linear_rates/interest_rate_swap.py
index 155e0d5..0df7640 100644
--- a/fixedIncome/src/assets/rates/linear_rates/interest_rate_swap.py
+++ b/fixedIncome/src/assets/rates/linear_rates/interest_rate_swap.py
@@ -251,6 +251,8 @@ class FixedToFloatInterestRateSwap(CashflowCollection):
         unadjusted_accrual_dates = Scheduler.generate_dates_by_increments(start_date=self.end_accrual_date,
                                                                           end_date=self.start_accrual_date,
                                                                           increment=increment)
+        if unadjusted_accrual_dates[-1] > self.start_accrual_date:  # the first period begins at the start accrual date
+            unadjusted_accrual_dates.append(self.start_accrual_date)
         unadjusted_accrual_dates.reverse()
         adjusted_accrual_dates = [self.date_adjustment_function(accrual_date) for accrual_date in unadjusted_accrual_dates]
         swap_accruals = []
@@ -290,6 +292,8 @@ class FixedToFloatInterestRateSwap(CashflowCollection):
         unadjusted_accrual_dates = Scheduler.generate_dates_by_increments(start_date=self.end_accrual_date,
                                                                           end_date=self.start_accrual_date,
                                                                           increment=increment)
+        if unadjusted_accrual_dates[-1] > self.start_accrual_date:  # the first period begins at the start accrual date
+            unadjusted_accrual_dates.append(self.start_accrual_date)
         unadjusted_accrual_dates.reverse()
         adjusted_accrual_dates = [self.date_adjustment_function(accrual_date) for accrual_date in unadjusted_accrual_dates]
         fixed_leg_accruals = []
-- 
2.43.0


From 90aa88fa567196f9ec60c137a9a572f0a6841c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:30 +0000
Subject: [PATCH 38/61] fix: the implied rate of a swap leaves out fixed
 payments before the curve, as its present value does

---
 .../src/assets/rates/linear_rates/interest_rate_swap.py        | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fixedIncome/src/assets/rates/linear_rates/interest_rate_swap.py b/fixedIncome/src/assets/rates/linear_rates/interest_rate_swap.py
index 0df7640..9b0c2d1 100644
--- a/fixedIncome/src/assets/rates/linear_rates/interest_rate_swap.py
+++ b/fixedIncome/src/assets/rates/linear_rates/interest_rate_swap.py
@@ -364,7 +364,8 @@ class FixedToFloatInterestRateSwap(CashflowCollection):
                                                                self.payment_delay,
                                                                self.holiday_calendar)
 
-            discounted_fixed_accruals += discount_curve(payment_date) * accrual_times_notional
+            if payment_date >= discount_curve.reference_date:  # as in the present value of the legs
+                discounted_fixed_accruals += discount_curve(payment_date) * accrual_times_notional
 
         return float_pv / discounted_fixed_accruals
 
-- 
2.43.0


From a687243358ebff93fbe5ce18dee4b576e1e42528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:07 +0000
Subject: [PATCH 39/61] fix: the curve from yields to maturity interpolates the
 yields to maturity rather than the prices

---
 fixedIncome/src/curves/yield_curves/yield_curve.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/fixedIncome/src/curves/yield_curves/yield_curve.py b/fixedIncome/src/curves/yield_curves/yield_curve.py
index a4f2503..40a0200 100644
--- a/fixedIncome/src/curves/yield_curves/yield_curve.py
+++ b/fixedIncome/src/curves/yield_curves/yield_curve.py
@@ -249,6 +249,8 @@ class YieldCurveFactory(object):
         Returns a YieldCurve object calibrated to interpolate between
         """
 
+        instruments = list(instruments)
+
         yield_curve = YieldCurve(
             instruments=instruments,
             quote_adjustments=None,
@@ -260,6 +262,11 @@ class YieldCurveFactory(object):
             right_end_behavior=EndBehavior.CONSTANT
         )
 
+        # the knot-value pairs of the instruments hold their prices
+        yield_curve.reset_interpolation_values([KnotValuePair(knot=instrument.to_knot_value_pair().knot,
+                                                              value=instrument.yield_to_maturity(reference_date))
+                                                for instrument in instruments])
+
         return yield_curve
 
     def construct_yield_curve(self, instruments: Iterable[UsTreasuryInstrument],
-- 
2.43.0


From 8fa57739ea2778ee868652aedd9ada3d5688f38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:05 +0000
Subject: [PATCH 40/61] fix: Vasicek prices and paths follow the parameters set
 after construction

---
 .../affine_yield_curve_models/vasicek_model.py    | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
index e0b2584..3f01f8a 100644
--- a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
@@ -92,8 +92,6 @@ class VasicekModel(ShortRateModel, AffineModelMixin):
         super().__init__(short_rate_transformation=lambda short_rate: float(np.squeeze(short_rate)),
                          state_variables_diffusion_process=diffusion_process)
 
-        self.convexity_limit = -self.volatility**2 / (2 * self.reversion_speed**2)
-
         self.parameter_calibration_dict = {
             CalibrationParamterType.VOLATILITY: [self._volatility, self._reversion_speed],
             CalibrationParamterType.SHAPE: [self._long_term_mean],
@@ -111,6 +109,10 @@ class VasicekModel(ShortRateModel, AffineModelMixin):
     def volatility(self) -> float:
         return self._volatility
 
+    @property
+    def convexity_limit(self) -> float:
+        return -self.volatility**2 / (2 * self.reversion_speed**2)
+
     @property
     def calibrated_starting_short_rate(self) -> float:
         return self._calibrated_starting_short_rate
@@ -121,12 +123,21 @@ class VasicekModel(ShortRateModel, AffineModelMixin):
         new_params = self.parameter_calibration_dict[CalibrationParamterType.VOLATILITY]
         self._volatility = new_params[0]
         self._reversion_speed = new_params[1]
+        self._set_drift_diffusion_pair()
 
     def set_shape_parameters_from_dict(self) -> None:
         """ Takes the shape parameter values stored in the param dict and sets the
          appropriate model parameters. """
         new_params = self.parameter_calibration_dict[CalibrationParamterType.SHAPE]
         self._long_term_mean = new_params[0]
+        self._set_drift_diffusion_pair()
+
+    def _set_drift_diffusion_pair(self) -> None:
+        """ Lets the paths generated from now on follow the current parameters. """
+        self.drift_diffusion_pair = vasicek_drift_diffusion(reversion_level=self.long_term_mean,
+                                                            reversion_scale=self.reversion_speed,
+                                                            volatility=self.volatility)
+        self.drift_diffusion_collection['short rate'] = self.drift_diffusion_pair
 
     def set_state_variables_from_dict(self) -> None:
         """ Takes the shape parameter values stored in the param dict and sets the
-- 
2.43.0


From 4ca52543627a862f9572b84bd07e182a2620a7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:34 +0000
Subject: [PATCH 41/61] fix: integrate the short rate over the given grid only,
 also when it begins after the start

---
 .../src/stochastics/short_rate_models/base_short_rate_model.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py b/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
index 47656c5..60afab0 100644
--- a/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
@@ -110,7 +110,7 @@ class ShortRateModel(DiffusionProcess):
                                                                increment=self.dt,
                                                                max_dates=1_000_000)
         running_integral = 0.0
-        old_time_accrual = 0.0
+        old_time_accrual = DayCountCalculator.compute_accrual_length(start_date_time, datetimes[0], self.day_count_convention)
         interpolation_values = [0.0]
 
         for start_dt, end_dt in itertools.pairwise(datetimes):
-- 
2.43.0


From 8b73de6cedd011d762a49cd393c0ed02e0d2341c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:48 +0000
Subject: [PATCH 42/61] fix: multi-factor models with complex reversion
 eigenvalues give real prices, yields and convexities

---
 .../affine_yield_curve_models/vasicek_model.py           | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
index 3f01f8a..17e1f7b 100644
--- a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
@@ -507,6 +507,7 @@ class MultivariateVasicekModel(ShortRateModel, AffineModelMixin):
         mat_exponential = self.reversion_matrix_eigenvectors \
                           @ np.diag(np.exp(-self.reversion_matrix_eigenvalues * accrual)) \
                           @ self.reversion_matrix_eigenvectors_inv
+        mat_exponential = np.real(mat_exponential)  # eigenvalues may come in complex pairs
 
         return mat_exponential @ self.state_variables_diffusion_process(purchase_date) \
                + (np.eye(self.dimension) - mat_exponential) @ self.reversion_level
@@ -541,7 +542,7 @@ class MultivariateVasicekModel(ShortRateModel, AffineModelMixin):
 
         accrual = DayCountCalculator.compute_accrual_length(purchase_date, maturity_date, self.day_count_convention)
         diagonal_term = (1 - np.exp( -self.reversion_matrix_eigenvalues * accrual)) / (self.reversion_matrix_eigenvalues * accrual)
-        avg_matrix_exponential = self.reversion_matrix_eigenvectors @ np.diag(diagonal_term) @ self.reversion_matrix_eigenvectors_inv
+        avg_matrix_exponential = np.real(self.reversion_matrix_eigenvectors @ np.diag(diagonal_term) @ self.reversion_matrix_eigenvectors_inv)
 
         term_1 = avg_matrix_exponential @ self.state_variables_diffusion_process(purchase_date)
         term_2 = (self.reversion_level - avg_matrix_exponential @ self.reversion_level)  # (I - exp) theta
@@ -564,7 +565,7 @@ class MultivariateVasicekModel(ShortRateModel, AffineModelMixin):
         one_minus_exp_eigen_sum = 1 - np.exp(-sum_eigenvalues * accrual)
         H_mat = self.reversion_matrix_eigenvectors_inv @ self.C_mat @ self.reversion_matrix_eigenvectors_inv.T
         eigenvector_covar = one_minus_exp_eigen_sum * H_mat / sum_eigenvalues
-        return self.reversion_matrix_eigenvectors @ eigenvector_covar @ self.reversion_matrix_eigenvectors.T
+        return np.real(self.reversion_matrix_eigenvectors @ eigenvector_covar @ self.reversion_matrix_eigenvectors.T)
 
 
     def short_rate_variance(self,
@@ -716,7 +717,7 @@ class MultivariateVasicekModel(ShortRateModel, AffineModelMixin):
 
         B = self._create_bond_price_coefficient_term(accrual, reversion_inv)
         A = self._create_bond_price_intercept_term(accrual, reversion_inv)
-        self.price_state_variable_coeffs = {'intercept': A, 'coefficients': B}
+        self.price_state_variable_coeffs = {'intercept': np.real(A), 'coefficients': np.real(B)}
 
     def _create_bond_price_coefficient_term(self, accrual: float, reversion_inv: np.ndarray) -> np.array:
         """
@@ -945,7 +946,7 @@ class MultivariateVasicekModel(ShortRateModel, AffineModelMixin):
                         np.diag(exp_negative_eigen_times_accrual) @ \
                         self.reversion_matrix_eigenvectors_inv
 
-        return -exp_reversion.T @ self.short_rate_coefficients
+        return np.real(-exp_reversion.T @ self.short_rate_coefficients)
 
     def _calculate_intercept_deriv_wrt_maturity(self, accrual: float) -> np.array:
         """
-- 
2.43.0


From e0746f1691fbc82e7417b5704d957c59101272de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:10 +0000
Subject: [PATCH 43/61] fix: multi-factor prices and covariances use the
 correlation of the model's Brownian motion, as its paths do

---
 .../affine_yield_curve_models/vasicek_model.py                | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
index 17e1f7b..1e6f278 100644
--- a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
@@ -447,7 +447,7 @@ class MultivariateVasicekModel(ShortRateModel, AffineModelMixin):
 
         self.reversion_matrix_eigenvalues, self.reversion_matrix_eigenvectors = np.linalg.eig(self.reversion_matrix)
         self.reversion_matrix_eigenvectors_inv = np.linalg.inv(self.reversion_matrix_eigenvectors)
-        self.C_mat = self.volatility_matrix @ self.volatility_matrix.T
+        self.C_mat = self.volatility_matrix @ brownian_motion.correlation_matrix @ self.volatility_matrix.T
 
         drift_diffusion_collection = {}
         for i in range(brownian_motion.dimension):
@@ -666,7 +666,7 @@ class MultivariateVasicekModel(ShortRateModel, AffineModelMixin):
             B_t_times_B_t_transpose = price_coefficients @ price_coefficients.T
             D_mat += bond_price * weight * B_t_times_B_t_transpose
 
-        return 0.5 * sum(np.diag(self.volatility_matrix.T @ D_mat @ self.volatility_matrix))
+        return 0.5 * sum(np.diag(D_mat @ self.C_mat))
 
     def zero_coupon_bond_yield(self, maturity_date: date, purchase_date: Optional[date | datetime] = None) -> float:
         """
-- 
2.43.0


From b69e6eadfb548d78b320e6646e863cbbbf220c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:55 +0000
Subject: [PATCH 44/61] fix: the doubly mean reverting model's prices and paths
 follow the parameters set from its dictionary

---
 .../doubly_mean_reverting_vasicek.py          | 30 ++++++++++------
 .../vasicek_model.py                          | 34 ++++++++++++-------
 2 files changed, 40 insertions(+), 24 deletions(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/doubly_mean_reverting_vasicek.py b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/doubly_mean_reverting_vasicek.py
index 7477410..ca48c02 100644
--- a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/doubly_mean_reverting_vasicek.py
+++ b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/doubly_mean_reverting_vasicek.py
@@ -44,17 +44,7 @@ class DoublyMeanRevertingVasicek(MultivariateVasicekModel):
 
         self.starting_state_variables = np.empty((2, ))
 
-        reversion_level = np.array([self.long_term_mean, self.long_term_mean])
-
-        reversion_mat = np.array([[self.long_term_reversion_speed, 0.0],
-                                  [-self.short_rate_reversion_speed, self.short_rate_reversion_speed]])
-
-        across_term_volatility = self.short_rate_volatility * self.long_term_volatility * self.short_rate_long_term_correlation
-
-        self.variance_mat = np.array([[self.long_term_volatility ** 2, across_term_volatility],
-                                      [across_term_volatility, self.short_rate_volatility ** 2]])
-
-        vol_matrix = np.linalg.cholesky(self.variance_mat)
+        reversion_level, reversion_mat, vol_matrix = self._create_dynamics()
 
         self._parameter_calibration_dict = {
             CalibrationParamterType.VOLATILITY: [self.long_term_reversion_speed, self.long_term_volatility,
@@ -78,6 +68,21 @@ class DoublyMeanRevertingVasicek(MultivariateVasicekModel):
             brownian_motion=brownian_motion,
             dt=dt)
 
+    def _create_dynamics(self) -> tuple[np.array, np.ndarray, np.ndarray]:
+        """ Returns the reversion level, reversion matrix and volatility matrix of the current parameters. """
+        reversion_level = np.array([self.long_term_mean, self.long_term_mean])
+
+        reversion_mat = np.array([[self.long_term_reversion_speed, 0.0],
+                                  [-self.short_rate_reversion_speed, self.short_rate_reversion_speed]])
+
+        across_term_volatility = self.short_rate_volatility * self.long_term_volatility * self.short_rate_long_term_correlation
+
+        self.variance_mat = np.array([[self.long_term_volatility ** 2, across_term_volatility],
+                                      [across_term_volatility, self.short_rate_volatility ** 2]])
+
+        vol_matrix = np.linalg.cholesky(self.variance_mat)
+        return reversion_level, reversion_mat, vol_matrix
+
     @classmethod
     def from_volatility_shape_parameters(
             cls,
@@ -120,11 +125,14 @@ class DoublyMeanRevertingVasicek(MultivariateVasicekModel):
         self.short_rate_reversion_speed = self.parameter_calibration_dict[CalibrationParamterType.VOLATILITY][2]
         self.short_rate_volatility = self.parameter_calibration_dict[CalibrationParamterType.VOLATILITY][3]
         self.short_rate_long_term_correlation = self.parameter_calibration_dict[CalibrationParamterType.VOLATILITY][4]
+        self._set_dynamics(*self._create_dynamics(), brownian_motion=self.brownian_motion)
 
     def set_shape_parameters_from_dict(self) -> None:
         """ Takes the shape parameter values stored in the param dict and sets the
          appropriate model parameters. """
         self.long_term_mean = self.parameter_calibration_dict[CalibrationParamterType.SHAPE][0]
+        self._set_dynamics(*self._create_dynamics(), brownian_motion=self.brownian_motion)
+
     def set_state_variables_from_dict(self) -> None:
         """ Takes the shape parameter values stored in the param dict and sets the
          appropriate model parameters. """
diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
index 1e6f278..a4f57d7 100644
--- a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
@@ -441,6 +441,26 @@ class MultivariateVasicekModel(ShortRateModel, AffineModelMixin):
 
         self.short_rate_intercept = short_rate_intercept
         self.short_rate_coefficients = short_rate_coefficients
+        self._state_drift_diffusion_collection = {}
+        self._set_dynamics(reversion_level, reversion_matrix, volatility_matrix, brownian_motion)
+
+        diffusion_process = DiffusionProcess(
+            drift_diffusion_collection=self._state_drift_diffusion_collection,
+            brownian_motion=brownian_motion,
+            dt=dt)
+
+        super().__init__(
+            short_rate_transformation=create_affine_function(short_rate_coefficients=short_rate_coefficients,
+                                                             short_rate_intercept=short_rate_intercept),
+            state_variables_diffusion_process=diffusion_process
+        )
+
+    def _set_dynamics(self,
+                      reversion_level: np.array,
+                      reversion_matrix: np.ndarray,
+                      volatility_matrix: np.ndarray,
+                      brownian_motion: BrownianMotion) -> None:
+        """ Lets the prices, and the paths generated from now on, follow the given state variable dynamics. """
         self.reversion_level = reversion_level
         self.reversion_matrix = reversion_matrix
         self.volatility_matrix = volatility_matrix
@@ -449,25 +469,13 @@ class MultivariateVasicekModel(ShortRateModel, AffineModelMixin):
         self.reversion_matrix_eigenvectors_inv = np.linalg.inv(self.reversion_matrix_eigenvectors)
         self.C_mat = self.volatility_matrix @ brownian_motion.correlation_matrix @ self.volatility_matrix.T
 
-        drift_diffusion_collection = {}
         for i in range(brownian_motion.dimension):
-            drift_diffusion_collection[f'state_variable_{i}'] = create_constant_drift_diffusion_pair(
+            self._state_drift_diffusion_collection[f'state_variable_{i}'] = create_constant_drift_diffusion_pair(
                 reversion_level=self.reversion_level,
                 reversion_speed=self.reversion_matrix[i, :],
                 diffusion_term=self.volatility_matrix[i, :]
             )
 
-        diffusion_process = DiffusionProcess(
-            drift_diffusion_collection=drift_diffusion_collection,
-            brownian_motion=brownian_motion,
-            dt=dt)
-
-        super().__init__(
-            short_rate_transformation=create_affine_function(short_rate_coefficients=short_rate_coefficients,
-                                                             short_rate_intercept=short_rate_intercept),
-            state_variables_diffusion_process=diffusion_process
-        )
-
     @property
     @abstractmethod
     def parameter_calibration_dict(self) -> dict:
-- 
2.43.0


From 553ce1bbda2b9995064949c81b4db429e14e21b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:47 +0000
Subject: [PATCH 45/61] fix: the key rates of a portfolio whose assets share a
 calibration date

---
 fixedIncome/src/portfolio/base_portfolio.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fixedIncome/src/portfolio/base_portfolio.py b/fixedIncome/src/portfolio/base_portfolio.py
index 9577ed3..2481071 100644
--- a/fixedIncome/src/portfolio/base_portfolio.py
+++ b/fixedIncome/src/portfolio/base_portfolio.py
@@ -48,9 +48,11 @@ class Portfolio:
         """
         Takes a portfolio and returns a KeyRateCollection, where each
         asset in the portfolio has a corresponding KeyRate in the collection.
+        Assets with the same knot share their KeyRate.
         """
+        key_rate_dates = {portfolio_asset.asset.to_knot_value_pair().knot for portfolio_asset in self}
         kr_list = [KeyRate(day_count_convention=day_count_convention,
-                           key_rate_date=portfolio_asset.asset.to_knot_value_pair().knot) for portfolio_asset in self]
+                           key_rate_date=key_rate_date) for key_rate_date in key_rate_dates]
 
         return KeyRateCollection(kr_list)
 
-- 
2.43.0


From 987fdbb5d5de2fcbb98dedd2368f91cdd8d19901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:02 +0000
Subject: [PATCH 46/61] fix: day counts accept timestamps and dates of
 subclasses of datetime and date

---
 .../src/scheduling_tools/day_count_calculator.py   | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/fixedIncome/src/scheduling_tools/day_count_calculator.py b/fixedIncome/src/scheduling_tools/day_count_calculator.py
index 42bee58..1b177bb 100644
--- a/fixedIncome/src/scheduling_tools/day_count_calculator.py
+++ b/fixedIncome/src/scheduling_tools/day_count_calculator.py
@@ -25,17 +25,17 @@ class DayCountCalculator(object):
             start_datetime = kwargs['start_date']
             end_datetime = kwargs['end_date']
 
-            if type(start_datetime) == date and type(end_datetime) == date:
+            if not isinstance(start_datetime, datetime) and not isinstance(end_datetime, datetime):
                 return date_count_function(start_datetime, end_datetime)
 
             else:
-                start_outer_date = start_datetime.date() if type(start_datetime) == datetime else start_datetime
-                end_outer_date = end_datetime.date() + timedelta(1) if type(end_datetime) == datetime else end_datetime
-                start_inner_date = start_datetime.date() + timedelta(1) if type(start_datetime) == datetime else start_datetime
-                end_inner_date = end_datetime.date() if type(end_datetime) == datetime else end_datetime
+                start_outer_date = start_datetime.date() if isinstance(start_datetime, datetime) else start_datetime
+                end_outer_date = end_datetime.date() + timedelta(1) if isinstance(end_datetime, datetime) else end_datetime
+                start_inner_date = start_datetime.date() + timedelta(1) if isinstance(start_datetime, datetime) else start_datetime
+                end_inner_date = end_datetime.date() if isinstance(end_datetime, datetime) else end_datetime
 
-                start_datetime = start_datetime if type(start_datetime) == datetime else datetime.combine(start_datetime, time(0))
-                end_datetime = end_datetime if type(end_datetime) == datetime else datetime.combine(end_datetime,
+                start_datetime = start_datetime if isinstance(start_datetime, datetime) else datetime.combine(start_datetime, time(0))
+                end_datetime = end_datetime if isinstance(end_datetime, datetime) else datetime.combine(end_datetime,
                                                                                                         time(0))
 
                 inner_accrual = date_count_function(start_inner_date, end_inner_date)
-- 
2.43.0


From 8f4618dce51728dcb37898dc7d248f4aa4788e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:02 +0000
Subject: [PATCH 47/61] fix: an extra loan payment may be a whole number

---
 fixedIncome/src/assets/credit/loan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedIncome/src/assets/credit/loan.py b/fixedIncome/src/assets/credit/loan.py
index a7cd03a..8b23c75 100644
--- a/fixedIncome/src/assets/credit/loan.py
+++ b/fixedIncome/src/assets/credit/loan.py
@@ -113,7 +113,7 @@ class Loan(CashflowCollection):
 
         # unpack extra payments
         if extra_payments is not None:
-            if isinstance(extra_payments, float):
+            if isinstance(extra_payments, (int, float)):
                 extra_payments = [extra_payments for payment in payment_dates]
             else:
                 extra_payments = list(extra_payments)
-- 
2.43.0


From 226d36b1d6251b256c9adcf8c0e8bea6f2fd4e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:34 +0000
Subject: [PATCH 48/61] fix: the plot of a Brownian motion draws the path at
 its own times

---
 fixedIncome/src/stochastics/brownian_motion.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/fixedIncome/src/stochastics/brownian_motion.py b/fixedIncome/src/stochastics/brownian_motion.py
index 281581c..78c3db3 100644
--- a/fixedIncome/src/stochastics/brownian_motion.py
+++ b/fixedIncome/src/stochastics/brownian_motion.py
@@ -11,7 +11,6 @@ import numpy as np
 from typing import Optional
 from collections.abc import Callable
 import itertools
-import pandas as pd
 
 from fixedIncome.src.scheduling_tools.schedule_enumerations import DayCountConvention
 from fixedIncome.src.scheduling_tools.day_count_calculator import DayCountCalculator
@@ -178,8 +177,7 @@ class BrownianMotion(Callable):
         title_str = f'Brownian Motion Sample Path{plural}'
         plt.figure(figsize=(10, 6))
         plt.title(title_str)
-        date_range = pd.date_range(start=self.start_date_time, end=self.end_date_time, periods=self.path.shape[1])
-        plt.plot(date_range, self.path.T, linewidth=0.5, alpha=1)
+        plt.plot(self._path_datetimes, self.path.T, linewidth=0.5, alpha=1)
         plt.grid(alpha=0.25)
         plt.show()
 
-- 
2.43.0


From 9a4b3873cbf3616a9161f6c8702db1f4a9c95256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:33 +0000
Subject: [PATCH 49/61] fix: a timestamp on a holiday is not on a business day

---
 fixedIncome/src/scheduling_tools/scheduler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fixedIncome/src/scheduling_tools/scheduler.py b/fixedIncome/src/scheduling_tools/scheduler.py
index d6ae822..6cd40b6 100644
--- a/fixedIncome/src/scheduling_tools/scheduler.py
+++ b/fixedIncome/src/scheduling_tools/scheduler.py
@@ -98,6 +98,8 @@ class Scheduler(object):
         """
         Tests whether the provided date is a New York Business Day.
         """
+        if isinstance(date_obj, datetime):  # a timestamp has the status of its day
+            date_obj = date_obj.date()
         is_weekday = date_obj.weekday() != Weekdays.SATURDAY.value and date_obj.weekday() != Weekdays.SUNDAY.value
         year = date_obj.year
         # an adjustment can move an observed holiday across the year end (e.g. New Year's 2022 -> 2021-12-31)
-- 
2.43.0


From d3186c8d920adbd53e75950cb5f328db6a97587e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:04 +0000
Subject: [PATCH 50/61] fix: the short-rate path of a model is the current one

---
 .../src/stochastics/short_rate_models/base_short_rate_model.py   | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py b/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
index 60afab0..1be741a 100644
--- a/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
@@ -76,6 +76,7 @@ class ShortRateModel(DiffusionProcess):
         if set_path:
             self._reset_paths_and_curves()  # integrals and curves of the previous path are no longer valid
             self._path = short_rate_path
+            self._short_rate_path = short_rate_path
 
         return short_rate_path
 
-- 
2.43.0


From bbd1747613e19f85465c944f92891d26b85163e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:04 +0000
Subject: [PATCH 51/61] fix: refusing to remove every key rate leaves the
 collection as it was

---
 fixedIncome/src/risk/key_rate.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/fixedIncome/src/risk/key_rate.py b/fixedIncome/src/risk/key_rate.py
index f0fa64d..1162d37 100644
--- a/fixedIncome/src/risk/key_rate.py
+++ b/fixedIncome/src/risk/key_rate.py
@@ -344,7 +344,12 @@ class KeyRateCollection(MutableSequence[KeyRate], Callable):
         Removes a KeyRate object from the collection by index and re-constructs the adjustment
         function with the remaining KeyRate objects in collection.
         """
-        del self.key_rates[key]
+        remaining_key_rates = list(self.key_rates)
+        del remaining_key_rates[key]
+        if not remaining_key_rates:  # refused before anything changes, as a collection is never empty
+            raise ValueError('Cannot remove every key rate of a KeyRateCollection.')
+
+        self.key_rates = remaining_key_rates
         self._create_combined_adjustment_function()
 
     def insert(self, index: int, new_key_rate_object: KeyRate) -> None:  # required for subclassing MutableSequence ABC
-- 
2.43.0


From c9be6f827e8a6742b97b26d489bcb9ff61f554ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:04 +0000
Subject: [PATCH 52/61] fix: short-rate models take dates as well as timestamps

---
 fixedIncome/src/stochastics/brownian_motion.py |  5 ++++-
 .../affine_yield_curve_models/vasicek_model.py | 18 +++++++++---------
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/fixedIncome/src/stochastics/brownian_motion.py b/fixedIncome/src/stochastics/brownian_motion.py
index 78c3db3..630795e 100644
--- a/fixedIncome/src/stochastics/brownian_motion.py
+++ b/fixedIncome/src/stochastics/brownian_motion.py
@@ -5,7 +5,7 @@ Unit tests are contained in fixedIncome.tests.test_stochastics.test_brownian_mot
 """
 import bisect
 import matplotlib.pyplot as plt
-from datetime import datetime, timedelta
+from datetime import datetime, time, timedelta
 from dateutil.relativedelta import relativedelta
 import numpy as np
 from typing import Optional
@@ -34,6 +34,9 @@ def datetime_to_path_call(
         raise ValueError('Brownian Motion called when path is None. '
                          'First call generate_path method with set_path variable set to True.')
 
+    if isinstance(start_date_time, datetime) and not isinstance(datetime_obj, datetime):
+        datetime_obj = datetime.combine(datetime_obj, time(0))  # a date is the beginning of its day
+
     if datetime_obj < start_date_time or datetime_obj > end_date_time:
         raise ValueError(f'Provided datetime {str(datetime_obj)} is outside of'
                          f'the range {str(start_date_time)} to {str(end_date_time)}.')
diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
index a4f57d7..5633040 100644
--- a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
@@ -295,8 +295,8 @@ class VasicekModel(ShortRateModel, AffineModelMixin):
         if purchase_date is None:
             purchase_date = self.start_date_time
 
-        if min(maturity_dates) <= purchase_date:
-            raise ValueError(f'Minimum maturity datetime {min(maturity_dates)} can not be less than or equal to the purchase datetime {purchase_date}.')
+        if any(DayCountCalculator.check_dates(maturity_date, purchase_date) for maturity_date in maturity_dates):
+            raise ValueError(f'Maturity datetimes {maturity_dates} can not be less than or equal to the purchase datetime {purchase_date}.')
 
         accruals = np.array([DayCountCalculator.compute_accrual_length(purchase_date, maturity_date, self.day_count_convention)
                             for maturity_date in maturity_dates])
@@ -545,7 +545,7 @@ class MultivariateVasicekModel(ShortRateModel, AffineModelMixin):
         if purchase_date is None:
             purchase_date = self.start_date_time
 
-        if maturity_date <= purchase_date:
+        if DayCountCalculator.check_dates(maturity_date, purchase_date):
             raise ValueError(f'Maturity datetime {maturity_date} can not be less than or equal to the purchase datetime {purchase_date}.')
 
         accrual = DayCountCalculator.compute_accrual_length(purchase_date, maturity_date, self.day_count_convention)
@@ -683,7 +683,7 @@ class MultivariateVasicekModel(ShortRateModel, AffineModelMixin):
         if purchase_date is None:
             purchase_date = self.start_date_time
 
-        if maturity_date <= purchase_date:
+        if DayCountCalculator.check_dates(maturity_date, purchase_date):
             raise ValueError(f'Maturity datetime {maturity_date} can not be less than or equal to the purchase datetime {purchase_date}.')
 
         state_variables = self.state_variables_diffusion_process(purchase_date)
@@ -790,8 +790,8 @@ class MultivariateVasicekModel(ShortRateModel, AffineModelMixin):
         if purchase_date is None:
             purchase_date = self.start_date_time
 
-        if min(maturity_dates) <= purchase_date:
-            raise ValueError(f'Minimum maturity datetime {min(maturity_dates)} can not be less than or equal to the purchase datetime {purchase_date}.')
+        if any(DayCountCalculator.check_dates(maturity_date, purchase_date) for maturity_date in maturity_dates):
+            raise ValueError(f'Maturity datetimes {maturity_dates} can not be less than or equal to the purchase datetime {purchase_date}.')
 
         cov_matrix = self.yield_covariance_matrix( maturity_dates=maturity_dates, purchase_date=purchase_date)
         accruals = np.array([DayCountCalculator.compute_accrual_length(purchase_date, maturity_date, self.day_count_convention)
@@ -808,7 +808,7 @@ class MultivariateVasicekModel(ShortRateModel, AffineModelMixin):
         if purchase_date is None:
             purchase_date = self.start_date_time
 
-        if maturity_date <= purchase_date:
+        if DayCountCalculator.check_dates(maturity_date, purchase_date):
             raise ValueError(f'Maturity datetime {maturity_date} can not be less than or equal to the purchase datetime {purchase_date}.')
 
         yield_to_maturity = self.zero_coupon_bond_yield(maturity_date=maturity_date, purchase_date=purchase_date)
@@ -875,9 +875,9 @@ class MultivariateVasicekModel(ShortRateModel, AffineModelMixin):
             purchase_date = self.start_date_time
 
         maturity_dates = list(maturity_dates)
-        if min(maturity_dates) <= purchase_date:
+        if any(DayCountCalculator.check_dates(maturity_date, purchase_date) for maturity_date in maturity_dates):
             raise ValueError(
-                f'Minimum maturity datetime {min(maturity_dates)} can not be less than or equal to the purchase datetime {purchase_date}.')
+                f'Maturity datetimes {maturity_dates} can not be less than or equal to the purchase datetime {purchase_date}.')
 
         B_mat = np.empty((self.dimension, len(maturity_dates)))
         for index, maturity in enumerate(maturity_dates):
-- 
2.43.0


From 881421f68e1c647b7d6bac62734ad38b35b3c85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:48 +0000
Subject: [PATCH 53/61] fix: curves of timestamps take dates, and curves of
 dates take timestamps

---
 fixedIncome/src/assets/base_cashflow.py              |  3 ++-
 .../assets/rates/linear_rates/interest_rate_swap.py  |  2 +-
 fixedIncome/src/curves/base_curve.py                 | 12 ++++++++----
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/fixedIncome/src/assets/base_cashflow.py b/fixedIncome/src/assets/base_cashflow.py
index e0dbb9e..0e7ab00 100644
--- a/fixedIncome/src/assets/base_cashflow.py
+++ b/fixedIncome/src/assets/base_cashflow.py
@@ -14,6 +14,7 @@ import bisect
 from enum import Enum
 from abc import abstractmethod
 from fixedIncome.src.curves.base_curve import DiscountCurve, KnotValuePair
+from fixedIncome.src.scheduling_tools.day_count_calculator import DayCountCalculator
 
 @dataclass
 class Payment:
@@ -74,7 +75,7 @@ class Cashflow(Iterable):
         """
         return sum(discount_curve(payment.payment_date) * payment.payment
                    for payment in self if payment.payment is not None
-                   and payment.payment_date >= discount_curve.reference_date)
+                   and DayCountCalculator.check_dates(discount_curve.reference_date, payment.payment_date))
 
     @classmethod
     def create_from_date_and_float_iterables(cls,
diff --git a/fixedIncome/src/assets/rates/linear_rates/interest_rate_swap.py b/fixedIncome/src/assets/rates/linear_rates/interest_rate_swap.py
index 9b0c2d1..f51b4ef 100644
--- a/fixedIncome/src/assets/rates/linear_rates/interest_rate_swap.py
+++ b/fixedIncome/src/assets/rates/linear_rates/interest_rate_swap.py
@@ -364,7 +364,7 @@ class FixedToFloatInterestRateSwap(CashflowCollection):
                                                                self.payment_delay,
                                                                self.holiday_calendar)
 
-            if payment_date >= discount_curve.reference_date:  # as in the present value of the legs
+            if DayCountCalculator.check_dates(discount_curve.reference_date, payment_date):  # as in the present value of the legs
                 discounted_fixed_accruals += discount_curve(payment_date) * accrual_times_notional
 
         return float_pv / discounted_fixed_accruals
diff --git a/fixedIncome/src/curves/base_curve.py b/fixedIncome/src/curves/base_curve.py
index 595ab68..8111fb9 100644
--- a/fixedIncome/src/curves/base_curve.py
+++ b/fixedIncome/src/curves/base_curve.py
@@ -6,7 +6,7 @@ from dates to floats on the interpolation x axis.
 Each subclass will provide additional functionality.
 """
 
-from datetime import date, datetime
+from datetime import date, datetime, time
 from typing import Iterable, Optional, Protocol
 from collections.abc import Callable
 import scipy
@@ -97,7 +97,11 @@ class Curve(Callable):
         first_date, first_val = self.interpolation_values[0]
         last_date, last_val = self.interpolation_values[-1]
 
-        if date_obj < first_date:
+        # a date is the beginning of its day on a curve of timestamps
+        is_beginning_of_day = isinstance(first_date, datetime) and not isinstance(date_obj, datetime)
+        moment = datetime.combine(date_obj, time(0)) if is_beginning_of_day else date_obj
+
+        if not DayCountCalculator.check_dates(first_date, moment):
 
             match self.left_end_behavior:
 
@@ -110,7 +114,7 @@ class Curve(Callable):
                 case _:
                     raise ValueError(f'Error in interpolate. {self.left_end_behavior} is not a valid case.')
 
-        elif date_obj > last_date:
+        elif not DayCountCalculator.check_dates(moment, last_date):
 
             match self.right_end_behavior:
                 case EndBehavior.CONSTANT:
@@ -123,7 +127,7 @@ class Curve(Callable):
                     raise ValueError(f'Error in interpolate. {self.right_end_behavior} is not a valid case.')
 
         else:
-            x_axis_val = self.date_to_interpolation_axis(date_obj)
+            x_axis_val = self.date_to_interpolation_axis(moment)
             return self.interpolator(x_axis_val) + adjustment(date_obj)
 
     def reset_interpolation_values(self, new_values: Iterable[KnotValuePair]) -> None:
-- 
2.43.0


From d6c43e7f44cfc463be12ee45ef3539f73bed3cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:58 +0000
Subject: [PATCH 54/61] fix: copies of key rates follow their own bumps and
 dates

---
 fixedIncome/src/risk/key_rate.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/fixedIncome/src/risk/key_rate.py b/fixedIncome/src/risk/key_rate.py
index 1162d37..0059b91 100644
--- a/fixedIncome/src/risk/key_rate.py
+++ b/fixedIncome/src/risk/key_rate.py
@@ -116,6 +116,11 @@ class KeyRate(Callable):
         return iter([self])
 
 
+    def __setstate__(self, state: dict) -> None:
+        """ Lets a copy follow its own bump value and dates rather than those of the original. """
+        self.__dict__.update(state)
+        self.create_adjustment_function()
+
     #-------------------------------------------------------------------
     # Functionality for creating bump functions
 
@@ -359,6 +364,11 @@ class KeyRateCollection(MutableSequence[KeyRate], Callable):
         """
         self.__iadd__(new_key_rate_object)
 
+    def __setstate__(self, state: dict) -> None:
+        """ Lets a copy add up its own key rates rather than those of the original. """
+        self.__dict__.update(state)
+        self._create_combined_adjustment_function()
+
     def __len__(self):
         """ Returns the number of KeyRate objects in the collection. """
         return len(self.key_rates)
-- 
2.43.0


From 953e624a36c2b6cc0a1a5904b408fc8398d1e7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:36 +0000
Subject: [PATCH 55/61] fix: part days of a year fraction never count backwards

---
 .../scheduling_tools/day_count_calculator.py  | 44 ++++++++++---------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/fixedIncome/src/scheduling_tools/day_count_calculator.py b/fixedIncome/src/scheduling_tools/day_count_calculator.py
index 1b177bb..f574563 100644
--- a/fixedIncome/src/scheduling_tools/day_count_calculator.py
+++ b/fixedIncome/src/scheduling_tools/day_count_calculator.py
@@ -15,6 +15,15 @@ class DayCountCalculator(object):
         total_seconds = time_delta.total_seconds()
         return total_seconds / DayCountCalculator.SECONDS_PER_YEAR
 
+    @staticmethod
+    def _day_and_portion(date_obj: date | datetime) -> tuple[date, float]:
+        """ Splits into the day and the portion of that day, in [0, 1), which has passed. """
+        if not isinstance(date_obj, datetime):
+            return date_obj, 0.0
+
+        day = date_obj.date()
+        return day, (date_obj - datetime.combine(day, time(0))) / timedelta(1)
+
     @staticmethod
     def include_datetimes(date_count_function) -> Callable[[date | datetime], float]:
         """
@@ -28,30 +37,25 @@ class DayCountCalculator(object):
             if not isinstance(start_datetime, datetime) and not isinstance(end_datetime, datetime):
                 return date_count_function(start_datetime, end_datetime)
 
-            else:
-                start_outer_date = start_datetime.date() if isinstance(start_datetime, datetime) else start_datetime
-                end_outer_date = end_datetime.date() + timedelta(1) if isinstance(end_datetime, datetime) else end_datetime
-                start_inner_date = start_datetime.date() + timedelta(1) if isinstance(start_datetime, datetime) else start_datetime
-                end_inner_date = end_datetime.date() if isinstance(end_datetime, datetime) else end_datetime
-
-                start_datetime = start_datetime if isinstance(start_datetime, datetime) else datetime.combine(start_datetime, time(0))
-                end_datetime = end_datetime if isinstance(end_datetime, datetime) else datetime.combine(end_datetime,
-                                                                                                        time(0))
-
-                inner_accrual = date_count_function(start_inner_date, end_inner_date)
-                outer_accrual = date_count_function(start_outer_date, end_outer_date)
+            # each moment as a portion of the way from the beginning of its day to the beginning of the next
+            start_day, start_portion = DayCountCalculator._day_and_portion(start_datetime)
+            end_day, end_portion = DayCountCalculator._day_and_portion(end_datetime)
 
-                accrual_difference = outer_accrual - inner_accrual  # this is the time which be
-                                                                    # allocated to each timestamp proportionally
+            if start_day == end_day:
+                return date_count_function(start_day, start_day + timedelta(1)) * (end_portion - start_portion)
 
-                start_timedelta_seconds = (datetime.combine(start_inner_date, time(0)) - start_datetime).total_seconds()
-                start_inter_outer_width_seconds = (start_inner_date - start_outer_date).total_seconds()
-                end_timedelta_seconds = (end_datetime - datetime.combine(end_inner_date, time(0))).total_seconds()
-                end_inter_outer_width_seconds = (end_outer_date - end_inner_date).total_seconds()
+            def accrual_to(end_date: date) -> float:
+                """ The accrual from the start, in between those from the beginning and the end of its day. """
+                accrual = date_count_function(start_day, end_date)
+                if start_portion > 0:
+                    accrual += start_portion * (date_count_function(start_day + timedelta(1), end_date) - accrual)
+                return accrual
 
-                linear_scaling = (start_timedelta_seconds + end_timedelta_seconds) / (start_inter_outer_width_seconds + end_inter_outer_width_seconds)
+            accrual = accrual_to(end_day)
+            if end_portion > 0:
+                accrual += end_portion * (accrual_to(end_day + timedelta(1)) - accrual)
 
-            return inner_accrual + accrual_difference * linear_scaling
+            return accrual
 
         return increment_from_seconds
 
-- 
2.43.0


From 47ef5c32afa8202ca9c52daefb41e683f53a02d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:15 +0000
Subject: [PATCH 56/61] fix: refused additions to and clearing of a key rate
 collection leave it as it was

---
 fixedIncome/src/risk/key_rate.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/fixedIncome/src/risk/key_rate.py b/fixedIncome/src/risk/key_rate.py
index 0059b91..6577720 100644
--- a/fixedIncome/src/risk/key_rate.py
+++ b/fixedIncome/src/risk/key_rate.py
@@ -364,6 +364,10 @@ class KeyRateCollection(MutableSequence[KeyRate], Callable):
         """
         self.__iadd__(new_key_rate_object)
 
+    def clear(self) -> None:
+        """ Refused as a whole rather than one key rate after the other, as a collection is never empty. """
+        del self[:]
+
     def __setstate__(self, state: dict) -> None:
         """ Lets a copy add up its own key rates rather than those of the original. """
         self.__dict__.update(state)
@@ -424,6 +428,9 @@ class KeyRateCollection(MutableSequence[KeyRate], Callable):
         try:
             other_kr_dates = set(copy.copy(key_rate) for key_rate in other)
             all_kr_dates = list(set(kr_date for kr_date in self) | other_kr_dates)
+            if len(set(key_rate.key_rate_date for key_rate in all_kr_dates)) < len(all_kr_dates):
+                raise ValueError('The key rates of a KeyRateCollection have distinct dates.')  # refused before anything changes
+
             self.key_rates = sorted(all_kr_dates)
             self._create_combined_adjustment_function()
             return self
-- 
2.43.0


From 73dc8d88a4598352a45424274727b2071100a4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:57 +0000
Subject: [PATCH 57/61] fix: refused interpolation values leave a curve as it
 was

---
 fixedIncome/src/curves/base_curve.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/fixedIncome/src/curves/base_curve.py b/fixedIncome/src/curves/base_curve.py
index 8111fb9..6e35983 100644
--- a/fixedIncome/src/curves/base_curve.py
+++ b/fixedIncome/src/curves/base_curve.py
@@ -134,14 +134,24 @@ class Curve(Callable):
         """
         Resets the interpolator based on new KnotValuePairs.
         """
+        previous_values = self._interpolation_values
         self._interpolation_values = sorted(list(new_values), key=lambda interp_val: interp_val.knot)
-        self._create_interpolation_object()
+        try:
+            self._create_interpolation_object()
+        except Exception:
+            self._interpolation_values = previous_values  # refused values leave the curve as it was
+            raise
 
     def reset_interpolation_value(self, new_value: KnotValuePair, index: int) -> None:
         """ Resets the interpolation based on a new KnotValuePair located at the provided index. """
         #TODO: Create checks for knot_dates
+        previous_value = self._interpolation_values[index]
         self._interpolation_values[index] = new_value
-        self._create_interpolation_object()
+        try:
+            self._create_interpolation_object()
+        except Exception:
+            self._interpolation_values[index] = previous_value  # a refused value leaves the curve as it was
+            raise
 
 
 
-- 
2.43.0


From 8b002f90a63867e6c83dff8fd8bb344887f8f770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:59 +0000
Subject: [PATCH 58/61] fix: a failed short rate simulation keeps the path of
 the state variables

---
 .../short_rate_models/base_short_rate_model.py      | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py b/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
index 1be741a..a5cbcaa 100644
--- a/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
@@ -62,7 +62,9 @@ class ShortRateModel(DiffusionProcess):
         A function which generates the short rate sample path from the underlying
         state variable diffusion sample paths.
         """
-        state_variable_path = self.state_variables_diffusion_process.generate_path(
+        state_process = self.state_variables_diffusion_process
+        previous_path, previous_datetimes = state_process._path, state_process._path_datetimes
+        state_variable_path = state_process.generate_path(
             starting_value=starting_state_space_values,
             set_path=set_path,
             seed=seed
@@ -70,8 +72,13 @@ class ShortRateModel(DiffusionProcess):
 
         path_length = state_variable_path.shape[1]
         short_rate_path = np.zeros(shape=(path_length,))
-        for index in range(path_length):
-            short_rate_path[index] = self.short_rate_transformation(state_variable_path[:, index])
+        try:
+            for index in range(path_length):
+                short_rate_path[index] = self.short_rate_transformation(state_variable_path[:, index])
+        except Exception:
+            # the state variables keep the path to which the current short rate path belongs
+            state_process._path, state_process._path_datetimes = previous_path, previous_datetimes
+            raise
 
         if set_path:
             self._reset_paths_and_curves()  # integrals and curves of the previous path are no longer valid
-- 
2.43.0


From c3c3492af1d6a678a7456e6e809f06d843553132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:44 +0000
Subject: [PATCH 59/61] fix: refused model parameters leave a short rate model
 as it was

---
 .../doubly_mean_reverting_vasicek.py          | 30 ++++++++++++-------
 .../vasicek_model.py                          | 11 ++++---
 2 files changed, 27 insertions(+), 14 deletions(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/doubly_mean_reverting_vasicek.py b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/doubly_mean_reverting_vasicek.py
index ca48c02..e5d8900 100644
--- a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/doubly_mean_reverting_vasicek.py
+++ b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/doubly_mean_reverting_vasicek.py
@@ -120,24 +120,34 @@ class DoublyMeanRevertingVasicek(MultivariateVasicekModel):
     def set_volatiltiy_parameters_from_dict(self) -> None:
         """ Takes the volatility parameter values stored in the param dict and sets the
         appropriate model parameters. """
-        self.long_term_reversion_speed = self.parameter_calibration_dict[CalibrationParamterType.VOLATILITY][0]
-        self.long_term_volatility = self.parameter_calibration_dict[CalibrationParamterType.VOLATILITY][1]
-        self.short_rate_reversion_speed = self.parameter_calibration_dict[CalibrationParamterType.VOLATILITY][2]
-        self.short_rate_volatility = self.parameter_calibration_dict[CalibrationParamterType.VOLATILITY][3]
-        self.short_rate_long_term_correlation = self.parameter_calibration_dict[CalibrationParamterType.VOLATILITY][4]
-        self._set_dynamics(*self._create_dynamics(), brownian_motion=self.brownian_motion)
+        new_params = self.parameter_calibration_dict[CalibrationParamterType.VOLATILITY]
+        self._set_parameters(long_term_reversion_speed=new_params[0],
+                             long_term_volatility=new_params[1],
+                             short_rate_reversion_speed=new_params[2],
+                             short_rate_volatility=new_params[3],
+                             short_rate_long_term_correlation=new_params[4])
 
     def set_shape_parameters_from_dict(self) -> None:
         """ Takes the shape parameter values stored in the param dict and sets the
          appropriate model parameters. """
-        self.long_term_mean = self.parameter_calibration_dict[CalibrationParamterType.SHAPE][0]
-        self._set_dynamics(*self._create_dynamics(), brownian_motion=self.brownian_motion)
+        self._set_parameters(long_term_mean=self.parameter_calibration_dict[CalibrationParamterType.SHAPE][0])
+
+    def _set_parameters(self, **new_params: float) -> None:
+        """ Takes over the new parameter values and the dynamics they imply, or leaves the model as it was
+        when they are refused, as those of an invalid correlation. """
+        previous_params = {name: getattr(self, name) for name in (*new_params, 'variance_mat')}
+        try:
+            vars(self).update(new_params)
+            self._set_dynamics(*self._create_dynamics(), brownian_motion=self.brownian_motion)
+        except Exception:
+            vars(self).update(previous_params)
+            raise
 
     def set_state_variables_from_dict(self) -> None:
         """ Takes the shape parameter values stored in the param dict and sets the
          appropriate model parameters. """
-        for index, value in enumerate(self.parameter_calibration_dict[CalibrationParamterType.STATE_VARIABLES]):
-            self.starting_state_variables[index] = value
+        new_values = self.parameter_calibration_dict[CalibrationParamterType.STATE_VARIABLES]
+        self.starting_state_variables[:len(new_values)] = new_values
 
 
 if __name__ == '__main__':
diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
index 5633040..d4517fb 100644
--- a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
@@ -121,8 +121,7 @@ class VasicekModel(ShortRateModel, AffineModelMixin):
         """ Takes the volatility parameter values stored in the param dict and sets the
         appropriate model parameters. """
         new_params = self.parameter_calibration_dict[CalibrationParamterType.VOLATILITY]
-        self._volatility = new_params[0]
-        self._reversion_speed = new_params[1]
+        self._volatility, self._reversion_speed = new_params[0], new_params[1]
         self._set_drift_diffusion_pair()
 
     def set_shape_parameters_from_dict(self) -> None:
@@ -461,12 +460,16 @@ class MultivariateVasicekModel(ShortRateModel, AffineModelMixin):
                       volatility_matrix: np.ndarray,
                       brownian_motion: BrownianMotion) -> None:
         """ Lets the prices, and the paths generated from now on, follow the given state variable dynamics. """
+        # refused before anything changes when the reversion matrix cannot be diagonalized
+        eigenvalues, eigenvectors = np.linalg.eig(reversion_matrix)
+        eigenvectors_inv = np.linalg.inv(eigenvectors)
+
         self.reversion_level = reversion_level
         self.reversion_matrix = reversion_matrix
         self.volatility_matrix = volatility_matrix
 
-        self.reversion_matrix_eigenvalues, self.reversion_matrix_eigenvectors = np.linalg.eig(self.reversion_matrix)
-        self.reversion_matrix_eigenvectors_inv = np.linalg.inv(self.reversion_matrix_eigenvectors)
+        self.reversion_matrix_eigenvalues, self.reversion_matrix_eigenvectors = eigenvalues, eigenvectors
+        self.reversion_matrix_eigenvectors_inv = eigenvectors_inv
         self.C_mat = self.volatility_matrix @ brownian_motion.correlation_matrix @ self.volatility_matrix.T
 
         for i in range(brownian_motion.dimension):
-- 
2.43.0


From 3893fc7b6e53d24da6b2ead9ca5948edf492987e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:44 +0000
Subject: [PATCH 60/61] fix: setting something else than a key rate leaves the
 collection as it was

---
 fixedIncome/src/risk/key_rate.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fixedIncome/src/risk/key_rate.py b/fixedIncome/src/risk/key_rate.py
index 6577720..fd15fd5 100644
--- a/fixedIncome/src/risk/key_rate.py
+++ b/fixedIncome/src/risk/key_rate.py
@@ -305,6 +305,8 @@ class KeyRateCollection(MutableSequence[KeyRate], Callable):
         Places a new KeyRateObject at an index value. Checks if the new
         the prior and next date interval
         """
+        if not isinstance(new_key_rate, KeyRate):
+            raise TypeError(f'Only a KeyRate can be set in a KeyRateCollection, not {new_key_rate!r}.')
 
         match self[key].prior_date, self[key].next_date:  # assumed to align with the
                                                                    # previous and next key_rate dates
-- 
2.43.0


From 3530a8b5312610b30a0b70936c9780ff718a5ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:03 +0000
Subject: [PATCH 61/61] fix: yield curves reprice bonds whose principal is not
 100

---
 fixedIncome/src/curves/yield_curves/yield_curve.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/fixedIncome/src/curves/yield_curves/yield_curve.py b/fixedIncome/src/curves/yield_curves/yield_curve.py
index 40a0200..e70d2d9 100644
--- a/fixedIncome/src/curves/yield_curves/yield_curve.py
+++ b/fixedIncome/src/curves/yield_curves/yield_curve.py
@@ -269,6 +269,11 @@ class YieldCurveFactory(object):
 
         return yield_curve
 
+    @staticmethod
+    def _quoted_value(instrument: UsTreasuryInstrument, value: float) -> float:
+        """ A present value on the scale of the instrument's price: bonds are quoted per 100 of their principal. """
+        return value / (getattr(instrument, 'principal', 100) / 100)
+
     def construct_yield_curve(self, instruments: Iterable[UsTreasuryInstrument],
                               interpolation_method: InterpolationMethod,
                               reference_date: date) -> YieldCurve:
@@ -294,7 +299,8 @@ class YieldCurveFactory(object):
             knot_values = [KnotValuePair(knot=instrument.to_knot_value_pair().knot, value=val)
                            for (instrument, val) in zip(instruments, knot_values)]
             yield_curve_obj.reset_interpolation_values(knot_values)
-            pvs = np.array([yield_curve_obj.present_value(bond_obj) for bond_obj in instruments])  # markets quote clean
+            pvs = np.array([self._quoted_value(bond_obj, yield_curve_obj.present_value(bond_obj))
+                            for bond_obj in instruments])  # markets quote clean
             return pvs - market_prices
 
         convergence_solution = scipy.optimize.root(value_to_pv_diffs,
@@ -341,7 +347,7 @@ class YieldCurveFactory(object):
             new_knot_value = KnotValuePair(knot=knot_date, value=float(knot_value))
             yield_curve_obj.reset_interpolation_value(new_value=new_knot_value, index=index)
 
-            return yield_curve_obj.present_value(instrument) - target
+            return self._quoted_value(instrument, yield_curve_obj.present_value(instrument)) - target
 
 
         for index, instrument in enumerate(instruments):
-- 
2.43.0

