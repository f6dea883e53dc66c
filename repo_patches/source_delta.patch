From e137ef7067d0c2c79fc56086c781600ee1734232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 01/31] fix: observe holidays adjusted across the year's end in
 is_business_day

---
 fixedIncome/src/scheduling_tools/scheduler.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/fixedIncome/src/scheduling_tools/scheduler.py b/fixedIncome/src/scheduling_tools/scheduler.py
index a97794a..194ad52 100644
--- a/fixedIncome/src/scheduling_tools/scheduler.py
+++ b/fixedIncome/src/scheduling_tools/scheduler.py
@@ -99,9 +99,12 @@ class Scheduler(object):
         Tests whether the provided date is a New York Business Day.
         """
         is_weekday = date_obj.weekday() != Weekdays.SATURDAY.value and date_obj.weekday() != Weekdays.SUNDAY.value
-        year = date_obj.year
-        not_holiday = date_obj not in generate_all_holidays(from_year=year,
-                                                            to_year=year,
+        # Adjustments can move a holiday up to one week away from its nominal date, and so across the year's end.
+        # For example, New Year's Day of 2022 fell on a Saturday and was observed on 2021-12-31.
+        from_year = (date_obj - timedelta(days=7)).year
+        to_year = (date_obj + timedelta(days=7)).year
+        not_holiday = date_obj not in generate_all_holidays(from_year=from_year,
+                                                            to_year=to_year,
                                                             holiday_calendar=holiday_calendar)
 
         return not_holiday and is_weekday
-- 
2.43.0


From 7f91b72667f388236a175e037c866a8cef429aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 02/31] fix: 30/360 must recognise the last day of February in
 leap years

---
 fixedIncome/src/scheduling_tools/day_count_calculator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixedIncome/src/scheduling_tools/day_count_calculator.py b/fixedIncome/src/scheduling_tools/day_count_calculator.py
index fd71f73..42bee58 100644
--- a/fixedIncome/src/scheduling_tools/day_count_calculator.py
+++ b/fixedIncome/src/scheduling_tools/day_count_calculator.py
@@ -146,8 +146,8 @@ class DayCountCalculator(object):
 
         # date adjustments in order according to https://en.wikipedia.org/wiki/Day_count_convention#30/360_US
 
-        start_date_last_day_in_feb = (start_month == 2) and (start_day == 28)
-        end_date_last_day_in_feb = (end_month == 2) and (end_day == 28)
+        start_date_last_day_in_feb = (start_month == 2) and ((start_date + timedelta(days=1)).month == 3)
+        end_date_last_day_in_feb = (end_month == 2) and ((end_date + timedelta(days=1)).month == 3)
 
         # adjustment (1)
         if start_date_last_day_in_feb and end_date_last_day_in_feb:
-- 
2.43.0


From fd8cb392c32ca0f798bee22563d3e3970520f280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:17 +0000
Subject: [PATCH 03/31] fix: datetimes accrue like dates at midnight and never
 negatively

---
 .../scheduling_tools/day_count_calculator.py  | 43 ++++++++++---------
 1 file changed, 22 insertions(+), 21 deletions(-)

diff --git a/fixedIncome/src/scheduling_tools/day_count_calculator.py b/fixedIncome/src/scheduling_tools/day_count_calculator.py
index 42bee58..3888987 100644
--- a/fixedIncome/src/scheduling_tools/day_count_calculator.py
+++ b/fixedIncome/src/scheduling_tools/day_count_calculator.py
@@ -15,6 +15,16 @@ class DayCountCalculator(object):
         total_seconds = time_delta.total_seconds()
         return total_seconds / DayCountCalculator.SECONDS_PER_YEAR
 
+    @staticmethod
+    def _split_into_day_and_fraction(date_obj: date | datetime) -> tuple[date, float]:
+        """ Splits a date or datetime object into its calendar day and the fraction of that day already passed. """
+        if not isinstance(date_obj, datetime):
+            return date_obj, 0.0
+
+        day = date_obj.date()
+        elapsed = date_obj - datetime.combine(day, time(0), tzinfo=date_obj.tzinfo)
+        return day, elapsed.total_seconds() / DayCountCalculator.SECONDS_PER_DAY
+
     @staticmethod
     def include_datetimes(date_count_function) -> Callable[[date | datetime], float]:
         """
@@ -28,30 +38,21 @@ class DayCountCalculator(object):
             if type(start_datetime) == date and type(end_datetime) == date:
                 return date_count_function(start_datetime, end_datetime)
 
-            else:
-                start_outer_date = start_datetime.date() if type(start_datetime) == datetime else start_datetime
-                end_outer_date = end_datetime.date() + timedelta(1) if type(end_datetime) == datetime else end_datetime
-                start_inner_date = start_datetime.date() + timedelta(1) if type(start_datetime) == datetime else start_datetime
-                end_inner_date = end_datetime.date() if type(end_datetime) == datetime else end_datetime
-
-                start_datetime = start_datetime if type(start_datetime) == datetime else datetime.combine(start_datetime, time(0))
-                end_datetime = end_datetime if type(end_datetime) == datetime else datetime.combine(end_datetime,
-                                                                                                        time(0))
-
-                inner_accrual = date_count_function(start_inner_date, end_inner_date)
-                outer_accrual = date_count_function(start_outer_date, end_outer_date)
-
-                accrual_difference = outer_accrual - inner_accrual  # this is the time which be
-                                                                    # allocated to each timestamp proportionally
+            # The time of day accrues linearly between the midnights surrounding each timestamp. At midnight a
+            # datetime accrues exactly as the corresponding date does.
+            start_day, start_fraction = DayCountCalculator._split_into_day_and_fraction(start_datetime)
+            end_day, end_fraction = DayCountCalculator._split_into_day_and_fraction(end_datetime)
 
-                start_timedelta_seconds = (datetime.combine(start_inner_date, time(0)) - start_datetime).total_seconds()
-                start_inter_outer_width_seconds = (start_inner_date - start_outer_date).total_seconds()
-                end_timedelta_seconds = (end_datetime - datetime.combine(end_inner_date, time(0))).total_seconds()
-                end_inter_outer_width_seconds = (end_outer_date - end_inner_date).total_seconds()
+            if start_day == end_day:
+                return date_count_function(start_day, start_day + timedelta(1)) * (end_fraction - start_fraction)
 
-                linear_scaling = (start_timedelta_seconds + end_timedelta_seconds) / (start_inter_outer_width_seconds + end_inter_outer_width_seconds)
+            inner_accrual = date_count_function(start_day + timedelta(1), end_day)
+            midnight_accrual = date_count_function(start_day, end_day)
+            outer_accrual = date_count_function(start_day, end_day + timedelta(1))
 
-            return inner_accrual + accrual_difference * linear_scaling
+            return (inner_accrual
+                    + (midnight_accrual - inner_accrual) * (1.0 - start_fraction)
+                    + (outer_accrual - midnight_accrual) * end_fraction)
 
         return increment_from_seconds
 
-- 
2.43.0


From 7e34c71236be3b489fc52b4e98b40993fb96490b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:17 +0000
Subject: [PATCH 04/31] fix: generate_dates_by_increments must not drift away
 from month ends

---
 fixedIncome/src/scheduling_tools/scheduler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixedIncome/src/scheduling_tools/scheduler.py b/fixedIncome/src/scheduling_tools/scheduler.py
index 194ad52..d756e41 100644
--- a/fixedIncome/src/scheduling_tools/scheduler.py
+++ b/fixedIncome/src/scheduling_tools/scheduler.py
@@ -150,13 +150,13 @@ class Scheduler(object):
         if positive_delta:
             while date_obj <= end_date and count <= max_dates:
                 dates.append(date_obj)
-                date_obj += increment
                 count += 1
+                date_obj = start_date + count * increment  # avoids month-end drift from accumulating increments
         else:  # increment is a negative amount of time
             while date_obj >= end_date and count <= max_dates:
                 dates.append(date_obj)
-                date_obj += increment
                 count += 1
+                date_obj = start_date + count * increment  # avoids month-end drift from accumulating increments
 
         return dates
 
-- 
2.43.0


From 3c0a496d29dad3cf1a61753b1a50ca21af591faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:10 +0000
Subject: [PATCH 05/31] fix: iterate cashflow collections and keep their
 cashflow list current

---
 fixedIncome/src/assets/base_cashflow.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fixedIncome/src/assets/base_cashflow.py b/fixedIncome/src/assets/base_cashflow.py
index bf4f632..ad6461f 100644
--- a/fixedIncome/src/assets/base_cashflow.py
+++ b/fixedIncome/src/assets/base_cashflow.py
@@ -121,7 +121,7 @@ class CashflowCollection(Set):
         return key in self.cashflows
     def __iter__(self):
         """ Iterates through the cashflows in the collection. """
-        return self.cashflows.items()
+        return iter(self.cashflows.items())
 
     def __getitem__(self, item: CashflowKeys | str) -> Cashflow:
         """
@@ -138,6 +138,7 @@ class CashflowCollection(Set):
         Method to put a new cashflow into the Cashflow collection based on key.
         """
         if cashflow_key in self.cashflows:
+            self.cashflow_list[self.keys.index(cashflow_key)] = new_cashflow
             self.cashflows[cashflow_key] = new_cashflow
         else:
             self.cashflow_list.append(new_cashflow)
-- 
2.43.0


From 0892dee7d57e2ccc77eea8daa4d527547f0e2c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:10 +0000
Subject: [PATCH 06/31] fix: right-end adjustments and moved knots of curves

---
 fixedIncome/src/curves/base_curve.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fixedIncome/src/curves/base_curve.py b/fixedIncome/src/curves/base_curve.py
index 5f8d85f..fc07565 100644
--- a/fixedIncome/src/curves/base_curve.py
+++ b/fixedIncome/src/curves/base_curve.py
@@ -114,7 +114,7 @@ class Curve(Callable):
 
             match self.right_end_behavior:
                 case EndBehavior.CONSTANT:
-                    return last_val + adjustment(date)
+                    return last_val + adjustment(date_obj)
 
                 case EndBehavior.ERROR:
                     raise ValueError(f'Error in interpolate right end behavior. '
@@ -137,6 +137,7 @@ class Curve(Callable):
         """ Resets the interpolation based on a new KnotValuePair located at the provided index. """
         #TODO: Create checks for knot_dates
         self._interpolation_values[index] = new_value
+        self._interpolation_values.sort(key=lambda interp_val: interp_val.knot)
         self._create_interpolation_object()
 
 
-- 
2.43.0


From 9d02068bf90b4a1d8668840afb686c1a6ee6c4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:10 +0000
Subject: [PATCH 07/31] fix: key rate collections stay ordered, mutable and
 independent of one another

---
 fixedIncome/src/risk/key_rate.py | 54 ++++++++++++++++++--------------
 1 file changed, 31 insertions(+), 23 deletions(-)

diff --git a/fixedIncome/src/risk/key_rate.py b/fixedIncome/src/risk/key_rate.py
index 455d19c..9294f9b 100644
--- a/fixedIncome/src/risk/key_rate.py
+++ b/fixedIncome/src/risk/key_rate.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 from collections.abc import MutableSequence
+from copy import copy
 import operator
 import bisect
 from datetime import date
@@ -175,6 +176,10 @@ class KeyRate(Callable):
 
         match (self.prior_date, self.key_rate_date, self.next_date):
 
+            case (None, middle, None):  # only key rate
+                def adjustment_fxcn(input_date: date) -> float:
+                    return self.bump_val
+
             case (None, middle, following):  # first key rate
 
                 def adjustment_fxcn(input_date: date) -> float:
@@ -245,10 +250,6 @@ class KeyRate(Callable):
 
                         return (time_to_next / total_time) * self.bump_val
 
-            case (None, middle, None):  # only key rate
-                def adjustment_fxcn(input_date: date) -> float:
-                    return self.bump_val
-
             case _:
                 raise ValueError(f'Case ({self.prior_date}, {self.key_rate_date}, {self.next_date})'
                                  f' not matched in call to self.create_bump_function method.')
@@ -268,7 +269,9 @@ class KeyRateCollection(MutableSequence[KeyRate], Callable):
     def __init__(self, key_rates: Iterable[KeyRate]) -> None:
         """ Instantiates a KeyRateCollection object. """
         self.iter_index = 0
-        self.key_rates = sorted(list(key_rates))  # Sorts based on key_rate_date for each KeyRate object
+        # Copies, as the prior and next dates below are specific to this collection.
+        # Sorts based on key_rate_date for each KeyRate object.
+        self.key_rates = sorted(copy(key_rate) for key_rate in key_rates)
         self._set_dates_in_collection()
         self._create_combined_adjustment_function()
 
@@ -302,16 +305,15 @@ class KeyRateCollection(MutableSequence[KeyRate], Callable):
         match self[key].prior_date, self[key].next_date:  # assumed to align with the
                                                                    # previous and next key_rate dates
 
-            case prior_date, next_date:  # one of the middle key rate indices
-                if prior_date < new_key_rate.key_rate_date < next_date:
-                    self.key_rates[key] = new_key_rate
-                else:
-                    raise ValueError(f'New key_rate date {new_key_rate.key_rate_date} is not strictly within '
-                                     f'interval {prior_date} and {next_date}.')
+            case None, None:  # only key rate in collection
+                try:
+                    self.key_rates[key] = copy(new_key_rate)
+                except IndexError:
+                    raise IndexError(f'Failed to set new_key_rate at index {key}.')
 
             case None, next_date:  # first key rate index
                 if new_key_rate.key_rate_date < next_date:
-                    self.key_rates[key] = new_key_rate
+                    self.key_rates[key] = copy(new_key_rate)
                 else:
                     raise ValueError(f'New key_rate date {new_key_rate.key_rate_date} is not '
                                      f'strictly less than {next_date} when new KeyRate object would be '
@@ -320,17 +322,18 @@ class KeyRateCollection(MutableSequence[KeyRate], Callable):
 
             case prior_date, None:  # last key rate index
                 if new_key_rate.key_rate_date > prior_date:
-                    self.key_rates[key] = new_key_rate
+                    self.key_rates[key] = copy(new_key_rate)
                 else:
                     raise ValueError(f'New key_rate date {new_key_rate.key_rate_date} is not '
                                      f'strictly greater than {prior_date} when new KeyRate object would be '
                                      f'last in the collection.')
 
-            case None, None:  # only key rate in collection
-                try:
-                    self.key_rates[key] = new_key_rate
-                except IndexError:
-                    raise IndexError(f'Failed to set new_key_rate at index {key}.')
+            case prior_date, next_date:  # one of the middle key rate indices
+                if prior_date < new_key_rate.key_rate_date < next_date:
+                    self.key_rates[key] = copy(new_key_rate)
+                else:
+                    raise ValueError(f'New key_rate date {new_key_rate.key_rate_date} is not strictly within '
+                                     f'interval {prior_date} and {next_date}.')
 
             case _:
                 raise ValueError(f'New key rate object {new_key_rate} could not be set at index {key}.')
@@ -342,13 +345,18 @@ class KeyRateCollection(MutableSequence[KeyRate], Callable):
         Removes a KeyRate object from the collection by index and re-constructs the adjustment
         function with the remaining KeyRate objects in collection.
         """
-        del self.key_rates[key]
+        remaining_key_rates = list(self.key_rates)
+        del remaining_key_rates[key]
+        if not remaining_key_rates:
+            raise ValueError('Cannot remove every KeyRate from a KeyRateCollection.')
+
+        self.key_rates = remaining_key_rates
         self._create_combined_adjustment_function()
 
-    def insert(self, new_key_rate_object: KeyRate) -> None:  # required for subclassing MutableSequence ABC
-        """ Inerts a Key Rate into the collection. """
+    def insert(self, index: int, new_key_rate_object: KeyRate) -> None:  # required for subclassing MutableSequence ABC
+        """ Inerts a Key Rate into the collection. The collection stays ordered by key rate date whatever the index. """
 
-        self + new_key_rate_object
+        self += new_key_rate_object
 
     def __len__(self):
         """ Returns the number of KeyRate objects in the collection. """
@@ -405,7 +413,7 @@ class KeyRateCollection(MutableSequence[KeyRate], Callable):
         try:
             other_kr_dates = set(key_rate for key_rate in other)
             all_kr_dates = list(set(kr_date for kr_date in self) | other_kr_dates)
-            self.key_rates = all_kr_dates
+            self.key_rates = sorted(copy(key_rate) for key_rate in all_kr_dates)
             self._create_combined_adjustment_function()
             return self
 
-- 
2.43.0


From d08c6b3c73c79a4a71756b8128ed11dbb9218705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:10 +0000
Subject: [PATCH 08/31] fix: key rate derivatives, discount curves and
 bootstrapping leave no trace of earlier calls

---
 .../src/curves/yield_curves/yield_curve.py    | 50 ++++++++-----------
 1 file changed, 22 insertions(+), 28 deletions(-)

diff --git a/fixedIncome/src/curves/yield_curves/yield_curve.py b/fixedIncome/src/curves/yield_curves/yield_curve.py
index 64b850e..fe62626 100644
--- a/fixedIncome/src/curves/yield_curves/yield_curve.py
+++ b/fixedIncome/src/curves/yield_curves/yield_curve.py
@@ -82,17 +82,14 @@ class YieldCurve(Curve):
                 interpolation_values = [KnotValuePair(knot=kv_pair.knot, value=self(kv_pair.knot, adjustment_fxcn))
                                         for kv_pair in self.interpolation_values]
 
-                if self.discount_curve is None:
-
-                    self.discount_curve = DiscountCurve(interpolation_values=interpolation_values,
-                                                        interpolation_method=self.interpolation_method,
-                                                        index=CurveIndex.US_TREASURY,
-                                                        interpolation_day_count_convention=self.interpolation_day_count_convention,
-                                                        reference_date=self.reference_date,
-                                                        left_end_behavior=EndBehavior.ERROR,
-                                                        right_end_behavior=EndBehavior.ERROR)
-                else:
-                    self.discount_curve.reset_interpolation_values(interpolation_values)
+                # A new object each time, so that discount curves handed out before are left unchanged.
+                self.discount_curve = DiscountCurve(interpolation_values=interpolation_values,
+                                                    interpolation_method=self.interpolation_method,
+                                                    index=CurveIndex.US_TREASURY,
+                                                    interpolation_day_count_convention=self.interpolation_day_count_convention,
+                                                    reference_date=self.reference_date,
+                                                    left_end_behavior=EndBehavior.ERROR,
+                                                    right_end_behavior=EndBehavior.ERROR)
 
                 return self.discount_curve
 
@@ -109,17 +106,14 @@ class YieldCurve(Curve):
                 interpolation_values = [KnotValuePair(knot=date_obj, value=df)
                                         for date_obj, df in zip(date_range, discount_factors)]
 
-                if self.discount_curve is None:
-                    self.discount_curve = DiscountCurve(interpolation_values=interpolation_values,
-                                                        interpolation_method=InterpolationMethod.LINEAR,  # because we fill the date range
-                                                        index=CurveIndex.US_TREASURY,
-                                                        interpolation_day_count_convention=self.interpolation_day_count_convention,
-                                                        reference_date=self.reference_date,
-                                                        left_end_behavior=EndBehavior.ERROR,
-                                                        right_end_behavior=EndBehavior.ERROR)
-
-                else:
-                    self.discount_curve.reset_interpolation_values(interpolation_values)
+                # A new object each time, so that discount curves handed out before are left unchanged.
+                self.discount_curve = DiscountCurve(interpolation_values=interpolation_values,
+                                                    interpolation_method=InterpolationMethod.LINEAR,  # because we fill the date range
+                                                    index=CurveIndex.US_TREASURY,
+                                                    interpolation_day_count_convention=self.interpolation_day_count_convention,
+                                                    reference_date=self.reference_date,
+                                                    left_end_behavior=EndBehavior.ERROR,
+                                                    right_end_behavior=EndBehavior.ERROR)
 
                 return self.discount_curve
 
@@ -133,15 +127,14 @@ class YieldCurve(Curve):
         which is defined to be:
             (PV(plus key rate adjustment) - PV) / ONE BASIS POINT
         """
-        key_rate.create_adjustment_function()  # creates the default adjustment function with 1 bp movement
+        original_bump_val = key_rate.bump_val
         key_rate.set_bump_val(-ONE_BASIS_POINT/2)
         pv_with_negative_adjustment = self.present_value(assets, key_rate)
 
-        key_rate.create_adjustment_function()
         key_rate.set_bump_val(ONE_BASIS_POINT / 2)
         pv_with_positive_adjustment = self.present_value(assets, key_rate)
 
-        key_rate.create_adjustment_function()  # reset key rate bump value
+        key_rate.set_bump_val(original_bump_val)  # reset key rate bump value
         key_rate_deriv = (pv_with_positive_adjustment - pv_with_negative_adjustment) / ONE_BASIS_POINT
         return key_rate_deriv
 
@@ -272,6 +265,7 @@ class YieldCurveFactory(object):
                               interpolation_method: InterpolationMethod,
                               reference_date: date) -> YieldCurve:
 
+        instruments = list(instruments)
         knot_dates = [bond_obj.maturity_date for bond_obj in instruments]
         values = [0.0 for date_obj in knot_dates]
         market_prices = np.array([bond_obj.price for bond_obj in instruments])
@@ -313,7 +307,8 @@ class YieldCurveFactory(object):
         """
         Constructs a yield curve by bootstrapping the PV values to match their market prices.
         """
-        instruments = list(instruments)
+        # Bootstrapping proceeds from the earliest knot to the latest, which is also the order of the curve's knots.
+        instruments = sorted(instruments, key=lambda instrument: instrument.to_knot_value_pair().knot)
 
         market_prices = [bond_obj.price for bond_obj in instruments]
 
@@ -350,8 +345,7 @@ class YieldCurveFactory(object):
             solution_knot = KnotValuePair(knot=instrument.to_knot_value_pair().knot,
                                           value=float(convergence_solution['x']))
 
-            if index == 4:  # TODO: What is this??
-                yield_curve_obj.present_value(instrument)
+            yield_curve_obj.reset_interpolation_value(new_value=solution_knot, index=index)
 
         return yield_curve_obj
 
-- 
2.43.0


From f1a2aa3346e2f6e112f8403a7db2a2e74e5367fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:10 +0000
Subject: [PATCH 09/31] fix: portfolios holding assets of equal maturity map to
 key rates

---
 fixedIncome/src/portfolio/base_portfolio.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fixedIncome/src/portfolio/base_portfolio.py b/fixedIncome/src/portfolio/base_portfolio.py
index 9577ed3..5614dad 100644
--- a/fixedIncome/src/portfolio/base_portfolio.py
+++ b/fixedIncome/src/portfolio/base_portfolio.py
@@ -49,8 +49,9 @@ class Portfolio:
         Takes a portfolio and returns a KeyRateCollection, where each
         asset in the portfolio has a corresponding KeyRate in the collection.
         """
-        kr_list = [KeyRate(day_count_convention=day_count_convention,
-                           key_rate_date=portfolio_asset.asset.to_knot_value_pair().knot) for portfolio_asset in self]
+        key_rate_dates = {portfolio_asset.asset.to_knot_value_pair().knot for portfolio_asset in self}  # assets may share one
+        kr_list = [KeyRate(day_count_convention=day_count_convention, key_rate_date=key_rate_date)
+                   for key_rate_date in key_rate_dates]
 
         return KeyRateCollection(kr_list)
 
-- 
2.43.0


From 9fd056be14d14321685a049b4a04dc86da90edaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:10 +0000
Subject: [PATCH 10/31] fix: RiskLadder membership

---
 fixedIncome/src/risk/risk_metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedIncome/src/risk/risk_metrics.py b/fixedIncome/src/risk/risk_metrics.py
index 76a6536..5ac0880 100644
--- a/fixedIncome/src/risk/risk_metrics.py
+++ b/fixedIncome/src/risk/risk_metrics.py
@@ -33,7 +33,7 @@ class RiskLadder(Collection[Risk]):
 
     def __contains__(self, risk: Risk) -> bool:
         """ Tests if the Risk ladder contains a specified risk unit."""
-        pass
+        return risk in self._risks
 
     def __iter__(self):
         return iter(self._risks)
-- 
2.43.0


From b1ef008048d8b2dbc70339aa5c7ea14a53124079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:33 +0000
Subject: [PATCH 11/31] fix: accrued interest and full price follow the
 settlement of the requested date

---
 .../src/assets/credit/corporate_bond.py       | 29 ++++++++++++-------
 .../us_treasury_instruments.py                | 27 +++++++++--------
 2 files changed, 33 insertions(+), 23 deletions(-)

diff --git a/fixedIncome/src/assets/credit/corporate_bond.py b/fixedIncome/src/assets/credit/corporate_bond.py
index 9f4fdb3..6d31207 100644
--- a/fixedIncome/src/assets/credit/corporate_bond.py
+++ b/fixedIncome/src/assets/credit/corporate_bond.py
@@ -105,6 +105,10 @@ class FixedRateBond(CashflowCollection):
     def day_count_convention(self) -> DayCountConvention:
         return self._day_count_convention
 
+    @property
+    def settlement_convention(self) -> SettlementConvention:
+        return self._settlement_convention
+
     @property
     def purchase_date(self) -> date:
         return self._purchase_date
@@ -155,7 +159,9 @@ class FixedRateBond(CashflowCollection):
         if reference_date is None:
             settlement_date = self.settlement_date
         else:
-            settlement_date = Scheduler.add_business_days(reference_date, 1, self.holiday_calendar)
+            settlement_date = Scheduler.calculate_settlement_date(purchase_date=reference_date,
+                                                                  settlement_convention=self.settlement_convention,
+                                                                  holiday_calendar=self.holiday_calendar)
         return payment.unadjusted_payment_date >= settlement_date
 
 
@@ -273,8 +279,8 @@ class FixedRateBond(CashflowCollection):
         settlement_date = self.settlement_date if reference_date is None else Scheduler.calculate_settlement_date(purchase_date=reference_date,
                                                                                                                   settlement_convention=self.settlement_convention,
                                                                                                                   holiday_calendar=self.holiday_calendar)
-        if self.settlement_date < self.dated_date:
-            raise ValueError(f'Settlement date {self.settlement_date} is before the dated date {self.dated_date}'
+        if settlement_date < self.dated_date:
+            raise ValueError(f'Settlement date {settlement_date} is before the dated date {self.dated_date}'
                              f' for us_treasury_instruments\n{self}.')
 
         # Find last payment accrual date.
@@ -284,13 +290,17 @@ class FixedRateBond(CashflowCollection):
             following_date = self[CashflowKeys.COUPON_PAYMENTS][0].unadjusted_payment_date
 
         else:
-            date_index = bisect.bisect_right([payment.payment_date for payment in self[CashflowKeys.COUPON_PAYMENTS]], self.purchase_date)
+            # Interest accrues between unadjusted dates. A coupon due on the settlement date itself is still received.
+            date_index = bisect.bisect_left([payment.unadjusted_payment_date for payment in self[CashflowKeys.COUPON_PAYMENTS]], settlement_date)
+            if date_index == len(self[CashflowKeys.COUPON_PAYMENTS]):
+                raise ValueError(f'Settlement date {settlement_date} is after the last coupon of \n{self}.')
+
             previous_date = self[CashflowKeys.COUPON_PAYMENTS][date_index-1].unadjusted_payment_date
             following_date = self[CashflowKeys.COUPON_PAYMENTS][date_index].unadjusted_payment_date
             reference_date = previous_date
 
         accrual_period = DayCountCalculator.compute_accrual_length(
-            reference_date, self.settlement_date, dcc=self.day_count_convention
+            reference_date, settlement_date, dcc=self.day_count_convention
         )
 
         accrual_fraction = accrual_period / DayCountCalculator.compute_accrual_length(
@@ -307,15 +317,12 @@ class FixedRateBond(CashflowCollection):
         """
         reference_date = reference_date if reference_date is not None else self.purchase_date
 
-        if self.accrued_interest is None:
-            self.accrued_interest = self.calculate_accrued_interest(reference_date)
+        accrued_interest = self.calculate_accrued_interest(reference_date)
 
         # normalize the amount of accrued interest by the principal amount
         # Put into 100 principal convention.
-        normalized_accrued_interest = (self.accrued_interest / self.principal) * 100.0
-        self.full_price = self.price + normalized_accrued_interest
-
-        return self.full_price
+        normalized_accrued_interest = (accrued_interest / self.principal) * 100.0
+        return self.price + normalized_accrued_interest
 
     def discount_cashflows_by_fixed_rate(self, fixed_rate: float | np.ndarray, reference_date: Optional[date] = None) -> float:
         """
diff --git a/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py b/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
index dc97ab1..babc016 100644
--- a/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
+++ b/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
@@ -134,8 +134,8 @@ class UsTreasuryBond(CashflowCollection):
         settlement_date = self.settlement_date if reference_date is None else Scheduler.calculate_settlement_date(purchase_date=reference_date,
                                                                                                                   settlement_convention=self.settlement_convention,
                                                                                                                   holiday_calendar=self.holiday_calendar)
-        if self.settlement_date < self.dated_date:
-            raise ValueError(f'Settlement date {self.settlement_date} is before the dated date {self.dated_date}'
+        if settlement_date < self.dated_date:
+            raise ValueError(f'Settlement date {settlement_date} is before the dated date {self.dated_date}'
                              f' for us_treasury_instruments\n{self}.')
 
         # Find last payment accrual date.
@@ -145,13 +145,17 @@ class UsTreasuryBond(CashflowCollection):
             following_date = self[CashflowKeys.COUPON_PAYMENTS][0].unadjusted_payment_date
 
         else:
-            date_index = bisect.bisect_right([payment.payment_date for payment in self[CashflowKeys.COUPON_PAYMENTS]], self.purchase_date)
+            # Interest accrues between unadjusted dates. A coupon due on the settlement date itself is still received.
+            date_index = bisect.bisect_left([payment.unadjusted_payment_date for payment in self[CashflowKeys.COUPON_PAYMENTS]], settlement_date)
+            if date_index == len(self[CashflowKeys.COUPON_PAYMENTS]):
+                raise ValueError(f'Settlement date {settlement_date} is after the last coupon of \n{self}.')
+
             previous_date = self[CashflowKeys.COUPON_PAYMENTS][date_index-1].unadjusted_payment_date
             following_date = self[CashflowKeys.COUPON_PAYMENTS][date_index].unadjusted_payment_date
             reference_date = previous_date
 
         accrual_period = DayCountCalculator.compute_accrual_length(
-            reference_date, self.settlement_date, dcc=self.day_count_convention
+            reference_date, settlement_date, dcc=self.day_count_convention
         )
 
         accrual_fraction = accrual_period / DayCountCalculator.compute_accrual_length(
@@ -186,15 +190,12 @@ class UsTreasuryBond(CashflowCollection):
         """
         reference_date = reference_date if reference_date is not None else self.purchase_date
 
-        if self.accrued_interest is None:
-            self.accrued_interest = self.calculate_accrued_interest(reference_date)
+        accrued_interest = self.calculate_accrued_interest(reference_date)
 
         # normalize the amount of accrued interest by the principal amount
         # Put into 100 principal convention.
-        normalized_accrued_interest = (self.accrued_interest / self.principal) * 100.0
-        self.full_price = self.price + normalized_accrued_interest
-
-        return self.full_price
+        normalized_accrued_interest = (accrued_interest / self.principal) * 100.0
+        return self.price + normalized_accrued_interest
 
     def calculate_dated_date(self) -> date:
         """
@@ -242,7 +243,9 @@ class UsTreasuryBond(CashflowCollection):
         if reference_date is None:
             settlement_date = self.settlement_date
         else:
-            settlement_date = Scheduler.add_business_days(reference_date, 1, self.holiday_calendar)
+            settlement_date = Scheduler.calculate_settlement_date(purchase_date=reference_date,
+                                                                  settlement_convention=self.settlement_convention,
+                                                                  holiday_calendar=self.holiday_calendar)
         return payment.unadjusted_payment_date >= settlement_date
 
     def create_principal_repayment_cashflow(self) -> Cashflow:
@@ -341,7 +344,7 @@ class UsTreasuryBond(CashflowCollection):
 
         full_price = self.get_full_price(reference_date)
 
-        target_price = self.full_price * self.principal/100
+        target_price = full_price * self.principal/100
         def diff_from_full_price(fixed_rate) -> np.array:
             return np.array([target_price - self.discount_cashflows_by_fixed_rate(fixed_rate, reference_date)])
 
-- 
2.43.0


From ab813610493a6a06e3313c240879d0808b1c8acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 12/31] fix: bond durations and convexity per invested dollar,
 and yields of zero-coupon bonds

---
 .../src/assets/credit/corporate_bond.py       | 32 ++++++++++---------
 .../us_treasury_instruments.py                | 18 ++++++-----
 2 files changed, 27 insertions(+), 23 deletions(-)

diff --git a/fixedIncome/src/assets/credit/corporate_bond.py b/fixedIncome/src/assets/credit/corporate_bond.py
index 6d31207..5261587 100644
--- a/fixedIncome/src/assets/credit/corporate_bond.py
+++ b/fixedIncome/src/assets/credit/corporate_bond.py
@@ -58,6 +58,8 @@ class FixedRateBond(CashflowCollection):
         self._day_count_convention = day_count_convention
 
         self.num_payments_per_year = self.payment_frequency.value  # enumeration is encoded with these values
+        # zero-coupon bonds have no payment frequency to compound with, so their yields are quoted semi-annually
+        self.compounding_periods_per_year = self.num_payments_per_year or PaymentFrequency.SEMI_ANNUAL.value
         self.coupon_payment = self.calculate_coupon_payment()   # coupon payment in USD ($)
         self.adjustment_function = self.create_date_adjustment_function()
 
@@ -337,8 +339,8 @@ class FixedRateBond(CashflowCollection):
         for payment in self[CashflowKeys.COUPON_PAYMENTS]:  # Zero-coupon bonds should have empty iterable here
             if self.is_payment_received(payment, reference_date=reference_date):
                 accrual = DayCountCalculator.compute_accrual_length(reference_date, payment.payment_date, self.day_count_convention)
-                accrual_times_num_payments = accrual * self.num_payments_per_year
-                accrual_df = 1 / (1 + fixed_rate / self.num_payments_per_year) ** accrual_times_num_payments
+                accrual_times_num_payments = accrual * self.compounding_periods_per_year
+                accrual_df = 1 / (1 + fixed_rate / self.compounding_periods_per_year) ** accrual_times_num_payments
                 present_value += accrual_df * payment.payment
 
         # add discounted principal re-payment
@@ -346,8 +348,8 @@ class FixedRateBond(CashflowCollection):
             if self.is_payment_received(payment, reference_date=reference_date):
                 accrual = DayCountCalculator.compute_accrual_length(reference_date, payment.payment_date,
                                                                     self.day_count_convention)
-                accrual_times_num_payments = accrual * self.num_payments_per_year
-                accrual_df = 1 / (1 + fixed_rate / self.num_payments_per_year) ** accrual_times_num_payments
+                accrual_times_num_payments = accrual * self.compounding_periods_per_year
+                accrual_df = 1 / (1 + fixed_rate / self.compounding_periods_per_year) ** accrual_times_num_payments
                 present_value += accrual_df * payment.payment
 
         return present_value
@@ -403,22 +405,22 @@ class FixedRateBond(CashflowCollection):
         pv_times_accrual = 0.0
         # Accumulate discounted coupon cashflows
         for payment in self[CashflowKeys.COUPON_PAYMENTS]:  # Zero-coupon bonds should have empty iterable here
-            if self.is_payment_received(payment):
+            if self.is_payment_received(payment, reference_date=reference_date):
                 accrual = DayCountCalculator.compute_accrual_length(reference_date, payment.payment_date, self.day_count_convention)
-                accrual_times_num_payments = accrual * self.num_payments_per_year
-                accrual_df = 1 / (1 + fixed_rate / self.num_payments_per_year) ** accrual_times_num_payments
+                accrual_times_num_payments = accrual * self.compounding_periods_per_year
+                accrual_df = 1 / (1 + fixed_rate / self.compounding_periods_per_year) ** accrual_times_num_payments
                 pv_times_accrual += accrual_df * payment.payment * accrual
 
         # add discounted principal re-payment
         for payment in self[CashflowKeys.SINGLE_PAYMENT]:
-            if self.is_payment_received(payment):
+            if self.is_payment_received(payment, reference_date=reference_date):
                 accrual = DayCountCalculator.compute_accrual_length(reference_date, payment.payment_date,
                                                                     self.day_count_convention)
-                accrual_times_num_payments = accrual * self.num_payments_per_year
-                accrual_df = 1 / (1 + fixed_rate / self.num_payments_per_year) ** accrual_times_num_payments
+                accrual_times_num_payments = accrual * self.compounding_periods_per_year
+                accrual_df = 1 / (1 + fixed_rate / self.compounding_periods_per_year) ** accrual_times_num_payments
                 pv_times_accrual += accrual_df * payment.payment * accrual
 
-        scaled_full_price = self.full_price * self.principal / 100
+        scaled_full_price = self.get_full_price(reference_date) * self.principal / 100
 
         return pv_times_accrual/scaled_full_price
 
@@ -429,7 +431,7 @@ class FixedRateBond(CashflowCollection):
         defined to be:
         Duration = -1/P * dP/d ytm
         """
-        return -self.pv_deriv() / self.full_price  #TODO: determine if I need to use full price of clean price here
+        return -self.pv_deriv() / (self.full_price * self.principal / 100)  #TODO: determine if I need to use full price of clean price here
 
 
     def convexity(self) -> float:
@@ -438,10 +440,10 @@ class FixedRateBond(CashflowCollection):
         Reference: Tuckman and Serrat, 4th ed. equation (4.14).
         """
         ytm = self.yield_to_maturity()
-        derivative_positive_bump = self.calculate_pv_deriv(offset=ONE_BASIS_POINT/2, ytm=ytm)
-        derivative_negative_bump = self.calculate_pv_deriv(offset=-ONE_BASIS_POINT/2, ytm=ytm)
+        derivative_positive_bump = self.pv_deriv(offset=ONE_BASIS_POINT/2, ytm=ytm)
+        derivative_negative_bump = self.pv_deriv(offset=-ONE_BASIS_POINT/2, ytm=ytm)
         second_derivative = (derivative_positive_bump - derivative_negative_bump) / ONE_BASIS_POINT
-        return second_derivative / self.full_price  # TODO: Check if full price or clean price is needed
+        return second_derivative / (self.full_price * self.principal / 100)  # TODO: Check if full price or clean price is needed
 
 
 
diff --git a/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py b/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
index babc016..4a1caf6 100644
--- a/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
+++ b/fixedIncome/src/assets/us_treasury_instruments/us_treasury_instruments.py
@@ -51,6 +51,8 @@ class UsTreasuryBond(CashflowCollection):
         self.coupon_rate = coupon_rate  # assumed to be in %
         self.payment_frequency = payment_frequency
         self.num_payments_per_year = self.payment_frequency.value  # enumeration is encoded with these values
+        # zero-coupon bonds have no payment frequency to compound with, so their yields are quoted semi-annually
+        self.compounding_periods_per_year = self.num_payments_per_year or PaymentFrequency.SEMI_ANNUAL.value
         self.principal = principal
         self.coupon_payment = self.calculate_coupon_payment()   # coupon payment in USD ($)
         self.tenor = tenor
@@ -311,8 +313,8 @@ class UsTreasuryBond(CashflowCollection):
         for payment in self[CashflowKeys.COUPON_PAYMENTS]:  # Zero-coupon bonds should have empty iterable here
             if self.is_payment_received(payment, reference_date=reference_date):
                 accrual = DayCountCalculator.compute_accrual_length(reference_date, payment.payment_date, self.day_count_convention)
-                accrual_times_num_payments = accrual * self.num_payments_per_year
-                accrual_df = 1 / (1 + fixed_rate / self.num_payments_per_year) ** accrual_times_num_payments
+                accrual_times_num_payments = accrual * self.compounding_periods_per_year
+                accrual_df = 1 / (1 + fixed_rate / self.compounding_periods_per_year) ** accrual_times_num_payments
                 present_value += accrual_df * payment.payment
 
         # add discounted principal re-payment
@@ -320,8 +322,8 @@ class UsTreasuryBond(CashflowCollection):
             if self.is_payment_received(payment, reference_date=reference_date):
                 accrual = DayCountCalculator.compute_accrual_length(reference_date, payment.payment_date,
                                                                     self.day_count_convention)
-                accrual_times_num_payments = accrual * self.num_payments_per_year
-                accrual_df = 1 / (1 + fixed_rate / self.num_payments_per_year) ** accrual_times_num_payments
+                accrual_times_num_payments = accrual * self.compounding_periods_per_year
+                accrual_df = 1 / (1 + fixed_rate / self.compounding_periods_per_year) ** accrual_times_num_payments
                 present_value += accrual_df * payment.payment
 
         return present_value
@@ -373,7 +375,7 @@ class UsTreasuryBond(CashflowCollection):
         defined to be:
         Duration = -1/P * dP/d ytm
         """
-        return -self.pv_deriv() / self.full_price  #TODO: determine if I need to use full price of clean price here
+        return -self.pv_deriv() / (self.full_price * self.principal / 100)  #TODO: determine if I need to use full price of clean price here
 
     def convexity(self) -> float:
         """
@@ -381,10 +383,10 @@ class UsTreasuryBond(CashflowCollection):
         Reference: Tuckman and Serrat, 4th ed. equation (4.14).
         """
         ytm = self.yield_to_maturity()
-        derivative_positive_bump = self.calculate_pv_deriv(offset=ONE_BASIS_POINT/2, ytm=ytm)
-        derivative_negative_bump = self.calculate_pv_deriv(offset=-ONE_BASIS_POINT/2, ytm=ytm)
+        derivative_positive_bump = self.pv_deriv(offset=ONE_BASIS_POINT/2, ytm=ytm)
+        derivative_negative_bump = self.pv_deriv(offset=-ONE_BASIS_POINT/2, ytm=ytm)
         second_derivative = (derivative_positive_bump - derivative_negative_bump) / ONE_BASIS_POINT
-        return second_derivative / self.full_price  # TODO: Check if full price or clean price is needed
+        return second_derivative / (self.full_price * self.principal / 100)  # TODO: Check if full price or clean price is needed
 
 
 class UsTreasuryFuture(CashflowCollection):
-- 
2.43.0


From ac85204a547630a78ca7462cf7108dc9938e734c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:37 +0000
Subject: [PATCH 13/31] fix: loan schedules at month ends, recorded payments
 and present value

---
 fixedIncome/src/assets/credit/loan.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/fixedIncome/src/assets/credit/loan.py b/fixedIncome/src/assets/credit/loan.py
index 6134b65..c9c2dfe 100644
--- a/fixedIncome/src/assets/credit/loan.py
+++ b/fixedIncome/src/assets/credit/loan.py
@@ -59,6 +59,9 @@ class Loan(CashflowCollection):
             self._origination_date, self._end_date, dcc=self._day_count_convention
         )
 
+        if self._interest_rate == 0:
+            return self.principal / (length_in_years * self._payment_frequency.value)
+
         compound_factor = (1+self._interest_rate/self._payment_frequency.value)**(length_in_years * self._payment_frequency.value)
         numerator = self.principal * compound_factor
         denominator = (1 - compound_factor)/(-self._interest_rate / self._payment_frequency.value)
@@ -78,7 +81,7 @@ class Loan(CashflowCollection):
         match self._payment_time:
 
             case PaymentTime.END_OF_MONTH:
-                _, last_day = calendar.monthrange(start_date.year, 11)
+                _, last_day = calendar.monthrange(start_date.year, start_date.month)
                 start_date = date(start_date.year, start_date.month, last_day)
 
             case PaymentTime.START_OF_MONTH:
@@ -103,6 +106,10 @@ class Loan(CashflowCollection):
             case _:
                 raise ValueError(f'{self._payment_frequency} is not a valid payment frequency for a loan.')
 
+        if self._payment_time == PaymentTime.END_OF_MONTH:  # stay on the month ends, whatever their lengths
+            end_date += relativedelta(day=31)
+            payment_increment += relativedelta(day=31)
+
         payment_date = start_date
         while payment_date <= end_date:
             payment_dates.append(payment_date)
@@ -110,7 +117,7 @@ class Loan(CashflowCollection):
 
         # unpack extra payments
         if extra_payments is not None:
-            if isinstance(extra_payments, float):
+            if isinstance(extra_payments, (int, float)):
                 extra_payments = [extra_payments for payment in payment_dates]
             else:
                 extra_payments = list(extra_payments)
@@ -134,10 +141,9 @@ class Loan(CashflowCollection):
 
             if remaining_principal <= principal_payment_amount:
                 principal_payment_amount = remaining_principal
-                payment_amount = principal_payment_amount + interest_payment
 
             payments.append(
-                LoanPayment(payment_date=ed, payment=payment_amount,
+                LoanPayment(payment_date=ed, payment=principal_payment_amount + interest_payment,
                             principal_payment=principal_payment_amount,
                             interest_payment=interest_payment
                             )
@@ -188,8 +194,8 @@ class Loan(CashflowCollection):
 
     def present_value(self, discount_curve: DiscountCurve) -> float:
         ''' Calculates the present value of the loan payments.'''
-        payments = self.generate_payment_schedule()
-        return sum(discount_curve.present_value(payment) for payment in payments)
+        payments = self.generate_payment_schedule(payment_amount=self.calculate_fixed_payment_amount())
+        return discount_curve.present_value(Cashflow(payments))
 
     def to_knot_value_pair(self):
         pass
-- 
2.43.0


From 89a428b037c4cd1900cad99044237676eae5d3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:31 +0000
Subject: [PATCH 14/31] fix: yield to maturity curves interpolate yields
 instead of prices

---
 fixedIncome/src/curves/yield_curves/yield_curve.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/fixedIncome/src/curves/yield_curves/yield_curve.py b/fixedIncome/src/curves/yield_curves/yield_curve.py
index fe62626..7cd124c 100644
--- a/fixedIncome/src/curves/yield_curves/yield_curve.py
+++ b/fixedIncome/src/curves/yield_curves/yield_curve.py
@@ -248,6 +248,8 @@ class YieldCurveFactory(object):
         Returns a YieldCurve object calibrated to interpolate between
         """
 
+        instruments = list(instruments)
+
         yield_curve = YieldCurve(
             instruments=instruments,
             quote_adjustments=None,
@@ -259,6 +261,12 @@ class YieldCurveFactory(object):
             right_end_behavior=EndBehavior.CONSTANT
         )
 
+        # the instruments' knot-value pairs hold prices, whereas this curve interpolates their yields
+        yield_curve.reset_interpolation_values(
+            KnotValuePair(knot=instrument.to_knot_value_pair().knot, value=instrument.yield_to_maturity())
+            for instrument in instruments
+        )
+
         return yield_curve
 
     def construct_yield_curve(self, instruments: Iterable[UsTreasuryInstrument],
-- 
2.43.0


From 83556059540ad7fb451119b306bcb5082aef2fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:01 +0000
Subject: [PATCH 15/31] fix: sample paths interpolate towards the nearer grid
 point

---
 fixedIncome/src/stochastics/brownian_motion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedIncome/src/stochastics/brownian_motion.py b/fixedIncome/src/stochastics/brownian_motion.py
index 8e37177..ff72944 100644
--- a/fixedIncome/src/stochastics/brownian_motion.py
+++ b/fixedIncome/src/stochastics/brownian_motion.py
@@ -55,7 +55,7 @@ def datetime_to_path_call(
                                                                         end_date=datetime_grid[upper_datetime_index],
                                                                         dcc=day_count_convention)
 
-    interpolation_factor = time_to_next_grid_point / (time_to_next_grid_point + time_since_last_grid_point)
+    interpolation_factor = time_since_last_grid_point / (time_to_next_grid_point + time_since_last_grid_point)
 
     prev_value = path[:, lower_datetime_index]
     next_value = path[:, upper_datetime_index]
-- 
2.43.0


From fd30a87daf316d0a45e7b96cdcb5b8fb6d376233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:22 +0000
Subject: [PATCH 16/31] fix: every simulated process keeps the grid its own
 path was generated on

---
 fixedIncome/src/stochastics/base_processes.py  | 10 ++++++----
 fixedIncome/src/stochastics/brownian_motion.py |  4 +++-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/fixedIncome/src/stochastics/base_processes.py b/fixedIncome/src/stochastics/base_processes.py
index 2e49a02..3835f38 100644
--- a/fixedIncome/src/stochastics/base_processes.py
+++ b/fixedIncome/src/stochastics/base_processes.py
@@ -7,7 +7,6 @@ from datetime import datetime, timedelta
 from dateutil.relativedelta import relativedelta
 from typing import Optional, NamedTuple, Callable
 import numpy as np
-import copy
 from fixedIncome.src.stochastics.brownian_motion import BrownianMotion, datetime_to_path_call
 from fixedIncome.src.scheduling_tools.schedule_enumerations import DayCountConvention
 
@@ -42,6 +41,7 @@ class DiffusionProcess(abc.Callable):
 
         self._dimension = len(self.drift_diffusion_collection)
         self._path = None
+        self._path_datetimes = None  # the grid of the stored path
 
 
     @property
@@ -78,7 +78,7 @@ class DiffusionProcess(abc.Callable):
                                      start_date_time=self.start_date_time,
                                      end_date_time=self.end_date_time,
                                      path=self.path,
-                                     datetime_grid=self.brownian_motion.datetimes,
+                                     datetime_grid=self._path_datetimes,
                                      day_count_convention=self.day_count_convention)
 
     def generate_path(self,
@@ -91,7 +91,7 @@ class DiffusionProcess(abc.Callable):
         """
         brownian_increments, dt_increments = self.brownian_motion.generate_increments(dt=self.dt, seed=seed)
         solution = np.empty((brownian_increments.shape[0], brownian_increments.shape[1] + 1))
-        current_val = copy.deepcopy(starting_value)
+        current_val = np.array(starting_value, dtype=float)
         time = 0
         for index, (shock, dt) in enumerate(zip(brownian_increments.T, dt_increments)):  # used to be dt_increments.T
             solution[:, index] = current_val
@@ -103,12 +103,13 @@ class DiffusionProcess(abc.Callable):
                 diffusion_shock = drift_diffusion_functions.diffusion(time, current_val) @ shock  # shock contains sqrt(dt) scaling
                 next_step[row_index] = drift_increment + diffusion_shock
 
-            current_val += next_step
+            current_val = current_val + next_step
             time += dt
 
         solution[:, brownian_increments.shape[1]] = current_val  # solution has one more slot
         if set_path:
             self._path = solution
+            self._path_datetimes = self.brownian_motion.datetimes
 
         return solution
 
@@ -117,6 +118,7 @@ class DiffusionProcess(abc.Callable):
         Helper function to set all the paths to None.
         """
         self._path = None
+        self._path_datetimes = None
 
     def set_dt(self, new_dt: float) -> None:
         """ Sets a new increment dt. The old path is set to None because any path
diff --git a/fixedIncome/src/stochastics/brownian_motion.py b/fixedIncome/src/stochastics/brownian_motion.py
index ff72944..5891bbf 100644
--- a/fixedIncome/src/stochastics/brownian_motion.py
+++ b/fixedIncome/src/stochastics/brownian_motion.py
@@ -82,6 +82,7 @@ class BrownianMotion(Callable):
         self.lower_triangular_mat = np.linalg.cholesky(self.correlation_matrix)
         self._path = None
         self._datetimes = None
+        self._path_datetimes = None  # the grid of the stored path
         self._dt_increments = None
         self.day_count_convention = day_count_convention
 
@@ -118,7 +119,7 @@ class BrownianMotion(Callable):
                                      start_date_time=self.start_date_time,
                                      end_date_time=self.end_date_time,
                                      day_count_convention=self.day_count_convention,
-                                     datetime_grid=self.datetimes,
+                                     datetime_grid=self._path_datetimes,
                                      path=self.path)
 
     def generate_increments(
@@ -161,6 +162,7 @@ class BrownianMotion(Callable):
 
         if set_path:
             self._path = brownian_paths
+            self._path_datetimes = self.datetimes
 
         return brownian_paths
 
-- 
2.43.0


From c14f0950c0ffc2e2aca37617df1a77853336b015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:22 +0000
Subject: [PATCH 17/31] fix: geometric Brownian motion starts from plain
 numbers

---
 fixedIncome/src/stochastics/geometric_brownian_motion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedIncome/src/stochastics/geometric_brownian_motion.py b/fixedIncome/src/stochastics/geometric_brownian_motion.py
index 4465326..c8e961e 100644
--- a/fixedIncome/src/stochastics/geometric_brownian_motion.py
+++ b/fixedIncome/src/stochastics/geometric_brownian_motion.py
@@ -86,7 +86,7 @@ class GeometricBrownianMotion:
 
         brownian_increments, dt_increments = self.brownian_motion.generate_increments(dt=self.dt, seed=seed)
         solution = np.empty((self.dimension,  brownian_increments.shape[1]+1))
-        current_val = starting_value.flatten()
+        current_val = np.array(starting_value, dtype=float).flatten()
         time = 0
         for index, (shock, dt) in enumerate(zip(brownian_increments.T, dt_increments)):
             solution[:, index] = current_val
-- 
2.43.0


From 1d32cd67d4acc480281465777337c8f0f9e28522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:21 +0000
Subject: [PATCH 18/31] fix: integrals and discount curves of simulated short
 rates follow the stored path and its grid

---
 .../base_short_rate_model.py                  | 55 +++++++++----------
 1 file changed, 26 insertions(+), 29 deletions(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py b/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
index 2935b1f..dd3cc15 100644
--- a/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/base_short_rate_model.py
@@ -51,7 +51,7 @@ class ShortRateModel(DiffusionProcess):
         The short rate is the provided transformation of the underlying state variables.
         """
         state_variables = self.state_variables_diffusion_process(datetime_obj)
-        return self.short_rate_transformation(state_variables)
+        return np.asarray(self.short_rate_transformation(state_variables)).item()
 
     def generate_path(self,
                       starting_state_space_values: np.ndarray | float,
@@ -62,16 +62,24 @@ class ShortRateModel(DiffusionProcess):
         A function which generates the short rate sample path from the underlying
         state variable diffusion sample paths.
         """
-        #self._reset_paths_and_curves()
-        self.state_variables_diffusion_process.generate_path(starting_value=starting_state_space_values,
-                                                             set_path=set_path,
-                                                             seed=seed)
+        state_variable_paths = self.state_variables_diffusion_process.generate_path(
+            starting_value=starting_state_space_values,
+            set_path=set_path,
+            seed=seed)
 
-        path_length = self.state_variables_diffusion_process.path.shape[1]
-        self._path = np.zeros(shape=(path_length,))
-        for index in range(path_length):
-            self._path[index] = self.short_rate_transformation(self.state_variables_diffusion_process.path[:, index])
+        short_rates = np.array([np.asarray(self.short_rate_transformation(state_variables)).item()
+                                for state_variables in state_variable_paths.T])
 
+        if set_path:
+            self._reset_paths_and_curves()  # integrals and curves of an older path no longer valid
+            self._path = short_rates
+
+        return short_rates
+
+    def set_dt(self, new_dt: timedelta | relativedelta) -> None:
+        """ Sets a new increment dt, which is also the increment of the underlying state variables. """
+        super().set_dt(new_dt)
+        self.state_variables_diffusion_process.set_dt(new_dt)
 
     def _reset_paths_and_curves(self) -> None:
         """
@@ -94,12 +102,9 @@ class ShortRateModel(DiffusionProcess):
         start_date_time = self.brownian_motion.start_date_time
         end_date_time = self.brownian_motion.end_date_time
         if datetimes is None:
-            datetimes = Scheduler.generate_dates_by_increments(start_date=start_date_time,
-                                                               end_date=end_date_time,
-                                                               increment=self.dt,
-                                                               max_dates=1_000_000)
+            datetimes = self.state_variables_diffusion_process._path_datetimes
         running_integral = 0.0
-        old_time_accrual = 0
+        old_time_accrual = DayCountCalculator.compute_accrual_length(start_date_time, datetimes[0], self.day_count_convention)
         interpolation_values = [0.0]
 
         for start_dt, end_dt in itertools.pairwise(datetimes):
@@ -115,6 +120,7 @@ class ShortRateModel(DiffusionProcess):
                 next_trapezoid_val = min_rate * accrual + (max_rate - min_rate) * accrual / 2
             # compute integral
             running_integral += next_trapezoid_val
+            old_time_accrual = new_time_accrual
             interpolation_values.append(running_integral)
 
         self._integrated_path = np.array(interpolation_values)
@@ -132,17 +138,12 @@ class ShortRateModel(DiffusionProcess):
         start_date_time = self.brownian_motion.start_date_time
         end_date_time = self.brownian_motion.end_date_time
         if datetimes is None:
-            datetimes = Scheduler.generate_dates_by_increments(start_date=start_date_time,
-                                                               end_date=end_date_time,
-                                                               increment=self.dt,
-                                                               max_dates=1_000_000)
+            datetimes = self.state_variables_diffusion_process._path_datetimes
 
-        if self._integrated_path is None:
-            self.generate_integrated_path(start_date_time, end_date_time, datetimes)
+        self.generate_integrated_path(datetimes)
 
-        compound_interpolation_values = [KnotValuePair(start_date_time, 1.0)]
-        compound_interpolation_values += [KnotValuePair(datetime_obj, math.exp(integral))
-                                          for datetime_obj, integral in zip(datetimes, self._integrated_path)]
+        compound_interpolation_values = [KnotValuePair(datetime_obj, math.exp(integral))
+                                         for datetime_obj, integral in zip(datetimes, self._integrated_path)]
 
         self._continuously_compounded_accrual_curve = Curve(interpolation_values=compound_interpolation_values,
                                                             interpolation_method=InterpolationMethod.LINEAR,
@@ -163,13 +164,9 @@ class ShortRateModel(DiffusionProcess):
         start_date_time = self.brownian_motion.start_date_time
         end_date_time = self.brownian_motion.end_date_time
         if datetimes is None:
-            datetimes = Scheduler.generate_dates_by_increments(start_date=start_date_time,
-                                                               end_date=end_date_time,
-                                                               increment=self.dt,
-                                                               max_dates=1_000_000)
+            datetimes = self.state_variables_diffusion_process._path_datetimes
 
-        if self._integrated_path is None:
-            self.generate_integrated_path(datetimes)
+        self.generate_integrated_path(datetimes)
 
         discount_interpolation_values = np.exp(-self._integrated_path)
         discount_knot_values = [KnotValuePair(datetime_obj, df)
-- 
2.43.0


From 82de74282a310c9ef6db6f8deaac2f60e80098d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:54 +0000
Subject: [PATCH 19/31] fix: Vasicek model prices and yields honour the
 purchase date and the current parameters

---
 .../__pycache__/__init__.cpython-312.pyc      | Bin 0 -> 160 bytes
 .../base_short_rate_model.cpython-312.pyc     | Bin 0 -> 10165 bytes
 .../__pycache__/__init__.cpython-312.pyc      | Bin 0 -> 186 bytes
 .../affine_model_mixin.cpython-312.pyc        | Bin 0 -> 3082 bytes
 ...bly_mean_reverting_vasicek.cpython-312.pyc | Bin 0 -> 9082 bytes
 ...astic_market_price_of_risk.cpython-312.pyc | Bin 0 -> 6959 bytes
 ...bly_mean_reverting_vasicek.cpython-312.pyc | Bin 0 -> 9899 bytes
 .../__pycache__/vasicek_model.cpython-312.pyc | Bin 0 -> 71669 bytes
 .../vasicek_model.py                          |  61 +++++++++++++-----
 9 files changed, 46 insertions(+), 15 deletions(-)
 create mode 100644 fixedIncome/src/stochastics/short_rate_models/__pycache__/__init__.cpython-312.pyc
 create mode 100644 fixedIncome/src/stochastics/short_rate_models/__pycache__/base_short_rate_model.cpython-312.pyc
 create mode 100644 fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/__pycache__/__init__.cpython-312.pyc
 create mode 100644 fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/__pycache__/affine_model_mixin.cpython-312.pyc
 create mode 100644 fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/__pycache__/doubly_mean_reverting_vasicek.cpython-312.pyc
 create mode 100644 fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/__pycache__/stochastic_market_price_of_risk.cpython-312.pyc
 create mode 100644 fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/__pycache__/trebly_mean_reverting_vasicek.cpython-312.pyc
 create mode 100644 fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/__pycache__/vasicek_model.cpython-312.pyc

diff --git a/fixedIncome/src/stochastics/short_rate_models/__pycache__/__init__.cpython-312.pyc b/fixedIncome/src/stochastics/short_rate_models/__pycache__/__init__.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..23eb12ec66e6bc0aca60ad6d7f5b302f735f6025
GIT binary patch
literal 160
zcmX@j%ge<81cIJlvq1D?5P=Rpvj9b=GgLBYGWxA#C}INgK7-W!vez$4Ey&kT%dALE
z@ytuk&rQ`YE=txfF3C^MNGvYNOfJ?h&d4t+i7!elNsZ6VPf5)w){l?R%*!l^kJl@x
g{Ka7d6fDh2wJTx;n#Tyl#URE<W=2NFB4!{90D8wLLI3~&

literal 0
HcmV?d00001

diff --git a/fixedIncome/src/stochastics/short_rate_models/__pycache__/base_short_rate_model.cpython-312.pyc b/fixedIncome/src/stochastics/short_rate_models/__pycache__/base_short_rate_model.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..26f9041fb3afa5429f5b2001e30014ca3b3f818d
GIT binary patch
literal 10165
zcmdT~U2qgvcD_A-YDpuF5c)$Jp%#*W;YVN)MhI45Apx?D{=lp~fo(?9Eop|H8SU*B
zAbBPsTU14CdCT5Pw(Lz+D!B5nxNucO<-t7c1Di@!sLIQ9WNOB3QKk~V?Au`B-L+qm
zb8b)fj0OpNlk7w8!~H$?x6k>`x##x3RaI3G2>+h=ujs*Tg#0HKtl-XPR{sMs?-Pkg
zoI+w;kc*KZi8+D}4(l9>Gv*4qSl+3)gC3}JDrLbkNL>maD-V{(DuNZP-K|u{yg_fC
zwklW!G#;fo<_r2*U71o7+Z5cy^1M<T+Z@~+s|(h#a=B6;YX~;5e1*~&YYH~8e5JA_
z)*Nh(wFFyY{-B@Ld6m}K*5KAyTd*xA1O--C1!K1d+d1MOr-@X3lSn?f{jSs8V{qHN
zGf?weECif}OA2YS!DFmNVzN<=u_P;6D8Lz2R8~S-<f>UQ5^xy&=&Tk=#6ya~pA0EV
zXi|}Zt~xZSYBUtqVzM@qkf5e^Ff@NMF&Ec>Dm({+Bq*z;ktuC3GBq`)!YE^*2!%20
zt;t0#A<l-h88Hk)8`T3eaV;JR#m^>i$~A)~;#cK(zP9{act)1y6q&+yss<x!n9Vy!
zugXT%Yw?73A*9U7IG5o*iM2ph!7{^fNxp7W4#lMbc_wr<lAy-s;kYK#*#vGo5kG5f
zr>3xGnh49P8aB_;jLY+d)fJAAzXJA=NsyCB&>?ZMQ+7oe+ZA^pWSWybQ;scADLLda
z$tk&}Jd0$CliWAGL0&GGHt09ykUTeCck_b<D_%%hRzz9JD7|tO&IzONMQznE8>~hu
zzv&A4%1Jqq8l(zXw~(KvD3Lu2Ww7Q-d6VRoy>czv!A5K4rK+3m;AW{>u9NFoKisE_
z?b8SQY>*mRz6SD*Qj@d^Mr@L|$jwNLBfoHTmsAU*x4fXAf666o2AWpMC2x)P7i}Y-
zg*~r7XPvwi&ZKI}Bh^EHVUb+tg6-!>V2e?GZYDvs2@sdF2@n%wi;88DLWKw-5Lc%X
zG{%_6Xje6?y&9qsloM5yEXEgSO)fG#RMzHbd?cKgO|~w?A}p`|4x(Rh?~^2#BqD3V
zDCvL_Fq#=OmzBHaOp>2fK|6^$thz!P<qLT$w*lok?79J^*BYsie#}`ogGdA`g->Y)
zR<c*YN|xZ5l=i&yB;XhUDQ%VzE{cvVoKO@wjFM^iCiCbZ#uz*p4oM4CQsfxg43Xhh
z=VoPU@S+%rM>J8St=O~`qc&`>5sSVYq7KwVK=`NeQ%Venj4m;p0GNr-CFWFR9tyEp
zz!nLbL*X!;3n?a<50+@6ju>VD<1$>TtV|WHrd$-mN=Q{jQN<4?2*QnTU*AXN*~Gr7
z$aPs7j>F*cK9z>|sahgD6H>KESlw5&#2B)hx^FV1%Ec>Z)!no6v>k?BXk5#k-PY#o
zpi#XB(I0M*Tm{*6l3R3r%5TrUG=XXN3SV`rOy`@H1~WZDy(gIInbUjbvVpysz^EP=
z%>+a}AZGnS#y_C@2QvO4-9MCblkzRkh@<>8m*Yu$7Y@{#6*|rI&=E`zWZOCxU5|MG
zDojnnHq$}@^Nh*yV*!hkD5Ry~9QlYF32+p&HRR}aNL1`7(47z)zM|v7FSxL^WcwxU
zozQ8u8loHIiEnep*QxtD(|jilK-K?badbCygynTWLia$lW^pCV^xWb~+Hps;8>9d2
za=O-APW4(AU1%*is<q8*GesxWq5C@0e22NTVsx>wY7r)7pRxEOLmh@BcQ;>~a%eWv
zMQ!9VsTd`R+IUe^>#+J;Y1BrJ0+po{0j9Zy+Z7;UEKD$jRRwKE78pOEd<%fmtR|eG
zR90sbaVZj?7A!-g+wOhd>Lsvl5px`X@2e4j0bwoT3yCQ<C_)5P=5a)(0t8zH6b25s
zO_*}TXN|Iu8lp5b&+x)<MKn1Ua58Q;yw;M$#AFm0eyv7P@i1YRrZ@o9q2VNo>%f57
zuph|P!w@kPXlctdpU|66Jn%0!k1YCDe4E}~xV7*>XQsJVZ|=R{w%k0t?0Yri8`XWI
z%f9h6KhD0t(E_WWfQr+ixg2#i6h<`%R+eh;s;rr)2oNYs;o^^s0MBH;7uaDVnUC5G
z0@V2c3eb^s7F0{hrCA0$iFz!mLYj1~r|t&HyY8@KnuHyfdI(9mi^i~3Pth183d*!J
zB;6JZT4~f*N<)ania&R}^Rf%(OWD0ro}_~|0@`ibxEDu~9#EV%izhwjU<{6pa}8AE
z!cT4Xd_|a=i!+5NT$_o6XM|}vE+eNF@w>^nYA80V$O6KoFhvuw5=OO0T+6V6ZL$bO
z1E@u8>@=!vc3><(kHXIAF^B>cCW}{Di(-61;p{;>Gln;~^YjpsGqwFPHZ+PLk9ihS
z#ZX)_RjO*ZS?@p@lMC91z3iEcI+GJEIb)<M?Zp8r3rav$5nLE5<Yk5)hl&M%2^Owd
zFAk#qEkqzQwM6L5v<>NPLz%X7dfT~d%gfpN*6gPGTp1D0bF0KDG^Tm~vkKC<<^7qT
z&twn3mN|S@KYaFgPEHu*vYiK?IZ1oRuPQ#QxYLu_J*@8@ez<RWcW_zwvy5<A7cM^%
zCch#`x=OglF>bN)sfT#$vfi4Ecc<>%`KfnTc1!2t;5)BA@inLU=5N08A+d_W@arQ3
zjlAKB%hyCn3m0QF3KSE&AY{;<)F3s(EwCkj2E7Xi4a`T@L+16x(h>rW%yYn)ZwcpQ
zO%*}{tU`#y!&HvJHBFGTJ$d#7{0u2-f-zsA{kvgP0CSKEux7)9%pqxvv+^KGPeB9S
z0Z|?gZ!kQhXP{=GzU14Q-A9qQ10t}8zC`2aR`q*VKjpV(d2fdA*7@!Xe@N#KEloY*
zfAG9Me$jz~sg4I~ApjV`XuR8>gO#v93#?=#BrDmt#t!tjEth9x1<cukxN8XkwgRWA
zu){>T2ANL?BZ;_N5YLf-haDRofccmiWg07;SnPr*;4tNhogS`I$R8edSlC{2cpJ#(
zd7xEMx4>yW<4Jin8k0Ld<pZ`kxPe({>XULy$Ej=B7I7U<YV~7S*GAgnMrFaEkZd#K
zCvfKLGVwaPA_XF_E-eppmxPov$=zrG`gQb0be+pkijy3mt85JsttlB0ilEsz$%z06
z<JLakZe6ERZpkstr94`_MH6kXa)q=Y$b;n4UlVc>&MsA!;vF!0vdj`!R^qKvsv=dc
z;R0AlmM1IjA}2u5TFeyIR#cnvrYgU4PyBc6rYc#LbT7a;rmB;blJg48NNbbcWc32V
zQDxGLZDvVwEmQ(C!ctPc_$FvGX}rnG^=Xo>q;COqcgmHlO1YDsDBk=^LegdJo+I!4
z!bLQ^6S5E$@|mI}>9MFmmTk=qJKR=8l+S|s>0Y>5k=HVU=|W=mCcq&$2EZr`nQGY7
z*l-6#jTZ;pL=!cCD^M(3l4&nfg`<qy<7&d*ek2y(*2Mj(AHA)m1S+b6AgMOVw<pI?
z+XLppt(3wH%Df2=!l?*VHQQEz^%N<0oEQvZjm@ccPg^^r$P>TCC{Sy-a4kj!^Q;X~
z3Pv<uteJfZ&JdJmk$DrVWKiIC(KH8qOgpn$q){mflhJ^e>pAFW-K-TkJ`Ho!Ng=#=
zgC`O1;(4#1Q4TgT)e;E>49;2b>|Kkfvf+$H;t++d8=lbYEX>SI4SE8GXQ&sbF|qDd
ztQf;+93rEJ&c)+s&00rq)Fc#%t>0RVQHO1|Td-j3q9F|0$ndazYDNXKg_t+U;IR&E
zF@uMNS-H@4GgpI(8uxF{QI_AiQ5%=9Yv@dxl@}5b31?FgI4qX3Qq$^hvaOZ;`YrFp
z!j2O3-iYu=Ft+*^V3M<2fw$(}Be#yEEB!0A{&ef)a&0*64L@n#nrZIVo4Yg3{d#l%
zqA%Oz&ou4PoAzXy`t+v0#j0#&9rR(<{d!Y>rfEcP8d)69wroxFO)D*XGcAL9%ises
zeL+lL4(S&r)6z^vO6gK+x#iD+Br9}$FbB5NmqH*T9MFXWOGlQ4AACis%lmY%fAP$F
zQ=fJ0xWoTL|Gl33o_{*_0l)a_N_*$+;8N3ad*825KB#zjX8G6~@69ZpS!sJI({@I0
zJM*wD9lV^LoXSkTtxvwa+?Gsx{n>`?>A(@a;mG3YoQKpjebD~XWVUPXQkmX$_<rw$
z8U5%;dg3j;@2&L3OM2fWz3Y-*v+c<X3DQ8|^`~Lc-UB#8+dhoFLdLs8_wGpV?0w`t
zl52&1JQL9N<3Hrnfgdaj{idVjIX?tSm=#bmm<sem?f+L52ry|YKx<<F?Y6S!h*p49
zRNU(+!ThPf70v~hI48Trff2*hn+vXTwo**Gv_@-|Xp@yIq(v9F{Frb_+wLMMPYTB=
zC_Inmw|Yep+)4thQz)r|V$z{)vudMgWR-*$w|?xnn>SEE&1|;1!c5z(d?C$W37si-
z$_1A~=fb>=`=?%XC1egt0W{8>!gLY43l@7h_gY>~)Ks96>|skZQNhThufwvy(7Xsq
zDN>pbLdLeW__;2oS5tXP1~mn~1k@PDCPfD4FM{Z#^*U2aBhxc$>jHIj1m>k^(VN~~
z8`+t<p%d6Jg-dfTL}pF%7x~R_ft!BDaLU(bDRLY|7BW1q504DJGC|R#rFB^29-5dK
zoiMh4rz_ZW{pRndYjq4opNqlU3Z~UMW2SRT^~!U%RHMpLifoSO?yGBBe*#mf_;T<k
zK=UVfJ?hf=uG^7M`Tfs4<P7&3_wY#iLNIgTihkkB@@eJwPA(AVKHGcp&c*w^aNFH=
zcq#cW=l}K1-@N&7W_jp`j{<Mz2vVf^uBR*mqZ~e#9*?h#OPTR2`uLTs7|w{-b@6)k
zwcyIgTbU729}!nZgPGCG`sn3nmF~ln%zJ$>S50c_GQK|D*O%t|zFDouaaEL{fA$0h
zd5=-ajtkBhp83|iu%K&&;p*#v0e?bVg%_FceYJ4?u~!Qi`+MW+dYB6Rk-<wsCAn+)
zYTX4S1qYnlx)cBgd)_U}V=zb(!(dOUtmq2ifvZLVT{i=|@_?^pMd-?Z2fE^=Oek3z
z6gN1}JZcuxzZhv>+zL31jv@$u1P+&_Jcz?1CK{G8G^8^yhT&!mNF$J^QH-u&q(Joj
z!OJvd6WFl>qZmdAV-zhzhFx?Pb2f0%A7hc-@ym<s-m6$^L!{Aa`~BA<wCT+?amyi1
zff;VSa9x2H^}GSBq8wS)Xx<53&u%#Y;TF9KS)C=e=(<#Y2g9lG_XI*0PyTNW(Y4U^
z<<4FI==sRA<jU+H()SOg_YE!YJOz;SW$)4Z!|Bt~a<2?PCQNgmb@tqTeQ6uI?Yi$M
z_Xi#c#{s{f0ZdiEFUSCX347B67gh$|$P8T62QFq0_Gib=XT~D>SR{MwMCRC-erzmr
z?6Q9B^2+g7GsnmD<6|o)Udx;q*H4T;tMUlv7@YZYH4M)3Pc7f9Hsa_eocS9D1y8_n
z9{#|fXrYXlFHhU>bu%7<JA`Odi0}}Ke?dUrD~dmc$4Rq=q93Dh6EfUWN+P6D^c}D_
zL%2ZE1h|&8dAb+t_G5(XZ*tZF%pHNqD2q#`)7CW!7cavJ48z=~6kS#nMUZ*in5)Tf
zDG~T1#D$dzv`hh;YIY8bXxtdCk<pPMn#62X{&_Sk<NF0XsWE>P0?`T6mxq=d#Ryfk
z`j^o1hnpnls&;o~_w+1Hell}!W-0ifK7HtvzUOq#3H48U26Jvm!OU-L`ML~q0`XMm
z9GtuBcI~g4K5PO{tGjE}X;lK@_iFCE&EIL&g~Qmr)9w!Qc-#}*9rr51G*?G<?#b@i
z|Fo>$-I6_c=###CeGlCF!J(WJDxL_PIX9#*Woy^%bH6;BLo(ob|JJ|n{blcJIhMMe
z?*0$nf~i_x&JoDp@A(>&uPb<W=hM1&ch}O+`#lf%hdsaX=|{)(1LHXYmFY`j=8~*m
zl2@_x^bEJfef0MACD+oM4_x;|;B|e+sT_gI^u!NWG0pXoA#Rw<zI61HwtH<)-OX^M
z+jiaQS>o^a-1F(XPw3lT$vL6+NoRKsTb~R~{2o*0ykp-a&{6cIksFK#wBY8nh|<00
z4<g1ThC4nNg9qy#{G@TD_Gt67U~QUQhwN%NLz7{O=tAGX;-R89@@{w|?^exUe(=`L
zya3%r7Nz~ek?C02^<3Y=`+7HfP0#;~0iK9ToNV_CJFNZdfTGin;yaP?@^jrv*O*_l
z3^wgt3}0#BKL(ZJE35JRA~)(xDJp%Vy>vDPv#PlvmN&(hsR)!ABd|da(?(jeB$Q5O
z{F-`&K?Ta*N9Nl!lgMxRV<z78)4zcx6jc?C-kg);xGzYzPP!kH{hyQC&q?JMr0X%+
y`Z=k2OwK<h!(Wg~kI5U4$%!w>xK75uAd@<od`wP1^T-aaGhN^HHNgzyum1+h#d|aW

literal 0
HcmV?d00001

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/__pycache__/__init__.cpython-312.pyc b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/__pycache__/__init__.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..bfe0f7832a4e052443c9967a4cdaea37c1fc679e
GIT binary patch
literal 186
zcmX@j%ge<81cIJlvq1D?5P=Rpvj9b=GgLBYGWxA#C}INgK7-W!iqtPkEy&kT%dALE
z@ytuk&rQ`YE=txfF3C^MNGvYNOfJ?h&d4t+i7!elNsZ6VPf5)w)=x}J%gjrSugpx%
zNr_J`Eh>Y{#K&jmWtPOp>lIY~;;;cKFU?7{D`ExO#0bR2AjU^#Mn=XWW*`dy?*%f^

literal 0
HcmV?d00001

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/__pycache__/affine_model_mixin.cpython-312.pyc b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/__pycache__/affine_model_mixin.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..90cf7d7a3bc53c6efbead7d9581f4ef9e22261ab
GIT binary patch
literal 3082
zcmcgu&5smC6tAA?nVp@TSw2JrH$oXrU|e=aBw}K~gg~MsvJ$co=%|&Rt{SGbzo@ES
zm^ql3;NQR%ZxSvZ{S!#M%*KmpLoo5=$$^bA;b45PdS-Umb+h2XPUm&it5@|te($~N
zAM5ohfoIS8KfgF!A>=olj30Y6SicH`JA@N%1thc_D<lrFa9#)sVbLj?aWSwR8+dk5
z3d>H}@Jhi<SaB-htTSto0{M{e@@>Lr?icctoocVxsQiwTMj^Agt3_5ps{K$jtZd$G
zD=l45heCH_z6`9&CyDms$PHk_-g9p6Y@9~=Y#gnM2>DYyH}KNH)v@$)WjO^O&9lDW
zLZ1Y2EKZ!lW$?`@@`7WFk|-Yp5i!Gyr{D{`$`sE=o|xrzUJ_MahLx(A>(3B^d-x15
zbjrMPyL2CB_&Bv4WM`*j>)XqUc{sN^CA(_}*|{m%-8;zEreyc@3XS<}_nA(|kHm$T
zi{OHP%a8hBRVh4YsF_hOaFwE+SW-Xof|UEwb=pZIFNen0J+syqGG6lHG>IeHjw4PJ
z>3c#^7lu7w1YDUz+pZFvf{Y8V(VMT*5Y;!0%yPD1HZ!FmJ=m%%eYYJ5=Eb7ZQQ3ky
zZkxq==;~C0QOqP*JxQh41)ce{ECsAaUNHx3LUF#16>x|2tVW^#x3L3*a8dfJU<B=o
zAQ6)0xk+_QmC#go1vN(bo)0OhXj^EPy?u-}o6TeSB%yJ~$QfVg*q1yQs3667z<I`F
zicy3kCs9<ej`2oKfItXI{(g00oP*L(6c}?b)D!eH6}OV3BRl9~J~%#6%Z>vNj2o{c
z8!HKIOwL`tNA49fTZy0}>kt(=4@6;*z~HA|ONu0Jb^Kd`pO3sa6fGsameMgsTKk@A
zsctMalZc+dRkd=gSq`0-%GJ#)MvjG;f6b(q9b}#qxF2(g<>`>)-+ya!zBad&-32DE
zWB>V@tOF%G0{_P(2LBuI-l%tpE#QypW*fk-VNn6#dCrXyeLk!wUM|Z$5Ei)?$QWO_
z4<?)9KZ4EF-%jzLmOX%n??>_qkR79cdSchvaZr>={k%A!lH4sp%3B6j(zd?r$Et$v
zfps#KPyHiX66xOsUw<(#?r!G=UUW-()bETlD@)^cWqRf@db2B}pqiedD;tijm^K4f
zUX;eE3VP6H!vwBE4xPh9oBE1!flb`BlD42rL45t_MW#PrY0wruy0WAj8|S@1pv>{l
z6DT8i<i!H@<s?v-Ok2*e9!1HIpkqex3h)_w-%VF?iY<js?hx#XTQ3osxYC72Eu?x5
zpI?1O5gREoy{o^tB|)|qZa(9C!&+|a%_@vVU<qScm0=@H;Syt6jj<c48;n+F7~`?W
zn4H4{%0S@X$oF)%i!nEfVz>g~S4V+B4FyU_uoFwXuH?%|@NXn5b%NN{ase5yAvui1
zR5#Y1scMP8e}=$63{fZGujm`{xKJ!rh81$+y@7rB?t$;#{PxgK_Q{{$IXON3we-^C
zLb+7?UJnU;9(**od~NV4U%SlLJ{E>GxRE}=rS&2y?;E1*a5s$p>#ic`IyWTnd2nEG
z>B``myLQQ4JKr{}L8PAG(nuGKhE=1>&Ue9Q^DbbSUGN?4g3+*McESE1>|EE?!4+rl
znOM6b)-H5%UGnCJE{s*p^fD90#$1j9;*k~IwrAkUY$)n(R@S`)uI?Ptcc*U4Cft@y
z<#h$*0|+o3$AM~cw}&k%(rkPo#8M(m68~az<eo+IY2{R&Qy<7h5CJfWIs{}`v@Gip
bdE+5D^b47LNERNE?qBwzReM5!80-H54dq?_

literal 0
HcmV?d00001

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/__pycache__/doubly_mean_reverting_vasicek.cpython-312.pyc b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/__pycache__/doubly_mean_reverting_vasicek.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..08c96fedacff93dccdcbc6d93a7f1ef3519983d0
GIT binary patch
literal 9082
zcmb_hYit`=cD_Rn$sxsuBuld1rX=b?*?Rf0ww&0qY{{1Vlx^9L89TESXGD?aLzx-b
zmMV7@z{M&++I4^~;w%b80Tx&X7Fq-C4+H&Uv?x%ZK*5QWa5B3A95e;i|L8}MY<~5e
zOAbj}v||Jvjqcog?z!i_&i&50hyUerIS4!z<KIOGS_t_cEEo^1A%uDQ-)2HSA_5VZ
z7>P3hh9Pz=nPR56Ibe>P0;V_{U>T&DW0trzV5NCBW(#mYv&8IiN5Da8)>v8G8F0p3
z0T)9|<OmULH;KTB&b!bDJ^{Dr5$spG2)V^bpVEHVSb4l6P)XZ6Vw>Vsfhx$C1*!#S
zphj>7HVf`Rt>6jNLAl;UM3Yc1RKOp(%jRS@P->;HNvIO4g_^sT9K8|fZn0Y2EY^!P
zVy##wHi(U@o9}YD`X-?w&<s3P(fwIUaf-Z9#|jm9nJitXU9HRa>4iEjda$@fj;mg9
zhD}DBKr8T7Mh}<ZYglbGxNxmRpV(}aN66(-SgUriDSBdKOR-gG65CgsjWuP6=p7-y
zAt6&3{x7=-xq<SU7KtHG*s=g?@}cPi4+|VONT8FBYNCW}uh=P+3EtHfW2OxG;0TNI
zDx+sg@Ha(wZlq@W6Iz8f!MEC8kVK_Smf-iSb{J!&Yf%|Jzme;1j)e1t{b%b*(X4B5
z*05d|H?}LW4z;;;=%FKeo!zO7UfL*G=zL++C08^%R<Y-<DJvm2!~chMm}lqNkcpvt
zdJR$|=kI!iUHKWkESN|nm7o$yCS<=^XN905>Kvv@BrfW9Oa(Ef1cBEji80{3nkAeB
ziu<6Hyq1Ur6DN`=!Ee%QPt3)DB`8He#QC5c35i!uBte3{`A{$xnUZK%6G15$S43%Y
zepU<>FI(=!GEe^vsJ{l(5lMg%NWdg80W<6cE0|Wz#+ptuc0i(^{u3O_WSSA!o34OG
zw7w`sFio3E%K$yM+_V^46|jk%;1sMk**wKAxB$P{fCIi9e9Pc#hp%&)TxSBVv&8S#
z>qnAvQ?dCIVlZ(=yedjcBoWT7%fhO|n|lPW#4FkSKJS&_>}=56rOb#*5U4#^=l2SV
zcdJ*9gyTV8@(LGtsi?8R>fPrJ#%5=rv3Cj@L(^Q%bImCYMbL~RFNaFa)4d=}nn^;x
zS&m1Da<J!?ndF=#hjP||Zk`=dz;EX1Gf02Sd_)$RMZ(i6OcqU0%3&mw%uvc{I+R!_
z<**-07AWO(07_OU<*=F%1#m0-MBPTN@D&(CE1*pdzn^PUS>QEtizJ%w%b-E8C8-6(
zzTqeuNolFpf;1y1n8L6MQKMM&EyEs*%0@N}EsQzcC<C7Sni(8)togYXsEFmjU%W%P
zO02oz{K@f`kSUlKfVv2lYtdPHELo1?QNvE;$DlZk@kIfNUwoo<FH-0Xsy0&dE8<e>
zjoN6Vkt=**j3ssfs3qnG)I!62uJkN{nx9jim4q!tqiHVCjU2Qpp=n{JsFl~?Eqs+W
zBM<G%jeOy2tVIM*R9+L6PJ?67w#W(QRo3tWZn%{$qwamrBKg~M1iZLcYlC1CECoGW
zbS#!Fx)$Aw_Eqa$TUHiB=84}1*5DB;XxQjL!U2Ot@yJS0Qh2l|JT)mUF(DKc?E+Ys
zgbdar*EBQax9L^#OcGjwwGjD80xU&HoK^JAMbuDIoSu$^B4R?3b&rJ5ibD7p<YIbx
zfe;TWQslZ`aW#p?D;81a`5ehJm9t)aoSHA)Bq;tGy}qcIf*5&L6a~GysIDMTcgJA(
zJPb3=#{uZ|x<dIy2~~xvA_3kaxdnz$Qp%d#WI{J3W_61gpH=4dTDqiQM|jA<0#R!_
z6%%FM5|pIiyzZowL`cM$>eg5!5sZa(E;N$_rYrLjYOwA&f9m+~<oNON$&0$>?AY+c
zsO~vCIXpSapC3LmK78=_=vkeOMPx;9;AhcZi!eVvR50Sa5D6&~o+sTR&&`UG&hfBW
z5ryad<vJ^iv1zFRY9&0LQWGY4G^8z<cp=f<1>K;k;WShOOA?-M3Bdv#4`X|ALN&pV
zl$7P{dKWFC1M<1Ol@L&LJI{w=LEz+N)JDVD=DtfmCi*0CHrY2Fxh@LhiBK{w_Q_JH
zPgatlnV_shLULcxzQoauk^6$6b_tQ6kBBjW56wweVU@Er0=4v119&=OwDqt%)CuaH
zotJuH5DRTDcL;io^~0&le*}~H!xG8VlC7i6GP}-oYVCXR+p0Bh!*7G;KZxHB&9?`?
zEn5EsetW*{>i#G0GwxpXT@RMqzpZclr0e6Zm65b>x9Zz{zbZX=Tpc`~YCEx3e{$LL
zZEgK0+{fI?&UD+b+BW=PN2>LR=IcuP4ynFFskTE8Cex#WIx3`E#f+J04Kq&(Q#Zpb
zyE0bN+L3N~Lv4BEzL4I3L4~*FLMrf1I`AtM-j-jbxaMygn?D)*cx**UcOFnX4?GxF
zJ4aJTE~h%)(K`3tSJFcl)uD^2%kQW|@1#0-=%6Er9W+hRIoCb2lA79&E`E41UEQfx
zciv&sU4v@Z;9B+GWe3!`d}(K|>g>H&l^!^y4xCDzK9@cnRZmB?fnDi=33Xs1b>@8f
zOiVo!qm=XN!1;{DH1HOaYwTB@{yQV-ZA0p|q14s`e{!~^ojX+Lj(?fF?@RB!pzgh}
zw(G4-nRS~3m$K_wC28>AZ`O7n(st~8W-&GVV%hVIBX;-uHkGT@T6}-<b^KxM)3H0D
zdpqs~)_i-k#;saYx7OT+8BayVL+o|m5u1I}Q`ln?DmGGhEU6nc13QmSl!7euDP{ao
z#RUe_*Wxt2HmCWuIoa3dv~1ukVGxlgHzO0ciL7A#2m1|h*cXXlkAOS)d*<($8@5GT
zG-rC~(&Uoo)}Vxur?PE}mQ~I$hYVS?fs5`~usaN7kkEul=x9>&^#~o)M>tTwy$HJs
zpyowRifsLu8^8q5?&N1?z2OCvmS=+i$XA20IRI)-78O8MWd?Cl6h0$<3q@rK4YcHk
zM0bV7gh&k_@=4u5^K-g66qEJ(gm^8B$s6(b`GH6nxX>LGzbRhpc5IskEL^4h%zuH5
z-f1Zr=L?X^%QL}Qu>k+_!W*wZub*ms8oH1_hr|H2_0db|(Xa|{_e?4hRlBcfzWwV%
z=hH($6<*&|DkP{rQR^Nl!P#+OefX{Pa7cx>Lr96!YDZY>Ke~QwDt#=j!rPxnC1=(C
zceUm{>w^>N!SgD-%@<N{T~wO`TGLjou}iD0dc4U|<5+e)t|8U6YE}E~Zb+8x8ds6#
zwy4||t?S_Wp+NdjRE4+eidJ2xRa9qe#O{4YSi2+RAmw!_u2$L&(+cJ9I8eYmJ<O;N
zaF|Q_n4o?Pcuvwb;Q5S^`rspDL$5@)qyFV~cVX8nHsa;YlGp=YpO(l&&!)7ePxbVr
zxW0|U$AdtJe>ICmC5Nx%uOy}1+oIE4e8u~@lCt<!d_DZRlCt<#bhRwKIj=FhEdCKb
zkK#XDQWhTxpGUTNtKYUDdnbceL>X`K-omN$=J(f|g%dA$ERraABMHh$tG(!*d4mbT
z3s6HP<WUa73sQ2HMrgbg2?_$`UhfMSC=G%pNP8hU>F1;|ETEmr0#(7EdjS)V086nZ
zw;|r;W}rmoix7pUsDXoB*#8QZevS4r_W65A0A8%5yEpA0Q~hJ><G)OgUs2)p$5Qcx
z>QAB_2bU@5->i?kogSH1;q`@6GZEDn#rhTv+INqu-Q(*=gXyC&72fW6Dv?yXXR#h!
zF@L&!L~SoZrgn;9?N_kARqNlG?mwmWpIV;?rza#8-hMfy%&GlXm)S44o>!c>lQ4ys
z0mf_SWY!}nI&t$Rzxl^xktR`4FYNixQzGwcXwgYOTcj~))w0I&MeS(D-F?y26e-5w
zPbkLAn=YbG_za!c(w1)Cr#A0f-+wN>|7{iC=1b^#HuJbA4IB4_g_aZr{~9tM5hV}s
zaL)7C2UWR8L4Nv_3O*nn8dr7*;6rfZ63Dp0+%RE)tYlz<c@x@vP{WdW#&432L*b;~
zqT9v99NdrK>Q}V7=pRUJkoe8ij_8(1LJ+U(mMlcTEYQ|x?Mf3}@8|E1Ma#YCr<VI=
zEtjAZ89k0A0^W5~$BK~d7*#t)*AHJ#AC9Z=b|lsslTQd^AAJA#^60Hy+KxTTBWWjf
z!rMQ0_CGd572OAa6}>#_mg!g$Zt(ODc@{)xHHhXY`p_J`Qqr6kS!fO&p&vaMcknKH
z@k1|_)J4O{I`z|jtV1G=Zv)eF;ceY2iOQUm(Aks8gy?rl2cgkID+1NqFNtLD#oO{_
ziF#nPi|0F&AlyQ-4w)HZ8q#?zVpt5e7V{8%2jRJbbO9^ec%@Fj)tl#a2aj&sTnzJ0
zo_}{P7|YezcwR_`cwR!|K`)tl8NK(ym3<~DNTVp6L(GTp^L$okjv_1mb|js_T37C-
z91>$OxV|&eE}&8XKR{K6j*})8Sn&fSKinjbO;!u{xRq=ldT@Gu;7DfEF3TpZXM4sB
z--lg284G;zj@X&8VU8nEXUCj_Ky4Z3oMh)<#)UaIX&uOTFjr2zeVGc(Rg#)MDm7C@
zHaC1%jkE+qtQC))q-XB~W_{a1t+p=XYOvHj>^hdQz!&;!+Lp0ljw21-89U}2q@p`h
zhB+tMR73fpKZoy$2WU^tATVRX+P%c;eqv%Q{YZ0XXwGW0Tw|VAnk~O%zUNp=Ry*lZ
z;O4}GkpwQ7Za*8E5pjE@Ff0x{4~N3P`xu|khQfbU^^ZrsSx}6OFqGp-4MqM8n?`RO
z5exX^k5C^Tp*la>jL932fY~ir*AiirtiqwLMGhSF5I?Is3UL*kGh!;bJ(37XA_UtM
z-5w8Kr!hD=yn{afJmfb$!h6pnjJLydY}1jj99a-2B^<&d0g?qy2~O>ug8K{n&SQt5
zl6Wm5zzxO{O2(4Xf~lt`H>*Dn>1<dM=OOw>*<@uNmIYl;X*Mg}LVu-L*nKbw{>ep*
zq{!asq(r@!Eco=`4<_C-827;_iZ}O@iT4DCTKs)@8m8yqe8Opv5Zfdiw}kjBp);n}
z;EA7ucwg^xr<xuS-2(Ut;g}X=+*%a<>4oS|Z&CE8_k{pqHrRFURV_Bei+W!gFY3)j
zhO)OY34cV%x>l$IQUC{60pYIMSW<x>&LDn-Io+E3nrCB*-o0TcStZ1{lafrv<X+j(
zN@)rO7ROcdLA6}?vZ!1%3vk+Wj)o*L=gHR4GDasU8XNjXV|Y~GXwE9cCH`t$x1T(B
zf}a?k96PHw=I^w)Ju*Kv4*|oRQbP2S5+xrFwC-iMXIZy`YQo0r7Acqrixg0$1K7rz
zyIiw$p=`nHGpMAfixC0t*)z#&dd&hTA|Fc5%|fVn3bZd9$J4DeoCiZtB1%jI{ii>H
z^2w<v1;Ks_f<JO^W)XP5^!LyoIs<YWm~e<$G0fMbHN#pM_Io#B`c%^UHR=B&sr+AZ
z_<Iv!CQZ*+nPCP~ErZVhR++&}%uHD4^1_<AE@LuTxbLjQ;`^E%dDzgLVr$`+xpeYj
zb@S3m%~QKHrq$FhoqCA0Zz}3;`&O8hftBD|Mc2~NuRNP?v$v;KT34p-w61x2md3tu
zb!u(9AwZ~YZr57-wWfB>zen5LqE$CNtFXJRONTQxq@r?Z{GoIE@_5?0U3G51AJyI*
z`D)+c2k-vtC2il~XEw8Ij9D55)NJvunEt?h%H3(dS9Pap&AU6rHa%qBONV}a^u43E
zu6@C7`KrA7R%ET*`-Ipm!w|81$hp&8qsld=2G3|6-CAo$#zO2(&xpz11%SL~-<K8p
z?(F%n<96*@W$Vh0waSjqEA}m0HLiTw{2T6l?pF0}>z%fHfiJlO84rpC8(=Ai4v)Qe
z?3OiM-maFn-!ZG@Tkk0kl+@XaU$6m<bwd5vdt<kDegSJ|lx`k{{*EydOlsnEYU0d)
z`oDBd-k({XPP@0N?yYym*4(@9h1T4IpSvcP4r|X%N@HChas0jUl>5j!JC+x@eD2o3
zt?kPfZ(G;dEqUtm-Tuwd%sfNb`oBE6#E{DUe|b_#+~*h>&-A~yRUT=w{zr4ekyiHq
E0H=(gsQ>@~

literal 0
HcmV?d00001

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/__pycache__/stochastic_market_price_of_risk.cpython-312.pyc b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/__pycache__/stochastic_market_price_of_risk.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..dc8e54f4f7a0c9770fcfe698472621c99bd33707
GIT binary patch
literal 6959
zcmb^#TWlN0agRJoB*mv5)`NPSXi5<+o01jPR_v&9EX9^p+evIWvDpTP6K^G*e0=2Y
zBwMW9Du9D1K#RCQi`e~Wl>Wr2gd(46`(vOe(4rqDBPYCE6Tm?eBtn1a*g+p(oju->
zv_v~a+9PjwW_EUVc6N4WZvX6dI}tqo6JO0;Zbj&C1Tmjl1Gx946`?l}kD`dDc#BBI
zEm2FHic)cF)JhSWRixv#s7;4yu_{^(G@EFTJE9JqRwX*)HPIRhS<rFBS6@ZE9oMXZ
zRPsb!*v&gG_8@ePl70(4Y0(q+Mtyour|6H@Mr#4CiPrJ1Xg%+aHt?S4F5Vk$<bBa5
zz?%VX;r-D7UmI-&xXpqv#n<um@T1mfW0ZEC+Q9GP8~G-_dCg|fJAm%Ob$A!9$BnoZ
zH{d4RhMRE<4&Zi7T5Wv&ddnJB;9n1{d5oS6v{la?Enwy44B}gVNtr#OLCnk@FK;iv
zILNnw<aW~z#5%ZkZoC3#K@TfmZ_4C5)|ukWx^UMRdL6|qGw{CXM(7HW#4MpAcV`-A
z`xDELyfkoJLD6n#_syN&IT9aS-);8N_3_O;TY)RIjpxix9^8ey*DM9PA!%|a7w=l{
z+9vDy3S8aWc+T(SSu;o!!d<ZLbPFo8$u43OScUKI>{r1`O@@^s|D%;2+op9zD;0Fb
z5x!?V{D3F;<|<iY&o-I=olPHUuSI&1j#(((GcG}CLgC)@gmZEhJI`XwoWWDc1g9jK
zJx7xXo_SUhVnSku;Q+oMV3B7==cNVAoJ#UogoZuLSsYV@WP;g06ge0fj5xQ5>BCly
z<~apxc2X)r9BU3zLMMd_Q<_`CBBuxo1;S~dc#cZRO9_EXoJtaLKxsNPF9HiE2_WKm
zP8MSLqCRY_d~rJr<la>PUWL;OqbLO@n1!dJR#;b>x2#)DTTa871H0S?Zxy`N@Y>;Z
z!0Uv!23{AuZg@TLdT|x5PFEwu`-+es+cB-vYWce9_7wy&>#w?_jumv7iaO7taDx^&
zt0ZHyoU913Q=D`WE5wTUndvive35${&KD<RJUk<@N&y~bE^?_9$4X3(GK&=s==(@(
znBf(smyv~;IBDcxV5PF|CM#oh*9lAyEGLK%64M~W;4uV=TzrZL>4d?MT7b)jF$gad
zxXOk*S<?19y0#~o9_FMm4m3WX>`9{RNoTS9B|(`jB0QNmZ|Y{+W0;X<ldNPaw4K}3
z-C#Gk3sf*uiM=S7XG(nv?7Hj+yKIpo{~b!R%_iq1S!<DJlaj(p;C8Hp7qBFQL$Y!T
zV_x%=wJjt?EdV|(%*QJ;d&?UMx38QK$6P`S#dQZ^Q^Z5q<TNXRkL(z=sUjDV*j%wi
z7ac59wS3%IQY!4eWJ2pL=c%MgIrH9fDHX>p=k~}72UaZZe-}>hCCtJrT9t&Ac`0!^
z<}KUM4uDC%aIXm>+0Upq&=R$T*doJ{1u!E*BeY}%%!oaJ(SRAb24FV8jGO?lD!`0P
z0I+Jns!X9vcEDhl7oH^tVD=*B1dQmUKT9=$>3I}EmBs=U<hhpIJhg5y&-E)_rP*wo
zYcZixy@ck9Qc6_b%3Eh(Msr2YN^La==*8KT=%fcv`jkjTNbgg`O27>CSu<>S#aDSe
zpc>gvsUJclyQr*3x&|Vz|7&MmK_<v6TDvsXl0OZ|quR>mQ2Vvxx=NBwh^NyqE{ss2
z4X72?z?gl#DWOywEtMq|{c{JunRk~ObPMY~P+8VD(W*k9;@m5=!Q3CNv9C;310-{Q
zgvJk-^^n<Dw*5EJs&b#g+{^a>?CGLkD(&VBU#nX}KYj{gzxC1H1>XR+(l@|T?UGMv
zGG)vKO{i4Qb(LTf0!`tYZ2M#G(IxMaXT568IH4%Ch{DyUx5z;UX_mKi%(8l(<u=dR
z0_xx)?Mjdc_PHs4i>yi5DiP)MVy4iN9|>1$^<@!3NGMo};gq5^mQiC#JUtCrAx<c=
z<}C$C5ke(|xDp}GDUxtm^Fy41Tu&5~Mb;pBr;KEejqBN-6d)SaNn{x$5)CBcXp)~4
z#7(3+Qjm=&HIM?*d?b<6S0bjCh-EZOBBj|lN#YhYm!32xAfUo{noXWhVM(*IkfsO<
z%W74SxN_o*W{=G#MJ!)j4A*P4jK%41IzBn;C34K`^N_+s9msIa%z-G;#4XH#HY6E*
zFxHnFOt+w{IaoF(a<a^_GMTcO8<o|||4#KuIF;<17A|A{L?V`q<33r6^~uG=Q|>EU
zvN*}s<vtG9ErHoZlE<?#lE;Jn^_Eh<ib_UOi&6wsNrxVh*+xtQ6LZKv04MwBGRg;0
z@6*%@ecS$++P;_60k!uSse9Cp2&r3Drk~Vp>fm`&?^k<{kh)6^A0>6SIxtD<KK1Z4
zsfW}jXG#6Ur!74j?dri%_3^>`HcQ~Ziub-9H3#0b->|E0f6jd%>prky-8h?ZJ*9eT
zbDm(<6U?}St7Ey)ST;0vE0%FhsBYi2!Cc)ywr(I(JMivUZt!e&5PD4JtLdQg9-^CT
zR@`|f>I&yVL)p;K#$fL7g)IC-7cwt$xficw;lKMz#?E{iXnS+$#?b0yu4^>gHL607
zu0z?bLz&@o*{*Zj(7esk^#XMdSz6Ci8G94x-PZBu_>J*9zWSVRU)HzpU4Pa$pcXMY
z*FTnpzi;f8k~@Am3xD6`2bxE-{i9jm=q)~XY#|GO-vZ3Q?a8~4zrhgsa3P_rFLaa2
z`og+Mf~_jK#|~xT?>n?HnH%P_@b~eRMD85;YlP^{yR*LCt1o4JJq3}CzHTtKudRkG
zZ1epPa(G^=&f1&Q&d^7p?zhL^8vhl$85&kw_o{7sK5A#)6mAH)_Wo>p|GV|M{YSI=
zk8ZY)s;#}M*Pr(yNAp*x+EI58+z^Fp$i`1_aSR*Z$r68`7YXcQ*_Y-y(P*h=Sw0zK
zS&0Nh%{DD2;p`$OtVD7yi6oBt2GHEb-i%>UWZ5t!eG8gol1v?u4iGMq*XadZ&mj3P
zQ2g^Mx@&RR>~{yyz{suVZtp*Sx9w@lR;TV8$Xf|;r?We6BS5|i^$q5$b<mD>_v9Tq
z=tQA#zD5UKXlOX^)<F;2yFc&MK_3E9ejThu2M*`!bg&+cj8XXp9o~hGP)}3&MjdHF
z!S0*(w>t98I@*Gm(CX}sALau(+KP5{thQwvB6(fQd^>6k{G)?3-9@C74w^G0mW^{l
zg4jWGoQ=(5Vq0nE=Qqgnn-L?dWK7`B$jtZae|`Luv@-H}0k}Hyd4c(z5u?|iOrD>P
z2w%XtE<s+21RG>(TO=deBA@$P<mBHv4248!VbA~P+=hq<;T}mxpqSZcf93DbZTw<n
z5<+Z153z9B!2$r^gmQ|5(6YdZ^H|pGGC9#XWtM~x_!c~J)QiHj<}8I}&2C0y%^@UW
z5{7uJXpT5{S^pf8w|FuM%NB8%E#hfl&FX1kMi$aIJ#?0fr$o#=3nMVeY4Tmml+Ix0
zlpay^TN+H7$qhr{ZU%(dI59QLrR`@xX{M(uoIV!CQgYvDay|w3HTw0Aex)Nb(^4}2
z--|ZZ^@|a*><~-wC4pCF(~iRZ5DXOVll0Zm_l~}c$h5Rw<XdnaGJ(hgw?D?7OU%b1
z%IqPGy=7r70%0vu3Quxmd+MME|8tM(u_F*h9vTQE3x#{8LR^%{he=^a4-vim5Xn<w
zQW1qIh=>Hzs*Kv25*2OF4lN3Mg1C;7Op0<uHaCehLIjp4Tg7~#bW31n5QX%I<VBj(
z_y&iZs*n$DONI1oiR4J82kJSY?twbwl;bJMm|ZVnYkrt>%bI%zC$N4CqWgDi5hd#=
zvr~(ZP#NwlYc`#zRT<l&3LJP|!kSGH6cKB*ZY+965_qj@QRJo|Q>0;CE@`{c;FD}j
z_emD69{ECg0$e0Zk-^3ED?~OqHK!l5{rWNcZ~K#lll<FK5@tcpU-=+p9C<56QFkp?
zivEWaQGHny`55*871e%*j(v>M_vz;-sxA{ebRQ8Q4<9<TYbCvDZT^hj{V_duC(xdu
zo7BcYhOSq8BN@8qPDA_hY1QAhJfU`kGj!{n@ZJm!8OebR-KRbdW&fSVPQuOX$<S?|
z_?xeXR;ktftK6o)XL;g7Z{v0P`qXN0b?Rnt)4OkZ{1g9Pb@xHFu}cjNs!c()Ijrt`
zPVIa`4IWl|PpN~f`Yldv>{J`tKCEfF{?hH5&iifN+N$LV$fG*LtCqLzZ`t1qAKql1
zgyHVco*dnprCT#koKb__YI{fChHP#3k;T@Tw<GuCD<^WUfvjs_V@`c??8D(>w_f_)
z_tfEI_p7b$accQ#$ZLj%KX4D<9C~f;def#Sxcc~}r~5tk@bWR0_AHOSI`Q(vwM*~Q
z9V+bx?8M6_GQRQK^n^;g03CmMeC6D=W4Gx*5x+M0KA6w!x{|(4w-np1PJl|!P?J<<
z@?2)}`9BIDxX<6}S((du`m&zBckP>=CpLC(dWPR~pMS*g&)=rc7e&JG`>zeGT)19!
z69(=t4gCEIN*OA@GLb(HtKRajFQ+Nw`S!oQtVf;;luY8t?`vz1_tAf74ICe&{{!ww
B%xnMv

literal 0
HcmV?d00001

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/__pycache__/trebly_mean_reverting_vasicek.cpython-312.pyc b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/__pycache__/trebly_mean_reverting_vasicek.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..e7bae670a08d70e9655b3911c538ac220943ff7c
GIT binary patch
literal 9899
zcmcgQTTC2RmQ~%=&@}zx(Yzl8#+WwdX>14E46(5>ei1@rPtp^sQuMtvMf!oO3Je{h
zA+wnstbK&lYImGn?S_n28dgRl|Ez>G(#WfQ2r1g#Zm`{z+GItv6U|ur(@7jnlCM3t
zy7~dMNjAw&Lsgx7&*PqR?z!ild*8L$EEN2TE`B!kc>_iLH)*7Pb{+WC3N$~Z5ap#1
zjSK-gXz&_>w3iMVy+)e!83Rnv<TYt96Ug)CL!T*N4i<O|w7$H6C0OV!q$vY+fkOFj
zP{@o6?;4Zxy;f{P1+TPF)G{OfT>+8D1nfbF*QxPZ0!6`MZ!y4y-V$W>mLi+ih3wuk
z<nWdwr?&zXc`H$|w+fYbt5K=9#z0{jxlkGW(RUerj9RU?995u7RE4VVn)LoU=(pk$
zT!u?=Ij+GjT!AZb6|Tm$xNfcHu2rY22fF;JXOpe$x1U0_Kcnx`I$Z;<pE{q7Pr|qX
z)uFPr`jpMY6S#P4Fb5@!3pgVxOUXp+T0`27Cfsz6dXw@Q{P5hcQPgWhQvCvzrf!UY
zZGUF?V+R8iuTkEEfOk$^**g+Cu-25~()4jo4d<XbxQk|FFAdoI%-&w4X@Z*3A=I+w
zPFbLjG`g1_@3gIw*aniX?WN4JmIg8^ITF}howOMpT06YM)6S{yYP_=F^LVXabG++&
zy#$eY<YzQ$TWh~-NMd#0zp$4Ub*y#nnrCkgs;*r$FYTqdt9Q{9Zh{raR8d*+TBgq_
zx0f$#PE!$Fp+|7%w~XL!;P1jU=xE9he@&qtt*>H7-?6_j?XoXt)FiFKojIZ`m(Pyx
zlKJ(#|9|ytiSAjvpJ!o(xOAT${gysG@&Dq}qhHgf&-`9|`VFIXpSTzHo1JtPOU3=M
zeIy0<mDH>60VzpjwwzPbdwH~7lI#QeUi=bd3U9CXq(+}>H#oV=^ZT!mQ){PFlK0E|
z`ieS+`u5O&cPlDKhD6^({eA;_7INg7jGp-9)UCaqO64{0Y0WqL*?j`FptEZOyLP->
zmYmz=&0IR3_tR)_r-qsa`(}uFW}fjGXsrUc1@G?`a$ku2xn*opkXXql3ez&{3x{N0
z2uZ9wiCG~y9l${hJ+crEu@hlY>mC#FcwoNmD&|9Nqj(mJvJmpK*Lg|s;aAwJVT1$i
zmQg%`MI7?slk6xS4~KX;%pN`)4k30#6nun%2lzz+2M{|jBhKO^BOnf2ERV^oxs57=
zcp0l^@|J}lRtv}*#LK*!R&62<fMT=Bj$!DrpB2NmLINMU8YT)uPsP=l0Fdya03vh^
zH3fayaZ#%`K3xRhCr}_`%1c9$Y(TWv2vfu$!<sQQ!4pu_ViPjKlLt>eJZ5+b;IY6{
z2#*yW8$5QLhw~%(P}VrokQ19RqxBV`;)$9i3gnf%Ve=L&QFFA{;-TE7YE{z1#KCF*
z>dNy?P@h^@{fAhQlap{C`wBlj&2u8#G75cd1mk9r%(k+U;13c6`aUOSu@W-vmtq}d
zTdruVfZ4%1N?1p;SP7ZVdRZIw3fsb7;e^lx3=GH}+*b(q6-%1^mLN~28wk{7ktVN?
z6(_@-2;}lEw5F+!23@ky1e47@n&y5?>Uf9%(`0x?l+-F|GAzoR2w}j9BxWTD5KfxL
z7^$u-+-#V{R6vmD)oKVeVJ4WHrz{(p#bghJLw-)iVvq~M^r@AZ_U>UzGpH;9jakZM
zkKqf8$#@TkR5ptyBP5%mEt@qb371W7mt-EilU`?59736v0m*8fh~*hEH0(<qCCQR0
zfQM{1pZ)?4XMaKelv<z{s7yt;V1Sl>oT8`&BeeAL6<Q3m^sNe7CTQsgJZR-XOFz~@
zD<4{UWH|C$FhdJgRPwh_04;O6Wq}saN&CsJ6tqydU`6zrA+<5QW|zxTxT%U1l=&`D
zQ`%8F(?cL+L`FZ@FqPIbgD<3V_Y)38crv7ENaIPjGJqd=?&@B9&GD6*>c`p)KWNHC
zz$Y+j4jlBReVO4QMFwDsGd(Ft$K;ljp3M|BMd|d;Oiv0T7|nmVWqlK^a`2>W&w&FA
zpRRFsT<a=-g~m^p^%U!K`~I6~m76DNdv^T5dVq_C<WH_iLARX?)SvW`h~7WC;Mi%(
zT!`#X3mT=@VQL&LroMJ>Ch8X)G8F8|-xQmIGT*5K88`*O_*E%5^G&Uz1^a?+E$^<L
zH)v{}a_0{}Cg}%?3`ZvUaaxsOOJ%=gvj9QS5hDA=Z&H#Uleu>rMHW8V%b&y~`rY|z
zX;yX?La-J1@U*O!XZ8BRcwz#IAgHV))sfj30<bX!RA;6m$jhQIrxs=Q2Tt#DjO(Qi
z7u0GUk=!o0i$yZsB8g?uL0%*h#Uk<|Yg>e~B_)=U7fFsH@v=yqq8dWes)-jxeqOa|
z)e;nLWGK}n%}iraHFL1J3o^&4c>y8B2mGqpHyI9K>6LkRk;+IoF!2qBCRtb{30Tu!
zJVZ2ssxGxVlkp2U&KKY%iQ^<<MzZS2ycfR=b%=O6+%X}{VRSL%3kPwBB>FleIqaL{
zC0X!E9a)|alHyeA;KBVN%*~VPlk<`46Wpj_WUaQ<_U>ezKx$iVHd))YPtS`-K#RzM
zrx$4LDNm6Jk>L16eZEK~>ZsQ9^b+&Hd`LNXl6)JL)<N=ZQJPPa?*XOm2>Dhk?z80E
ztTa7Cz70zE82NT6og?Jiru0pb@5x_RwXD}ECkB+GJx@%A>f=j}CuXX$`fc-DX2n(%
zx3$J>t*f4U2cp*FioG~)Z;#pAqqg>YOuTa>);SU#y%x1zS8UGZo_I-jtfV_y+<os{
zyvGyk@kFg-iF~Hf@+rks7B1PISgG3jw};*u+IE)4o$i>^z1kIX9#PV*bMYe=V({<0
zu+bF1v=D=T=fV#3VC=|X%sIGG8owBd!M`&E1K8{dD^=vuMLu0fYs}fY`h3jUu8GuI
zDBeC4gMa7HMo;{*7=wSOm`mi|fxkkChCUo~9$q~YbG9W#mOGol7tY#3;`quZO;myX
zc7DuUp)@qT-_-o`p?8Kh+xoVezW07j9dXkNiZ}PhntRuK;-`jVr-q{=WAPDRY{VBm
zh_-65QhWIQI`(bhEg@dl8LR8OR~qj+8|yl|RX3p2v?`9Ggo7%m{EW&kDESmZh;kQ_
z)feJ}7*?N!BY`>-Ah4C=ZqD!l9h1*-DD2}nk!*abX(AAY+(9y&Na_`llv7&lsy2N^
z`EVe>ac)}d0+d7wj%USgLPcsH?M2dv^bhd*{0-`3LxIWsaXZ!BfB*RhT^ByC?lYAr
zZQThYe79TL5+?X2@~DoUL_UGc)Zvaq0f8)3<Do<$fvgnJ+X!T*fWtu`Cw2T(qKH7n
zR8McBgg~X#8G4XTxCmTEH8!uB->FZOlU4=AHmyv)^}|FZX;o2W^((b8S9^je1I?@S
z^Yrfs{4oVD@o35p;=dpqYKgUKfyXzAi3dghpU&K@wrwZ+{k|W**Ej#dulxO1PTW58
z@<+@4{#Q$XapA*=-0y$<qc8um_r@Rg``>l_*GG-N`h$Kw({K0xCQ0)~zn}0#8{h5s
z|LPyhn?0sq_6xs-q$(D|_<{-czsIEFd0bCkB;!3k1uwVt+vH2P(f?O(k>B6<i>E=F
zf4%O<|MUF%-}aBeepapRXC!R_0LL9^nulaQ%Lit#q?#oxbJM&$Ns>04Z=OBtpxlgV
z$?SouIko+%1wzOtY8L=%L6D!*P6X0pMASDtCOgez5?0{U{0YG?2@xDQ?%~Ou0XqUC
zu;Gc_*9CADkn_4AVrXmA9sApUmGO&s9t<gftp-c-d;kvq1iU36(A(q-2f`x6?J$fj
zHV_4vi2Vv2yVx-}cCqBt94X4QN5rrXOH!ods&<@95~VteJ>*!(j)I@yUP2=r)a(&q
zy@5!O4!>wW^qKg;^duiKYqTu~-H{0|7Q<}=;hAZ;8_{kywA&1coe;ypuWPwQyNv*U
zkpZDrkWR8h^|rJrtVrs%Ncj=1KdJro<RMiS=GiZ4OQaxqi$Zj|nOi4T=MZH4U8@&y
zCPz<?FfTX{fx>7Y9Gb;*aFAw&&_3Qs+CM(e4upf#a8Co%sJoHe4}lOQkh>f{z-CR=
z8Hgg@kEMuN=EqNtLu5ldJO_SK^ARt;BEq5Gq)CZXoSF5vv*+igu}{V*OGc#72jv$Q
z*#Mr9-3HYd2>ZklA|elkWuSE%G>PI>;{F2}YtEpl8A&F$Vr<Je)CCed9fmSbaz~2K
z2^0FI7hJ*!{z=&#vFf9UTC-0)0n(BgS<B62{itQ++&u%g4(&T`wDe3Knh8SL(LxAY
zv#OkSsB+q~s+{)S1tFv$O1-up$DX>V{i$_PyIuh$%OsH$^~rsrhm2ALmD+S5EC+;f
zD3J)H=ILMKbU;=Q@6jTegGr8(!{LC`E~S#PNRs1@5;|QEs?OA<Myf(oleaAy3VW7G
zP&2C*orAz;?HYtYMM)|hNA5x344_>PX(Y)G9h>eU)n_VAYNrG(O=?h{92B|Ppy(zf
zl~2pQl4|qg5X3E{WGw;Lq?=^^C2o8kYHU5<N~%fgRP*$_od+3qM#QQ~7G%hW`TX1@
zNr@_>dAlK*>9xvz9IA2-K_t#-S6tJ{tOj*EhVc+dt^!i?<^%jVoHZD*`<7Z3flLM$
zLL`%Ma94|xl`&9}0vU7>!!y9@)S4W)Fm**{N%u%<HJ@CR9M%^bmzfOJ!O!}$5a946
zCtNotlZ0BdvqRAKs+n<Oo}?PVdey+sf%&(D(41=I=ei*!YZt>@czjALUplq&<xBJF
zWQFuSaS7&w)HTuwEVG1>rs<Cj49)z`O3@uLs{I41^FOKLkEp>9sK^s$h^9-T4ZTk&
z0wi8AP>gjcvSqAH7z`%!XL*#V=>z86c6CFPsZh#mqfDvds$Lx4cGWEoD@FB-mlQ|U
z;?Q<Qb(C=_WmSvMDP`4*&uzPE7KcA9s=U**La%hK@LNSKi<jPWl;2_QjIT7VjITCs
zIocM7KC~TD4xE4!fYQ{X)Vr1PgGytkQhQKoJ*~K(QI4Ni${Q3{?UPEIJ#TRk4igRT
z6~oWX@0d5;r?%MBQKojAvBa5*7*i2FHmo!@D|Ph=6J@G=LK#dAP>k7*E?taUyJObw
z^(p1_x%c`8@8A68OG@A1lYFCXh+aGoWm-?~BU|sv-0g|w7q;wmccd+Q<EE{5aZq9G
zivvHo^!lacTMwCfg|R{F;_DZq&cO%Fkis~idHMCr%Xx9<!I<;lsu8O7d-8ob>Ur@Y
z<5d_d;D=rxTDlhH(4$fu_55J@dfe3)bM>uHZn-XO&@tDgjiXzx;Y~o^oO#I1X7lh9
zk4pW~Yd3Q6c(z<4n}C!+t+{W;qZ_vA@I`~-Lq<wVS?+lV)0{GVDe{1+O5@(R1P;AS
zkI>PP=c6N|8}3K8vGvKNiMYKrW^Y{`+Oi+J=i9RPZraA4>bwL+7j?haePZ3dL2q?m
zigsO&ULKG6CZod5s3dRsW}@S>(b+kOSx1C^LeZvI>Ftasm%Em`mtMS+w+dQzX0&|u
z0aKmUQnx_&zNYhe`Vzg-u+ez`;-jMBb@Os_yx1KpcCWTPEIztfGz=k}GI-}qe<#XX
zR^^9GPkMx?qu~M5_;hXapqL+}qobba=-9@^N4D$t%{x52Zrrk;+O%B<4|}=j%Y5|Z
z@u=7Ls0?jPF3-lxdt>Fj>n&U51NVJf<rg>05UfYf3(*(7(HDOZ^}O_`;>P{CJ7w|8
zj#y>KJ@Zy&@A}|Y<=M@O8?bt}?Nv*@Hv_i=ce?KItK|>uU9VqQ99SyOihTLOjwnsd
z$4cZO)19_y>6+f}Se<{!^rlT;$~8}VBr0ZyVs1>B49+GvOxdbdj(wJIG#!T3S!jE+
z<#x*-9bO#R69~}?_r0?F&pc$Vq{oOldLA&xGEHYw)NxQLX;?k>nUOYir$zkuQsSDC
zVyeFQ1ksfJ<QJcqDc1!3g<9&@o==>V{TltnCuLOebMPsp?B54u8Tvx4xFH>f%=%B}
zVoxRW&&TULb(Vi=uk#$R{A+War^T|tR(sl*cWo7(Zsy-kRC`V^|6Wt=InDeBT|GuK
F{|ipC$}Ru^

literal 0
HcmV?d00001

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/__pycache__/vasicek_model.cpython-312.pyc b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/__pycache__/vasicek_model.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..38cb598e3971334e3634403ce0e3b52f2a28817d
GIT binary patch
literal 71669
zcmeFa33wdWbtc*?&{!J)0TKYQ6bO*SzHr}3fB<)b3&2GX$z}sp06}3>b%P{YfFwJz
z13Gd<C7BUvD-jj@jlhsIh9>^TP~tC!oMcSDnQu}hQ0`6-XC4ykJx6ce%!5ohiS_17
z-hXbb-KYks#hH2E_ln@H>Rb2Ty6ZXTo^$Rw|1KjV)rPBP<R35pBH3>HDgDr{H1*-p
z0@A!@<856w-p)G)>|J(tcXT;$cMdoQon6jBSC?zh-Q~7Z8rMM5U~(7A!?Sz9Gnmqq
z!k!%isa<I-Z~9<HS0;-~8t@Kgb!81^cV!Rebmg$P<bh>_xm~&J*)xzgxV&pQdrlcx
zF__<#&z@5eU(i*+p3?>j2Um8jWY6gXMT5m%#q2p_pk%PLtJH3D*!J7_%$IDuS4g?*
zRNB?W@mWHSkaoF6Yp`+evkR+w9R-N!b@16Qxw^{voR@4}75p+`6`za$dHA0t6!d!d
z<#@ZAmA?Yz=L`A5%DXQ03u{<>0pbf|;@1k5{K{u4ZMGXO@h$X65&F=o?}`Vi2CKWO
zss4hKFX2mh4yoC{yUFS|YS_Cn%XhVSmn+l=wfw4k<$Am85L<ouoY7kCiBjTSGE!IE
zwJWjw>U(SS_B7z_8h$Nb$yW(=_p0^yMxmkA_KK~?(TD%%b8WT>+qg|=yxgsoY}}tI
zwAljomzRy(UUj^@+=cWLwyt%24SIJyUyE=9Ux#obUypDT-+*v4--vJv--K{0n>{r1
z)^%+|Z7fHRuj1GDIkXmZZBLkP1HaLfZU?`qYbU>|YZw0SPLxO3#cvLIY&Kz+ush_&
zeJ6!|j@aMAZY5Qp!&Lqrl&Ory=D5+YZp9X)cU=Cm(RbPtzgcTr2y2vo!gPI(Cr!z3
zeX=jdw5~;HNz`W;5A-v?k>6&{5yC1FS}uQ8Yn5@QH(jkLZLP3P*e>i4T7^9V&006V
zN^AMO?fMF6OZeRl{0>w9?-SZCzhZnvdlL5X81;L*wDrMO+ZukIa6mX1JInE%rPht9
zcCo9b&(?Ja{}1E;5tL!S{0;5f#$9O8TGnd2VL#8?Z08*4h4!vv$WeOvwvkeM6554h
zXwmO$zm2=rlCG0NJ95){-mR4$LNYaWk7aCWY;2#is{>!TW0bBv2^~WFz2>{9C0$*o
z@FmN6EOY=i*j3n&2iRaodH+($We&&fD6d5;571!+gAR7B=3QrmQ^FZqZCz(S)wll8
z{1xT-ao<X_b#<YZ-&>qBuGQxR43ltP=n~E{XmEyBq*i0<Yxef69)q`C7lgx?e_&Da
z1uYeufuFZ8k1g4k7g@b73a6;n+IQpX3asDd7yPlY!b!?Ot?cR+4q3LNTPx3wnf!8}
zi~1n*^1of&Vty6=?Y-Bk%~v+#`7VK_|M!d23k|%3Z!5HEcN5OZAe@7IZR2`t_<dAU
z%p<RYW%&Jk<-G$M&SHI>d3mX?97g#Lb>0HoPB_LLdYLJ#Ob36EKg4gocla*8MAs9P
zdguvCt>lmJNBKkd+V3XCl=~l)U*?cMcJH{+->l~(^Lyo)KM|MaJ&QCa<I+4>oTksl
zcl^Gc@8nP2JFShH+UB1uPR*Y&N)-6Zf4MltT{TKABf2;Rudf|7&BMiMj8euNV;C_z
zqbjZ<WKZ@bpKSVDhxw`MDgO$PK&hRV`U6~`N9-R7ay`RCL4W^HfD2v{xYPbXe~<7C
zcXXH+2Dsi~k;Mis4U0ie^aq9d)RRK5APPf0LM>Olum76Ba|efdh6e?%L+BY5`-A;L
zpqASZyu`Kf_0?SW7}q)4^UR=si1QEeNF$<@T5iPOCvfW;H`b@7o*L>8azP;w3~+u?
z&}xHX`-f6{seGmQdX|KRzCdue=aN4V?C%Mv5mY}P)z3Fb6<4GEy}kWIf^V!}7~p-V
z+?CkZSCqCYS?Wi|Qa_|YXs>ccJv@pE_74hC7d=H&=o#e({Z;m8hA0g9gZ)?Z2v^(C
z=pf}fHWKU~9`X-FJqLq==<gm7qMp6}fdP6##>^IR`07x<f9U8ir9(_sYkzO=XaGNs
zi^DxaAV8@)s4*w;SvCfD?9rT7vA;KHB=z@;l((6+jwL$Uf32U&%W3tG?HwK+3ho^q
zx*`mzUom3+13jat`>@z!o^C2lY<rZC*w<`=4Lczl?Si_Tyrav-JG<Ott}1tQ1=`Zz
zjb5hu`bGaB8reBEB8Y@6KcrGVq^I_(q^QT|8}bhdK3_D|NBuiGK+owu-?O9s0qxD{
zV@H}h4<0$#`Bc>1aiIBlTh!ap+1%OYJKcQpU~|inwvIctM<~$t$%O_{7#VIbO^1en
z*wbK|2MuhBnx{ZR!qIPtA9xY8y^RI5Hwt7Uc*z#Y&Ux`rBt7HBw#f1oUpgk1XlbHJ
zq7WPvhk8^R0r7+oZ8qA0J<37w>$YFFzh;}XP1>=~vcKf%uvIxihf+CQCs|fyttl1c
zdPj$Ps7o>7(V;y8mShdLqi0y??XBekK}-bhieK!fNfg+{3hB{C4Buj3T}EG~M*K6!
zYqsl->-KRQQJaLRJ8XCC?P4*WFhjkpIG<izbcLzg*cbbI`Y~?;(OlCDy<P!oA@|~o
zVkz#Qcy<i<2fKOyu25x<D4?1?wa2vv)$bS>?(q)<cHu!uxeECLRL{SE(I%B|mbRUc
zI(y`8J#u-^i#DZ)sit=v;%eN)HI$rs_TokM$>?(H4~bPsL*o-jNASxRZ6AAV>AYQX
z^{_H~)U7ez*=&T;*g!Snfd=Z=(PcrsLybY3bo7EP@RH}AQzPCmjIK~K8-eD50pUtN
z+N_LZ&%khC6u_%L5EvD>tNnm}{vrSH(AePcXh0v}K)o`0=6OR^i5)%Xb;r0p1S*9_
zu)`*nBZV@4uBbgIR^VsUD+*Txk>G|8^$-Tk5rGjw-~-5O<Fug?*Wy=bliGQJ_m~Dl
zK_5?G#m8$P$TtGOvUtp@k(VtAjM-G_%(45!@{aRz)dh9HVpailBWn$|lD2<_HE`V#
z(*kGIMUYf!M5gg&%=<xQa&gM!`dl@xp&An-0X3e^RO@-i5p}Z$M^p6gikV1s$0^p~
zCe~BXgn(7#qBi9!o}|~rO~^-6Hb5Zs6J-LHJj}fCA9Hqn>~^LnE!dpyBxQor$703{
zOGJpKUKu8&GSD9!i<z!ODY5B#4-eXO<?TWIQZC+MdUgi&xpkRlK-|@vq)u<wOX(BN
z&ru334L8bg1*x0aHSQdD-Aghpm1O@mOb0gO_h}F=IL!G+gTr-w!VvHy02`4UY*ZL^
zpbw0(WONclBTN`D0=2-X5mq|G`1M>Tieir(NCQ@IM{64j=XP?>aMfJpAXmqURUA*y
zHPGKT=;!z|LGJ1$5HqZpXRvxXKQ}TQ01b0R;Ccs!{rHM7A_@UQr9*wJP<`cbY@yXE
zRiM1omVx1+zB-!C+@JuGN28x&DqTx$W!aQ!s9B8(pnwUH08}&sWDBURAYk^us33BP
zi&=35&e)3Efd_*A1}M9%&jq|vuj>YMLC!vX7pksOEE31iNYw2Il{Qx8VpR~gA+NGT
zHsdK4vP4rAAkurSXDC#o;ng_6V!#w5F)NDD2-fIBZ}uzKu3x)ZI(2MjP_8{J7aWoD
zkIs49B~QBoz|AeuAtv<?!I;Oi*s-XUBK1|3)6}{x)G#U-AXC9KCg8-{rqc|G+or=&
z%0Qi_VLGjSg*VgZysIV8Y6TFiqguG4ZZ^@xo%kj0qQFb>ZllLVs-3u-f@TB(8ghUq
zj#Fy7B0;Z<dy%ezGMq#Jn6!{(cOSFAp0{A5`@K=+{{5UE<iC^uw=8ZU$?jhB`YC#`
z=DQo&?fWNxaQ2<Ezo3|plWgfFw-3$KKS(<$xeh8LgQE2dyH$2QI)bkJ^*BlrdpH;G
z05VlkEg*;soG&;2C*gmxki>h0WWf~zMB!8T)ZX+-8`7k`l+oo8Quq|X4O%MwC6~4<
z>PppPGfc5*dTgdCHeHYPnqo8b*ep|QCiuX_8~5U#gL@Y4%W%)eJs0<!6dPX!PWdt+
zm(_K-pg$A!$ZDFzuXxGbwfu=v<|E|_r9^&FS?Gr(z5prmA6r&|P)L2mxcf<bA@ZzT
zvecDGQS<~YDMGs9$9~<7dKM#P$rGh4LCVr6N?D4O981XwW#BU}qdsT-OnsHB_V}vH
z`_#E-x}ip8$X)S7-&uu}tDh)kIa029qLdX#x%P=tu13mAzM5YnRI$15;@2XkdeU~y
z-c<v#vnHCZ;y<?C3w?{Bk7llCz#jm8iCwyiQ3*>0{DUI{0=C$}O95`Um*J)1A)$^3
z<uyb!qkll(<})gvp;8rhGTPM?%a38VhJ7~sAoednsJ<Yf)JmYcpr3H6FIW|WRDD5~
zSOilPdylC5((tGlFws~9&Z6FKbuWzFA#Hx54nD}RTYHbn9AYD>lRqB-Y!I*?$JWND
z5AwJJzf^!?vw;M$`E*oakS3Rj8jZVn`#oKhf?Nbs*%j1)7(_jni9C$E5StYjg`bF}
zeP7%KU`IFw7rp?3Ub%uRv?tz$e6$;iyZY_pu5tH0x0ZV%DM(}`yRIjX+rGXLU?%A$
z+j!EwWR2jm+k!<}n#;5mio5V73xW`_dVd)i`W&XRI3r$rLN4vmbnmm9a;-AGP#=*?
z?*rp)KaH8*cVo6HPkWVJpE`j{{t-bV(1~PVxbTxyV}jmsMhoLmvae?tyEC?>77tLK
zg9u`_%rs*d(L~b=b1HV5WsfT5GiE}7(khr%*^{g_FT{GEuOI9ypU)t1w5@Iz@&%~;
z7j3hbUsN`?Ag>Bc`|6<R9|~ac4l<5Pv@C9OZr+)x+@WPrua8JfACZ_oA~B;`KAj@<
zF^V*r<}*l1Mpi`K!r(}7ELx782IJodJXmOck!V_az|LLg2r#N4ni=~MWpBjRZEk#L
z)230RZFkfi7zHngSU*aiC|s37yb@PZK=U(NI6{mg0rmH3wV_=s-`^9g@<d$$VW2k-
zR2X9z&DJ*vz7eHIqA5Nf1A;zZfL1v{C|v3$@&aN)d6omV53d6M2?6NOg-jdQFzI^W
zDT*lf;>gO?^gI9I`i<Y)^7fY5iU;fWQ$*tj72EH(hL8B<BfiLy<KZJ0<s%m(`w#!<
zg?C^0*zH(-)=sI)z<wyMyI&-oc{+S%L_RYj9e6gf^GKv|9nutUkURxQkdk>lS@z`1
z>yJmaA6anPQVKq{*;Cr>c$HBRPOq2K>!)+WP0eys^X!K3-m~)Fvr^+z57W!T=~Z%i
z)l_S^c8^@UN2+ONaqH#u_0yf<jpyZ!=NFP)HK~)X_dRPB8chd~Xf8byP<lk;LQ~&r
zDXY5yEX31Db;mAV#Lc`Cp2qLc%9xIgoiRO>fxzdBwt4Teu(w?HmP?-U&t0E0C{pC9
zaMQZ1$L~;4Ol{)UL?7iaRi{GsR!E+T&t09fR@I?(5?T>c9b-XKcbjWcDtk*MPwC>C
z5VU3kMIbEEK=F1G+NVJw#Tt?;?={gDu_4>V<tVSpp=>Is=i<9F>IH-7if|2_2;V^e
zV1F>KYvbMyp@;zS-!RfyxvzO&_1?~wvsOvoRk!_972)b#a`moRyIkEYuW6ROEt02Y
zaa%v#q>Ps8pd$v5=`w&tEh^DKjdl7^P0U~|omiyynx@iv*}GoytY6$HLab~6zlw)M
z1GqH5hN#;K`#3aX=n06D%3~Me7^ROmnkY(~?Q)v-Y}~c|lHE4uta5!4;5z-!s9Z~9
zR)Sbmp)y#_;4?rr1R(*F!7%cXz2*o=Gd@i~fUpMipH39|M*xpUz@r9BN8!Qf1qSLl
zCLdrp9ijn|s5cX8U`vRWb+pJgIzrMGOTHvn!WSt~>X2|1j7rotz&OL&F1Q?Z((qoe
ze@sb2XeQw66^92If(bRojPn!ZxPngxXy*+ikz`w57|z=u=WTef@kn^%85w_hXD3sE
zD{lL5?PT~O!c|W-y_rGJ#Su?>*i$8Ys^0h1EHOK1K7HY{!*)3Z#l~Hxnc%2$ell#D
z35?GAypw=?f?3cG#)dHg7+F9lMkFXA4kL&e)DjvZRyXVMj9s@&Cw`s^Uyoq%P@a@G
zo|N-CFqEZLQ)Ra%X!weraQIH5#4mdI#xOjgA@lIW2!TG^5`D7KahXPk=rxh>)#8CE
zW_=w?Ihxj4^`dnaM`apmzk>1uYY{9SmUHsPb8_B!3`@h-nX)?=miIlii&qkD-58v`
zi3c+`&>AHoR)?6#pk9b2T0QQ%XV<o1ad4JM&A1CCSZr^2#}1?;$Q#<t9U-vUI||vM
z5W7k5#fD}0Duc8tyVnYe9z{uFI|72Dd+7&}VPZW6M01GeC^$|5kHAbJ(eesa#f-{Q
z!1gyN`yK=@+MbNy1#sNDGrZ-5yye8CE9_Y-d)7{+zvtP=Mk|_u4Gw7rjQN-_J!524
zB=J1}J)nJzv_l`ukMVIVE60oJ=vO?)UlWd?jtecv6EZaGG1W$t$v<=`X+3r*fp#`=
z7m-urP73d;lr>4~CTKIC8J844c_)!*Jhr)s$|9|!aTk@x1dQW4RyE6tL3QzvOEBgQ
z+pIwWLu2l!<ErRv)N%sJ*g1$=n0TSOdL7rmt*iEv45X=!6RwR^)~!=SBEh<#ud%AC
zN)b5F#))C+5C7pG|M4FcI?=;K#?Y-`h?&XmXtNGM?C{{oD2aS~dPIB<V#uMs;H79T
z?;ped8yW}*H5G)Y3lrc{)QL|UvlWQoB1#gkQ7}ejCaYydvjUgI{-I}}BI4`y_ka*#
zEN`lw%JN=j+C*!e5z=^Cj6+s$k>a=Tk-!TG0BX{0=><|67b)VxMU8S%<K)o~aw@_(
z+vS|?Ge;vk4n}tD3GX;1?>P0y?O1lkKAF7Wu@x1+9(?24t!q<`sm^d+vy8vW=Gpyn
z<>9%~Bl5~4k|#gnUG~Zg*I&48m%U}TPfX>8t9HuxTfI~E?vk2M$leo@=Y#^n^y!NV
z>C^tN@#9xL?So5Bdh2PL7B}HB*<B70q~kgdjixVlAud`9)(e4BgwQ_Pg@kTCc9Jvs
znaaJ4nc$qk{NW&=^K*TW)(vqQjNxdea-B-7{uPqViJIaPrvV@(E!IHX0;uwc<EW`f
zQ(c^(fT#zN=8pIx1q|jA^j$QI#V;W?nsim@@4FOSG;gs2z?h<4h`w2go3|Dzejg<U
zh!VxT&HS|U7DAhx<*((xntyXccx8jUvOy|rm|iOvZk@~CHklOh=G}7LJU^FTBYSJ6
zo}J!wCp6O;-g#WcU;S~}dtCAyUt+q7fPcU0=?eMw7cgOIT4EAg!(hPQM9>>KEZDs?
zjlrUI(w(ODgd6E-vcz2~>?h2S0FNlJUrEPGN*Z^go=FU&B#$SLyLk8O#N<Z(m21pi
zl@v1A@yDPCBKGsT9tz0=z+SsF%rmh7=rmn&ZPxE$FR{^O>R==^@N*$S9IgZC9)TuO
zH?R$d{ag?9{TSRu(9UoJLkl0eP!}*WQ*_OsXqu_?s<bCvKH?=5#E6&ZO7^)pb|jDp
zw4efaJaM>!tum3wl&G6np-swdo%l6GnHhm9!YJ^mS{&3c@D9;1wdl~ASgI&dy6;lK
ze~ti)5XwcL5_u%q3JPCuedEBb1Go9`nr-r$ZPMy(GiT)0t#d_fa(<h%eBb@t@WJyk
z{+6GgOp9dag|jQ<?26mL@Y?M%{<62vrrqz8_neZmPEWccCQggNW|7zIlCyTt*4%&g
z-Fi9eIFjWR-q?5Z)T`~2DUq!$QpW|k#z$0i<q~W9AJE2M&6+l-=?Ui-v8E>=PgW2P
z)*r1JOZsb^)~3}OR?(5V>XOD?V52!-hrUvk%kKnW(<i=0hWQx-gh()POwsWotO9A9
zz&#_31-Qz!`f^yy*d%LBYhrB`=Qma@Wh8EjS{TUyz-)o8Eb+hV6HeAzu6r~HHNiko
z@bkcDq=gvZ1b@#Z(~8yWZT@<I;{~z*3R7EE>JF_I!bL<U>Zp_GJFe4M^3WJeWr6~Q
zaQ6sUJdA{Q@*w+2z9(KsP?hqj)_Ya5)oPBW0`;l%UNi&pO5b4r&}hJi*r-?USRZQ!
zQ|?mXlA;8$fmnhJm<hi4HLm1gO%M34f|k|V8)}YQ`=7puKST2a1cv|?vJ!)Z*@;No
z$;h78@SdmSJx@Uju<U8jlwkEQFMRFnt7mTp!=>xx()Ciw`sqHoWanJoF6?>>3U6+^
zRWz9qSy_3rp7{N{<=Wk|b<)Yx;gh{G{#ttF+FrS^Z_+zoTsw1l=4sh`Q1YmX8J6_r
z^Z!4>{uLl>pli$kkOM?WFr>}sW&E;4-v6t<LVtzGo9Vn8D_K|C-^Ovrv9StpO`A5>
zHEnL9J>*FNO9oouTy+cK{o_E7j3mJGQ=~f2?IqQDWqXMi)kd)<nn0XHA1L79GogP)
zNk5iPq~d7t>$J*<=c3Uf%A$|O>Z+DMBN&##>gIHRNd>=$0LwQu@$yZuCHz%k^(Hy1
zV#=;b_~gnxa#r)~Vd=!lciZKxlMJoj-1zF#x7W(KRSIVB^hq5)>0+PU(I?kjN`T^_
zIHNGiX7I2yiU-Ox!w;mV3oI3fN#6hnRJp8JXDERNEbh_-8J6#uKx6T)lGfH;z%9Cf
zoSmWHOt60Z-2q6{fzlMM7=;SP0TXS~{EF59qd6HZip?O~Hr_x@O`FA+@e?`>7b#Zf
zcBtBhDt)?~h;PhxBEC)dD^wnXpsW-97nB>|5nv84W^2ro6k?6+S#x`0dhmg#^&vPE
zq-*I4=Wmhox6G^r^%*HF2^VgY3%AYelnW33xK%oFVGbhhLf=PDd%;EfBbz<TZ-+Ku
zir>Bj;rP!{h0i~$FmGHaDDKkdjn%s)=FNn2+{xz5%la&cg}Ih<Mo;^zpD|8l#(Wd)
z6~BQ1I=2_;S)V7-GzDHMVmWF)O=kuEWt%4iOBO0gIAPfPzeoN6@hvb{7PAuK=Sl<u
zujQNM<(sCTlb7#}<QJ)PrdZD3|Kp1L6LW{o%lYRqNmg92Po{wfoV8N&6fT}3RBHk!
zk17#hir6lz%NalQi+~Gu2qZPd#h65!^nrMSK{JpNM1^|yL51N>6es>Jg2yd6r3W9g
z<X9pP>K|B%BH5D5$_;y0%ih(~N3n1u@9H_PPxAN{cLTvo)(x%5zVu4@{LF21vd%Wa
zchxHvf+LO2R?t!q7mtL^jDo>iY_Tkv7rcYm+Ki`1R1dK@5|*W;eH;s%F;T1-=<G`h
zbwzq{8q<Ys)b^k&^;xo4qu&)>d~C8H!^R;&aKm+_1xubewp1J&Se!$|L6my#V7*XZ
z%i&z2zN?7eyY;GvAh~WKcvS%Zk+yU|KE!%giXyE{Kc{S|7Bg4qFeGIe2?(S7a2?B{
zHw3i>DjOwEA#DnYUy*=EgR_I`xdgL-Kw}~*l0vP?CcY`@hU#BqxQp?17!8+z`N@zP
zp)wN-KPe7aDQubFq(rYEVCruQ_Ei9umo*c3PSr1o(=3U5n?<W^2IXLtEwQ&sNSvi)
z#9+Qi&hl{1Iyq<E^iDaaS;{8XefDALIF6v54R>CWJ1<F>pOHJCk&izkXALkOOE{}h
z&T5=4CawyUT3TlP_bbAOF39-XcR|kb#W7;e$XT`1c{6!$7t7w=l4myq0ntotyUDiB
zff#ugEg1$93IX?GWS9EM4CsF-QZN-VB8PrK3Z@fb<9d#92U#N#R~ibiIO$`N?who@
z9SEJj>%NP=rt8c0$8cusIOpwDPmh;l;X4h5Su5!m6m&`QWx;>Z<Zw92zM7pn*G~rE
zRFMw4tboe6xejD`fxbZMoN*Vv?6~LBFp6$@!T65*Gkk}b9&y)Wzmvqf!N*O~046{f
zMq@n5i0RPIbUXF4+A&X6$)Qw(j{T(YC=@IQM{&kTm8&v227@%8Yyrp`;)aHU08AVX
zj1nkB1YnUa7Gz*Y6~UTv+Uvz{p=Cc)S~vd#MF5x<bq(|b7!hF`b%G@mO+8H-LT#cr
zESe6j#ED9NkCJC83))aK(l|eF;VqN-F+?5psDi&hG|k}M1fuDBMjR<$%<{?B*tiNX
zL7F(~XVLp|0w@O&;Cx=Xt+3?g&|E>?WM(8SKTZ^wmO1(STw2NPy7$r=9_AEDrCYyW
zJ~K48?WnZ1eZgisX5a6??SSJH-S#_9)9tk54Bbl3Ivzo}_$hkMc*^m?vb@)}yt*aQ
zwEJ(J_TpxHgsc15X)9?A7w?mc_svd7r+Xx!KP)^i3(vn_{KC&|ln4ZOZi{`=1KG`r
zg4Zs+dMUDTFS2uO_DDq&R7J~Hhq>)CxBY&d)EAVv?eBA=$cWd-xMCkjF=WgyeC^t+
z*CKV>k+E!Nq^Jt{R;>w_ZIa72&7POKho!Pj@0X1rU)fG%%ilGbP6S-;jZ3%fuRcTK
z%fqs_VY+tK{&s`xZI(REzx??!s@yMso<yIbTiMP44g0&xEBEg5{4l?;)#>@u^ukt;
zCkDppWY3==?f>j#k3wcJUUCA74WmrEb>yirhiOsi^L31gR~Cy@)&@+pfkGM7>1&v#
zzIsBKk@&xX?!tnx5=7p>E0N*iEqJ;Uzh_`*SUsnw?iIvoBn%bD><;2r=MGvPmyphK
zBl$S_c#<t1-;xZYNzQJXu9LI(%x;#m4@us`_xZmV{_(KvJui9AFD8*)_&URf-^K&m
zDc~M|y_jZ@$Gnd9zO3O%DkJWiaKy3|7{(xWNZbW%MaM!^OiMy;-l-D9F5X2?m>-zW
zOgaad1LlI;Pf*2jIuM^8$E^KB0y_jgEME1C;M$XT+ET8q5R8`6Y-4k?p9#AevB}Io
zC{jAmw~&*mXZMvet=#booj9ihQjn|Un(<u2wIHO^I<<`QjIEwQ9O`Ysxl~>t0~(-I
zhk;JE>2GL$*6|H|C(gU}sUK2)KOOri?!2BSbnrNcPQp$MISu0(7^)qNeyZ<~PHAiO
zY;5(=H+t{YV}mz_u~2q-U!y0sR$NgR(Y4}tD26SYn|Ok*)J2NWw}j$J{EVg<@(^Ge
zwRq*k2PuM43$<-_VN6wg=Cq;M(;$fx9;UT5ih{AWa%|~YuWY@(RZ1%&<WhWTE~j5g
z@1KuHLw}W5aI<bMuM(mF+K3;MmmiZZJQKO_3_$sc;|$mj0@%;zmjhPkH%coSr?<~c
z$m@?v$Ghb9UGj>q$@GX9Tk@5Q7n%-~XHlnr0-$Wc3k+i4s9aXU@o{G&fgUZuyXa23
z=oyR99{Q<1&*C<LCYY=)x|l&CK&?+KMV&+k$V`z$S&sfh$|J_Y)Okf*8}zT3J&($!
zP4%0$RMGD8)3Vq#3ptxN7+*-RF(VXU;x;nXlz)S`SOgGV9n<cZS*+<zLqjjLE(S$B
zQJ#x5w-Yjz9)~wPAUa5A>f5<*<-eIfwRx(Nj<Fn+@mGCtuI!NPJtTP!Eir>#`25l{
z7~2CvDsfjV!wKi-Xic!olAo<86k5z<Z6m{wiUkiO5iy}E@asw>sHFwTp`?mMUknAI
zri7pvp9U)ltHAkJchD7y7J?s&B4l*Q-y;swu7E_nq#3VpA<WwWjtPYc#b`@GFH_a6
zQdg3h<zV0s#qt5>JR^xzb5iV3KrOLh6fH*J6lU-S%MTxc7@Qj&AuPkH6*T62=Ow6k
z1!1g;a261fs@h_(WwsgnA^_~BhRV*mU=>syvFL)n=YkU#p6i_8+MWj93vlDyK40)W
z#~ZvHX8i%LO>glLs<>WL@N*P)ic(Fr>89pV1*tP})|O287%h5c2s*v=wpLNa;dbrh
zOig3EEd_I_R30Pi;x<yWt{AD8K+`OT^yGY0fq<rq8LxG=QXP5{r7zMxtBhIiOQd|3
zRyl3!fWek85|!z!<LUF#Nw7cHJn&q6_*jj~((-UglU&jy6*tkMKP7KGg$<Fsk(c_0
z<c&je@i0?_(TT`+H{8#d+k0BhJ`JXG$r(Gi&DgYLm(yXR&9b*z@>DB47Z1kgs;{@d
zFUD2|aTOSK=|Bj}zoa3IsQ8QVMJx}-60Zb#EGW!x+I}|)+!&pvv=nf;aHJQ#NEg73
zk=6oe7>bohsUJzU<gi$BS5QluNO2cpEsh)Wbc|SS6Zknsy_Uyi$4~G&oZtYtR1Oeo
zHlZkjy0n(@9s*CgeL@$VXTO)Gl^@gY$Cr;3jI~Upcic6;_>1|BkL2Rh`HXv+mR|&4
zEdH{d14=7+FQ3I{-^;Nqt0=xCFw2)|y%5vR5{s0%_wp>$a*NZ#I^l9yCtPtaU)!13
zA&M3AOe3{wajv^+6wZAWj1{Oh16?|Q2~Smpp#}*1VVn(?=Qvot835Nvg>T9sE)$d^
z%DSElHK^c1wGY^#m>OV|J+mBeTsub=NIgmha6ZY{&YjjR8*!iHYzHZ%ny%tH$Wj$o
z<@nHxx_(GxH_QbjW7P)wL&Ar9TD-Ki{Vha`zm0&j4WXR}8wSB>%Ao(6!cP5=$E%;=
zKd$-ROed)diirc*wp{J!p>^)|4~$&$N0a#BAlT`l<e<NM8&0-qi2}hfSYLAE$oR1M
ziKDJgE$VM}M_qlQFb28p1C%Vv6ugfhq?qU9$UYxexw=YCFYU%D+4t}s^6BMjuXK=(
zuab~DD736ig}<EfCge4`;|N*u+E+zgK!@>$huW)hlp`LD#3RBk>KqveMw8G*I70%R
z$NnHHpVHBDNgxY*VzfvztfX{~uX_w<vDHosC_KCjO^J&k4R$sj`z8#%_*MEqvj5s8
z>bz*u7|a&JvKYFdpN}RD2q>Dz0c`+Q4Hf+<Wq@f!R04XNB5VPnQ?Q2`>Jy^r^h{{U
zH{5+W4kL*_MaEEe4CbL4{05<zEeL>OT=o@3Ogq0pE^3fgHcn^E@IM%SXIR?VF125j
z{6g42D*H#Ji&qw$_PlHM$&?Q~X|JSSPrbSMeNXvAJf~bwxlx6KTo3a~!g<@}yzR5W
z@cyUe{ZB{Q4u;##$ZcmL`wso6@7=!0zGELJJC~oZPo{pHYD-Cf#dF<rqwxN=pA?^-
z*>Q`%y<@JVaeDn+$)@*;PfOi`G&uCWXPCag(n-GlpA=udKYo)Bmu!+tHcgMum9)+V
z=1LB|SA03LvV3amFP!$2O<>8P<h1K)H(JBFP~2EMRW9e&&E($Cl}<hVzULg3huTZa
z${%<tw8De$qx#B=_m-WJ{Jrmc`u;L)*~4`2D+jJ0`1&Di1k-bW`SWZWaN#eb#h01+
zyB~5nZJSg7G;3wsj#TWFIrMeASdOsDzOSlQB<mAmJ_Q6+qscxWKiuQ<iM0I077A!z
zCK53$UO*7_(9upo435PgHzHP%_zVTlQV^uz3I#(H5JC~16cEiU{u%`|!$hKTU{({_
zk5MOPjd+tHzexd67mB#{+w}A=C?K3|Vl$H(F5_j1->0WPq2PxIqOR`Y;Q=<Wq8X}5
zfF5CBz~{rd>_!518fp&{Ly2vai-JA$;(b)|?_aWg<Z!w@ALZKC?VdgHplSa{X)E2S
zkyUFKoVd^9?#3O&MoIZXGCg^0<xLAI^pt8_UV6J&&Z}RbEckiUe!~6>_PouOl)2!r
zyDM(H!Dw|?JaTFgC`oy>`gR_@TCKlYJ@3w-JlxGTdco;0I6co^yOL?IU4OaPuD{(d
z%|5n4f4AXLQj)v&QI;D)rpvwaQM%iG(hfGn0s9gANA67gh}1MpSKisZ;G`e(HS4Ea
zXSTe3Os;8NV6W$o;~WgVTBy)7oiJxQu_zN_luRe=A5~<!FWRSr3pTpnKOmiYN;=2O
zr+E2@pu|bfjy_^97gpIW*t_i?IhVN)*&}7Er#x?#E+{{m58khkPCWJF2D!OQiJDKz
znC!W+aq_a9Qt-%4IX<fPy8GFe=pO$iieq1*hmR`K+<v>#&IKDiOP%MW^L~jRkk1du
zor7xR*z=Fr+l3O_K0CgEZde(qs+;!QLB;SqU)3~SF_RA_c~uK_*2?+z4(h9w=&Hl^
zW5|$%Mn~$`O`p9pyx^oC^YxpigEN=jenGC^zrbG4cbt919u{(Kt@Z=Rl<nSQkF2ek
zy7cA?3r_kmzqVo8HGS=Eue^580((7w<isQPuuyH=y%%|wyIbs$>UGmwW?J9gi39fw
zPKu!lR?1b|7ufsx{Re+^?cHmS*pG!xwl@1g<jiniutzFur>@=cE;#AOd}ZTw?u_T{
zQk-yFV6W$oo_xd}Fhs}f9murIT@+cjiJDHsQ8d49+sua9%6E3l>kco_%lR|sXjF<8
z>S0gz0y1Q}58ER<n`aNa<D;%SY@grRHp|~X`|hy3^ECAxV!HdN^A6h=*4U2QJ6WS@
zBI`HLRKC5Nno~2se)~-8?3Q<q$?K0$i)!Z2o~Opte6%6gz2au)f(^GR{_p6<wgPOO
z_h6mtSGM}}=&OKnPi&<u$%^)d<udDdSTnPddBVb(b$p5dDp^QXt)Hdw>AhLZ`dJ37
zpQQ=ue43B}>t|+*W|@2=4_juiQr5`BdKs*gH8QJZ*|0a&#ODY(ilr=g_Q=(q3Erb5
z%NoO0RxT_~<vlhx+4;&tO0sRX^mi!ba->}G*p!xig4|?7jqIL1{ySttt>B4Lk}b8u
z$EHlwN6e}k%e_)4is{!U?`O@PS`+{HGIXnIN*`E^CZ%B3)Doq@TuS1Z6}2T(aOjsZ
zzKncPB$%U#XHGfh->S#trFvE%T{&t&?OrD2=$725@0LAgc9Mm(3f2NOC+iC>7nQyS
zDaeA`<I2y{A%XsY++=TU&7$(vRixI9zEX*FYgxLS1fx-f6qR~C%q3XO5$oDiql~J@
z&QhvR4N_J=QOa7RtWj#75H@58wF%&ZW>>HdrPQ&pPBb4}d_Bgw{xNA9kfvdh?AtYh
zb-6B@e{^&JW>?A1bx<(x4E#UFh9H%sF`BtMunDzoPV6yy(y3xXO^(@m4;ZXLo;%B|
z)*aTZ*5S8ewXOqZU{#BC^bsmUv2ZsyN@lqGYANe3RgGBT7amqD#q$0BK01%xA0pG-
zkPvA5T5vSQ{%cIi7W8YDVU5?!Vl#IIthiy3mCo$m6Vs7tze8zDG4{<Gt=hR_He<OC
z<-;bKhVm(eUt0HhF7`29hEdDyh2=FU!*NYph$WzjFCf5vf-?fxKlW8C5{v-1ZtGUA
zZvDC~N*$F$L;JAum~n4$H9gfKh-T>>MCWtRf6;8CoobYLfRZ1ifJ4yUV`j(e+`V)V
z^vqOXk`;H)kR6Zf+_+~du@7(@g7(w+<MQa*L!Tm#&Z#oxAv1;!w1HjBj3H{R{sNED
zWYq_%m4<mjI?d*zts1+6nc9;TwPC3fWvQllSLI5QrxKK}^CR(0n?ZIx=34|J<1TR4
zEI54Hw@|ju*F;JS(T8>HWedI=SxQHF#71IQziq-3EYp5jkEvFVR@?a&a2ZpA<$8L{
zqYJ2w-Y;58d^LrK2f42}6uYa|HI7YVoPr$pK>scUoMXoh6!>zh%NC^Nz^-x6c+z;X
zVL);sHMmB5cRdXzAWztA!5S@w=`HA*ZsV!oGpln8+&@Ub+r^DY8gKpICmutrh`DbQ
zI}lVYC)4PvjnJqQ79HZ&sQ9;(^zSGjYsFv+^#lC%!LUPrU$iKG{rV6q3@Li+(c%Pe
z84wIao&7^sqGd~_0VC^5)ZQ6&?<HUmbu%^-v%Ai$4~plhTEwtm&H$>?#f$Vzon`<T
zQv(c0avVvb_I}Y%NxKm+E(+lS^?Fg^8c^AxvP5V~w*>hetfjy>g1-kBE7z7)8unJo
z-pYG>rN-vD+Lrg22{g&u67iO3Z>GI-wR_(4?vXruB<~*63#oC>Ty67vO#MpoHqTdV
zVde!RYj@GTB2rqfm@48L>0TTuTSxbj500M<AAd?d{#5w*dHMKx=|Xq-LO{L{m^&Vn
zJx3`?)zpRuHAf#dt^Z!Z+Xde%e!F-k7~budcl+m>y6Js=B(ETxS0m@uO!49RR=K`4
zT)$7oU*5h+*UPE%tJg}NRS&b5-*_RsqETMaIG5e@bDKLQbF%s29zMcVgt-kew}Cxu
zl(~)5{y)l|=Ap3`fyAeDqg<-Rly3hx+0|^%l+xG0wLtcaQ(C*@z4V<6PL%a=CX6UX
z);33qY9iijaOjGck>x~i=oHI|57+FFP7Op(_I~WNuf2p__3njaSW*0i&6Sd>h>I}@
z`h~ros(g<Jv!<;HALwcY))F4x{<{thYJAxaBNpdUwJBoO0yCZKg%FWE>ySzdDNzz8
zHSD5sqXBTgAuc4<7tO7TA^H5IoY}D-8a8K%PYvs*%i4#72g%?sF~$X+>1D#p0=Z>j
ztUey?HJbt=>sz7q38%4MKi$S2gtN?g+C!SytB@Polc_fEs&98rReY-}yn2hgdW%%C
zRoZ$^T6KOd^Md5L@K4hH;vniG!W$<zj1<H-l$esC9SIvs7OYePBaywhpQ6}DYKxQp
zhqoBK+`!T;CJt<9^O7x2Y)tKMs1MUAC_ynjc+jseeC>$vk(yxCh=Cm1v~(L1*&X|@
zF-<TuzGBo-NxVs<)}u+JURrO&01Z|Efsif`zD|tk-DQi>2r-kWYLcZjpG<Fc^3Et5
zU$odVGA$4clLnr&yFwUQiGt}3>5rg1E0uN~&`~;5jVuT{ltAKyxJ#>nZV|{r^h#yZ
zX&$D*HDw7*&1x8Ci$IAcNZb|*V$CnyLQqwvrB3cYq9F=d1lfkaPkfPn{{sbfnwF>V
z1VU*{5I><f+VW^(v}+VGM!}a5M7<zyNL2%xk?=YK_er$;7@|=Q(G(eK95D-lnS%~(
zOw=>=OJ#e6DhB=--vQ0C_*~%QRJf9CD@((LJLJM04~t6P*neyPw_D!Y_vSu2z<gA$
zJu1~eBk_z}b7rpM>|D`PP~BMBWuGU@TP<=?%SUd<%DwhUFC;2irMGj#W&7o_{ZR8L
zJ1u)pKg`K}ZOyA|ZsxvGa;s!6r*dkyoU?6)5AQlD<1hOp%F60sM^ig2j;3OIDNFqj
z9+);Uni+q^s(~>jE`29vq#f7yeVD9{(Esw8C#z<qOckJ;B<x@OOl2BIRSppzr)^><
z8ngIxX?}uP5s1|uWRkm3?Gwx`-L6#<b|8UG_$ZrF6_w%gR=K=Y>bMx`xCpsr1v{-!
z(G49Q5^T{K$~xIwC)Mwp^X`{C`xPu?9tj<A&!ag@18y2qb_OcP0O8Q~u_rk3L<@{v
zR=`{Z^A=#-0Q0=d1R||>vKF8`9%v^vou+D?V=vCMVJr}U>HAiCKRO3OMF_cCi;X)&
z2+(N<I48O>?lSa|Sh^%@pwDt!AOi;Iv3rJb4BO?EaYf@N?R5zeXh;KV%q`9$;**@C
zi;g&ne}EU_T?z<uY2cV?eN)>_2HR+tY68RzL}$}t&_OZ-#LC*Rv@sRU(71fe<bHIy
z|4N_Aj55RMXc8S9^);#Yb&HKvFe!CtL&6obgyvlit)x|`Hdc~_=3QF;&7<$7Rk3qQ
zIBPLoD($(p0K}>sQW~=#prc3!90%Fyq(kg<(qVQw>9E5D*zfO@x-Nvf0&-ViE+;sd
z4C^zmpM2x=t<z+%YQMZ@zqES){k8Jy6LZBU<${yUwEZ>t41H<bzSr@Q&30C~6|_2F
zvIa+#%J#}-d;hGPG%W59&h0xVmz|S*J>VW(wC|(z>TT6NhvX@l&t6N$!jH?<$I1FY
zwNK9W!8{!u*<2&%tdXjA&sKz6PRsbKIxXj%Cew8=D^DO}s(1Rzo#8ncSoG{#3^jDx
z^{*cbH4IqsS;@V}oG1JgT&`Z70K<y0fE}b`$H+IA6*)+2X~K<DpTrYomlX-fY-TOC
zV@hk=0zM$tg7`}ePb}*Nj0_k+s~z>nIY@$N9+YeWGsZn?*%t2-mCbPT&vo1!cNCy!
zShE#Mip}6KYszl1Z1*K-Mx7cJ6#s2Rl|kuOQFLZz(@EVIjQkh_lg6Ij#9t=|xB+f`
z;}&?(S>L$T%w&HO7CUj+jdB%0m|;nmGESWf#AHCBJQ+y}55g*7WRTEFKM6X*lGjDt
zjIEPGl4ihJkDu>>$6dyI^9Du-W4L=OV$5|ZuY5=pbstceb*$?HG#jbQ*rgD&1&a*+
zXk!#wmk?Ga%u_><@+bHTAmx%L#^a&g!~DWGl5Zv7&V8%o&64Td@0Gk=B5`}>@|$N{
z!>xjhzkC5ut#IvB-FF)9G{Ai3q&Kpv{M+4c^}g9VH7wQboK2SN_Rp<3Ag?+AcMh=6
z7tY!wXKk9v{XyY7g>u&3Sw6gPK;AbH-Zv!UFKdX-j<20sEoU`MH^9CReiA@ylD$pS
zZL)XkOlx?@1$oDX@Q#Zz{=63@&&9>i4eLpvaDNjIkD-YY9)i$##f<i)65}pQs>rFX
zPK)&PhHdE-FI6<!aVt?9V|@WKO-Xh#E+G~C__e30<{QS+VI!HX<|URSNaAs{SFE5V
zu$rD|Z7e2~bFC&_9FhEM$i4)T%xHbZL$THYyJ^B6MmEcR*F14ccgm$ZX9n+|pDTS@
zf>nB&BxI~rC6^mpWp67fHulK)^Y%y{3zxSvMvUb_3aX!XmO%H|cA2nh++|RRY#v##
zMRX%RR_~a68FVh{%COhtYyjvKEoPcCv@;RRXJ^1^n)#Ut4jk*y?VFmw=hx7dXuA0f
zB~A^pX>kK@*xp?^Zu<iLd=bIoy?X^>qbpPo$jZ@k?5$vBkvy)&?ctfGW2hk^fHT|m
zF;2uErOEOod<K){@rIt5QKvm};hx#zxx!-vuGWNCwaBYlX1B|$jxi&GqI^;W{T8&h
z5Ixob`VGJK;Z!^O#ct)NK%JGUMx&(shB<Ge<Y`<25M4t3KI;@S%>Q5tB{*oIoQERv
zferj?#=t8E$(7SPBQehI6j8g`0w#YPHqrTOit|<iP>Nvx8V<}>Uh_58a`pAF|8mVY
z0;`>(;-%JtNHBvHrf_YVQr|*9h?N9NR1;6XM-g;pdogTDHO4p=qC^|5XM$qUlG(D1
z1xta@!B07<5*PI}O}A!L*cvvGfT&T<Yn+*o&h<-qjdOXIaZuG;aI-aBv_mf1F>^sK
zIwE^v75xaCF5+7#DuxqFV1R+8Mto`MIb)FKhMAKIOQR+LPL|+>fQli0Hxb6zmd0P!
zWmv}=ggOIzx=7n7Gcli-Wafr<ahN^P1=!Z#(zeGCSp(WIdr67D=Z-5o2}HMIn;mYS
zdHYu!<8T$q#LjCVcGj62R)n>s8UdU=r`dGEA=%WQ7F!3fM|76Lc(T?CVs{v>c_FYj
zHY*k+KTKhJ`t(f^*1p^SBdjic`R^AL%3C$O&Q)I3m+@8Kb0alP6ID#s#@1|2(;|aR
z%u^<|1>~m!rbOt>E=wv7Ux9UP9=4!xe3I0B0;4^K=_J@z3F=iKI6{>1bNxG;aPDwq
zg1hSL=lJ6|g6Qj?U;qd3rBU&qWJ-s+v6MTxruxQskQAF;J)F20paH`XsED!O%?{+K
zO&a4+hed{esf7%H=xtzx37V;pO?0eL+sdc_PEXk(2wVrm_jGo1U1NQWn$VN(VD!RN
zJEAjK5bA-Nh22%^e&$~yQv81?_=EzspK()T17a;^fJo<m#s7|1a6mXb03EDd^z5YV
z2aJ*r^+2Bt#!UrnYeQg&aoeLS(Kr3#HQ#Wr3Ixf!pa5svpc<pgn0){`Chdcd)gUv<
z$SM%cG~N*0jwY*9E}C!bf@m6`SoMw7#-~Jm$G#x;2c98YJ-!i~7=kmH{^2FWcuQxz
zL{OWESwQXlMaMKhC@5Bq-aPc?+}JgTbCbcho`3WCX}`R7^LyScl4pzL-SWYj%C|1P
zd1>19z09{WXI($ad^b~SI5xKi-T=xYC9A?E9dbzrOvpsKN1#t1e)a|V*%v@E^w^sn
z;Ov%ml4*j{77z|Aaq6Y8^k(pl=WjhfS5W_Ri004RClAgSmxaMaDn2Rsha&!AX=F_H
zhmf<RgL0OP+b7%Sx9pP+o|CtnlhW7zfqiN#yvd|*Tu7n(Fx>;AI#sV$z1Hw*gS2X=
zw5LPb-7%NbIhp*heDzyf-rO?P@!j>)SO0K_T(?`Q-7{AX>opwt;C}x4^Ea<bm3yR;
z<~frmI>JHPr8AlL{OWO%Jr*Yc=Ianps}3>OV8qHWN#ZmydaW7F7TC`koAjETamU~u
zCvYrUPZu!FX`7AI!Y14k#2Cs};>{s2i^<H^M6#)dR;*}C<`U2F6@2n0X<r6g2>%kX
zoF-BrxlC3KX{8V~7y>4oaJ_uiW#f~Bx-y!nE`{bgE6-?8(c)OEZvuC^Fcy~S>CIg%
zIJ&gEN}qZ{Kh{B<Sw#e3NpY~KZGbfZ!07;h-o!(6-J3I%LKUo}L3ic2pUKuOL1!}f
zrP!fZ*Hpi5^JlU{VWMb>*$y299e#?mZ&ePlGdkBEb@{LL2Sf?cRbFNL6bHNMY@c$N
zs{v0@XQ+RKZH1y~*eXHu7J4Rw0cEGfI8;rPo-ypfHnvrziWljVMh!MmDehLrkpBw3
zx<)|_#pY<%zYM!L(G@Mepn6oEJ(2s}k>P+4AR3Ucw{odsR&7iSplmW+m{`oZRJKV1
z&Z|&80A~yS)Dr>cdE$w0lyf%DUWl}w0MuNz2|#mM2icRyS@>nId0zG0cD<GPW~Kta
zrPAFGvi3~6KUiHkwPLz{Zgn$(;k|Y_y=-#djiZr*;&8zRxnRTWPU+&HRIp*LU}*Bt
z!?JS533G)TkIRi<$@}ESi&EdE2W7BSQxaLTMcRHey#1Jrzct6C^zul0_KmLFYvjC2
zsisBFYmw7iuD21m#<{d~Th_AQ>3BWojTN_6kbHNuT(&t}wpA|MI@2bXF%Dao+}b6V
zb<Gt#J(qV*_MVeG=N4}<b<iBeXf3^6_;m6=EbGVfGwADa7kxzoSBxv7lhH;()oPTb
zMyUey%sh{A7YN&=kYQ*kj&DW)!OX%?wcUq%btog|(~|iER6voCeT|;j@>Fe8Gcg${
zBPd5Mzk#O&yo_wcK3H&=mKSs17SF}_HZp%2E(R;`TeJqKf>;BK9jU+w(r1=t&662x
zGsh#&^ffz9%(kXa%S8w8!;SNRd}Kfxd`><x4#vkG$1!4j9JRAs@iEXZ1raX?+F|ir
zr1`?Ou0&})W-dOK?+RN1`uwxnygrEp+CX$97^MsP&^jrA8Ezp%QdlXP0U4yRASe|7
zg$eR&w$Yg5g9Q1Vw8@0eBA5T0=qi1l9uNkgps1O1!HEvV?+)8@DLgdnz_8`&5k{cE
zLnrvzw#m$*Bg?yfwjDz*RqjFu&g(jrWubp-%ok*)(3E0urh_sPcPF?@PowgGa7aYs
z_pqXZ@%lvdTqpKSCdM9=H{mV`-du13zlZcWVNypgRk-k69j92N8Pkl>OpsBw3(qyv
zZ#rNCOr+EWo4`xheQ?cG37kT~i}=bc?ir-h`eX>+C5_#q>fQy`;s(ZQQF1?g#E>m3
z*2A=KS?u1)fEB9yvl|$?cpqs0H^mXuP|)<h!BZ^Hioum7gf}tHZ4?m0S`hd{0t~-{
z@+^^~ZeT{UV{aIjStQJ<X}G(Iw3sU+a7wxLDS7KtQkNia?UlCll3|%GL*%2fQub6%
zt&}|*nXA8Z@(!H-eMa6fAZ-Uo2+G@odZLo|JX@9k0Yro>4FU}A)n^qfV{us^7h};|
zFJ0?pOG4MXs54zERhy;!GKchrDVr=a$12a@&FY5@7#E62!?-IZ4RN2`<Xp*opoD-z
z$dIGzve9j318Q69o7QitB4YT{9YG@bsJ;vp?gA8{j2WJ8DJ#`=_!Od3*WQbk$IRMA
zq@|)8Qf84z2VyLV!vD2)f0SXIeqbjZTB7#mMMiI#@q{N`T&8LU{+t%qEsT*R)?Gpm
zWS*@4Z<F)4X(Cel?bdKbn~XoMZ7zQwH1G=c+gYkza{ex8^A+r#%m8N3$PTA(kkdCz
zpP3n)OFuGckECaX)7Q!A>!vr)9Gy!)gqW?{?l;Rd?S{V+CT<oFV0OlEiZK@zbla}1
zHA}Nim(j%d3+9ZLMy;0X3MkP|J2-8Xuyv3cUp53MM%fmq(=bq^t}+W0%vKqcuB`a3
zrqZqU(Yit+QyX(wm7sptf+Nemi&Y77({5UWi?On1Q9llC=tu`Ds?277J-3f+$(c+a
zV&!gVs?ygWd;%Uo4;nl?CPq^fWaIR**w!xxBhBQon$74hQEr+UQTs@gFtBe(=)?Z@
zilFKn#MnTKW>5-!Nr`0jdGTu6hu9^K2w1FV4cVgIY(@Ws))nDNwytQ-b8<QtPOp~J
zt0(ObYwEtU>CUF<4dL~j^7>9`U8i*Bg1qj+Tn$X5RWgSfrlqB59MFP-)dpI2<^`2%
z%Ut=2@4D}G@r^6DuH5#2b4<>toI3iQV|R|p>Dx&qwoAredKZ?JH*3<f7-8xAr!QmL
z0%3iMMKtcPL|m4l7B;mWBfX8$OtM-!mh@`;vP`TmX-07jL0KR;FpmIM&<hreOI;q8
z?~o(Gg0e2ls^?hwW}(UQ#lVFutr@~4lx+n*Fp?&*$!9FZvW6(xG9DELYcBb*Bj~Xj
zEdr|0>jD7+2A-wXmzHZH74P-^i_tq)bpml=yKKSUQ^(ihjRM|j{;-iq!#PZsRmrTr
ziN{-E3NlnNkq*m%iOWb*>yl{Zu#zS+mMkN2JuK&`WqWAGvw3ftH5Q1CSw^&)Z%;%z
zCj7GHh_VsLe9Q<~tY6lnDHQ%s))w!$cRVwMDLbCQ!gLBJvc^-#)7bAU3W0cCq3t?$
z)QMjmgTkF?6QR&`Rb&>GJ#X0>@2H*eTE%-P4_eR$dSwW7HDVQBD`TL(NIw}t%do8-
zm``MCe<k#^hThg8sLED&tY4xC!nWcO1krLGlltIdP2rl-fn1fF%CKTIsZ~)A%w$Q(
z4k{d7x8kVoQKkf##m)o!Mh3{KCmjury7wvCfn=%`9(?JxE}BfY^*+eel!qSep<8?K
zD@oS}NEo5=Y>gY^-irHC>(I7@x)2ta9bZ$}4Ggb;KzRKJ2rTh>q<;H%hVKl|y25+T
z$@r@W$Fk-jc&{s7U2(JQ_3k%%Z}l$Hn=Uyi7oL<(cZE-1mGM__buRlF)R>9?x?L{V
zKGQ1~FioyOdH<kXFbKaCPohNlaAolun{REt-F*Am+nc_*n>^FE%lKQ_{;-65qwiMV
z?PsUTZufq3cpALi6LRB;aASvzzmkq{@oBl345=28A=P{w!pL5JGh0#mmR4_+DmKCw
zX~oXD;$3n9`4yI0PBQO<NC*~mcD0;cEoD_t!RgJ0NjK%r3uo2B15P*#&WG!#>t{EF
z_nwjQx9$v6EgzD*hNNe&$z9jvb=TyqF_vlBaw&g%IDe;%znq<rHKx9sD(4)Mj*iGV
zBT^tF=Y%GcQTVbIQo)We>VdzUU9%-}j-tYJPCj`~&N;VWgE~3WLSMGmVU;2GM}_Ye
z$~lMc2gAok<zu7aV^?MT<tX~=O#f+Fi-V3Et$lUv%`#GA*(u|%aOYgkF7(l|-I3<D
zaC48`+!JmV<Ys~5dhLuEUoYp>W8br^0Uu7a#kVNDr(4EfPPZgnmUAwD>Q6*24M6zO
zZ*L>!B)j3uZAv4v^KY(|v&wGom$Pc7`sA#Qq(z#0WAysO%~9D~A$ckmlYs>88SC=D
zVTqUzLYp;f{%Ktf0evTud>VX)$4NfPDUfECww!nuhBl4W-Uv)pI{Ror{AtH}bjL)x
zs^NrtX^snXOr+HTJQ22UwBn7pATiZVH0X|rjPJlT5PZrKvE=5HHMc>gZ(9<2+HRHd
z=?;Zr4ZeCpKhaT6oM>T@ND>iH4H*g=4oVn5fyp2j3nuAcI`cyfPECy7j4C^TN==+}
z(%33Odt_r%43Fni>yL<c2w(jH1$QafMwshc^hC%}@nn=PGHK*EMf@uYNE8xXp|Kz}
zm0TuF?7ya<PEsX_=Yakm#Su=`cBZ;KGMWlKcP&2?MZQgG|22Zed(ZD8HdLJuLut$#
z-MLXJ7HxneIXHfw`A_4#Xr6TZn&iBu*?N)<<~7ab4Nay#{9;@hF^@<b^N0i?W&)Q+
z%ooxM_(EddC39~u$3zFF{BM$TqVKNy-rBd<&Q#B>gTj29<Z1im&ogunMa_0*#^c?p
z%Dr`-AJ!D^T^H+>NZ$?rKE`2b_U#uUO(ZoA6EFklNgz=)rE(Dym3Aql?iNbXmu|d}
zk0!dN$Ij$?-$n#GaJE>qw-+-AYRWjp1_nvIHTZY|-@l+aTA6T;YD-5|W+<Z>`ZBVB
zW=dM5di1#@dvsWMvs|=!c2MdWk%~6Y6+KJRIZdUR{B90CC#`CkTQyFnFCeum-zIyv
zNuF(s5g_d<QB&I^(neT%<PFBX89AC5a~3;PjO>!EdZQ#`cW?HhXS|2<O}(mo<6>M4
zFKQik;l!m$J%~x6E%r)^7o%}a_0y%Qem1&b&)o_Iq78|5s!T(l?OyKc^U<u@0(h^U
ztYWhRj6w~t!i9q(-~#VV9OL#5UwOK}mb-jjHISy4X5=6VAM>rrih}PfRfa~|l+4zf
z_WSaLrMirvywYycQ&GK>Gi1OHh(3irRrr#mWf)BnhDHaW?1}BbH|fncC}3ME+AnGD
zgbbkXA#tL%k>Q1FQI9S!r|F^WOq5;81r!i!eC&GCdQ3$n^|Y=C>tJ0iKAaC*EV?H<
z6*S-MeB;8c3->yvOXlkKNJY(a%UUKq4@)bjO6E$p{M_b9IcdLsY_jdf7RHh%R^?1S
zEur-42kAa`bhDWhGwS8C6O#vi>%>j>jkE8imn^s`BRKn6`LBeohi<mMap)Gjv#goQ
z$C)L`)3kV{fe=wv+L!UL^h(2wqcs_KjobSOZtCi2k7MT>oB-pz{$2DrU6`|u1nO9Z
zojFY(OBMbqQ<!KQ{~~29)j0}G`>3+#0KjQ~Z$D(f+W70v6^)5Vw2|p^sy=T3np%+j
zio=Eher*ouO3SP+MnR0k0eENR49zR%0toimpB015jQ5>*uW->6wz6na#Yt?Z(LJH6
z$4pD3)_Z9_?nNHV$J9k|9#J40avSB`#@XUoujCt$avSGz2PaeL6v^22vDfo%j?EQR
z%^B`GtYtlu_`+wKG_g|#Q;Q~I++{kh1T<@?La3mUG2{sK0`QWXH&<v_2T*a8bBvE9
z8m=$KpOgZzzJ_YY93#0&5v0GP0U}0cj#2C%QBXm_A0r6F1E23BatXsvG0li^4|RgZ
zyAQb;FC@J{O5>O+O`}}YIC*q_Dc@wE1IRRpSt%#RTiNsS`gZBWMS1;2dBw%V-pX`h
z?HicrOV0@_l&u<rSZN?`-eHxFxpyIlxULw7xH_R`pk|ys(RZwtW&tggX^b7IQBn*M
zKnyK*8Sg;^Y>FWQtmN@T1nB!oMg&;xI%87tNu(qTc6&Tgu!Ru?Ry#~fhCO4$YD7VD
z=%4GW#7q>JP`W`M5Gah9bTMm(?K24olJCSAfEr+WEbMrO{;_U<Kp?Lb`e_9QdJSmV
z9=}2S78<XtEA^Ctz9Uq2i57%`*h5g3kpyfJE<qBwTNvsVC_^uT__esCGd82MLc0>e
z<d}|&S*=h~)o_Q87A_r+up}Hli1TtA$*I*yhT3MSc?>+Y=M>`+Av-f3anNyy4hUu+
zc02+L>Ik0g8AlwX;;(tqeVCO)>Zdm=-l)G-f3JLMXs&vvRIqC<Yxktvpg)```y5Nq
zA9U#TtXz6l>Kl&q1+h2eo}yy`+!gzR!*-SUU`{)?kG@{I&oSBdTV*#+-KhN9u?07k
zOXNx3D_5^yg~_18TZOW>{I-D8vS82te}O#tBYi@fSC4^tHS#28^kbGyVi$&3ZhGkn
zmJ8EuGkxvx)QPdeV(5_}n)vLj>?L|?p~cou>%fI4B8U}o_)qZbv(0g%l2>Ssljy^8
zj?d@jhjVwyxx4O9+#ik{h2scY-fm2$ymN3EgP9B0gP(#TAsDeV_DMv>J`qI{OX?DL
zQpY^_uzH#37C05xC>PwBGNvNjBLS1b1%%pV3;JCj_&CzV@PW$l<i-^mhd377sZBG+
zgQ6e)#nf-y;WGUTEM8SUWDflR<#q7gY2pF4j4`))b(e+*hsm5boKHT<cX2Kc3YV%P
zr0P|Wc?QH}r2`KGdQBiUBNU@)iD-qJ+H6%<?YLVU0*R-_RI33D5io|JB}o>|W|A@G
zcp1}G39!=%j7nRC6e@_V3h+%Q)O`y7PdRFKRb+xSrh^^YnGh#DN%pVMa(N!}1Is0M
z5$(>5vYnEPPD%W;5&l`Mmg3U{dy4~*5EX!!1Fg6C&~Lon^}M%0Dz2Y;PA=Xq?K&nM
zzaa1ON!`!NyPlPcpOw9$<Pnzu#{U78`>c!1(8f1NJu5AOC()?J@`JQH{xbHJc%Kpf
z77Tk`EsM9m?jQ?2Y~T5x^;xN^SoMw$DMu$s^*Kh#%9x*lMdvm3g+%*PPG6_$YG6}F
z|Bx=vj8~jy`dR@}GiJUq6;)%^Q>MnEIj(6dE6U0&F?o<CZRHD{s=l%T{GnP&oN1<C
zsktn_fzF9zos$}+)>h1OoXjzuKG)h7U296DH^L&}V&3ML=##Vyisxg}G7TL~xNuA#
zG*051E2u18cHUmA=IgYOo<+G>NQ*bYOK2-cb{u3H$EV~SaH`~3b_NG`Py&ub7PZPn
zt+Qw5ij+e+ZE``|Y~Nf#`$ul)id1mGLE6BXbD^?!Aez=M!m6l_?NJngS)^yB5{Y?B
z>EkX<@8&Lsk**1->RPRwp!y!#K^9z2139s6fu+TCdPC+NtW=g!3u`?m<iR?!hkmF}
z?@zIgKG!lbDg3d81GW6mxmG-iXz4}tvPmI>DQVbg5$W0+nxP0bt&h?xQh$x3p=dys
zRAGGVg8L55<V&axv+G=2|3zsmdTiMxuX$hfO5W1j72#F8Wc-<ow3#O`O<p#EX|n?0
zZ>gG?rc6q6K4hayF)U*>t*s}qIyo&SurfKJjAZHlHSu>;MKSP;;xF}E32V*12zfA$
zfgvlzJqR(?ouS!(@~N%^TV<lN6DouvJ|j|4P=bW^fK{~yH`Bq+zonm~Z^U$vG)Vp>
zL`2h24PTQ2@0B0x%s-$RB#8Z2;vxJfErUHz0^#*mTA-9arls)Ps09P+P{C!!?WN_7
zlW7rRb8V8BZ<>ByUcN89{D8dt!2J#3!xv@zEx#!B^o4t_%J^G;l@iCAK?xVN%lKOk
zUe~GciKk`!Eq|Js<$qqj@I3a^dmQbg-r-Zuo~=0MKpEb`n@_`Wz|?lxyGinFVqjnV
zzo^g35mYtBd2$s0E4?D7pR(U#9E@G~8BHGI{i5g}i*xKK{x?d?&hz-_iIADei6cO+
z*?%LmA^TN|`ymB%?oILO$f#dth=Dj_B0J*SOmDwUKN-7(kpiS^&D63)l6))99U0$x
zntl><Qe@l4KcOd)5~E*iig!o?av}|}_;ZSTguv|2@fQ?H!S5qU;Mc(IW&Rvf;m>i6
z?$6O%1%HlfYZsij&sW!er}9qaf*a4EYGE~?^3BSHWcuZ?Rjhey+nd`KQs`HzZS~r>
z4!wD3A&q{elh4Ntddk#&K2otb%e!LbFS6;W%g+2dy4*hdR4WeJ;;#B(WRK}iibyp=
zWIbU&1wVH=?hboo!xnP8xZtE8^BZ=|bds+;dBf2K_Im!Qr^8SA<){3Q*iX3qQye&^
zx(^t>80kl>14kA^z8L9Yp-A<sx5B+!_p68JSigD{L4NgchmXK^`$<$V8!i$fO&iH6
zAbBM8+vl6M&Q#3iztbQ$9U_l}h&g>WeEOn%`Xc!y^xGF|)e5G;6s7KAl77Tiki}31
z>0yCW-6p2Hn{=;<c#d_NND<^S5qD$|?C|G^+(+$^14r&(`!Spt(vSHAIJkUDI(tzD
zhxveifu)!q91ahT%7dfyxubTtbyWJl#J$%Z*}Qw!HGB5m40&_=f|FwAH|?4UVh|?e
zO&A0gV+;cQTxhkc?hp&y=k1Y=J7;)!CmfVF9$9cwj53Oq@0^!6z$+q)A-9P1@X@9W
zciD97f(^I(`7p>OVQ^3S<%8WUN*W40qE{brUiYZ#({j|pr{$>T({dC(ExqnzYSLpC
zNsnnskJ%SirMt6dHZIt3lTLIfKuP&^u{(V6l6>*fBYL+`RN-Ddleb{Q?Y{UIp&y6X
zqjaI?5k-A;#GdEgXP@@W<j+>TQ!F>`U$9XGI$iSj%V#euKO?1OZ(O@|?U9q-eN><3
z-ad6{CKvuN;aYS1{Y%mrpWJ?t{g4KpC4ZaSF;Bbgz048ly2z^PsV&p|o!#=P?c{25
zUF1lobn3i(<O2IOpOW@U;q^lDHM#Di>U1}pW-4Xlk;(?3?Um2;%I$sBz8WcTjapXo
zQBk_PXvRfxMfcA_FH<@%$fpJQXfKPB#H*C72-8dPUYYBzjqKVt8@zw%-52CtXBM1@
zh;?8|5#4;adqD0Uc;v>fg>`D)40nz0_!7^t*(ieCUg8elnrG}!V=m{q19t2Zu)2=Y
zhXVHb9j&vS_bcB$FYoABV6W$WJbfg9{>*l-r0IiRJn37o(XWwf(%1yx=L;|b{1Gst
za(kAsbMYQ;Ivr<;nfsLE9NjKBE;^uPcmaNlkeqJp9sAYk=!4N<%C#ody_@C?ZnGzU
zboSk|kLYnB-{amqGrC~I?S9T*<o`JT@90s%R|J)#9v|4@{X;%qm7Vz&#%&()AN~yd
ztq+N25`ToC-wlF{Su%ywZ6?<IYkKtw0{Fys@&2)Z`0ps@-y`_hbGiR&|6hf^y_=~(
ztG|9{H-w&ys;H-QTPQeyfEf4sr3<D1Eut8$X@09FGo(XSR3#6ww6;;=9lR4NJ4C(W
znjnu57F;`0N}~%$y_b|5@w!X0n3U;CZgXgq$Q(SWJ@DP#ooWw8S3-MF4B{LlTysO0
z!50|u_Xs}K9g~N=pO8y;2#n!_J+!C3z9H_fxBr^J9~|l#9uykjAv(~|KS(BPH3#rM
z=EK}aZqVyThWe_KqZyi0K31?vf9|KKxA>nBM3VzBa}DR^;@{vGJg_^i42tjIF+k+8
z$`y`gkt=XtfO(cziuyW6=%+-QwISJyHh2RHdrM_+>GxZHaNwN-v;6GoxgAGnp?CLS
zvoYu8CtVRw>MP0DlV46D_u25eE#;nm;5noE)&9EbAIMCU(=?<(e54ru;q4O+(_Yt{
z5{c;IP3CjVC-{v$FhqA3*<ROjO7Je;J?@0T8+Gb1v7J6S*e6(^4K#R3q~hxCarD`G
z9OqHr3AY0q2E&UT6iL%vwuvODsp?bOQaA}OcYHGM;ZyFV-c?28Xo1enGI&^a+soZB
z4`-B?Y1B)5;?wS>Yl{J;7-_S#6vmy;7$@;+CKic>;w|2I@y0^)2ye3R#zH6w?`a;(
zujd<I)t>ll%an!Md*jaMSf(s8QfN=w=#Zba9_-wE924%VwyI_AA5t^!I6kCa{g66Y
z{4oVzLH~4$Uq$$dC+P3q)(xxCY{fD-2Eg||rFxG7nSv+<{}Dl`zO_F9-Z0Kv?j04c
zz(5;W8h{oRe1r^*LP$C=R<{=>Fp+{Me^a6Dah@jFdgW-na>udo1F4MreRP-?1`r|o
z2L&iR1-PRE*z4k-(`N}lhP?V`_xZ_TWvDF<PT=R`K!sL>PpLVB7hVPt#Q#hmqFulE
zH3YD&rZ&>YJa{Vp+}&VoLS^j#prrpB1q{S9=+5B$|4wngL1i$ok}SSVMP>Q<!G0KD
zg)uwDI#M*X{nSz4-cu(}w{?iuDM{LuK_B0%d@AbU2}%xkUyf$!mFQ(n4lGjMjpi~K
zrKeNejf$_M(EpR*lp7C#Q+X?(EerUQdOh{#=J!424|5A{R?p?GCRb_sldX~T%y4><
zoL)4Od*3B>oRQLt9;Ba*6c&XGYvjV3xx%{1!;yWbe^Pp8rt;0SsRQqG8>Lc8h45jz
z_mu<J4@h~drL~)9Lehzo(gpwf>D>=uh^OM~hZoZD1*i$9q`%_1?zs_s-%~^tNx7aP
z<+jXjo2`ZP^q9Rd(zq_%*djN!NDX@t(`x4;+^V-S-psi9f>gg}HYeQNAvbqOdpe=}
zwd}P0W2lauu|sTzV$mjPS;Yg-Y8}8n{lIfh2e7~Vd7h0sYiBZ!cfH=$l}SAqCH*2e
z$Dl3o>CGHV7^eh64eIa~sMV$9ny~S1hF)ng#a-ie9uV!G$AG0l9SK|UDPbZkO)Da(
zBUf$Bn^ZC!Ur;&DFQ}Zy9BKemPi9bE#VMNMHlvNeAjv8QsR0H_4(jS8R&Y0{L)`J?
zpbk;3&RS|c4;)kn9OOaCdcUGhwnCVadnHBv@(O%8g@+f*%f;F#829lM1D_CE4J8(!
z#8i0b)b(F4ml)}_r}*!Ur}7#1GPQaEGkvPu@ui{mX=?4!ClgfnGVRO8eLPK@LwuTA
z_k0)Ogf!lppf0P7+}abLb<d2cjCxmSDU3UxgPN={err#_n9J~{Qu}S(@g^5<s*M=!
z3Ai*#tA9*?)oLk>JD+EnlHhUN#V_Yq^f~x^zTjS=F&gm6+7y=%KQ(MRk#5od+PtOy
zCqFXl7w0#O%knFY{-4OeY&3fDN#;%lU&I&RE74$2OmA4Vv9!<5b8#(9zr1mA4f!(5
ze%oY`a+PIDLVIzS)@vpjB>AdFjil&LY5Ei1R+YDlUjml;**9*{_0Deb%lIY!8U+fC
zl83J_LPfkmk&Jrz3&dgbc8y;BHe&Hi^hz`t48~_ffj5yWW1vh_8;7bXUDc_#>iDXg
zG{6VpZIXzUr}~8f9wujDm54<4ZR*Jc&P1~`!>}v%AKWqAxlV{bx2ML_F5BXXmrqhy
z!Cd9)s;HYihE{6jSbQUtIxu_{r4I<b!F|}BI0uG%#D{3#hgoaU;0U#P4gsW{j7oce
z=TJ_oZZwvwJlWrODOeRs8yz9zRwDfh6&M}S%wHZ21j$b)SJ^#M725sjNh!TBMnn~h
zZB!}R<1+e5*>sU@Ma5w5YxKl+UY@{cH_<EsLnIqbWjjQ6gjdW)5z(CHy`86;kNA$A
zZae8yp2at*?4MHbLkbKc>}mQ*vr#mNu%F>))E&IqKXi>Tc<~ABGsgz}-NJy0Ld#Sr
zw48(O2RjeqdmRUko$U0TZ0>A>&+kDW9ZoTPB}7xyD84tkTzw=SejjP*^U5aHi9Kc1
z;lC#S7pl+O6cE)A%}^xcKBhYz5J`J9>hxb*7fn-Nkj39XCX#Y77gJACi9D7U!eDha
zi~kyh{CD8jz?VRzKxCF=%PgF#h*Z}_R#!c&-U>gpncF8F;2f8%g0L3*(6A?8_T)<&
z_Y;riJlvz^Kk)d-QQm=D2X6cCEqhS6bFONaw0iek5j+4FJj`AG+JRRO-1L8Y*@M*^
z=gKxo#hd4Hw?KUwHW~BZ%%5ty*YjXq%Uu0lsk(Kp4CkIoKFG;?t@hR0o6p`Zn>zC#
zXXEwcN$2Fr|F^tr4T|Hs(ml{X&oF?1f#E4$0|Ft9K<JHNj3x1sWEn{yWLqY{3@;&&
zdyr*m!NFCVU0g|(*{!V#-qgl8+0BmD+6~z!*?8BiA6Z;+l5P!R+7na38)cnT_6J5%
zs^r?L?00U@OgE#J94D#Dk8PyeJ=2eSZ+FlA&iT$c_uMMq_sdw5?SPWyxC6JREdg7d
zY^!^HXmQ(8=TM+?LhhWnX@l_rhfE1<g}$_#JSNH0Cwcm%(*w&{gNuh}(r3g#L5*Bc
zv*3^lYWxLF{_G|xYj7$F#VrVx5HOcgi)M>vi>1`k*@^kqn?lol-+$27P1<>nTWa$x
zr}iy$P8SE#s^qk)xhy|2`eFLsM{cC{DfYs<h%zX?BN#}oXkvy_aaIMKF4^glwm-6v
zwAk~*3-4Z7?2?`ukw%{Zfpt+$Wk4$sSfeInG=Qt(;g~y|$$TV+S_Qdvx^@XE4b*ML
znyy$YAl}+4VF<`__}cF##F}^E@nOE;ffon9I5ZV|tKB2@^-FyNQv2X?=Fq}Z(_+A0
zA=@i_+x+&u^JRYfBU0wjR3eIy{Hwbke=uLR*nCrH57jN%%BA!Q#qRKV?#7zTyHP2G
z>EsuaCHu}Lp(Y|sw=W4DI$^pF59!`|JeNIWy0>oO()zK=<Lu{6-YmSlZ|<*ZE#u$X
zlh<0wzmt*MT4h;8xts6BzQ__GIP&oFei=5?39cU`#@9^nWyUM5F78;OB_K?*zt=)S
zw4MrqFlTf`tj3s;Ez>PrH;2I<k+>0&-N>bYj@MW*cSN0cTdpUD0r=A*Z$V}VZtL}=
zaGgx>jfa>3%H*5}0)wCl0H7a`a%!Bvo)Wpbc{~mRo+TvUL379SBbITqQQYu({OY}?
zFQt!LAed%CFipg<35IjzC!$Rde8)p;T@4VrahBOI^Qt8b`?!7v6CN#^Tho{N;hmje
zl%Ow4XiN-0QKQsa8|V$~NFyR7J=_|IK-!T8M2Op_9f=kegzMMVjJ^^=_gJ83;?5Ws
z+?ikD{~`u`wXnVlZhJ^n45@t^>Mhi+7T$U-w6Wnh1EE?wE<)5;A_9@NB|tRFee9$E
zz4q~q<2{qEYw@aFM4}Rti~3dG`E6HdV=26G%Oy_GLC;h1pJ<eb7lr$IHae>EJD;Z=
z-=iJxp#U>Pw^LlCg2`5_3MPMPoX;s$e(4w;h6mEHnwX%W7c<{`F&!QRAxbS%c<Le;
zTvd2F9!{2c7}yAg2!Tr^Pi>IAK1teeRL~N+`jxx%JN?1G!sqJ~zRJ0??~|0MTCT<P
z_pxQo^-&F5e&T8bX+^9|FuA8^6mx2hc6E>RBA*kJoGQ{pj5eHVd0wTh52>JfRQ~5L
z>8>21kN-u*PpFuqA|hx6<DXOIho92dOv12^kz|E=`LB##8dFIhYcNBTBDy+G9BVk;
za;)X_+2AH^<`M*G;YNvng(`!B2eVC+7abFxf^kItc*Vb^*8Cmqk7EZjIfaQ0B8gHg
zqF65|sB(gxkwL1Q5OGXKz`OV^&T-;B_L2k*KB%x%67qw&E{FiPGV*8Kvyb{>d=0*5
z=8ERp{26;Gv^sa@@NDsHkFUtrHfNfv_NVVg<X%qsd=6}rO3ki2NS3>2Dh2qMnxiHd
zTiB{R()>X~>tgj=c}hbo#E;Ztrl~kY1*T^j2n9+8*rx>ZMbp%g4^s1eZpB%nRMacZ
zI-Hp1ntBw#cfhq=@U*XUp?vXV;P^TD_&NWh=e{OL1&9v>^Yk=WtCyNyY?5q_*|yn}
zglA_5rJ?iE(6Ds&!t&OU#ZKSOKxMsLSwH{W&C2E*TSsnMN7quQ&b2fSwmQ)A)9$H+
zB_Wppjwq?L{v~06J`gy&mOzw+wht}|g~a63LHk>l(^}`^rq9k?nms);d?UT`Mp~<q
zRiPAZpS!dc$C=ZJo~mc;lqzy92{}3lwR44CrhCDyBlp&kK;UQyIjy!MuJ|{Lcq;3%
z8hPv6^+}Cp!5BHqBFO2EnJ@u8V}YJJGeHO$iG;yl1U+MQ_$n}TjXr|cp(jGV^%M?}
zkA5v|F+@)suR~9Bcob%|d}s`vh}VtX5n3jERhTl&_|uUk3_TMt%~uT2a{wc?j(Pz_
zkEy%H<F0Rtpr>U#UPq4*dM1u1j$0mzo{1s!wBlI75IwDE6QO5lt*b#LU@V5{sSz-#
z8Ua8Aj1EI#(nFmfp`sUe+I3^RBOxnl(c_)&?iyjJo+_b1pDjk22i%$Arw3z@V2Gi3
zA`u#mFx2d}kDJ|D8!*)D&UWXxbFb%xpU?(uEDSY3x6-gt*OOllLp4%C+XCfKk^h+Z
zj~Mhq^ujfl_)qv`gplGt(+);9Y(z-$UuXwG<46C~Hoy4`zj)Q9(i2~&?=_4(sbXYU
zF{a!-zb!<H-$oTzlf#$1!nAeqJ5=xMRQwwi|Bj+jTtN97f!sIHF%9IzH|dfQgcIMQ
zk3Yj9*OJ7yY5N)#?@&STC4QHRX1W9=LDFzbT%?a=|IncpnV|HjrAFTbGj*^PR&NQl
zet@%25o-MnHo~Z-<QGAk{p{Fv>o>tJ;UU;1AO>B<F3;}(yOi3aiw%p9O0_4TDp$6d
zlpT8!^svntsH~GK>*fdil}(Ff{>sPKIof*{0dI(aPoXv-dcqjX`j&+LFn;N<OiC|V
z5*)uPFw16OwjM*Ry0@OJ;aRe+k&l0~gs0M#+i14F6PwhS`~W=r!~c(X2G5dD#WRax
zo*R=p708?x)-f?g8{?jVX*;4dZp1wr_M(<B-i6l&xMzS|I>STy199(phI<tD8@0G?
z*NrjC2+cA-Z!y9ym=)~6d;@YFd$P26>QBQWceaLs4@V<+j&>x_vNWnw_(<|g6k6s2
zE%Tz#GT*(~U2wh75G@T%D~4!Uet+%SaS@GE!$@t5(6UHHOYwU&aQ_xaDZWP+ASF`u
zF%XHc*I{KB!^+<tARkJ-U(KqG)=r^;iUci$tKuvb8^N?9re9SjZ@WJF{(H3Ca)q!p
z<JVRo$$>zpMZQX1k7$viMpr)wYQ^v40^SFJWw{<Kng2ysH&ev5Ii}%Z1^rT#ag}j`
z&!1xB_X3{}Q~fLth0mlE)geLJf0P^|yL*^RLhtJS`p>2kJ{VSAa;0lQ@K?4h9`aY7
z*Z`~P)HdX-GlJEJa=(ZXH>E!d?*x<ivMJ2*>Y$hLy`PS}+vYqGHL~u3YGm#P<lUqp
zZ?UbhCjQO6Jj%Dya~t<r-`SbeSho>*>E#0Ea<?I5Y;b!p3e=)Joy^IM&cMR7GI$ue
z`H2{~Ld3e`^~@?XPB?VAE$UxH_ta^RZsH;DKO$apO~7PQ@yNku4I|t{0(9IY=(zga
zoWvtXEp(pdKIYbZBa`(UtB!%)1h=)A@dTK;@k5~nY^VTT^LeH_8l!J4Ox=ml&q8+t
z=xfI4Zq;$N)^RHk=waw<4QZW86V`E)q5hbJdrn$sXsxRO_=2-6MtbA8Rm(VsHb$7x
ztLWLd71&BtAQpFK2%EPsuG8waU(eF|^QFlRu6734i`osCS7X$ry4Cvb*9Ot|BG#Y{
z1wDb6!u%|lf6BlI?9ONGtU1Ka0x8{v*Nei>4QP&0PF;o!G)8yv^%4!Gb;mlwXK8D<
z!?=HFLn-zcATjoojq_1%3tD>~ipjdR7`Q^Xw-~nCz!Aa#<*gB3S=%CBxjdBRRI{g(
zip)U2Up2$OYe*uiDl%!u2$W))@}JUqjA?!eTR$hEOZ*-cL@h@P0oP2yxGSD+(W}O=
zlSmLk+h4d~z-MlT%XD6V3TEYgA6r-B3(wM7SFMeqDUHZ?5Vmh8RsIGF6`^(F#ZxWn
zl%d@t9-6g9e_r9^;waLpdJ9i6zh2b^5!1ii&rd&8wh+HdEqmg#+s!w$tSi(q=Dpk%
zY8fUdB|m1nj+dsP#*n%`LOY`5jo0bBcq(pD!Q_nr+9JwYCx|eUIn(dINH_9l*o(=#
zBh0f--Dh_7D0TlPox^l~=H$rJgVm|}4>DyJGVx`@v>_WNjq!>BT=*LpjlJa<tR}e+
z3{A?bjKNm903|1XD&>REKx5xe1+0U{E<t9(P1&EuWy8c?s%+h_lpa8-nb<ROh|G5A
zTq(nni-$=readH*Twsqa+cVca*CUng|7BcEM(t{L5u}35tU$(2Ib-KS)_cdL&$*Y5
z(G<{1Lkn;`vj!6+WF9ps#~;VEIGJrGOt6<xi|Z7WteLqa+g*-Na;znwnRh^cTge%H
z`eYyjxf08KX@QDb8UHeB=e@G+(M3060;QpgH-%?bRn~hhV>xZFFK*g1eP*WdMtaGO
zw7p7JnNn0a*B+5o4nELYzFpbABe1<*-d-<lbIngIp8Vmtch4=Jke<9CjZ8=vo+r8K
z5oQ~2Alvu`)|~mwUtAKN(NXB7s_es~e~fh4r&^yKwx){sH}~@>-^$q9<g~tHwKmlV
zY#i!WEoqOt`ia78oBygy9q;hgvxQB~%Z8MG^^3JP#INF2#4G|d;Ij-cs=x0q=_5@1
zA>OM6TcKg>A6%y~EKSibgWP(>B`Vkud4RUQPUl3%+@Jpn3)72&aXrJ`z30Q;JTwjl
z&BJ6_>K8p%)Y0(I=mM`$!5n{h)iXQd{S)n@Eim_LayR110*5GGi{`>~wZ7pZ61P6*
z)Vnn?C+?G>^v{;Z!|9(34~v6+Y8to*3wgEr0q0x7=ND?{H;JQ{#|GfV)PIuQ_%#H|
zpd0Ay2Xs6B1KU^s=&{l54PwtArt61eRcI{MhtR72RLllQfh4NuR%m?I`o-L~j(A~A
zLzmsU&S@^{-ZAkKrn|r;?r*C1YR9iXoR7e|7;bUbg-gRo{{zhu^>$r=-@2-cQ9W!Z
zA7vr2K{KUp9~&JV_Nr47u~8i(ooa>*W|Hae63nYk(L-j|XFc$UN9YU<<w2h20u><)
z!6JyQi&vP3RWKD@r4e;_u*Z4v3T*}B)wSwv6+d?6B3dB|REwDklA42+I!Ae@SL}6q
z$3}YxkX?MR*X!)T6B`*sCoYUq(q4u;!L1KH1CyR%o*0I!P_D_a6Fl^=6EvqPRDxcj
zQo2O+*CMGYA~{S3pZIK-)4N-#ZuQ}cLVH-XT^9zQ8ypcSJ|wv3z6yE=kVz49x%I=8
zjA!Qbs$U?>Q)pUN+#Ij!ueSSBPe#xfO{jy2^6<nXFiew%AX0b+%M`ChOIOfG^1>7k
zQNaNIE^QInX7Csu)JjoYrL&??`$PIJg4!xcK?Y@!BAZy)0COv224lv*GZukia?~&w
zj1>n)gNZaVJF+Evo<-ga-G`m(07;W>1#Oz)+dU{^re}8F5Te3~G?WHoFFbo8m=zTy
z#(qtRnDDC74U<5~{tztFy(Bbd>5?L|kg_hk$0Pk7%q-2uI5rmOUMz1g`64ETqO4ir
z2(*jcgW}~uuSfODGmm(l8)I=A;so6+Xo8%Y4DPRKi=xV5$`6f`U6+wRWB|U5U!{G2
zk0Q7UZx)+;HL{OF$b+eDP8>DTU!BB7Y@qKk6>8X@ubMt*;Rexs_cTnwsZi@|FdiL(
zuRt(m#B;ezn;pg*%vO7hEGW_UBABY3-=*FUk@-1jLf%iP;r~s=PpM#(6q6HKd`pyc
z7^@0+&rv^l@_O{r5LQ)H#oP}*5e}m7mxev{;;+yZ{Nuc@WAFmFn@k_a#GClr$($+m
zM_l5MIj77ySGcMbF5^dB+6q_jV{V7c?O5R&SGcAX?&%e-Wre%E!nLn(r|-nanzClx
zcQ~xpEIhaf1j(K`8$gihnJ%g0b5c*g)X^^=N0>0}Tu)9g#jn|tO|2$h`x-~<h0t2+
zJg0sk^^DzSd+ro>#hL8W^-@XA9ga5d98T;OOnYaZmv*@BaJ0F0ES2M}Q&;`5*(-eU
z3cqWGKm0Kq-*RRgvoY|SF!`!|-E*n_)SAiG_fzaM{7eu0Cc1s8<WJ#Gsh({9Fw-&j
zgi=$h?5Kj*gnj4ai8Ul8teI+2lMv1iDF+X~U)L%<-nLYCQmJc%RGHLlnmmG9ESa-z
zr3{`0rApaud~ex1NsbXa_b%Jd%y!O~FZ2W&JLJX=|ACG_7jD?kNW5*G=i}1XlQ*Go
zY)9cX6`^c3m7qLn+Jf@53E$uDF>!I5R&xs_K1<nLHq-OUz{>+Z-shQ}@NeEN@wrOo
z=INd<5B$l%EI;d>8TV&yn>?{<Nt!&Qq@_<DRg0{`nV46EmxbBdxgxowX70&_T6s67
zmN+f%J}niuD~=s=l}OyO5Gy+lEj%fmZkLa=OC=q6A&NUq5LUC#nj}8s<9N<q8hwW>
zT%KcQ=PUbO-Z$IptMEC#S#hmmuHm(9a@n5w*!h<E!*8^FyJeyKJICaG%~EL#Zc_A7
z{QTMZ({G&p_SuDJzVnp4uSF_tMa8AZsN%fis5ooYjtFgE&o>9IAx?XKY~G5P>Qf8n
zrM)Np&Qr4el+-a4=opsq&pwPh`=O;+$*)!lA^2`lvMZFFN^HEJXq#^P;=wy9LSp>n
zA=u&y%V$IiG56VgmwZY7f;|$Sr|<~@K11d+q)g|$ZJ`03Ug8@+w$k(U;K?dQdp11Z
z`(BPl>Vxjpz&qfqlK8F4W<0-Kgm+CorW91qTnQ9Z%LUbQrI=m&HkTLIVv>d2DPg)o
zNvoA2X=<An2JwgjZG&>#pg(PBDq%IJ_|<dssY|7`a!##s|A(}t(t~o&LCkBJlQ)%&
z$tUs(0=ac^Zr$S3(s{3xTj$RmgC|ksjZt<Vf)TUuh)Ho&LoX?E1PTwxg$EY%rM?lV
z@W9Q&QP8c}jR#?GL`H?x+)CehId?y<v6^2xbMlqWmphf(7F=Tsw3)4B2raJ+Y&jus
zIUzlL9`3Yo;ER#AoB%AAABn-Wa2T$&`IrgpZ2qy(3~?ElaB-Jx+qLkR)H5X6cKL1R
zr_8I4?ca)(b{&zLJLO%S(vyAiu0DSivJ3Ug=i#~g`P&>fY-*s;b4LTxZo}uNARv^<
zLYcG$Jnkb<rgBSWieD*zxm@j}BizZ-@_?gWcGNGPlZL#KqyDC23=P9>G%OdLOu<`@
zy!R>6fmXS^)$cg^Zm)E*$NyNb?C6z*A|-G4x4csAQUBg!i<jlS9dh0oN-H2Z1Hx`(
z2A1|TEep+S`{|Lc9pqASr+Qx+esOrFdZycFUrMfip=t8aRGPwDClCE`^9#*W?b9{W
zk4`-?e`KL#Vds47a(2_4@N&t_z*n~WV*NRlH?o@+FH1e1n|$AW=SbDf%h@eH8-};^
zuWY@M-6FL;CAkNru}e4kXAO=%vz*<j9o;E?u2(ughG*0e!=`F&k2xEI=M?uuOyu0@
zT{ki2@X2Uv>kF+@SC{x4?bEYMd}ibm6xdCTCfxL_d}Z_2yXH7d17YRj=**TET2M(!
zCzM7m?kp~jUzkniZS3?E9B}l7qtd2<C4Mkc?-yFvx)V7*=id5GE~^vP>OM2Qh4<D4
zdV%h(r_tlOx4wzXX@+}Nb_@P@daHn9Z>QVZGx)d5d6e%J<+SHmzHiTIFR=VDA*bD8
Wk(1KeD=c!IwcTmCQEqLovHTy(Me}w5

literal 0
HcmV?d00001

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
index 464a492..8e62b09 100644
--- a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
@@ -91,8 +91,6 @@ class VasicekModel(ShortRateModel, AffineModelMixin):
         super().__init__(short_rate_transformation=lambda short_rate: short_rate,
                          state_variables_diffusion_process=diffusion_process)
 
-        self.convexity_limit = -self.volatility**2 / (2 * self.reversion_speed**2)
-
         self.parameter_calibration_dict = {
             CalibrationParamterType.VOLATILITY: [self._volatility, self._reversion_speed],
             CalibrationParamterType.SHAPE: [self._long_term_mean],
@@ -110,6 +108,10 @@ class VasicekModel(ShortRateModel, AffineModelMixin):
     def volatility(self) -> float:
         return self._volatility
 
+    @property
+    def convexity_limit(self) -> float:
+        return -self.volatility**2 / (2 * self.reversion_speed**2)
+
     @property
     def calibrated_starting_short_rate(self) -> float:
         return self._calibrated_starting_short_rate
@@ -120,19 +122,27 @@ class VasicekModel(ShortRateModel, AffineModelMixin):
         new_params = self.parameter_calibration_dict[CalibrationParamterType.VOLATILITY]
         self._volatility = new_params[0]
         self._reversion_speed = new_params[1]
+        self._update_drift_diffusion_pair()
 
     def set_shape_parameters_from_dict(self) -> None:
         """ Takes the shape parameter values stored in the param dict and sets the
          appropriate model parameters. """
         new_params = self.parameter_calibration_dict[CalibrationParamterType.SHAPE]
         self._long_term_mean = new_params[0]
+        self._update_drift_diffusion_pair()
 
     def set_state_variables_from_dict(self) -> None:
-        """ Takes the shape parameter values stored in the param dict and sets the
+        """ Takes the state variable values stored in the param dict and sets the
          appropriate model parameters. """
-        new_params = self.parameter_calibration_dict[CalibrationParamterType.SHAPE]
+        new_params = self.parameter_calibration_dict[CalibrationParamterType.STATE_VARIABLES]
         self._calibrated_starting_short_rate = new_params[0]
 
+    def _update_drift_diffusion_pair(self) -> None:
+        """ Lets future sample paths follow the current model parameters. """
+        self.drift_diffusion_pair = vasicek_drift_diffusion(reversion_level=self.long_term_mean,
+                                                            reversion_scale=self.reversion_speed,
+                                                            volatility=self.volatility)
+        self.drift_diffusion_collection['short rate'] = self.drift_diffusion_pair
 
     def short_rate_variance(self,
                             maturity_date: date | datetime,
@@ -205,12 +215,15 @@ class VasicekModel(ShortRateModel, AffineModelMixin):
 
         return {'intercept': intercept_deriv, 'coefficient': -exp_factor}
 
-    def _create_bond_yield_coeffs(self, maturity_date) -> None:
+    def _create_bond_yield_coeffs(self, maturity_date: date, purchase_date: Optional[date | datetime] = None) -> None:
         """
         Overrides the class method for setting the coefficients for calculating a zero-coupon bond yield.
         Reference:  Pages 165-171 of Rebonato *Bond Pricing and Yield Curve Modeling*.
         """
-        accrual = DayCountCalculator.compute_accrual_length(self.start_date_time,
+        if purchase_date is None:
+            purchase_date = self.start_date_time
+
+        accrual = DayCountCalculator.compute_accrual_length(purchase_date,
                                                             maturity_date,
                                                             self.day_count_convention)
         coefficient = -(1 - math.exp(-self.reversion_speed * accrual)) / self.reversion_speed
@@ -229,7 +242,7 @@ class VasicekModel(ShortRateModel, AffineModelMixin):
         if purchase_date is None:
             purchase_date = self.start_date_time
 
-        self._create_bond_price_coeffs(maturity_date)
+        self._create_bond_price_coeffs(maturity_date, purchase_date)
         return math.exp(self.price_state_variable_coeffs['intercept']
                         + self.price_state_variable_coeffs['coefficient'] * self(purchase_date))
 
@@ -243,22 +256,35 @@ class VasicekModel(ShortRateModel, AffineModelMixin):
         if purchase_date is None:
             purchase_date = self.start_date_time
 
-        self._create_bond_yield_coeffs(maturity_date)
+        self._create_bond_yield_coeffs(maturity_date, purchase_date)
         yield_value = self.yield_state_variable_coeffs['intercept'] \
                       + self.yield_state_variable_coeffs['coefficient'] * self(purchase_date)
 
         return yield_value
 
-    def yield_convexity(self, maturity_date: date | datetime) -> float:
+    def zero_coupon_bond_yield(self,
+                               maturity_date: date | datetime,
+                               purchase_date: Optional[date | datetime] = None) -> float:
+        """
+        Overrides the abstract class method.
+        """
+        return self.zero_coupon_yield(maturity_date=maturity_date, purchase_date=purchase_date)
+
+    def yield_convexity(self,
+                        maturity_date: date | datetime,
+                        purchase_date: Optional[date | datetime] = None) -> float:
         """
         Calculates the theoretical convexity of the Vasicek Model in yield terms. I.e., it calculates
         the difference between the actual yield for a time T zero-coupon bond and the pseudo-yield
         constructed by pricing a zero-coupon bond using the conditional expected value of the short rate path
         """
-        accrual = DayCountCalculator.compute_accrual_length(self.start_date_time,
+        if purchase_date is None:
+            purchase_date = self.start_date_time
+
+        accrual = DayCountCalculator.compute_accrual_length(purchase_date,
                                                             maturity_date,
                                                             self.day_count_convention)
-        self._create_bond_price_coeffs(maturity_date)
+        self._create_bond_price_coeffs(maturity_date, purchase_date)
         term1 = (-self.price_state_variable_coeffs['coefficient'] - accrual) / (2 * self.reversion_speed**2)
         term2 = self.price_state_variable_coeffs['coefficient']**2 / (4 * self.reversion_speed)
         return (self.volatility**2 / accrual) * (term1 + term2)
@@ -282,20 +308,25 @@ class VasicekModel(ShortRateModel, AffineModelMixin):
         bond_prices = np.array([self.zero_coupon_bond_price(maturity_date=maturity_date, purchase_date=purchase_date)
                                 for maturity_date in maturity_dates])
 
-        volatilities = np.array([self.yield_volatility(maturity_date=maturity_date)
+        volatilities = np.array([self.yield_volatility(maturity_date=maturity_date, purchase_date=purchase_date)
                         for maturity_date in maturity_dates])
 
         return -0.5 * accruals**2 * bond_prices * volatilities**2
 
 
-    def yield_volatility(self, maturity_date: date | datetime) -> float:
+    def yield_volatility(self,
+                         maturity_date: date | datetime,
+                         purchase_date: Optional[date | datetime] = None) -> float:
         """
         Returns the volatility for a zero-coupon bond's yield for time T-maturity bonds.
         """
-        accrual = DayCountCalculator.compute_accrual_length(self.start_date_time,
+        if purchase_date is None:
+            purchase_date = self.start_date_time
+
+        accrual = DayCountCalculator.compute_accrual_length(purchase_date,
                                                             maturity_date,
                                                             self.day_count_convention)
-        self._create_bond_price_coeffs(maturity_date)
+        self._create_bond_price_coeffs(maturity_date, purchase_date)
         return -(self.price_state_variable_coeffs['coefficient'] / accrual) * self.volatility
 
     def instantaneous_forward_rate(self,
-- 
2.43.0


From bdfc03c81ae955b9984783e17395b25a5f63c494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:54 +0000
Subject: [PATCH 20/31] fix: multivariate Vasicek models can be created; state
 covariance and forward rates of coupled state variables

---
 .../vasicek_model.py                          | 23 ++++++++++---------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
index 8e62b09..b519573 100644
--- a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
@@ -5,7 +5,6 @@ Reference, *Fixed Income Securities, 4th Ed.* by Tuckman and Serrat, page 205.
 Unit tests are contained in
 fixedIncome.tests.test_stochastics.test_short_rate_models.test_affine_yield_curve_models.test_vasicek_model.py
 """
-from abc import abstractmethod
 import itertools
 import math
 from datetime import datetime, date, timedelta
@@ -472,27 +471,29 @@ class MultivariateVasicekModel(ShortRateModel, AffineModelMixin):
             state_variables_diffusion_process=diffusion_process
         )
 
+    # Models which can be calibrated override the following members.
+
     @property
-    @abstractmethod
     def parameter_calibration_dict(self) -> dict:
         """
         Returns the dictionary containing list of parameters used for calibration.
         """
+        raise NotImplementedError(f'{type(self).__name__} has no parameters for calibration.')
 
-    @abstractmethod
     def set_volatiltiy_parameters_from_dict(self) -> None:
         """ Takes the volatility parameter values stored in the param dict and sets the
         appropriate model parameters. """
+        raise NotImplementedError(f'{type(self).__name__} has no parameters for calibration.')
 
-    @abstractmethod
     def set_shape_parameters_from_dict(self) -> None:
         """ Takes the shape parameter values stored in the param dict and sets the
          appropriate model parameters. """
+        raise NotImplementedError(f'{type(self).__name__} has no parameters for calibration.')
 
-    @abstractmethod
     def set_state_variables_from_dict(self) -> None:
         """ Takes the shape parameter values stored in the param dict and sets the
          appropriate model parameters. """
+        raise NotImplementedError(f'{type(self).__name__} has no parameters for calibration.')
 
 
     def expected_state_variable_mean(self,
@@ -566,9 +567,9 @@ class MultivariateVasicekModel(ShortRateModel, AffineModelMixin):
         broadcast_mat = np.ones((self.dimension, self.dimension)) * self.reversion_matrix_eigenvalues
         sum_eigenvalues = broadcast_mat + broadcast_mat.T
         one_minus_exp_eigen_sum = 1 - np.exp(-sum_eigenvalues * accrual)
-        H_mat = self.reversion_matrix_eigenvectors_inv @ self.C_mat @ self.reversion_matrix_eigenvectors
-        covar = one_minus_exp_eigen_sum * H_mat / sum_eigenvalues
-        return covar
+        H_mat = self.reversion_matrix_eigenvectors_inv @ self.C_mat @ self.reversion_matrix_eigenvectors_inv.T
+        covar = one_minus_exp_eigen_sum * H_mat / sum_eigenvalues  # in the coordinates of the eigenvectors
+        return self.reversion_matrix_eigenvectors @ covar @ self.reversion_matrix_eigenvectors.T
 
 
     def short_rate_variance(self,
@@ -839,8 +840,8 @@ class MultivariateVasicekModel(ShortRateModel, AffineModelMixin):
         if purchase_date is None:
             purchase_date = self.start_date_time
 
-        #if maturity_date <= purchase_date:
-        #    raise ValueError(f'Maturity datetime {maturity_date} can not be less than or equal to the purchase datetime {purchase_date}.')
+        if DayCountCalculator.compute_accrual_length(purchase_date, maturity_date, self.day_count_convention) <= 0:
+            raise ValueError(f'Maturity datetime {maturity_date} can not be less than or equal to the purchase datetime {purchase_date}.')
 
         covar_mat = self.yield_covariance_matrix(maturity_dates=[maturity_date], purchase_date=purchase_date)
         return math.sqrt(float(covar_mat))
@@ -949,7 +950,7 @@ class MultivariateVasicekModel(ShortRateModel, AffineModelMixin):
                         np.diag(exp_negative_eigen_times_accrual) @ \
                         self.reversion_matrix_eigenvectors_inv
 
-        return -exp_reversion @ self.short_rate_coefficients
+        return -exp_reversion.T @ self.short_rate_coefficients
 
     def _calculate_intercept_deriv_wrt_maturity(self, accrual: float) -> np.array:
         """
-- 
2.43.0


From d367faa36cfd8ac62671779d729b3d86e6667806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:02 +0000
Subject: [PATCH 21/31] fix: the factorized calibrator imports the day count
 calculator it uses

---
 .../__pycache__/__init__.cpython-312.pyc      | Bin 0 -> 126 bytes
 .../src/__pycache__/__init__.cpython-312.pyc  | Bin 0 -> 130 bytes
 .../__pycache__/__init__.cpython-312.pyc      | Bin 0 -> 137 bytes
 .../__pycache__/base_curve.cpython-312.pyc    | Bin 0 -> 10071 bytes
 .../curve_enumerations.cpython-312.pyc        | Bin 0 -> 1786 bytes
 .../__pycache__/__init__.cpython-312.pyc      | Bin 0 -> 147 bytes
 .../day_count_calculator.cpython-312.pyc      | Bin 0 -> 10064 bytes
 .../__pycache__/holidays.cpython-312.pyc      | Bin 0 -> 6589 bytes
 .../schedule_enumerations.cpython-312.pyc     | Bin 0 -> 2846 bytes
 .../__pycache__/scheduler.cpython-312.pyc     | Bin 0 -> 11921 bytes
 .../__pycache__/__init__.cpython-312.pyc      | Bin 0 -> 142 bytes
 .../base_processes.cpython-312.pyc            | Bin 0 -> 13689 bytes
 .../brownian_motion.cpython-312.pyc           | Bin 0 -> 10697 bytes
 .../__pycache__/__init__.cpython-312.pyc      | Bin 0 -> 154 bytes
 .../factorized_calibrator.cpython-312.pyc     | Bin 0 -> 24469 bytes
 .../calibrators/factorized_calibrator.py      |   1 +
 .../__pycache__/vasicek_model.cpython-312.pyc | Bin 71669 -> 71898 bytes
 17 files changed, 1 insertion(+)
 create mode 100644 fixedIncome/__pycache__/__init__.cpython-312.pyc
 create mode 100644 fixedIncome/src/__pycache__/__init__.cpython-312.pyc
 create mode 100644 fixedIncome/src/curves/__pycache__/__init__.cpython-312.pyc
 create mode 100644 fixedIncome/src/curves/__pycache__/base_curve.cpython-312.pyc
 create mode 100644 fixedIncome/src/curves/__pycache__/curve_enumerations.cpython-312.pyc
 create mode 100644 fixedIncome/src/scheduling_tools/__pycache__/__init__.cpython-312.pyc
 create mode 100644 fixedIncome/src/scheduling_tools/__pycache__/day_count_calculator.cpython-312.pyc
 create mode 100644 fixedIncome/src/scheduling_tools/__pycache__/holidays.cpython-312.pyc
 create mode 100644 fixedIncome/src/scheduling_tools/__pycache__/schedule_enumerations.cpython-312.pyc
 create mode 100644 fixedIncome/src/scheduling_tools/__pycache__/scheduler.cpython-312.pyc
 create mode 100644 fixedIncome/src/stochastics/__pycache__/__init__.cpython-312.pyc
 create mode 100644 fixedIncome/src/stochastics/__pycache__/base_processes.cpython-312.pyc
 create mode 100644 fixedIncome/src/stochastics/__pycache__/brownian_motion.cpython-312.pyc
 create mode 100644 fixedIncome/src/stochastics/calibrators/__pycache__/__init__.cpython-312.pyc
 create mode 100644 fixedIncome/src/stochastics/calibrators/__pycache__/factorized_calibrator.cpython-312.pyc

diff --git a/fixedIncome/__pycache__/__init__.cpython-312.pyc b/fixedIncome/__pycache__/__init__.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..1a76195dbee7a28d9918e16aeeace29fbbb57d20
GIT binary patch
literal 126
zcmX@j%ge<81cIJlvq1D?5P=Rpvj9b=GgLBYGWxA#C}INgK7-W!lGQItEy&kT%dALE
z@ytuk&rQ{jkI&4@EQycTE2#X%VUwGmQks)$SHucb%?QNBAjU^#Mn=XWW*`dy{e~Ka

literal 0
HcmV?d00001

diff --git a/fixedIncome/src/__pycache__/__init__.cpython-312.pyc b/fixedIncome/src/__pycache__/__init__.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..826939b5464b05fab360cf781f39b8d46ea0b2d7
GIT binary patch
literal 130
zcmX@j%ge<81cIJlvq1D?5P=Rpvj9b=GgLBYGWxA#C}INgK7-W!Qq(U>Ey&kT%dALE
z@ytuk&rQ`YE=tyqkI&4@EQycTE2#X%VUwGmQks)$SHud`!3e~~AjU^#Mn=XWW*`dy
DgeM#T

literal 0
HcmV?d00001

diff --git a/fixedIncome/src/curves/__pycache__/__init__.cpython-312.pyc b/fixedIncome/src/curves/__pycache__/__init__.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..4b24d92c2954c93597bae1f37dcfa67ffa289590
GIT binary patch
literal 137
zcmX@j%ge<81cIJlvq1D?5P=Rpvj9b=GgLBYGWxA#C}INgK7-W!($FtTEy&kT%dALE
z@ytuk&rQ`YE=tx<E-flcE!K~Z&&<m#iI3MSsQkrYlbfGXnv-f*#0u2N2*kx8#z$sG
KM#ds$APWG9gdWZS

literal 0
HcmV?d00001

diff --git a/fixedIncome/src/curves/__pycache__/base_curve.cpython-312.pyc b/fixedIncome/src/curves/__pycache__/base_curve.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..0b304f098a5efc3d7c5860a5ae0f44453c13c97a
GIT binary patch
literal 10071
zcmcIqTW}lKc|Hp)zy%2K22#Aq(u$%)LZ(2AlqFdbnb^Ac5{Y6hl1dRf>m_zcg2IK~
z1w|5uCUQra(lgFjo@vHy)6B?El}CPHXZpZA)qT@UU$CJaV7ARzo#rKdf&yle_$B@S
zb9NUOLa{S#&j9C~J$vrwKi~hI|Lng7gMI?;O7f4(cMcHpU-)1<j}<9Dg2+ciAyJ}m
ziYvh-T~Sw(i*g)3yA$ptALWyts3+--dTAP;Xi5rEfyO-vU(^TrypYcy_0zPbL~}9_
z4J3onAbl1REy>nsYqBlcmTZr<bHqhnCW`MaQT(d^p_}z1+CfvBAvK^1PHKpz1|hXY
z4LPZuG_@5{+f=WU+O^>cx65rDA^w@AxGw53ExwWwW9d{zj;C}{7UyMM6)&u6w^T8f
zkab;L(9%h9Z7CjG66HifOlOu<O^jg%U0jPpioQBeb4FN|tdvtD)EAG5@l;0DR?-PM
z6Hlkah1FCHBXT01*%+yP6c^G^eL8hZ)iUwaqMtUe$QfuYlNJ{eX*r{dPzQ9QuGV!?
zUXSY$zyFd9eYJbV`naN{Z^ac=loch;TCQz1;{P?yaoA<@*p?}vpNS{cu-g<~g}%%4
z2}r%R!U~(hw3g1KW9dYgGldH<FZg~69{f{sQdMSFR}v~z)^SnZxR72=WiH@=Qdqbu
zO-{sCVMfv#G~%aI{%T55*UjcjDdi<~Nxl_NYi8)x>Z!Y`W|q=QjL8G@E#V;LVR-(C
zs3gjPpt@#>>Q?z|6CtWc;m*T5)eA8f#x~qx-VA;xmCnq`iB)x4j%y}=6CO>^ElijS
zH<^MYrC=zMWcnp3nO0U47!OF&+pBVdz0t5~jR((cl_WU@70~t7A)|+`)F-42Z^>83
zMm2RMJ-QHISCv;&v2;=$)wS3tlcG@+If=$2D;ruHR*GH+{PlM5en^V`mU}(#jqdQh
z#pbrVSF~O`Pt8nVUUcOtknhS&C|uO7xKw_bZgiH#_MejKU2d^+RKf*bajSyr!^Ra}
z^(!8=S@Eg?HAqvMR9+F_?^C^sUvVw8Db061(H6B8ws0FOwct_$cln1_mC<(k&I_r*
zs?-jp2R3q0X@#0YYH*QLI~QEo0&T?)PhO=BYVM-B@R?WI@AA=oO0UuZVfQyEAA<5d
zN~bd#>@Tl$LFry)pX!4#^wBYRm2ODu-*AQdOb?Y%c^t7r1ot9?3c7A$dVX1rWh|Je
zY<AeR^J->IRoQ;EcA+8;<MtX6sj!8`6_7uGo|HoCWl*yOj|trKu+39yOx1N++pus!
zhizox64t}2(Gd-7fQZnVuCLDP>f5WZ?-*WLz0}3wctnjb^iXwx6OHyp2TY4YmqxHF
z;znFeC>G9zS;wluj^?pZMM)<CJ&)@vYAn70Xjg-8tS?h$XJuNT{}LU$UZ0wz``a9-
z&8x^8QVd}Pd<REbG<8AM)KpBBC}g!K)P;<srW9%3#*PjxzPMDE=802`@oH*jRZGQ$
zihL7Pcetg?{|(+pBm*nWT*k&2lH(p)sS0<OeCm4WVmWd|vSNhfT<}yW;f5!~2<meD
zyRICc>dBEtyHRnYj4ubQ%vAx@0Z7JN&I3<QzjI!A@;UFC;K|wNIl>WWsoQ>A3GF?|
zkqr{&r((`fAq&Ps@Gtj)_YqbAVZFOfKH;W5;WWgYPXPAWg5j#_SYFhy@K?h5gq)mL
z<jE{ksS!zvr{Wn&ikwfRV~}?eA}j}@w;lxV4#`XLf|N3()Ez>R4(fN`R5vu7;c&q8
z>S-;bDkh(Z>lw2PYOK<&mRxB-Wr%hVy=TzFZfYWWhtL}U&-6k`R5$yjn5M!GsH=!=
z>9An(x|&#E)l_P&txG!$73#Pqhz#iH_)&?l@n%~ndN||9p6MERcgSuBIXd#`#r%m&
zJ0q8kE2+<qq&NA`g@NMW84M2<$7V1bEj~Ayf9|!vOXa6$3e$08I-Xy?X-p>y({CHo
zZ)1-B;-N7N4-^MZVtBB)uYZ$&zxh9fKv4)3gs>rmzYw0KQ@UrtsoekR1=oh4zhO>$
z4gy&DaU4Qrt?2}1``9oWEeXw!YUK`j+!`vhhK<&6UI_p1x&!?<0aa?J>N<n#k!`j+
z1FL)*63V!-XzL%m^WHmop^vuBxQ+zNZTe+pc~#FO0Wo9F28J>`{OJT8g$UgdIPN-^
z<8lrhT!(qeO5*h;kkr^}2ALa3djj}e9dA=bhIkc%nO<X{zp4Yxw93&!mWom08fcot
zMnnX*)m)iqU}|(pw6oAJ?HqVIcDY&<u?vz^5k>Y)vvxsNYh4Z+tq1Q55034$KA#t!
zXUpSY8)S1(^84^mjgrgNx!@f-01uqJItNolmc4a}@c1cb6ZPA!oC_w=C8uGgsrJE5
zMOmZ<3X76rS)|$z=BNP|K8{?NX-2B26^k=FbvfFD)#9k;wIxeg|0OCwDnYh(hYI10
zkdcAM0$eB~PF>hOuGev=7N*}(kM8XoXtU!~n=y4xS+S^RG-UfYN_0*|-@H3a&thRm
zT@E{gq$+ZR4mB(upA^^G{7{n0W~ovf**J_+%P_qvph~40)~&>1VP0#7l`{7MiCtL*
z(3E2_4H&VMP*aPUC5EwxZq?#w_Eh8)bw93+1=KY%+K0_ZnRFczV|H7CJUz#^piv#M
z2_UtN44x_+zG57{Qta+8bRRRik8OSTvy+7j%f^M}UAJq{pBKcEm$VJ%g`vF&grZ6J
z`y@!;(=^~k@&OlfEs~h)O;9nnQKYd<oy&2JHo!v*KR$H5e~>4)U9@yvNqnqo1CSGP
zagDYO)Y1mExNmbAhZZ!V7t5$#>l~03ASjLKexsHY4k(Ycp>Oj!zM6<^xMMC3X5%)u
z2EH8&^Vv5XslGt<EW@`NiLiDUFi(d&T8NmGS9B`24frj}`V5@pxOJ1;fCC(;b2A7>
z_Ek8xF^(`5_A$kM35Lx`0G_H$j~<J|QELL@0_({Mg>nWnQ0W*POg$7+%^)5QQDP<J
z>ZY)6Nv|nv*o5OM)TJXfVy~F`*T&#6J78)4KS45R*&jpZJEY_%-{<DJ!kf2@H*ftS
zwD#!gy^Dp;aiep5>uTZTW#i=KFFIe&ht@U)@QM>J7AEG5iMd~dZalbp?`olQXs2^1
zAG(2WZ~Urzf1!KW=pHU~pD?;lY`s!EdA@l1T;cSzaeBINdd@gKSN!(HQWNPJD-(Cm
zWo|Q2638>*P5uj^_Yc2mC7tWsAI#7V9XI?3121*)|H_44>f>uvBeGJuRptTxVXL@+
z-?~yRWXFKv4XL9-PjhcTeh^s@p+@wQF=3j=bK490!hI9+YfF&3ftFe4GLDvMB(^t!
zTxtQ}!n_OFxx?YJ(E016s;skp;DzOA*^Ug(0d)$W<9^~&JUKV`-k*Bxt^8M<k5uIX
z9^R;@KOu_nQ+K5djLdWMqBXJxy#E`I%=>>ZG9Mk8Kj-<{ku~V)o{^E|R(sAWVP)=b
z;|$pri%JHPYqDpj(TKv$+4ByZFk_Gf6rg{f4lGWQ8s3YohTvaD;rWPcaADUJJ!EJ-
zkO1_Gld1{svyhlQY;#Kc%%Sc*%De>`brjQg+4+Um`RhM|%Z^>rG_dc*Q|$CjErP0u
zCsz^FEEo%z)hi;-0HvTuWHEbK1mXd<034po3<(QhFvy4qN>-+?xJY(iqq-wvwhPN+
zRv9zL;ZP6urbu?YQFf7@n4jL4BUslWg>hh~c6Y!|TGJaFbq~QDXsC3+MtE)N`pk<{
zGp6U#>#tvX-Sp3)p^bKdp2jqa&<KQKp^nFzemY#nL3}I@12KKrti@4i6chdH4!hWU
z9;1MtZQrwmZ$Pv9BIsnmUx5rp@`qpeF#5B1HvL6$upqu*h%am(GQ{(S@XV(F-mAp}
z1BC;pjRU8*UB-cPhS0z1yLaYsbLigk&zr@^9s3F$!$!yO<F4@Ee6P?I{-P^f>>vC%
zyEVKsbk68Mm+w6Ht1hw7b@cPDqyN!2SR&l;SaIy^*8cp&TY33r{;gC#l`grtqi=I%
z!u4w$<ml44$6fm%cYbJMTPaM=7?U&kiP`+@a{kE8oxViAGx0ds^|!vC2M^Kq!$wEA
zSl#~NkC(T4c8;Dk`p@P&&pxgF`Ft#qpHJu0E7-n9+t+FPdTsl&#^h{%VlF>-Gk+wp
z)0fP5CV@=#9VqmkF?!Ez_w4k(wE0>w)LjS-8ll1a(Vft9|8#bHX=nUpBlL1U@G?7h
z`BUner9ETSpza(na9OGk7=NZ2hAcZK6R5~?53LXkA7BK|UUrb-byZj4WKm1kVXLBX
zmL49Uw_=US7)<R{*MnCBE6D9AtbBvxv<8}qXkqa7Ak7#PQw{r7M~FetS5<v4@ca<#
z!Tkm{lv$}Ts~EG&9Seg-AbASddjvvl6g}k1l%j-PY{%h&j^dVWzUX^;<2E0EdX9Io
zwj<yH9~Y>JW2<jx<h=2c^7#=J?GpogtP-Zr5s4a-fdqq+j2uLOWFXguSiQ?p<9_3J
zjkvjG!o&3fM@?lYdv&f(V&=q#k^;w?im1q7vaJ&q5$#=YXcT3z1^~7@2Rv$niu}Jw
z(21{+puGb0K8#)WgLj8)XaD5~Kl?$g^th?afI$q*8ccF5o5MU5VKy*aCY%47y-$^n
z?7^?;+a~tp4DAU(%kfj2d_fp6gn|3dgB6Pk4n7rxAp?FRQ*ey?T)4JJpqR<Zr42$w
zQ{nv@ZcD8bJv4ZjO_HRfW0FL5ly(Etk=dC1)U~Ng8p;B@jX|rGhSQ?q$&g+9oP?Mu
zz%s7DMcoG5QPk9U7_%Ue)X?s#O`>-RJv<Fi4W!8sGu?2|&=xQa*#?C~YBbdL<0E=l
zUPoxTOP;tq9-*|4jGr!!O%%p17-JWT<CBH)i^llH;*rsRls=Z8w03w#ibJDYL1SpL
z<c5dGLuX4K2w?(Gy~356Fe;FNV-E&DK2Y-Elb;-UuGEaN06BW16vS8y={;P+x*&FT
zvP@&c#M@GGah_xMl?M~X(HDM0AYOLcsn7s>-+wQQulk)={ZG6u&#C*JB?7_LneA6T
zQ$Cw}H2c|`#`){U_zX?XzonM(bxCOU3~!w*5eT*~l`$yq4|u{)4jlHp!ri}EA{cHh
zZLdG-eB{kf&prwo-<mT{-C!^Bv86K2QF@K@ct*CqyPY(izfvL)&;P}28N*TwzL=nC
zk3#mVU3|snA7?!Vf5+Jbwfql|^w)qr_VwbQf2p?MhU+u0+C;ChcvXPwGap=^`IRQM
zSq;!sc74XP>$6R=z`+$7+>om+aBW6x9E#ElHFjwhZQms8T(kpBWi4j#VqB+oCAzh;
z*Qj=SQCw70ss@)biuKmI3j)3j#woB%GCK|c5-1wDDPp=sOfMi!Tml2pnx*Has!ZTi
z#;J8(gn6mh)agd6xl_T7fS6D|58jVCQ0EXb_nwd=KY~pLa1M7OaI4`3?r&KI0gUn9
z#GwTngl%Ov9Nkx8$7#6zsOcBD<~YXb-lO*Ur*+QsNfN!Bmn0o8OaP{+yTi5})|lN_
zGl!139?$0baqxZ*%B++4THb3igr0ow@gn}t6?=z@y~m2Z&+ayRe8*wmbnoBff7HC!
zu!O3H&c-*P28e!*4cnpGUQ!kE0CT^99*R;8p~4nvs|bUrK9?<(2ak@+k%v|)HC}Hz
z+~#$9QO1~2jgX*>)TlCBV4R}VcxlU>ZTw!5H_*T?%1OM@bG~J;voZ0kP%Aiw1+8Wo
zS+v-SDcH?bQx*;HRI>fG^HWp&Q^=q*b2q?WTTh|&h|zlFzOvK$Y~H#Y35V(wg|-NV
zs+2^XW<Z_MNIhtAd_l#Lssikr8MK5jrlK((u2a&GO3B~1nH(mt5PBcti@yi&_lW;4
z!2h;}`2VD}-Lt;}{O~}5A40%o!15-H2~-96FzUBeKr=oCPz3}r)`BVk>w<Q=`+wVx
zv7-R&PXPF<5WVCDxO~v{y9#PzXJhbp9B;+SB1HCLCg7k4uG@LITKB^DI9{`Dnt{(8
z@>=|oBr99s1^P9U&TOox^s^W_1y|toqa1cg4!6PfXFIi$X<e!;#^IwA5$*|UppVIx
z>51VtJPffMoUuBNmWwiu0;~cId6-FnXIQfaZ%kg+7Io8ma}7fsGb5U?HKbB_png=5
z8bREK64YRLhZF^d74Y3jL&>8e;fPQ@U$_MoY3Thk)`-Yr%Zr!u1nz^ngWxlD7Xzl|
zFmrexlWOcZWi+N2<{36A<2{t<;Q7gHg|B=PaOH#_9Yo~$7~?kI!D5J_=JQowwM5{n
zmWUo(QsHwMs0vK^>4Y9}?jt0)ak4)7Vf&>SD+t$DKo>@j&;Ty<!JG>pC}8uHow0pL
zDH(nx!{`#7AvzJYWD0Je*|$5B+7BQzBAos`@Zf;UaZg-cj{jX7;Re4XqXrrMB^ms8
z68I%~=1a2lC7CzK{I1u<wcmSfmq4)Vzr}GQo3HE=40khbksG;pX_r8-dztfafqUz}
JB@oal{vUqZk1YTI

literal 0
HcmV?d00001

diff --git a/fixedIncome/src/curves/__pycache__/curve_enumerations.cpython-312.pyc b/fixedIncome/src/curves/__pycache__/curve_enumerations.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..79ba7c955eb81f812f5e27dcd040cc20194c3e80
GIT binary patch
literal 1786
zcmah}KX2Pc6elH0qW;BJEZcF~6inj`91_PikS;|5S)v*uBI#083UfKoJUV6}k?N5O
zB25b550EVx`UQ&4{S;l?O*kM^CvPn*FPZv|vI5z4TLOIl?!9|=zxUq#RxTGf_$unf
z55J~4?hmHSzs#j@egeWf4s$k#d7SF<y_B8enVjyXdx9+_ve3=+vUZl|Qrx#3&YW;K
z>!p5yJ=tgH5^D~u;(}F7ta-2&7OeTiS_Erp!CDxW<y)hl3f8e7Ns&wZek{3R5IcSl
zNse^rM7}FUUMz)2k{1km9&utngteoPNbZ2V@}#~)oSqkZBq}%oX3<Cf%fZ}_nc`zl
za=T76i+Ub}@uL?`cfdk@5=n!|!_wh!wp}E}q2vd!T|ewPvG=%e#;z*!R8Sy4@PZEM
zur=s+J!Zw=<T97}$6pHPpM&s@^EjIakW-kq(>P@dIBjRJU}uLJIZId6PnqCWnin63
zn2LSkz4F6BM6+E#@Ek((KMowsZsgL8J2>=RUCvPvp#V;T5G^3o3-O@K<Pt*Q+`U{8
z_f6%6YINE(+fsF<X42*FI<<ybv(!3j?=u@M)jNBiw4b?icKnY!Tg2;!TSxwD537M2
z_Pni#xLXP0(Tt(RdOYqANe%)NQUoDd2XewqmNv%ECgs&}bF%*BsZgD)+<ns`)w$=*
zz-_|vzXOLeb`EE4ahQ`udix51?Y`rBBn9DTtO{p|#G3U?V1%{4F6T)JI4Lu73kY3m
zsO`GZ(Jj=h)h)xM<)&eNUo#sBa8lYdbD%1%2EA7|bW7DcfM)9e)eUVQVj4;V&6X<(
zLzaQGn$<B?>wwDt8L{X}R@iA0SXP<Dz)MI4gy;bffO2hpY)q=FV{K9@kCn;h!&Bk@
z<j%&ausV6N{k!mJ7SBR&hV==o{6DNXXXmkK7jWJ#4hwRT7V2!w)Bt<0si22}H>z~n
zl4UBjcE>!Bl53B0U}_spb5ybvQ%gi?TU*q2uV_!TQF+002h^t0P|R9OY67b5k=RoA
z3{%?Gbh&iBV1jNy-xfP<G(QCuSaO;qM@&T9+M>35MSH5zB>AQ1jz&dDj#y$k%Zqlk
z>m^}LNf_CHKiUEUB`H?MjmhnY<L8rN6{MB><JJPHK7d*+eE|cowDIQItUPRoo6Ezh
z|IhLa)3QK|N`UvgV+URZlC(Fu1J1gfxsFUmF->S-5gM;;)pYCnC0Gj(M%XbTHV1Ht
zq??wO=O<*#I@CRf5Dr~<QUo^WgpCo+#>2iJyd(lsME3N>KD^0nux8_*G%njb$#O0I
zNAc^~JM|6u3S8KTMhcKW(>%}rl}hu%MTz6rK5+Lwa2r!W;6Ho6Ipu&&OId#BeRawK
Zn=a@1yKg}THeE~cmA9K09Iyo5zX2BQ!XE$t

literal 0
HcmV?d00001

diff --git a/fixedIncome/src/scheduling_tools/__pycache__/__init__.cpython-312.pyc b/fixedIncome/src/scheduling_tools/__pycache__/__init__.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..7789918027e6c964faca2b462e01520714776951
GIT binary patch
literal 147
zcmX@j%ge<81cIJlvq1D?5P=Rpvj9b=GgLBYGWxA#C}INgK7-W!GSV+fEy&kT%dALE
z@ytuk&rQ`YE=txfPR>Y8Db2~uOOG$f&(A5=kB`sH%PfhH*DI*}#bJ}150p%`D`Ev2
T!3e~~AjU^#Mn=XWW*`dyCaWU$

literal 0
HcmV?d00001

diff --git a/fixedIncome/src/scheduling_tools/__pycache__/day_count_calculator.cpython-312.pyc b/fixedIncome/src/scheduling_tools/__pycache__/day_count_calculator.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..8e0827009bc30bc173c580ef6c839a1dc7d65cce
GIT binary patch
literal 10064
zcmdT~YfKwimag&(<3P+Sm?RL2M+i>B8}c9zIsrN`Ndt+=i>Bi)yUN(a4^ma68_VoQ
zqn3uA{V^G>R?W^sOG~32qHd{~-Im6)J3kmrq(Qs$qbjCl+RA8IZA+s_`@;!6yQ|hp
zyXV|;*~XYow)@v!!M(TcJ@?$#Ip00^T>o=%v4w(A>;IqWe>hB0|Arr0Fs3qF-+{~r
z6i0Eip9;_ubby+m0=fxZKtG|Uv0Udj1dJ0#lGpo9fr5zwn$l61D9-R6#Tj|?M|zdl
zMB$vtUhoV*?1qGaV<kRe##r(N_(UPb9PgLdgaNa5I$`c-{eITv$9&lUJJ%nY4NCo?
z;C((Q`9eXr%2tgFQy*JDqH(-DH9>RKgpQ*p^qh{@hhaVw2Hwc&c@t;g3p@tS_@3dT
zRHF$q)R_1}-V!dLVBGv3$QO8Y`=K5v3$iGSfYQJhYqV2znoh@=v*`8$T_In{S>S&U
zZzX-2xuPtJ65hz~P1E3*Ok8oMK0UV5Jal{W(3Rz(v*w{I&qG&|hpr+IU1=V=ed<h8
zYX|d9uVN+4s4UZB!ZufKugKa-*6*J6vr<U#J-A9!e<Yi+e*d+E1^3^n%7RJYrCA~9
zhFwhu9pq4^wuT`3fQnGl*|jM$ZT;ry2rXd?5~dAWE|Z4$P?UqR)8Qe82$vv<49ld&
zkqNn`dAGz!At?3uL#)II{EWbhD22f(D4YoiD346Y!*J}J*vi=TiDD@vv3{q>yF)=v
z6j0F;C62-V(UAd%b8PUM^Y-9{Yj&Mb1Qmi6A`!>PFkhW-1MZ<VkMCWc8xFcd0lrNX
z+-;)U%X71S=+G&JLVmFgdUCo^A)M~?I=0TtB`V3{c?8ytV{-a}&N-eH#IQZBKpFD<
zq&Ot85uyiF(nRfVh*z~MRqe5=&V}L)YxR0<N4)l;0)N(vviaf`&{3)yJ7J-=?Gxyd
zx=;TOnGYx_y-N`)vm+m+_C_>B0AoBl2kxhaKFB;3vi6gbaQ8`=Hfgy`3j3|00ie@I
zsa}CALAwkc=04VI=oE(9d0m8#=%$Oe)8LoZyR=uUn=a9EnG_`nXJ9vkdB!p0_Yp}#
zh+{$m$c74ann3x2AW}#I8^{Ma7AfW!HpnrOmuIvcM5&UzAatbCFYqik$IP&z$aAgC
zl-9R^s|YY@lES{ACuA>7SbU-{C`xS5%?l{>0<Kx200heA3-SW4n^1`n3ZE*U)@=D4
zxNzI97b>uk9=c8x@P2j%Iu(%*!!SZAR#iJioF<5w6mkNY6Nc~9h8}Jk&_FvQb6?k>
z3|NXBL=UJhO;pK&#pa(4ty^0*$`39&9-fnnn9aSFKM1@Z_>0hjexvNbPj1C)T9lfW
zW%sAuQTp#suAcf`-*5WXYaB|MW1(QfTK4c#yuz+j*kcvP)>~hTw~i_BS1~4A$7J)E
zP!1h!lUJM>{%<i5eGgAPT7sM!Jh}zSLvy<KiV#s?kM-d@7FY)oF3e5^01ia5b1vQ=
zdWUQm(NEl7f^!HFp4lMLOP~Ze@gw0Z?9)_QIK<X8Qvv1Bt@V#7D%3&v-}+k+>c659
z`ZyX7DHsxnI?3s>)Qr}IKcjAUn_;&PX3?Y-B!{L@N4;-Bb<h;lK}je_BuwK-azZ5C
z+aw6%ynf#B68dz{gx)xBis&Oob$q06eMFz7$a-xqVdz&IQ^XW8pyJ~3?f|0$M!ajA
zh*4`bUy$OTDKTp$FY9r>Fj5dPM+&f4&XDOHM-?fIn6W%!!tr1Uh>39|VF5K1Bv21D
zctF!h?iu1zN`I4mb|Y9lb2B{AQlgDQHPj0Tg!VlN)7^JiVM<Kw&2U2OP84a}$XB6O
zJEsw9nh4rUx}8&7q>GDvLBIkh>vjvXtUpl_@Nq%klvhfZ6o+P|EP`^JL+aQ`i!y*7
zmC^%99;m=j=?l6A9+d*%AQaFJ!tg*INB~m*EC(lk3LwSSv;Gihjd;E_KbJb_QKVr3
z|LXy@S<|p|MXBjn7}+>jw{%oF*s^ft3v2nqk(jmNXVMevu}=*vld<-TkGUu9-}&5j
zboqSrY|J(!mkfPrrtD|p%{P_ioANDBta(Z)I=nFa@Xww$o`^R(ltza<{&uX9Rf_5s
zE<K#wv{o%%dSY!r7N=KykL_z0etTRwF%q+l$_}UOno%4xitV0Ua_?WO+g1vHJ-o{P
z;}xZSXzfU>`r5)9pVxM-oQ_V#YG0R&sy|1H=*h>o*Y5pxQaN*#P;6GzZP<=1w<xxg
z(f-v|<?NVJdG)!T-gk}Ov^B~{PGZGbrSj5qqi)|2ouqWd!!!Xgz<nbzOu(LKL8)oQ
z^}!S2?G#Lx?pWe*<Ev~0%Akm_0t=nAR2B}?pBn!}VVZ2GN}6QzVKM-r7DxmJA~-AD
zZa0Fc7Epo-sFuNizzERFsp)L0RB42Y&>z#9o{D=UY)!&XDNX;s3z+mSEu|0sX|qO?
zNePNn(b>JBl;(u(y*a3DT+s^333<5U;h7V@mTMlPArDtPnR3F{a>Y|RC*<L3%OQc!
zT&`KGTD6m!@U&&^Af81zA(vwzCDmvooGzmKF~#YBn#S_)(slzo4uX+B^xohlZwM@)
z5CfLV41f<gQW4%57cafT^Fc;KIjBQpNrOOU$_E!iLJo!qGzZ%lV(qrbh%>y~=kf7e
zx-Zw9O6_(7PXSKhR^}SHZJ_<1$I?f$EI1o*@d6rU#H?<$q`8f;0vq4~Eydn+8Ny;_
zxV^wu!#I-BEJ2v9Iy!Ygq=jnt!4y?&X5eh_g}97$fULEtzba#(e-*Z%!pJcV5V>nO
zhXxBSM&5OX$;^s;*21LLbo;7Y*lmGvtB*4*Zo!NY%DP&0kQG1vGBL=k&?8+2m%{sC
zHale^e3|iyj4ybf_4~k_cJO?@S@W>zyugw>p4$(mH{$_w9yW%bk<dNC;K?nv+O4V?
zy$7yp?z`kP6BCvjtbdjt6oil<AW$W&7y8GqU%28Ny#bfNt`qHvQYWl89JrD*bRUjd
zEXtwj*-6ursM^k_$2m4SJTmU=>`5HRW!U4K34wu*b(P~o!`H@dtG$m8T^k&94Br~R
zohTt~y4o{iD9h%r=5vPuV@?!~!`#XA;I@!H280fn>h_yLWlEnl)4~aNo+-(j_g<Qx
z^epoH4~XD)P)(K8$E_`jwIzCB%`015)~z?6mQ^o0{<2Ljs@vRKx>4G-UfK{Z?fR^=
z>#5Bix1CXJXI8`VBq!U>#B97=!f(C`$yvhX>}REC36}xIHXx5p$b3My4a96gxg@w*
z+DmA9KP&AeG`)(gcXe8R(=FS2V>V7M;l99;oLDbCvFk|6o>tb%^(UkHmDwakpJU;8
zr|Vqw7De0Km@jp!N4*<QbuD0C5C2<D5W!^tE&*tMPHXj9DMzQg9J=rdvlC;tgN(?y
zSh(pia9@Ef2E&j+$z(t>^J;uX<Hp&$ym|*pwacI-Kn1XU34$Y>bH4jN4!HOv2JjjB
zZ2cpd$AkN?J)+TTI425SP?GYO5NlI72?cpAnp{<A$J^!B0f@k$DWXdEFZL=WhvU{`
ziuKqsuUNZebC-HC{MHNo)&H}F?rBwTBl7*%gaKHfovVEMRad#kkL_Q_h+MM2^;!z(
z=@Za|+hu5Hpeoz~7_a(>v)m0i;F`fgv}43wB*CLtyJd6t&e0p75m7nS%^acgDI1h#
z&ls9ufKqIo6Xp$YQ`UiVDyJMjp)?;KDleacdDFZxV&Z7D(%z+oY8u*0>3ce-16LPb
zIU(T9G#_WqfNkf^5&bqU^f%%HcVWR0DHL>^aozxVOba3g&P1%pqDX<76OE8lZ~ZD|
zs$8Y#3L?6QQM=)DM(_}rv@e`R#Gu~9F+XpKSU7VE<_cLqEM3|T`#&IFS9{xTKnK2=
zG{<o-7!KK<odCf;mJz{D1NZ_1k>#dmMJeSM0t=5g0S4fXyWMOB><tMVF{wgn_FhSv
z5qsO(_+aZhzPr8|p7XJ-Az`WwztF9w`F_*3S%W%o=XFPBkj))-W*FUvJlZ(CIvBKg
z21nl@gJ{O#bYKb6fN7(;8Da3R^Db}+2y^xfUFX-*9Z!!PSOpokmkmyVHPwlxd{=wc
z$~AX>`#~MY@n$;d*x5-J=>)omxpj4rNeqyQcD17~wyPtDMV@hXt1Q%3x%BBS(GJJ(
z3{_P?&jf*}XNVHd4q=2=k<SadC-g%OpT6+wkT3>9LCGs10;SwM8T(0f6A`jPH1bta
zP)<s7CXu>5s!XZ1Xapn<WNsTy+)l7U=kN`{!@Cky+I3+^O}YA5p$aUI{;4@p-0s#<
z9SOoY=p@{*8_s6gkMlq%QZQ*aXPc?!_MgvxIKSfkW$+ilRqyZozws~Ld}v=VZ?v5J
z#QDe>osOR$QO=KmWfdR0qm12I+W+wKf+cCDj&!bERhmvbIqZv0|NgW*@#gyFN#*=x
z{G3}k=a#3u$~muWuHR^ESt<Q+<Vk}&+Wh#oJbrzB@P^WRBYyfV<@8%J>rzg;WHa;J
zL=`nDM=x$vRxMm29~)H%7KY)Cqp19$>-*;xeaoFc3a#vqy8f<~&|uBJMcw!N2;JtP
zx}{qy7UgiSa_CIdwK^=1y{Qbm38PUCP0DXi$<w0pwx}GEWb?rdYyDD>Vr`bq%{$MK
zv`6GCSf1_AB6(36oX*-K#eBARH$R5!5g)niHu@}YZ{Cw>8@1u3)H{1H?s8J)?Tz4n
zZQ5APb0z|+6U@(d&Z+pm%L$uzMQ}a9w+v@2=JN4`Ix?qxb=V)ATlDTDdf8~<JT-BI
zKb%#d72qR=m^>1Ve^XODWnP1x?zq#oK10uyFoF@H5nRg<iiA;&2C<+p3ug{y;RV7&
z$m5jYWFv2ei9D4AQwa9#Pov3>b~~yvt@gd+4f%P(-pTnq9$w(#fhu8BhXIeOJ`V01
z=@+ELK4iY5Sj6`|g1Q)~SAae!dW9<htlY;yDYg)3`m%^Ra%{QxlfFlN(Tl6PSW~}j
zZg|>sG*#5096Jk|ULR{3gmQS2I&5FA`lRMjO;i`X7;Eg4&2>*3o7JL~dyi_P^-))>
z@d6YhbX5MJ@BO|-@81OeI`CxAv5kuA#W1`@#mn22@;15aiahF7y1enupaOs8LAfXh
zjq2<_FaEH2#qvw*FRTg!9n?T!W8dllrQveC{;E=cRlYuxq~I-eRQH^sZb0&%6m^}x
zj$f&y;kr&X*FwAcqw?`VrEW0JTvnLN&>uAP(}PGl1_?AAr7z=GDyh2+4Qn<_4lmP6
ziCu0PP^<&;rAfs)DVryE;uv~hi7hNcW;>2$-jXz5t^oQMJe2itn@{hv?bY;alEz^^
z`vE!YNnfjn9_W|$kZsHE>;W#&5&ABi$e^9N5%o>gAfVq=eL_W_sQPlc;|AIdRpCQ<
z4#q5J&_4l<coU)r)E5mc%hSJZUT^6C;l%H&;={L<;oI^Ax9*vi@A_k&Kx{a;V0l_=
zUvB<%XubB_4^KTl74LT_{qQC+xqinbySdmMKGyGnBh<Qo@s?setoh<c>{SV~(-{O`
zq|=$OIKg&+-wj~C$mzTX%B9u_=+zg{9i1ow<&%7F@LhuEm6#$z8&=|Ltco4DR|%su
zJLBioXDPf^2<;e|F}i@!NsRD{DBxv`SPB9vWy0WsA1nyCK#$b>psKI{#_GE>%8~fr
zppWlSaN^q<9*l0-YL={utxYymY#2+EI=!)<UOt_qFpcheLDDTfWhzsvk`|IJFkYpX
zr4{d^KTlGaU+r0|SesotsPtcdK?+h$ur66fnp7K`R+^&&tEYZ7DxbNs#>;0MO6T|s
z3d&Q&kV~E?wDm?ez1*FoFpZ{C`Sn|Bf&7;11*u6jL!#se4GlMpl}Vk!*uBIhDM(h-
zBs%*7zmVFdHZi~_cqG1ggPvsxd+3R($(j*+=-J*wPjau;!!e_MX*@|mvZ5wY{sn$z
zH-OLNM0yfc#<ysk1*SL+OmQBVX1Buc<SDXddSla)Vd>out+;nh(eBmeU-gmfnuNQk
zF7k8O-zEYt#D6+sw`6{>po$|(2>i5RZU$~i0?J<EMAq+PTH*IGt+~IC(F%BHmiJav
zU9cwg7d`4Ts~5!(y%a<$zcQay_2s;PJ`4~_N<{lTsi$fBU#RXF)%^$R;2)^#Uz&#W
ObkkzxpD0WTgZ~8#)!m{1

literal 0
HcmV?d00001

diff --git a/fixedIncome/src/scheduling_tools/__pycache__/holidays.cpython-312.pyc b/fixedIncome/src/scheduling_tools/__pycache__/holidays.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..b1d64d4ec3c226b80e5ef30104bb7ae1a9f3ef11
GIT binary patch
literal 6589
zcmc&2ZEO_Bb@sk}_JP6Q$w4;8BpmhmLNI{@63Kvxv9S$48?Xa8Ew^*NHFvw$**zO0
zBhi$qP8%s{{*bDz3RR_o=nqG&RDP!Yh1CAI%Q-!FRjH90sp6j#(+@?J+V^I6?+)8Z
zRH;=*+L_rmZ{EC_d7ty!P$)>CY&-eanRi<V`7{1FWvks;n{^R#lgMO>$b#(32wB&Z
zE9;(e3;6HOc(UFpZ`L>E<NuzFKO2||Wb3Bt1mYsE64`r$$Uf@5=eFog1!X^V$pPw0
zdE~kqo~e2{2><o8j>CL%1Hc+wga&C~<_U+HYAc6my+i9uu(oW#3Rh`3J$b9#c!R8?
zw$mA{w(_<O)Wqtj)04Mv!0L3ys;%6#0jsMz>h$E0+`NIaXPnV$E4Rq48}Rm2$DN+s
zwqe!Hu-fI04b=8JG^(xqM3tKS<PYnoTIDcplXuW|c_(~N(GJ>1gDF=BOo3Z{g7RJ}
zD2s5nPktp{Kz<tV!t<SxUDCG&LW1LIMHlrXQ*wrw)Ko)KR9!UERMe><YAJC*%P6um
z4=|d|Wh8^@qNK`*p)i=h7}ax{Dl6)=D9JN<-N;ha5L0<IX(*bi_XPXY%?3n6x(uXn
zp|rIEC(EdjXEp;eEGEvSm1J5377<?shEhG^c$(_8%1`h=;YXA*8EsC?13^ukrYdE)
z3g2&zCY6+utnh>D>%o-9fU|jVTA79Q=c&Ycg24$@F@OQxfWu%^Olf&I5=9kL$`vY~
zRFhhk_V8g|C-h{R%J~eOQNqx)jBY{ged|5B`QSqofQZZV;G$-op=7B{Glm49;D`i2
z<M~{Mnt@}$zH})=0qz@y+e+(Z;2fow@rIIBAtJ=K2xRRQfZimOObK9RToZ)4spqPn
z5bBkMBQOU4UfIQaKI)$qsNa$;fVvSn?}>O#zbyr(moI9%k4y7rQ(xu26DREZ9*G3Z
zKq8?6%ZY>;OeC@zY#jRyiNx3QQpO%}E2_bO3u10fBqUYU42g?NBEftBWyt<rvIaHz
z{P`H8IW1OmwlSS0W9tt!R&$;VO)sw+p`)Xz_!e2I-||lDn@38Xww1buZw{<<JbkP8
z)-!jyZgm$sV#}TwYj!4?4K}R=zYd=zl}S*SO7TDsnOyrlR5!^2nW-JM(eByp6~O>I
zZ<QIGxvtFMp4XMjU_)4=0F;e7XGj))?z(5Ma}|JbQbU(}8wb;BzmV?M$Edp3Q>}wl
z<0Rsdet{N3gkoK_rLQ1sqLc*H=SmN1gxWI^7f*o5GAZL&3~>xDUVn*C-`69aOo>uO
zwNfC)x~PF=5a%rE?G{0!bOQ~Iq=UZq@OjUF@w~VMmI7Gmwyg`!w|U7inxvF-cY>ku
zvWV^f5@Mjgo03XtXfDvWf#7pWoUbvOqKv9ZYHcrV7&-l=SZr=?u1Cvdd#1J7SPraO
zay|+IBt^AZ%5-HqZNzfYd^AI)SsI(u*yX4#!&Hx@q@)qm)07%|%s$Adt#o?yq#8Y?
z(0p_>6+KQ3%Cd^e)rIqNqVJ4&CJ(j<%&oYOgC711%3T4i$-Mp$1t#J%{q{+-0Q{SQ
zc;EQM*zvwe(>p6=@|2-in!fnN2*4r&YlUAOXNnAh7h>+n>xq<g!3jq>s`j2e4LEH$
z<s4Mk$!aU9Zz~6P7K1xWL2)J2_15`vXlF6BvmEOBDAcvm^wduyOWT(_dy7rIg@)cw
zLM?A6-b|E3oy(z4YjE3g=l){T{zAk4k3(AkRA_jL>!%q&l}u=tX4no`Dp}Dh_^IgR
zPvGaPbaFwMshtZmuyCz&q4aM){^fdp6?9M*u7WmS0~&_cqDjbt>v0Xc=3a1vez~Qx
zqhG_+NNeC#HE<!8cZCkqK_x7&L}f=&P;0;?RRt5ZFUPc5MFu219820k-*5y0+<n$!
zRdjB>yX_H2VG^5DblNT2gIuC2q#pP9w!+!;L?sKJN`VzK^XnM2__E{`xTjYn2qs_+
zB?bEejlXQGue}k@x=ODY;Op~D2Qjw&uMVD-?}<+Zt~g0&lTrn}8!4zYCt&C_lfr|r
zc17jdtv<d*2zqe4m6gAESBjd;8<iujQ0C+wqIY8$WJlawRM}GqKpBmASSR*TfXzD8
z(S)p|Qf340IAI^Aj+khAE&XeprbeQ6oIMNUQTX&TP=U%dlR#tH-&XXumHZv=o%`{{
z?_d1TzjtM8+v3($A8Flj^Wyg|-a232eW1AeKxy~EV#~q%`-;s+7VB2pP#ZgzI}aDz
z4lg#WY<;p2c+zr)7}r1Ch81Qkn>)Z4VB{t-&{psQf?rXr&79pmdo)h&3L|&jd>@ug
z@(quo^|>qX<EgPep9hX)r0gYGdWFScjpOjGp@F(imItQ_uO*jhwoHv8HA;i|>x8rZ
z5L1nZO<3VU{<m3YUjw478>=3uYIx-w@@fD_pTi0Ri-%}-{~v6egmrcMv<A)>CZ*-%
z<#Li0ldLqLU$>d7M-CC`f5IVX07|RvdBz7O#^P|#Uwm>yH7r*zc(zDqOM`O`%a{N~
z>dn9iotuQHTsPgrr-sbnX-G)G6siV9#=|tLF-6Ll!NI%=juW71v*DyF(;S5g{I}^n
zC0)`O1lC$6pS_faNoUc+N~&%)jHe~_vJQbi_<ytRSehx2-AFLtI6w?$&AJrRvI$HK
zOuwO7okj;EDP>?Ki6v18oq~}Xj~%}QN^_GywB=qPxSeYr1FZ%x3!WL2n03XdM0t)H
zvDVEoXByT`g<rLPbKGlQ!+DVazqjC$Js4d&D;y_p`;x9S_}YtmfJYzDK$Ebp7^rK!
zEch0@fP+H6t~jp&_iSVFuIsJ69&*hOH2rb1ix?IBF2Z8MV@Bl%{Dou&&uv{<aL-gc
zZFR_ry`8mSzWYZW=kE<+j$Cn1k~tyi5@2W7d~+n?l}<VS7!B{Mc6JC6X(m$%UD4O*
z;+{FhNY~`GdITIEB#L5AVuq5;XCzjcVP%f!Qf#RZQEs@Cz-8?071BqLJBY<F=|*XS
z5V(Tlgx|=B#lVIDyc&#ElkaL=0J$kLFkq+JBbAgA{3vJwWUb<*`O0!Nyz*2I0&|8j
zFmBqW<Oq26RX|pF#xF5D+{V3K-G?q0vO72#*qS0gb_6}**;<&DOJ8+$i=PWU3|$YZ
z_Yj@$XAD%-GovZ0>A6hjbu*~w@JwMypur4H7f&U*gEhUNyVI0~5Q@UWP!A#j_A2(d
zNk)Un2B9)Tm0j@c+MC6U+VpT;4%lP5j%tXT!D2b%R_EcM5(@K6VP^sJG<<p)DvW|X
zb?1eZaQB@H#qdju!;gZb=g|F7`Or}D(9rMBE=R}T36&dn6&rVz8zUb!Mha8Y<*96O
zD!b_YMBIH#S!%n#?fs6Dc=&H_q50*N_VB8kv~-r64-}gZ{8GN(`$5ZtP<ddoI51gy
zVd|si*H#IjEe3c4F2AvTaqB-GZG-kR;sQqgxc!OuGVi?(!`=H<_8s_D$NL?H!$al6
zr;CSAmky7W_Qea&jTgozR^3AQoUlfOrt<<IhoE-j{C|EH1o}Ga{u|z-Uh?ba=rQ8?
zjrY*em)*%)y~G2<|FslUwV{EdlMw&9Hq&Hh{5ZJ?*5sOJ!CezWdltBDx@TL`t6*QQ
zx!-E>fc1n}TDZE(#rJWgwdEZWN=yDLak3+}GUlA1vG{rg`6H-^g@S;JUFU@Jxu~H<
zL0O}Un#|;_+!yd|lWzsxmG$sd$Pp45UYn2}Qg_w`S%)y6$E{Vx)vFIlRZc)ND^lvb
zz*&n$+@>2I>DVZoG8eswcb$N<2^>Pn*U>`ONN|h8TmnprBgHzK1gtcoAA{;TdDK7}
zo4%XBKJan-o^pG%*d8sl$37#1Hz7cr7-(E>-h1cB{f-Y_Eeu~QHNRdAy#8hYqz8sU
z{2H3CkMhW8B(lTwCla!jgl8b0zTxwhrJQ(~rq7tq!2vPkkw5>KFVsBt^uS|J&-%w6
z2S5{4%>yy(^~f><D1O!h(9_t%$iwsx_Ki&RjZK<?6a7cWc+Wiy$**T{Vx%AIQ<G+0
zy#Mrg|M1cNG1EVKY<v_ufsxU(7ASDM|CrTlnusS(^dIjZ>pPVg7(I0oLYX++guxi9
z1|;2J2-$gD8tnl;Q-;pb3aK%hhIrO`7kh=xz%P13{RY%<c7pJ!%P)BTzMTlW|3ses
z3yDASxrOHzXC4t~R<|?>;*w{TKy$x&4V%^OMj`y3u}Yx1ljhC+-ZlLDbT8S_b?d~>
zMsANR^%V||m%<Z&2=B51M+=80O5w8>VD$Fr(pd4ud?`F@0S0dmF1ZT5XG-BQ3ovwh
zXlZ-lz*s39uL8E!V3fOhi(S1-QY{s}aPgpC3L7=+6ka@A3ZJV16knVxg|E~AER0Xv
z8rp&d(zLp>MQC4X?O1hV`%J`Ydk<Re&}iXwyfAU0aQZ@V=pu)G><uh7e`9jZ3;3(g
q)eFtH;;RIjrTx5l(DgtsjKB6^p*VPf0}7H{ph{7KBL*yfOaBJDYKSxd

literal 0
HcmV?d00001

diff --git a/fixedIncome/src/scheduling_tools/__pycache__/schedule_enumerations.cpython-312.pyc b/fixedIncome/src/scheduling_tools/__pycache__/schedule_enumerations.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..36864e5a2f02d058ef2c9b407873f26e664ac792
GIT binary patch
literal 2846
zcma)8OK;mo5GEyxdO!V0{D>VCeeqHUZ5{LwB&8+FVk(g?N!2kggkiFcQ%g!nsVHwU
zkVB5SC4ZslpXj|8=O!%BQ%|}Th;j+gx-(13l4-dp0nW~TJ3G7c?d;?CY&ONfSCrp9
z5n>GUCsrmO)am#3Hz-~)He<6VOp7&HmWeRCj2(H-*inc5H5!<i5sGqv#%9ncMR`Eu
zGbl&V1fa<oG)B=Bpy?Tur)UPy><k*GXb#Z)44R;50np+Mn)FM;!Vsq^u!NJ^z1C4M
z=RmUK%G=wZykZ>2WNpTb*sK|~BPM4@&6v%Zyd5*+J}<;cVeimyIqh!Mb)NN{_L1*K
zpyLqT45`MUmI0v%36ij^_F>DhERwRUR>$t0pq{a;XT8IdaZB2iG}S7r%{^5iyr?Km
zu};#u)R3)lCHZYr)C@_hACP!MRg7Bw;1}jC48gpAu;n^WJ6qo$|LoXu`>4}$wmkP}
z%R74Pz+lJiAFOVtbK*?^$8vxG$35&GciP@(Pkk2`nhKn^w+7-lGbk<ezZqn6{c4~U
zihX&IE1d4S3lr=494<ohRSx~Az>%e$o_E}KJg;)-i}sVA*F_d7c`gs#6d~qfI=X2T
z$R9~o)p}jsmz7;oYN!>tDoYjX0&`1fNGF8Dy2}%ReZ4FQ2!zgjW%UiW99W{!{HfoD
zma9|0viv2Oe!0_YcgvmjPY?jmIE}%LgOed{2{!=(5+EE>UMw51yq5Z%q*-6wy+cC4
zHo1A(V%yqNWyP>Q-zKHmmOv-VMord?gTS9r(<Dik9~lQ>ZdP$hD2niV8z6w2<r{r9
z5SzEpxb?xx>KV5@xV7<yTMfv<4)e+S3R?b~ESonIcHB(b2{UCU&9t2|Gj`g{`WYch
z7ImlFJ#jDrrZf)!K0iMn{(}Pk^AM{pW+r8Ih#5P?lo=x3ijWJFyl7YrS!wE)v9DS?
zO<h(bT_+c)sz_6GX<|z^;jHmq9Xwn{7YvJ{mpn|sOM`)1YDt%5IvUJj>b5M_C8Z*2
zWa0tcUIEeV1$f!*1P-tE2S^o)75Kdh2w3g4TW8$Ov0UFc<5mW1>xitbopCqDavf~u
z<8Qc?AScl6{G9j{TK->7_z59N68nzxqkZUm*DkdCF?e)80ig(~@EY@Q4pu}s4~?dz
zqmta0DzMI|CX8BBqZ(h;WQypb(bQ1m^(OWUQ?`vmp};Y{k3axr^Z?A|`@6w0k}vdY
z0XEi7s{tq2Z$2mM&~iN|eoWv=Qf{>xop$%J7o<4GJ4}LbQ7A$@9C@rEYULW?9yS$;
zBz0-ekQzIZMiLdN+>k&E$95l`p|}IThbJJ!mdW;|K|0f~jAJXF)`DQraDFiNpym2t
z@PfQ<)7u#{=Vyf+;m48U?xlz2bX!kX+r>;8;sNSDKn-t&A-xp>M)F}s;txf*Gc{QF
zs<fk_=6(%*NKD+*<T{BqV7)~IfHSy4d9k_M)D3qBp}1N$R7#%$XYvJ+R0|U+K?fJb
zUHCmD3W%inK@);fN<}K&F9+mOhG`y+?@&mld=c^}e?d4poKN^oXqivA&j~S-9=}A4
zW4O>GU`y{&N~<F9VUjX%)>vxQqVETi(+zl0OzWwt{0J`BifBmTsCD#=0uK@oFA#`&
zVX<EyEG_qyL9ulDFvuLVft^Y?d}6p!s0EJ;dNI=*2oDds%V;`MDyiqtkna=sf~V4b
z_Yw5Kr<L~@#9vXCW&dE7MtqDdzU+<|C`N?{yY{*=VxSnMV(jMYMZ`Bpg*3bI`pXdm
s#b`Co=3jt46r)9sExqJM3>2eGhAq7?Mhq0A^(edW^22uw6f~TF0XC9^4gdfE

literal 0
HcmV?d00001

diff --git a/fixedIncome/src/scheduling_tools/__pycache__/scheduler.cpython-312.pyc b/fixedIncome/src/scheduling_tools/__pycache__/scheduler.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..be14e935d01b6c428d6a52db1a22c68a18d19695
GIT binary patch
literal 11921
zcmb_iOH3Tsny%^>-OxOnH^wf%2yHMJ96NqyWNcsTu}vI<V+Y0Q6x{_h?gy?ajA0rn
z8s%OQDT_q9k}b`>BNkZ@C7Q7`vtY^WJTseWLj<aEBunGPc-O`r-O*jlo$o(YT~!T@
z?MzaFQ>V}Q&;Ost|33Ba<>jRup5G?^GI73}<NlL=<R7nDc`2iEpNnzBT#S#o5`5A%
z>`L;(e9}Ga=Bdq{@Fcy%URL)ce8VMZ^CtYsz;J-I`A{z%E@kzSL|HO8988uEmnSQR
zD|pVu^>Z=*7hEhLRetX_XbxA+c*3Q#qorq3LV9FEimJkBS}rZUo{Fo2Dk-WWh_WO^
z(<xPqr=*w=PYI*(ds6ITDw<A8T?~Yk5hXe<#ikPR)L2AKrxQv+t0Z?#&XhhUqG7l0
ziHWMD`>9mpNl6b-8IuyK80PhISxSg%{I1b3fEND^NxB^qXB5<H2PIWaNJ%NBo=vCj
z;uTM)fU<5(N=Y&hM#MxSGM-MvX@FjG!Kmp~W0D$4N%z#qw1F&YY=BXgn?GJI@pJ+b
zH_YP{T#`G+OP-iZ^2XefXVe$-eBt@t1ReI7y<Vv#=9BzVKq?(|HKCWm`eP*y*fJA#
zE1VA}V&e?H1}@-$E8hmL0&^^Nz*PdS3@ZrYAG9&ED#=509QDV_9dOl>JHW-7EZ7RE
zMheZAU@etcojs~FR`rF~+JRbo7Uup`J8;%*>8)|})}yyV3dKT_M`~b{+!D>c)&bK9
zm^#e7UTP}3!wnAD=9$KDvmO{Um{5`p?uvk?^%C>Mb)PJ$Q*tWmGLMj69{iImylh5s
zpHp%E#*^VP{P!m0AQ$Grh;kXa!Y;W2FS!zhLj8j9=fmByG@0&p2u8OeN4qymM81Iu
z14B03Y)!apGlSL;0iyCb_pEZ)f`9RymC9bt-}@3xoL)XMr9dDRCBpc;%H;S+R7^;z
zm?%e00ViON6bxHrJ!5Z`HBvF*gfd&Pa94ieN?V3g^Xdr-=m*#L<_66|WahY^fr<aB
zEdvF1`xES)E5@hzm}kzdg2jv{=FadLcU~=><8B=WevdVx-a#plA7j6rb57McVClp*
zJx<s;?yDmnF2mt~z2aGHMyX&v*BGlPf;uh<q^E@G@pyDxh#M`Fa{6vO26dR4N{&df
zkRBEC=K<&$D9vecMi`aTNrpg~l%ny`IN%9YSE)s1XdDQWk~*G_L9NP)Du}U(Dbl(`
z*P_BEFft<~K{YidkZMjd2q#e?4HYg6@g!7f9ApxhKsu2~Ph*Hha4XvOp^ii0F5x0@
zj!P-fk74!#cxx;{E1wa>R7^;Uw<TjvikOtlNs<nxiHt#43qu_}goIQuO;N?dETULP
z6r5^p5wWae=ScZ0!c1IBfb>vDeoc(Au`4MtVQiZ~vXTUT@OWaTQ;6G}Zor-vQWi~E
zF+qWag27UyF&t6qguU%-KM&%0U$7>{*7}+)WOHC^rAZ#L2+{rt9YPO{4+{p;{1V=X
zleUh~^*GV>{9<&y7CNEpO;yZ4b?}#yw0HhFX^8K5GV(KuOd9g}U+{!|GFe%@GOk4O
z`$NYjlX}s;vX~l^^aikB#NfRGAbp22HKNL5R4vvU_8Ka=7MSEZLKldqqB3(5bUvaG
z1t!)q=~TU%h&ZR9%(mEScuOalOXWU_&$(CoxX_NZnvQHu$KnO;=x<hQ`qzWCe+Vqx
zS#1nwgW>rLuiS+YKi2f;d|dN8i@P5;b$oN?Va<HtS#|x_cOD#EY+9*4yurBwH~IN9
z>o+AWKJobG#P4U;8jfWfjx9B6X9rgshMv^zT&p{otvk7NLHo@|D|I(sxViGWoSTN_
z{9IMze5D-1+=|<@XXt@VLuowQsC&!KDHXP|&v1VSh5tuO;r}fUQ(&uW*AMRRf1W9@
zsgP0mbuf`pA?586=P((I)z1_tu|CsM3g^U`F5!%#Op(4($3@kUX{caPxGTbA6b7Ve
z;p4P?TX2r)WGZkvo=8{(WHGKl4W<O?UR0VS7gR_?eah2lcBuFB_r&C60>r?MiK&=$
z!a_hAsJ-`4Z*Qm2ga6(hsE+s9beyfdVL^o21Zvi0_~J$9Xe-;zm=71l{2s$h)}Z%Y
zU?&~ldxR=*_Q_p>4?)Tc6j5PdN6GdX)(Lj(?6@3P)TC(BofQZmm4*o`vW>viB{zTz
z<wg`?57Py53+j65M`B`1Ixov<ndyS>Ob3eu*>td&+{&$JnB83{sYP_fQ5ts#1?07!
zt7=-SY|mD<FE(n2&#qRUds4Gw!T(@Z3t!Y)|9Yk7k`}!5)L-@ciwixgwfnRF{qz23
zH7$iA{&bUwd$)@Cc9Lj0UjKvn{47aqbV#k`fB}j5WFVUva>wAa&@%@o#vxPgA3VR3
zbp8@ddFk|ufA5seK~t5J*qMGtUK<n7!HpPYELZ6Mn9-@lW6mL+1aDg)_(vqIg5mBn
zTnQ1rm2-$NBEdzFwh}5Pz6f?-FTN1eBH|07{>9=8K`nwALJiEnruZ^L4bih~s7wLT
z7HO4tQ!6o~ybnczeC|ZUY@02guQS<~Y4BYX#f7v%SZnCbHuOF`_NYgTq_u|Lm4?ar
z3+qf$dsl1Qvi`Orl4=-ZdA0FCHh5q=V_e*3`Y;!grI&qR)%%d93A{Hy`N&tbBFG8P
zW*7ujglp4t`#p}k$IBi3+hg``LV=&#VV-kA`mIo>AWTEnX(G54)0}(T5k#lh2oFY3
zILe-kJA>d1K7grz?(%cqj2A0(VTCTT$g@{0V>iU|NYmqpbKr;**A|L4Gr&d7n(e(l
zCx^jcN4FlJ$SN`;iLzdzrdfsgePKTf%VmPq{ex$Qu3tNM=40Ip<31(nzQOAQ_-Qzt
z9vUrEC<(`u1@z2uEQNP!rVHdSQ9MAX%3#*4oD!X`5hNOBiHz86lg;*<{M*matvo>S
zIhQNt>fz4q&(`f<se9*#V{09!vK^<^I{LEstLuAQCokVy>%Wohzp>K)@#-yU?N%at
zE3tM<&f>3Mo-c(fS-<n!z~Y@%p(k6{vsU|Fw)VaGz<Q|V5AnqhS9f-2L)~jNN3u0X
z=1bP=cdoXbT#m1wyR?4g)+?{;od}=fTn!O^zKlG_mdBN0*g=1o`Hy<3qKdK#hnx~~
zu>P!8Jc+P?#oXt{IE3%08BcM~5;n@^uu&f3ncL7Sa#zMZQOv4YR*QFft(LEtr^a!>
zL>{Oqhe#CUG4o#mH{-wGS^U>;rUuF2B;dACxQ-A~n6g7s!`U%n{6t(5+L_0uAUsPT
zsvD71FokVk3Rsx&B8w=QuassxXEQESta2Nsjsz0%Sl;;|O{)9E$w}-s^KB5u^q@`d
zrGjx|1z9Y`&hnH+r(_vXH^ohxqndgv0h%{+3~H7|&B)6l=~NtI66BN!3NUDpYu+(m
z@uYs&T76HpzUSeAM`yIpCbjyWmHIpLW$P794{koL*uNfZUJLHd26r!XtOmQDH1Az&
zKACMkxpYYzp3s_4t~B4Czm)TGmCX-su2k#?(^l=&{H=`7<Xs@72a@7FwoOXZsXr|p
z`~%a$F@DYiF7sx%IiDjh=d!hL{`}?IjH?(w<@I%pr?k^tN$Rf(@K}1<!qcEyT6e<I
zr<k$%WLz0v9v0Xd)qLKVi@6-S(TbT6LAn2E#Yu>uO5`IMpCtpHjGIYAIOCnD&eO2p
zpk>-1=u}V4!%}Y0!o>Ttke*q9&iO2SKC~P7_^*I*kYhcRZtJpoemNz=w}ldtXNMq)
zMFmcg?o3Iks6;|XQlbb<(@>HK0T@XV`_1~0)5*u})Q^l;fuvcTofah$Imiz|BL<V=
zfHy2mUWHLgjF1@FH72G2q!tSsBW>pQ(ou*Q)Pn6C<`LNv-8W;}FSZ6@GOfhvx`HUB
zq%n4NVI%Lvyd>n$X7ZEE3!wobk^@X5V-gY;#;^R2DK^O=%-50`VN#Tlg+s25=Aq)w
z#&89v6tu9MBXVZ3yOOLzRUiv!7+W^klsz%j*fvbdY0MxNmw^XythKW^F4`sAERY|X
z-wX@}d6-oeAA*b|TlkT&iz8o}NT(-RZ%jf6%#wmhDVdgM>{T(<I9qcuf9Av@>dd4h
z%wDi#Nh2_~4y#M}AcZwq7e<Uk!Hp4%VWHmB(^AZcIl}=Rc0HcLTEK{g{V!M3s+fo<
z60WvlicG4&$WOIIV8HVTBkWQtl0RZSFofx`P*wNPOyzem4qk_?w@JUr$580rXnHE8
z>R!h5%*D_v@`wz)3Mm`Il@J6YH?<?r9)^01jLbx=r7KS7`gL$~K&ynHJD}0)x$2sE
z?|Ky#p;q|JWp!W2zinDA>sW7XTWftc+xqTG>(Qm%+18U^4m>Mwco6vZ^lEv}6YA{C
zw)QO_e>A?*dgIH1S3ZQj+Rj7&T>CKoPrI~3XL20h$6tm|!M9%FUvhkCfa>J~{0ko!
zY+kQvelY&Hrfu=a!;6nQPOn$h-4A{fd~kEMstxrA)!&qU?Oku#zvz7!$hIHPwjBT3
zpDW=)E!Lowj?=kXuBvW6m@9L(|G$xyGGtq`W#or2&!6n>n`89CxEr2^Tl8S7ExEa3
zX7eG_;19%@Ns<hvg7Vq;!ax)ZXkKGF^6FcHU<*G}Va#LB+j;U`j0o6_cnx)smg8fN
z<oO4f0?SWzI-xAIhJJLSEPj)~R#M=;Z<1%j)o~dKp555eErFumWZg?JE{_;lCAv<S
z-D~^N+X8({>`loa#Ew-g!E+#6d0_F_a*uXnOshPwQaP^q$6s^M<c<H_gGPwuDi-V^
zP;|O5z)a8WcB~sC2AyuK87dhNMu{{I?!9amnWZwxN3qUjdv;2uW9&}pptVtN!&esK
zs|Ir#ys`}n`(Ws@g?QLX0Or}yv?A<UD2cBG#-X4sPP2$@9XbNVYouW*8kFwF)0@0;
zM;_*yG%CUEjXLtD<ElEToapYJo}TVXiAqeo(*=CpV~Mn)i1JK#vU}_H9L#e!<mI3(
zb=D+pPo3pH!fu;~buU{Rn(R=qAqwXMUm4IR2kg>LGJ+<B&KX+WQ0RN|^N3h`yoKpI
zZKi)S^gjT*@*xVAIoaE}w&!$q&*`Oc?V}so#H_aG^va&U(fqrfmhD+9YtNRoFJAb^
zf$s($mz`J-9ngXYpvG%k*Fs&{P}kzUWm)?qp@q6uLP;%{Gy=iEh^R<xiUoHH6lpOn
zS&s_kM>0I~Kf&biXW<osb@|zpa7GxH5>R~kTTLURGQK1M4~bAd#@8M2c<{XkODY$2
zp{!%E>>qOva93z6obRB0SwtaU#H{cc2@(y4;dGvXd<vbj`|VABjfMXgfGTw3!=m-N
zoeP0%ZFoNLw6gKR#cbt%&A;E+rSi!sIXa%-DZNgyzDkMMoK-x0Ucy#l1NnQrBYdXq
z-SjXW(u6?R(k~Om0%1x7JA&*%q?sIet#HOh{?>TiuffYcX0mZojp6Mnn6DKc*^tiL
zcW6kk%^TPEx_OW|ZhGE&eUw7566l-ut!fie{CsP?-q+xz3&>5+TjTW=;&q&I?Ix7?
z$*?xQac@fsaRxY*E@{{k^JjPjumNWPi%-SwSb}MqCVT+^)jK%_pP$scEeS?kMd~C*
z!5MYtrN-#W-!0ig9KvHu`Sbt9^)YiRjGQ#d3cE{sPPOMG>a+FsXJNuw+o75bl7fk+
zSP;<_4$34CdhJl;%Ef`}gOQ;dA4K}D4_+KNKRD=6_E!G~1Lv)Ny)Hj$`201;Fm{K9
z5mzq*VL_K3GFuDK<Qtu|2{#)*bm7{0o20xKvxSDcf|oo%1-lb->NdRzA45c^pi(8o
zGWjp#m=1LMQriOk8?Y+BgTn!RSHo5Ads=;BwR-<r^@$&=Pdu@*@Tb?$oLxURgq%*}
z;g_7N@gvG4R-^QDH79>2{3!;1^2h3vPjHtW>db~Z7jJ2&F0Y2Jthcmlwe8PZ_N}!X
z&9)qUIJbVjfBnKuklpbf$nF>>vUMo8C)>B(G>v5)|FQab!Loi8_*a-u+gdet;^f;Q
z4?U?Dw7ti*6CY^DuWDC6(RSZjssB`~`ji<Ld}$W{FC22XMfXP{DTMlwh+Z0rz&Ah|
z5A|Rqa%W0Rm_0#+wfH6m2?2aXBolM6{5Si)Om`zt$CnuKsH(daRhCI_8+SP5K+AMx
zqkBg1xu$U!>!I|hjJpc+j)#TCef0Aj6&I)=bHq$46DE0>eqN%2zC$ol;-vSPJdqkz
zu0u?};GTM`b1vR{c;Q_{iQdBx+u3VL-JoAD-JGw6bt45ywPtVQ!nquW*HVbRw5vnf
z^_$wTs9hJcS4WJtvD+I2Vva^FcZ`h=c^en^<v6^S_bn@r`j<1=z9IHo`}o!dwVOjw
z%N<}tsxd^(ad<7OkIrfz-h6a9+y60Z&^{g6pbm2kYPmKxrrdjA0c7x6+P9=E_b+9#
zCoZ$!+K1OSsNEcbT5cyBQtI8ghz-DN$#`jlH`q_@lg~6!%6>AsL7nC})N+j&_f(pA
z;oj@5TW{QvWAFA(<9)nu`BwJ$HRDHQguR~z%I9NWHg9+_z{G=E?lR9NP~wgAi`ZFu
zFPra2LmTY32~Ay426PNn-W2~3J4f$F=3Dz{c!M>V;MAAf$H0Bww#B&|hu5Q8?dr{c
z-NowKEpda|OnB6CRSdkx8{yYmcIDhudAj$#oR=!d7w_7;aCos~;Z%0#p<IdCcJ#ys
zt1>JvT-0iC95GwCS}%!2V(DlkV(=#u1B&eRdh*bx)OeyR?|CxElVyB#-z031sOYZA
zn10mp`DPbB-|SL0f6#0;ND&F2{jo3I(kaCdHfC4CZ^V%QE}30C8Nx_uX5DApZW}hJ
zP?-MgKV=C1`|@poLRE9h2^2Xu&+{)_9^Uh(AjfxSxvrnML;t~re&R0u#NGIl%f(;h
WUvN~u@+aJUg#X(2-yEy3ZTmkFYuG6O

literal 0
HcmV?d00001

diff --git a/fixedIncome/src/stochastics/__pycache__/__init__.cpython-312.pyc b/fixedIncome/src/stochastics/__pycache__/__init__.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..24e92859bd56fca5fc9ee1b491ec408ae98dfa08
GIT binary patch
literal 142
zcmX@j%ge<81cIJlvq1D?5P=Rpvj9b=GgLBYGWxA#C}INgK7-W!($z0YEy&kT%dALE
z@ytuk&rQ`YE=txfF3C^MNGvYNOfJ@skI&4@EQycTE2#X%VUwGmQks)$SHud`%?QNB
PAjU^#Mn=XWW*`dyQv@L6

literal 0
HcmV?d00001

diff --git a/fixedIncome/src/stochastics/__pycache__/base_processes.cpython-312.pyc b/fixedIncome/src/stochastics/__pycache__/base_processes.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..e44f860c6332830c94bf6633b35eb6c78c2630d2
GIT binary patch
literal 13689
zcmb_CTW}NEmEBTHmgI;0#1D*-W%Cf=w*e0Zj2{d(*d7?;8PLo`(^j`_30d-Vw*f15
zVrH3**=2*7O$Cw7?wHxF8WX$~@0(O=E9`zzl^=C%R+`RCg{^E=mY*#%W-6Qf?4EO5
z-I8T9A(^@0+xKzqx#ymH?m6e4tDk0P+bBr?8u~wf*Di|sC04X#O%&Gt7fQD%j&f5R
z%^3ppn89tJv1|+&$Bb^{7~^J0oe7x6%x*I&n*teQ7Pn>0>b8#A+&0o?4rIEsU|dEZ
zdo0JDGiG<&NxLPGJC^6pqbUP*g5s=KDbB`Q?-|wk-T9<76I!!)gTGKCFZtCW3kYO3
zK<3;tBt{pKHaoQC@&$b1Jtom!#Bbs9F6^eLIYxLFXfg+i$4cC#2|CN%Wzd!%*g973
zE=RifEdQb8j9Q5+;0i|!_vi%9is!>YPnrLyHZJ+)inP(;Op4-Q1up_OVt7$VZp({e
zOj(D6cRYV3TrtdE%$1B7k|V;vRo>z6NUlpOVUODh*s6G^wo)3o*{wk&zy4FnvQ|ot
zdJ}fkz0<vmD|YYZO5HB_+w(jsc^6j{wg62oeoxp0-`$vx7}nSMJt|b{O5A$^r;#h;
zwsPel0p#Dk43!%9KGL^s)4m$$%i;I&HCz#AUaZjNtQOkK{a@48ll&qq^qINR#qAnr
zILBh8KC+&3UZva(TovSvTs7oP+z!Z_VN^cfz&9@L)TMksX=~z}Q`!#j`}qUhuJ0S%
z2cfrsKgicE?$$@NK-=?Vx*)l;?w9x$|3s2%t;D~?!453$(a&BhS4uE$BIEo{ZG9-?
z?!y3A>JMv}l3%VA{_S1dr{N?!e$?H@xB0Imp|lcL!__X<Y3m_pwABBu)|>qDt$4aQ
z^LvJ2Ln$;vy)?DX)kD2uvGE>A2quuu3VxRg!O@8^hdCO@q7)(F?hdks&1S1mA^8sV
zJ8a-9xKc82hx#2ha7`d1&5QeAct+6CUw+2L1Da&5TVbibLPF(Nx5D3JzOQ_J&)c05
z)a0Ffg(i<5(%iwD^xvAf7TA-QxI^DJew$86(k#lt`oy(r;}S4`vc4Z{+~G8s>zlwF
zNy30^-`E7=DA%@lEKRoOHi2tj>`3AwtA2kY)V)Mgg6i*Vgy1^UuzYtTOd6KRMhJ3t
z6SnXRxY(68*Jh`vp0DqsZctvs2>iX3O;OXhb1hSpHdZ}dHx1YA3_wg%+;Q$@?!;nu
z@=OtKd~YL_a30B7=6Ybn$;DI2Q$a@jVbqYbvyPfxuI~k@A!C7>Uao%wH7~a3-`==N
zke^pHUM2S83-@%=JZbiVSBJd31i4mnoemppwkJ4&i&l*6kk@5UEF3HGl5dPxteA6r
zKw_acTi^q%<hz(?Fe;W;#wA}U$OaT!KMQbYC&mN3V(DZ90d^?B_XDb&4k2_Y=wpL@
zAp}*5G}Im`<QZqBQI8j(0eOBGJJ}hU2uhuy;6*-&z~0nlC%i>!4G+LAil^K(N4X7y
z;HSEcJj0uKvp*+wfLaEhVAJ-5R<v-2!vOdt#v5_`B;zu{3IyM<)a4r<o)Cfh)2vSj
z|BuZ9somiXu%hUYLJmIYWyi${;3Mx~9UP9R;j|%+aTwzW4LgP>f?ni+=ok(O2$zHq
zLS7zFc|#$A^92D-Et#StB#ovFlh_Nq1NY9s!nC8jW7sE%l7kgSCdPod4mQXE+F>9=
z;)6Wr2u_TRPeQlAPC5jBT;N6Ag5U_jjpMx&f`9`zQgV?EOz@&gg<>KrQmi^yzsssv
zJf0wkhsUGXJf5)-Hxa;cmdEqX1RF^7WOzJW$m{V4cq>s%!+{VhDTd&<Vj@H-c8`Y*
z2163aAF##axl66#2LHCH4#*AF4f`(hTu;y&8sqCk!CNOvA@3+FN<ObxH^hp(XI$kQ
z5IR07pq!8l6b~hKLiQf@)WDc5t2QdDaBeWt@j>_P?r7nTdEukWcP>W@>*UP(Wu`uE
zFOC$=8$Pn!u|!K;3ynW)x!V#gX_D>DD@?OcreXC$K~MTEiv!J>lv|Wq&_@hsSTt(q
zc$nsh9P=4v6ldZsoSC=sOc=aVE`zfSTj1toa@+V!E`!ekFT-|~(R8*uTW`%wY0V+6
zc7V-FY0V|A3Cz%!ozj;_`tqSQC#AIjTJ2XUeYQflYh?iyMgD#II`zUZ!{uFN+{ISP
zN`ar94^Z`br(WPo$+`;oGOm!{%G=R{A{aM;g_Re<%FDqo-vXGoam9Qo;RwT(K)nLS
znStU`C~u#%xXP8>F73RWR<}L8C2<Z>7SzK?8lIpvyGtvk(a?k-DrH1^J-YCEyrDpV
zCnr&{4<!^CNHEc422N7U0xwMn!G3Sz)=8FUhTI5$Yjb4Brwmh+hjd^zMfvq|vfwu)
z%UTIW>8;Nhg)^lk7^TxPW$=UNm7V}XA2(%$TH^Ktw9!z5Ta}um0<8qI=W6BT*I$$@
zYb8xWG>HZq&)hJ1jXt#UfEhjhX=d6qWtw9C+;H6nw%s^wnr2|$Obv&GqCnE-^J=(Z
z3?5&SIN+;C*Z!nt*ZL+^Ye(j}1e@LO$`zc@sn|t{6(kQDBo8rmxt{cvLXMpTApolc
zxn`D>A{ettb2cC3Qn2NC*4K?5P7*3{Vk-~omKR`Ng}J~_ib{niUGRuj1Pkd4a{Oh*
z7~q4TJ2}wjK{PFjiI`4Mio}9yCRKEq6-ML(!(<w=NTCWRG^uD9#46(Eqfv4=gss>K
z+SwQMNghwQH2v7rYF!8@{sUw)6sSl?-7K?WDUUm<V~%Fo(HwJh$&M~;+ZNy9itTtw
z-tkgwN58zIAKRSqiketOt6b5FwXN}jqFLs;<?$XeVAp?joO;+5>%AcNUWoOM%e~{v
zy~1*b_-i9wH$i{gbaZL|{pwXCRo}ccc=zjT6t*Ioz0b_l)`|!ht2iQ899b?q3OMcY
zqEh(S;@hicnMaoL->hXKI9c$&8?!qNW-lIhEn%4)Q`FnHo^vn<C}AgbyJ%rIeD2c1
ze)xzuROOxkK{YDu*uc0nL8`-1D4#RbV|zi&UM<_Jqn2u7GQJE^sD6b*h&+X)y-*KV
zY#?c!G&bRw6oQ<x-5IqwzcfLOn-GNFKtgcCWgE!S`wk*WS&$JP-T3CUZ$>Q@Uz(tr
zO$Z`~B3!VM6sZ+yKux65aQWKhS^JkJVb5kHxS%n-V<QQhD3&%PDrK)+vfUN6xV|)9
zC<E!jqcEsZ!bKYh!{$yTB)LQ3YvHJ+l#rohX*$Rg8uEK}y9EQ#o{(cU3x!*hq#r@F
zHk;c$KLem?31D@rmF$96#GjU+brZX{NZ(6f7@%B+@OOy=fNF4HG$csg2?^bExQm1?
z5r=s~<OOWud;)j?fk_A6Q%FxbZyc~>07*iEW*_AR9ltcn1|38L6SvzJlz3r0L~a1+
zStDmv?-_}4nTSde@DK~_kSW<ZYexhhC!pZC%mNB&8l=#SZKU5o^pwy64I*wvimu0H
zJV)27UEMh77-TclGaHq=WB$$f{+D9=d*uB+@uq{ZrsHzc@%WzFAG+?kNd1J|bRvG}
zXzb8{d}!cVrYU!jUZqUdL0XlJ9HI*0D&Zj)1;rxrl4`xcRPo&Ap3^E2{XCWIM`=n+
zu;ZJ_j1l%cA&Z*lA?e=Erjo;KCOI65D^6|RXC$7hF$@$9>n{b<=9GEx#H6JuTGG9h
zMMk4>I)gJzTckV<IK=~FHhUMDGHD|<pQwv^>#q`CmX)m7Hk~<@F=ggVoasHoly#Wg
zc2j8EqRo~30xwIFHLWyEYjaFz0R-C2wB+BG)&SLei6)@y<pf>X(>XA{Vk7KSHga;>
zK9%FI+@#ksm7%S6Difoa)42dy^*bPK_&zb6H<de;hdVTtHD$;9`t@#x0={Hn+jPd1
z1u$X^%5r_4v}^qOf*n^mIb{%>Q)ciz^EEnPZCWwq>qjRdEx{=Lt!v5*I>{Wi*>t7h
zG7u{z;As?4h6Q99#7Rt?G&v5Tl_J%NEf|6OJGzqK#CZiCFZZH461P?{@nhrCq+$|B
z*>PSdMm*@Y3$@s34Ex3v`mACK^Fl}zj$j9}9{fd#9}@+<iV5gP3+Vm}XfME)!(8Ys
zi$vYH@>NX(yGsctFhhcs0{ya-qzV+7ltLsZf>2<B+@vxS!3ES13WLan1BeBv4tX!A
zF03`kUzWf>=f{=8&75VWG`&@ip(s|kxg|Vly9%XKrPw*`s^}rJiMW%fh}S38RnFF#
zO|0ZbA8TFzS->RT0DA{cb1qfe7^`WQYuaNqgL2Ja^!!_~^KZ-N-;R!4h}H})*92tC
zo~UJO<gHH%if*;sY>95Gk8L|3Z#%H`j=b%qXlsA0^{m`_Hahs4-1>Ud{f6B7Mzs9R
z<$||nEuU;DxixxoH1dsq99-GbI-41{=gu;pIQK4gM(aCc^~dG<;}52n_YE#PU;B*8
zv=+-*6|={0w$2@oG{!6U&33<kCSsa92d$r!lzm{iZJDqBsP;~6w6bxzq-nP2ap#Fx
z=aAev6zd$7J4cs0{hv`xb`LG*wncNRqdVK;<&Ic+n_S)&J$6<uADpwsovkrvyX<U#
zQ2j7-*?Bhl`gz%Te$GzXkIT;E54eY?mYwIKZ@eu#--h;G2kvi|cXiKMBd(w2R<BwS
z{c0Aqb?1UrE^C-Q70=3@>$rCETGwhZkiS|+?LS7(THeo#7Ve4_*2sl53#?pNAI+<m
zEe#)M7Q{;{XS=SSj92Z7RUMS84#uk5<*N4Cu9YmuV|(#t4jrB^;-fgA059Qq4~CMO
zNDX#TO_MbE4sH4|?dAh;uJphgIt*an(2XFj0*VO<`}K!{i9j976$D1fX;LlrA;6sC
zzbnNa48N&HQiP}%=YjKakr%_e(>;&c=Rit`u>dlVJPWm@EcI5TT4i&PzXbQub)K5e
z1$5$x_0?Am4T+>_bXtuT=n#Z2ykmfuL<j2t?BMYv^pS&;Y8_|6(+LGQ;_WzmBH<D+
z3;E(0;=L@mTi_i{l75}L02d570-@jt@EDYXk8}8j3HMkaM?l{mIEhy>VF<Eyu8tX5
z$VuVi4NOxzzK#P>Ap(!glr=kMsg^C(E0&${0=Px~nT7Ca-Q5f<i7F*{uu)3<`s$$}
zkwE_=AJdXQ@%EV7ta0*Q0t@j<f2yy&9eqad6o*+a?-=8y(GZ8yHOgLuz%DQo;;4K8
zd`@vZ05MzEAz|ztV#hiHltGLxI4+I)yrT&R6h{&jNL*1}_dz&W3v}t@VX_g3^#dS|
z^<DIF5Uu^)5$mKY`&-)PGAfKe<O>qBBH%4}!-b<7)Gml32EsQDym@d9;r$zT@dbum
zfeA$?WU$9sRBqvo$!n95!dPjGT-p*VJtCJLSuSl`wjYaHj*;zl8P4L-tcDT&E{A}Q
zn1J>`z_TQvwHELSp)j1!D=9`%64X#K-Zli>Vxa}QEf8!5tsqSbC^AVeT`|Irs%94b
z76BbY;;$1&UqFMcn&{(DQZj-Z34IfTtuRBOP(VQERY27wkORPBX%sVboyZc1p%Ty)
zBN+;~I0h1S6$0D_ljUg^)!6pn%u2(Frx|&s>Ud4VQdRU|PqgObsuAjso%O3G_`-?U
zvVDG=TvWS?U{LL&&(Le6yqhxTtQu(3j`@<$DEO=ywFUrFyQ(6Wv8zh&s?xi*N1Cu}
zyWX{3?<$$=na>7oj{PNie~I3|C%Ur*`}XL4dr03?Af`-jD_gbLOoR0Nxm60kOU{4U
z{dc?9NO`rK+PyEnul{L9g{dUIbN5I7JN~8p^3Il3BQ!jARIi%g3pls!m>;;^w~An(
zKg%mVICT5aniXnm$7mC<BZo1SMFv+X_{>Xd_*u;|o7(9m?=uR&>Q3M$c;Qb^iGxn9
z;l?MQ0#J1-nJ3`|CK0XfziUjFy|n!u2Lu9U*WhmrCGRQ~XH=a<+Fy9yLj7Q+5+J;T
z6QoUwRz<+<Iu-=X@ESmxFp4<F`hp%0xTw|v?<kM2Ji@P_AJS^uh+3eIJwff5sIC4)
zYo<oNcN^1>+K8L$`&9--J;77;1l>=c-2#f9NggC}hLn772;QXN9t{yum|PNkmxb*J
zeyqa|;EF97gi|b9^h>eoc1f|0v6o4}R$ONX@z5IKZw>ulh*&_bCitBR#ZlVtOe9^;
zPtjqZ6>k~?)LlbAao6t}@VWFNFJQbDsZ;F9Y5+O{071hO*EwmO*~(BgVS_LWbN)U2
ztzqnShWf-_9y#+N9XShuy1xnCH^@5=$@bQ$rIqZ#=Jc1t$mi1!p-t3}5Yt3cc-J8O
zF?<xW>IJW(DO0x-o(AFD0QFDsw}#pg>8hNs{P4^?L^O9rExW#enm?4Ac<&M3#q2%E
z))AIqR-^Df^xQ`fJP%($!|&wCO&tHHn4yrbn=FM3jly@J_s0l!12a4ZU^n!u61a!}
zorrll8d58b09T1)&@7#G8HM#XCzs&~Du*X%X5b`c4EshzUzmq`9KMw*#-Y$<XtuGO
ze*&Z%-q;f-=y6*(bATN~7vMDboM3mY0Uvl_K292iC)B|BD65#@QJxQkGho~yf#<^A
zuWIt?=p(1caaw@G;Ts1t-$kNcAiA~zhzh|2aSyzH2=KNriB8C?p^)S_?t|M7iRr*>
zCU79&H2wvy>@Sgag8+dDiZm#6*AqCvRM?)Juoq7NjI)ig!Ua4ea0Mj;aBz6%*-N3C
zE{%aeP9M((YshGPlm<G<BX~Gdhe0MME6C(afM}$Nq+hnZjK4$}0_Neb4%na<B7VSI
z0iHv^w*){)(KZP3e;*3r{@U6){eSAiGCWX=b-pongcs|iOQGa@3>)x_0fpd=1Cx+K
z?YX&jJU9|Q2&(~xCdA>nt8sMdPx@pJ#ROsh-4?dsmJPu(dpIuzs3Eb{D%W-HDQ1op
zLH~x!*THV&J&_Pmngl(a9GnY3<M2(4u^?`+H6TLkrfeiruEX5uNXJYIe+_JO^%I9l
z$xOPIqJU~ub&AktDO)g@05O0-?Ydu<s7{s{;vB$A)#pL^N&GZ`{8WKBOUmAq-Km9V
z|Jsyi|5`l+p}yA&#7WD<X%B1|rrImqI0@V=u~tkNFnGdKU+Ul_h^oJaaXZz&B1V`P
zMO1}K9w_<oKu8MshTt~_SW?W1uW>veDGc<FDtlgdZb7(+Q<0d>Rh)nk-w`CGkO&#E
zDr#t&koF3K{t-f%#$nfBYB>IEU_>$Uz7Zu0GCrsVV8ul3B803%@aAn4Mng&_C=-0V
z<S%*}QY($bHfWZVJdzSiN=k;IF{NCOc;Hrwo}tOq5RZv85>rO(2GP?*cfwP<b|4zk
zo&S`+#`Hc_cjn@1iQ*)_a67I$UnGjkLzYU^k_aKDi6PtwSS2V@#lT*MrNFh26~|%q
z@YaEwWKA%K_bMiGiGq($g5NQjFB65Sm?slo(6-=4C=ABol`P3OGAeoC@)eqplnfE>
zWjF_e*BQkO#R-8|GT6(bsE0wdbO4d$mS0a?^xs+ztG|RfDm;Q7bPdIShC{Jxq-h#l
zb(;CyLeb^Fpmu*s)&GKOkg0~BQ~AH3-ujdpe8yzZ`y*w~DEK@p9H;4adQQAGb#v+&
zMJm7M0EzV}1=%w*WYMjA7v6Y=Rd~E*vS!1}#?nujs-H9VPnoXATPo&;Fn%;|oF9mU
zm$&ShdFAoesz~DpEw@|dy$h~|Y7F%+wcpz(?>undc)#a<*H3zW)boJ-aj)Fc9o^9r
z-|0$+V(y>6fA%Nme{}xAJ3oF?Zt02cfcpi#qnCyk-10s;%9K1V+`Z7E{(@%7d%tPP
z{h;cB_@FG>+`GKDPcH0>p5|hwhh_L*I6Tw$F=L&rS%FcNRUeh!Dg9{Moox%#%auoD
zredadZr@{D_Dp9yzhLH+nw3^Y@;@lKT{3@aDeq4I(y0e~<>tPJqTKvyv}zz;UAMGX
zu0Ha>C|7qrcq97iz`uPhT6Grat9lLTD|;R2+w#;*<(EaO=MD263-m(60=tyAoYypS
z@?-c35EB`ich0j5c?<0e?=0IJX1f2=TD)M3@2rhGtKxg>o@E$q4Kp3U>}&|2#j+aZ
ztj7EP_~EXPkDQF2d3EK;K>Wzd0F>QL&m8~EMw<?QW~NQMF;h!VEtIqQ{;r2_tW=(l
zG8G?JHYF=?Jt=977dJdL8J%Y6d}^ceDx-&Ai#IeqGtzncXL<kv_Vm?T=Wd>hi1VEh
z|8kLQrazup7|V3Zna-u!ht1K~UXNxvmov}Jbj3@{BCkhY{owW6ug|}^ysc3#ZG`1N
z&MBMq-UwU^L>eOOLh(vY!<7>=owNCI#{8|mD}8gj=J}bv6=q+Y$(rf>R`-?e*|T$%
z@1L2gzUGb;M%WMYBHZn=1@V66gCmcaGeA+EV}9Qc-dU<#kYr~w+&CXr$_IO8XRn;w
zJJXZI5{j^Lj$_`n(0*rMG`lXIvu%CD(&WSTc)`~`HyKQC(<<8XAHd!$aB^i+^g#E+
zJo&&Wx$=~pd+PT^`?--ey+Xr%?<*u##rZgQ`&YL31eIpW1R{@&k1|8o__<e>bE=^<
z@0FRMCHDSg^fbH748<7)>bcSr%{j2b9E>wLP(69&<m~hcvn{=5M!<-Bsc5E$z$P|!
zuK5vD5@!l$I%7<s%oMILTjGoz@SM7GDw_ND3d8EVcl9Lfhza{(j=4*ZnC&S9oLFJH
zb;#Ml2gm=T@Z?hO&GV6|<)VEHXO@fVepYxg`kFgB6j-IG3A)?xIYpUz4Ekhq_IU_8
zI~PXp`=h6WkC@P7UG}~Rn*`XV>C*(;nN6@okDiX6yZDH?q!X7|ae`NK6OWKr32wZ1
na<$J$F=fB`>>CEE=oI~%&&>ECuj0|e`2&r%pBeK94%+@7zemb4

literal 0
HcmV?d00001

diff --git a/fixedIncome/src/stochastics/__pycache__/brownian_motion.cpython-312.pyc b/fixedIncome/src/stochastics/__pycache__/brownian_motion.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..dcfe6642f602f65a424d4522a4a2788449e936bc
GIT binary patch
literal 10697
zcmbt4TWlLwb~Aj5q$pCd-Vf6wN`BC`<T&zE8^5JEc5V3~*-jY8^oTQ(sE{1`&d9O|
zYFE4PVr5`kJNam2EEZP!(N$mrtM;efk9LisC<63nCUQV#)<GS#Mc03FWuRz2x;^I(
zXGqc9EQ(xPckc7tbMHOx%YUh<@iLJ9Ui!o2KZh9R->_n)+CpJ%yNzK!VFV_^2&`aB
zuo0GiZAp8?!D5>|;Y>Os&ZH~iqIE~2D(Q~6Y1x+WM7%J@nW#?sB0k#YO4KC%5r3gS
z5D8FtwUIjbRwXth>m&8F&z)#UHbxq0*^_8WHb<IS#={6*f>(43)$r$ozZ$V#@QW>?
zvlS2)0-{g!PQGbwqWGn~wPIW4-b@w4jQNGS+s;V4jXB8(8*Vc~z36{vHy}hh#EnA3
zhuav2{DsgM3ECKdbGQiIED23wPz;XS#UPgOi=}b<xcwnpfW*OEr_e042(7SR`tKpE
zjw#Yf``Rk@g`lrP>=Z*nyU0E2c<3n1=@PppPZ{OX97el^jgNxnx=`Nq5N;AvWHZb;
zYm`g#hlL8u!0fF8V%jB!ObF)eLT{(ISqR~&7TafRGq!Md=5z1JL|o?N7>TD9E+(ZE
zKAw^}o{J@TS?0zh!i|e5k?=}9HO?ic5=y*Bh$qFA9G6mjf;&#6=~SFgac3n3TDUZ?
zOvv1HT$$jcG`7H)m_&$}00>g5*XzBMiYuHV$_lJPL~}_|;NmH6EPhKAPNiZ}QtYKe
zXdaanDK^2&N<1bT4Worsqe;4IZ+gc20?%V8Y}4HWuZRkusCzIM#Dv0!S-r+U;ilE#
zK3BjGI^8GuM1mhph)~`zz|WkJrc%lYDRom!A=c|!`9y3AHX{*e^$f=*L}4l+65VGm
z8<j>U^?<DKM2TWsl;Tn&ri7AegTT*3W4H?B<}!MX1!J7V1>J#%sk?}%Op#Q~Rk(2c
zpd>(QU;AsI)K8eKbFNw`&@Awk&7^{#uvsR{eh8E#JE3IzZ~%DXjgpaerNA=`lV!|V
zzhDGMNjqE8?ks7yR)O)ZUsjo;e!?nFL=n?uDb7X{lXYa7M^z>r&bk0EN7jY3NjcV&
zbt0er)RuLP*|2q($+`r026jAKrFaTJm`N%N&6@EAI8`_UAle^!OldId{u8sT_1Dev
zWZhZ#%K*GgHLUHm@TxNKnyt243YgCNvc9Z01G~>w3vMU@j#xt&!%W!ApMfj#a*&Q0
zJQa^|V^gUZ<r`$QcuEmTT0%|%UgIe*?c|7<CZY_42rR-QXQtA<DS;=1pV`Sx$#f`%
zN=c66QvwIH#+jtVO;5yQ6O`3}p{IZ$I7Q+{MNXLztwAy;jnM`QgMv&66exhgY8*Z>
z(Hcfq@8w1Sgtdd|cp||i;wh0QiJ6kUh;$#^O+GOt$`t0Ps7#AuiY|!5K^9mGP+1|T
zC1Y8@6wyo*>1JF2%*{>pQaD4IWV!f>0UyJ-=?MUj+{1xv8<J9DFZXtwz%tlx3N$fF
zM<hjMLV_tMvSd*)8gKF>j`9Fo@VrLIl-QfuaK0Q7F4KZbNK=Xo2*N2Mx`a=Si(JNm
z6TfA9K~Au@ULbph?Yg%p7<9KO6Lh-}i-ldf_c9*RAR!Xb?Xp62*JxZ8V~SpFe4`0*
zOd-ewdK1XV^b|-JJ{BWWd;+>s<H|(1h5)rP#D`f8W`4{9n4yuNH%z6|BB7E9<x&(b
zR=lM*B&6xrTifUeps<)21#O^2Q7T2#640sMO#2imni6lV>u4yUVks3J<6|HybuZBH
z%_yY--Akt!^nfTLM_B3GJ-dM5rClYOV3$l{yGm5RuGgi%-e^)r6i~uzjp9v{Edag&
z{^Yme_~)3_4#w@9%RckBtTJp{lwD)kz;zbN9>`scyWyVnMb+k|j>k1$ga=`i+TQah
zw!Cwt_lVka6owsRw>;YtUfQ*?rC;6rgU5UR$^PW*%F&DJkzsXsWYx~LU8W$fP>@&H
zS6-$glxy$N+IyCgkF!tP&!~=;=T-IhX4TCHwdVdWs`~SR`j3yP%{$bF9a><g>fZUh
zeb;iQ*4_srpLO=-I!|kzr`5|bRk)>Hp2?3~&!3CEa@s;7t2%<O+{~ukx!_4Hcv2mX
z<}X}Rqq25E$)C9nLpF`VkoHwK)3HxIcwQY&Y6p{AdkQhAYy6m3TYJ=|9<8o-?sUGa
z4kuC54E>s~XW9FhSC3!T4qw*ZxT5*4sE#XZaGXpGGc(~GVp{tc4*3&CWWeZTA~u1I
z*ae$l7af&^^_X37h%Uhie=e~~s1n_xXA-ZfETKRb+@eG92=+0b;02?vTJ#AX5rnQ#
zecNH0L6I7()mPH$r>!8eg_@F9FgykSZN{2g3-v%ry$<TNCG`zL9pLE!43VJ9(wGAb
zP)DQzjNMi+LmR~=G*E>G*b!AnFt54t-u?(Ys`kcQLL=<8MQAI5*(A2EgIgINx6lkT
z!7#neMA~QU;db3`ib=yr%Uq!1^H_<EM-97DyUye>&akk)%c4WxC5><@Lq)Npdn{o3
zh7$WPn&cG{zhy|JI+(N0tU+T0|JJTkO3H%y5{0UfvNoup6s0L^hg!iz28HYRu`TOJ
z1(kwv4yK3O99jHknaP47UTg!CxBwI2S%yp2E(cG8838jY7#fo(UCR<0FD5;K31k^Q
zlPG`7(j;!YELC2q1UJj{5x~HST3FE<ihP=A&BBh>Ozs3D5$0Lg%rKv^L*am43&!<&
zOVuAW)skVkdZWdww58IzU7Qig4p>fi$`gEA)Lo$T`NX*Hj!j4jQT}koR3~uLpb5cP
zCV1_-lL}@X;1vvXSq~Vpy4c{43JU0?7!kq6P-IFcpcoypm>4Tk7ugQWQyl038Bg2L
zAY?Nl=8gi4xDt(Kn%7f)ui5c743i%~21>!tbiOg~c<SDm5AMKkd%mq}-tqH5{=jMV
zz-2A8=jqjJxvQhv)loGzo{JGJMpmxMIC9fhffm(0un=BUa$65;TMy^94ruVdZD7Sc
zFhBFGd&{p*eR?X_y-(}jx2)v$4{7^{R=UsO)XsckD=gy8w*~21n_$VO?v8vgWT4P}
zVBYbiyOV4M9Ag&MLj}u}N7|qOrav<Y-|{rfkRE6Yv!oY3pRwcz@R4yUM^A_zWhPj5
zIAxUZ9?n66nPZ*@>T`i^EzqsHyT3O|y8t9Xf4meSB-2bs8A9s_@dFsKR)S7Q3xrg6
z=zF8{MkRERz%ngm=vaKfBPz&d^knY-=+2K+ckp{7vcD1{XtZVO%Md{WM}!W!h(qR1
zMs>G-Zyfq7-~euEDNnw3OY3^$2;eAY-<NU^R6@mLiHg^6$CN5boOs+sf!f0{OH)8I
zY6i+d^HBJNDZ0a`ZzfAeLO&*Gt)Mrc)sphYxWd@Vn#YpZ#j%grhXn}W9@;X0NwqS{
zvEd1cD6uK(d4L%!O;ayuN)`#a6hfSUPXIm^b!O1vSWh07mjsRo^b!lKG68WKYVcDp
zv1q6p&LH)MOyGuxg~)`RC4v|EujoyLUDU!Z?>~rxkZ{8`DtPD>$at_|D3}5ok*_GA
zjgA{IT1Fu;$AB4KyLs_ye(%BD-c#D%Q~AFAxxPWIZ!q6~IM+X{^$*jQlUm=&{Px~o
zhd&Fys&>}yU1gk}y_5=do1mZy5rr7uyO~gHQaZrAln%Z(4L|_nk?moDW<cv&)B`kA
zfer+_5w@sAPZ+!*n=8+ov~;_<B}%ImsM53}SVlotkfuqzp|YgZn+=t0@yb}3um_mC
z_PdUleVmEeKG?!AR{`@``>aE0wqUlHrQ#QCEC>iqqB1K>W&r0S+t0T-m>58swF0xH
zmW;B=oCt6@vt0a|_{};Mq+XgPLuRS?okYqkOIh0^hdCe4?z`usz$;6D5!i+0DeD}w
zf@dZ7fjXxwefN$qxP$?;$(?1>pqh1Mfa;(Z`?=Tq$85uJPi)~_r<t&m|68yRyvXsG
zF4CYQ4L40CODr<(7MFqsSrOARmeMm^O6V;_qaf@85nYjocoPI@jkqt3<;W<vcnkQ6
zLO>WIHKyn?<HtqYkA|!Yv1b@KI>YhlbYcdhQ7H3H6pT%7K*UgpB*$qS4c5Wl5|@KB
zTn=k-43JTGrvw;;pfIuxplKkar)aqrW+VOx7s7Q#+(*sWcfm(0;$D=V!y=03_&97I
z);%kd*c6FNTV-zhDU9}E=<6aVF4#T<s^y-M2~i@jQy6=mK<EU5Zrm_z5bA?M@AjP#
z)Pm4b-|pf9@uSBBOxQu1;EoBhn(ndi&^<~17B#o!7k_{RhTxyUh;TDODWrFpr)vy}
zj?R=^bcs->n)oEnaKROTQAT!S#Yt}+mV<pLl9Z5jcbborX$V=-7!}zFqYO_E%?jNP
zAu2LR!9avekdhP`8Y;(lrVvd@B*`bJaS!7922sd97#*%Ml*nm>hUkOefi4R;A}K-l
zSk$Q3oA*(&3%Lp=P=Yp9PrbEi>zL$B$RtC<LGG<EW)=X+`+-G3AvH1W-MO}-THDdj
z2XbewYiF+K2j0mIT-F9I=Lb*b2Zvr&+1t;vXxKvl##ejy@SVd8A+37jq9ez>sc~<9
zQT=8fnuqQT<$Rr*uXC|G7utiKhHvk`2e}6m_a~n1*pu6FNZWDfvGCi}Z&E8e&i=QZ
z-FA-sYU9?0ON%F7*_rSUa@#Iw+b*aVuc+@`Rj-Zau1#y#roY^F3&L7367o%m12{Ag
zC~9n3aO7IHYc1PX8g|Tkp1HkuJ$F2J{dfEe1M`0HN1nmD@%!;yaK9GZ|G43|!QTWw
zZ&eQruLMV)UU@Hf<(hT{;!Cky^oAC_v2ulIL85}I6bu<N)c&(t@GQ0jLW={2%cBPN
zsqTIMvsQ=bP$%slH}4qi_v&sl&Kk2cBb+WsGeaN$FBGU}gAPks0vpW^b`u&Ckf@Gv
zfMmDy`v1dHb5x2E2sHX4*fIdUD5XJ;Iwq^>lIt?T_Nb_nT!KSz{L}_9FUZGiZ^6i{
zjkKTyj#@eyq_L$%ilAVGWi@79U=2Dme`N`*lg9fSMBhy+HHD?jC({t4M#D{pm$d?&
za{`3ZQF4zZBwm47xFkay8_X&Zn`a>4F7E_k23=4Ulta7A1vSpMTyT6D;5mF|fcZGN
zD0;|w*a40FK#1GH--^paVGp^6jfQ~8h(wYNXT1+vbysXE2~QA&dO9dj2%3uP7#!n0
zl*<YFdxp61TZ~P2`Z`b7Sp13uUUN{^_1*`t@=qWG&)>)NzM1P8)OrS=jDD`DJ%cMf
zBbs|VQ1QYC&sy6bwA^o5-1Do$pB`5G-p=)%(fZDOenIOyr(PV^`i9le$V%&_d4Hbk
z%W?f0*Z+i7x&9UI_`Lt)8w;KHL-(dM_r`Ck>+`K!=Ldd%I^VSwLCp_5^>NPw8&&tl
z*Igte6C~xee*n_|W6r(6(sw){v=qGO&$5Ce%l?A-rES*s-E1H@AGsbDSPG1pBFk9B
z2`d*;)-q6Fq!oIqWV`}FTLC9?HZ?;ll6fVgb8<s*o>>xDG>PGzuz=-k$xCHL(-cE>
z6%5)*REuRvaD#d7G0pRJCsDyb6}*qCE1p^<leMrC%giug-w<UDot1Sa(_YTH!v^b~
z2YL<LUZ6UDf!6?xR5cbKm*W{RY$p+DA@4(`SHYuAToUAQs6cvt1RlCQ_}Dfb7vPQ9
z$tThie4$f40&$-dj0*b=U20D!6x{`2r--OKmAH}+bz54{z35Cw>1$Pqw#QQ>lwBR^
zgrw-~i0&|+qvZ){8Y~TrCF!noVv6tyd}9Z2U=I=^L%WOu9p#V_W>TQ`dh`OIF5}n*
z$mW=QOUDEMeg9J37cJXAs$aIvyYfxDm$xjps15z7sH*RJ?|2vXf9dYRGAONkVF;8x
zYi$1HgO5H~YRH8TY2iap_T)}n(oS5W8frp|PUNB~Et*oLG-#`*jbz@7lihdR_u3Xl
z9=vz|y$A2#e}DPJ;~QVPkC{EnmjKon_2*v7n??}LHZm0Mz?fo+hX=DL1Tf)e2l(g@
zWnVOU176<>Jyp@DAjP6lg2G(iaO}j$rDJEJ=PnOkj2dNv<gDAl^Co!PhM24>yyg<r
z7+^yY2`*ciDY+8#45&j*<sqSxa~RuBVTMOeP<g`LPJuq45?FVPf=Nb1?8965%m~OB
z*Am87%#OpK{6mllx0#nVo6`*vv8y}(*3tZ1L%Fwj?JfRgb)EBIKD2$+4&Ue8wpAy5
z;elu)w_1fIH?yU8Y4q2VpG|6;53YK!$;)i(U&U!q8fQOb*JybQ<MOZCSm)-&mj7bl
zvt~CN0GiR&wQvi&x~#4)t83FjA9iiBx;D|SmjJNMYHPFF%0b|`b#uMWy^HUzGVoar
z{oS^|*|vto)gaTg^<`C?bN}<&)`hcLZFtoQ6@XgbzR>qk&nkAoj=h0-au?!l3vWI+
zaQ}cB=+ZphYaZx(dBE=sE_#;EYTUt92Fg!H=tq6`y2=aMyP{FMA?I$)Xg6loaL8J(
z+gWcA8(s*KSrUGM6O9&_`S(W(h1DbR|Ez**i^HfF=)}i=57ie)P{5NYf{piHN-I0C
zicc~iPn;9d6p<kmV;RsT(x~9M&`1(}k?qeko`I)cPE61UJZgW`sr@kj90H{ojV*5@
zXcCil$n-k!u~1kf;-m0e94a<k#+OJq2(hGesyCs`nNs43-gUpnDbO!<C=IS~DKlv>
zIw+s$ftUpE`t+9)axXs`Bd~RbjNsC)H24y{ObAx?l{_2w!n1L&Z2Ue40KvmBxF}|W
z2#*}_TL}DFla!JTe%<>gCzt$a$NCkJ@f^SXPtGl1A`-**awOs)Gv^R#C$-azNE+o#
zv^{k@fgm7da=c9QcLVgdMD%w9v}7AiQWn>p)H0%+4rPJ@<~B?-2x~KxzIDH42(829
z7f?krKu$squhuO4(&k_tYhH%+f6Z+AS7zJS%p1RBHhj&rf6a9Nj;Z|}Q~w{#rLUQh
zubHE(wak|7FKc$P@3Q%(;Hn)9&s#fJomc=?X#v4Ni}*IZ>Y+t1)6%i<&PP97t)^8U
z6KK9iKFNHP(fpxR3JTs}T-Eaz??&!KG-vZ#0LQ($%HCwz`g`xbV(`0q%g#7_^O-N~
zt$DA1?nJ(|b72Fu&`vDXFU1y*EDt~KdMq!WdlLJ+Pdz{UB&vokt+ZZN9ZlcVwJvlo
z+7^#5u}iy`_~p8ly1u#7Uj>>M91Ek1p+$bFZt2+4jg`Rexp%(tG%tDcTYB@MuKbQe
z;KzB7%pC_wRujniIy7I$r!~vRo^tyhUr>D=E50LhgL#MRXD5Gr^7g5393IuX^|K92
g?>y{y>e%-cRy!B>E;W66=u5}$)lSCIMz7=l0Kgd&*Z=?k

literal 0
HcmV?d00001

diff --git a/fixedIncome/src/stochastics/calibrators/__pycache__/__init__.cpython-312.pyc b/fixedIncome/src/stochastics/calibrators/__pycache__/__init__.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..7864d123ec263aefa9e22d3feb8f2ef7839fd2f7
GIT binary patch
literal 154
zcmX@j%ge<81cIJlvq1D?5P=Rpvj9b=GgLBYGWxA#C}INgK7-W!veYk1Ey&kT%dALE
z@ytuk&rQ`YE=txfF3C^MNGvYNOfJ?>PRz+nDoQNLFDllLkI&4@EQycTE2#X%VUwGm
bQks)$SHuc5i4lm4L5z>gjEsy$%s>_ZSdt~Q

literal 0
HcmV?d00001

diff --git a/fixedIncome/src/stochastics/calibrators/__pycache__/factorized_calibrator.cpython-312.pyc b/fixedIncome/src/stochastics/calibrators/__pycache__/factorized_calibrator.cpython-312.pyc
new file mode 100644
index 0000000000000000000000000000000000000000..ffdd64120fe48d5e4e086ca55a75d1bff47c5ddb
GIT binary patch
literal 24469
zcmeHvdvp}pd1qC>RNZPxtp}h+fLd?00P&I#AkbSNVIdF_ujbLTx=K=uR=22b0n)TQ
z*ufcL&z@oIu?IUjYrL7n;2{p1^`6B!v&T4QZ4ytiRcb-CJIu*=!#R`L?B)nWGRDcC
z-S4~A)zy+}01p#;|L|4ot6R73<E!sJf8YIX{WK%PLV;U)`u`4pWe-LD9o{I;n()l!
z8z|~ciltl>OS3vZ?V{nT_v=RVF8zqXWuP(K;5Uw#Tqfez`O{nsgc<$j5sS-0!c6}3
z5v$8e{AvD-kxW<SNR}&W#OAV*Fvg!flH<yuDIK+oV$ByQ*1{Ry*2_G&a=9$dHe9K&
zrd|gr2(MD_6(0#-qui<2LCUA+az4Ghd^*=M!f`rqY<*iNm*mPPVHpsXnGCaY%h{|`
z@D7(~{!oe}Z6G<L%Q#ZtDj<@`_OBRO=~_wrI{&JXLYIU1b7TpQ6uFAXeXhTFq{LN1
z{CWP;kup~q@ux_VGqFq9rR>tA9LseSge^-ABO&>VLhOq|mM;n^SQN4%HDu7_s^BWx
zsMjd3ZV>*D7g5wC)Gucp-lx`x;^WFA6jwC7U%6MW*H<e1zpi_=!~i)>Qm(2&ie2>|
zXxD1UFL&`<v4z(iisX|q=Dj6bq!DA@TeHO)G3H5uEzyWEPbzGwMvQq<V$0MRAh9*T
z?OLvatKwEGZ;cXsjebq%H4rJ5Qq(c%7n9T^J*mTYi=a&D;bW@A6kmi+ry{xuBSpPU
z%VBC+Aj@))rD0MB`B1KPZ21MswVtg2x&iXr@OB~-ni|)Q>%2Oe$o(u(@Fh~6rJR+X
zKZL9;eM7#G!|U<;`gu<{$UESU<wCx}0LMDQLC1i{3!%OV&JiBs93w%N^E*a8yk~?9
zb9~6*3qYLkP%y+<&JOv!Lk@0Wfb)h)<Z&P8XB}sPeoxrv_l132$l(b<rWo6?D0XPb
zGs;<l11U+pWBeJe+G07xIR<=uC=3*H#^fn15C$NG51#R{!1Ur`*Cfj20+v%8H|h%v
zCUP0@or45tF?*S1o*VJ_0vG`bNW3EC-_Jqeo>3^`oNvSvCbF;)h8>y=_i~(LKi3}&
zfJ7ZtEkSteeZ0?$`Jx1l5W%$K+d1~2MBzb|qZj1n3kDn;Hdk-1t|1YLx3=2yA=YTO
zQx|7CLF%4<KNq)jLlv-nW21h~NyiN=a0ORp1h^l8+5&%0n`gW=I2H)Edi>rosDvQz
z)W`GpjQPX9GalXtDGqu<J}-BQ@DR7oyITgSNRt4T_F;WP!F}VSnDO$q;8?$Zd=KXd
z?B~vKd>GhIr1d769=Rl@0BWunZr`Lh3Z@^*r8_`zdd|So+aZ)Qf=`FOalO+Jx1|)?
z85kW4$1_0OW4tds?#4Ha8_#(BV_dh>6ldJ-07$^?j$7PrXqIDs^jqET(_<dL{Dg<z
zL&dY)ZciW(3_~Lf20{?WIN%R@!q=!dcuM_p=Q^Gn4Xz_Cp)=qOj&SQjymwtF9P|!(
zLSdgbv`+0Dp>@gbz`E7o>d|pN12Q8dA3Pzv`vMiqT^2Pgi>2Exbn#1-=kr9An02VR
z74TRU5vOPA3zX82U50TT)SQ)6(@xSK$Gu8QNJpWd@qZ2m7|10;4JXD7xJ|kUt&AkS
z)HS*r>d`U42S?n={yFX@E!wSiEog9huRj#GkRUhf^M*rMuEW7EgG=1%<vFMo6hG&m
zu&44@o%(1kL=NQwIZwTxl_O<s60<hl*d5Jk6qrULm~N+$x50Bh8%Yk3c)Hi`35B2w
z4h31h5QCQ>A!5YBdAmYztq{WS3slT#d#Iz0P4t|eGG)tNISIy|CwUVDpqt}?sFG)C
zm!8#e2F{2nSZJsTpMf<Fm{`*VgUiIGacLYgkp|B()W9+jYF-p-hENNHrq7FOfl%wX
z(U~4!bx;`@$K^_eZp$hiAjnUA$<gc}LP(62Vb3Wtg2I>^3VQ-x4#%F4>&*@r$y56?
z8BSo73z6ZKR9MOwYH@&DIF9<T1BR-}vv_t&Gm#&}t)nocaqh&OiRYlB2D-i25EX|V
zkTlFMgXc{uoNSiiWGuB=Vw1nFQ>Ok1<xVzn&2&1YIkWl&>5_Se%?cw*SAtxTC*sB_
zr=i=MWC_C1kIi&$IS|s1;JVQDQhWh~U8DI-a)FkLBV|Gkn1$Rse#vb2dq(<MPs7C4
zr`L3~8xs4%Zg=%|e-JVYHGoG>x(%`;gUNYHIKoOtc<~5-UhW0Zf%T`j@lX5$Jg&)k
zCl;VG&98?07vQ%ZvqSiCp1Sjrw0B6{JEX8{ikm_~KFqOkgWnel^Cb|A#{rA<WEkji
z5OK@n>o^Q|h7ji;P-BI#R-u*3BM*%JvdAVXo>R74A$h0{$a(61QN?wGu(lyu*(kR2
zGew~(!wj?P{)*zaYOY$NCADJx(98-S2HNkhbpGCnDZ^c6IT=RcM#AO1!53i|@-~+V
z?e!Jv75bI5SC}`ci}WxAE_C5!n;teSd`3|?<a{yhA~mcGPAO4fDG5tCvW(mUOGusC
zwucE2Oo<9!C>?8Ifs5#dvCS@U5EsYZ1@1bnEMj4~xs5E{bzfvyT^L7a;)e4SpL%8W
zVH}Bx8!$}KQ)yGw6azz~;evHiAI8o_oL1T}zCLkb>|n%QOjCNfas@dU5^?|uPQm~T
z{Fw-U1|`m<F}zaAA)=2MS(8@Y5u*}cxh~2(P0gESShJ75Zh1Q~eoUGore1kTt((*(
z7T3B-L#of2-hE9Ux4>x4hvoGP!v$E`r)Rz1d7~<sV?%ryFg~wOW9^bb=?-+$uNq!4
zrjDbkeAF>Al7tKhSwp(r)aPk+yj4@QQODu=F=&wpM<P^&#tOJ-(rTIEWQ!bT6v?Vr
zOcx>RxmT+UR5)FEqSXeq^M_EamTA&znGiSG29=U13fgO;M}5&aWgGx?#|7phqt(vZ
zk_#(nk+_r~ZWz~X3!K^xagI^j)J1bdubsEjXVfy3wxwJr4G}{x&OFdEGS!w5_Kk3H
ztI|5iosJF9YY6yyo8W)056D;P&%ktrbJTHI98J;}b=qsb;pBj$zMI0z*XTECntHX!
zK#fy>tUpVWc@5TlHiDp17KUV|gCSX0y*_S+g@8QQ#mxckti1M149@4t;QUMT_CYSd
zog3vFCPL2`oypV*xRXmMEoA|!PKZ#dj3UR~{$MEN9vBM{w4}yJ7P=qaG=z)7U;I7w
zi}TbYiZ0(v$Er5X>ZywLQhAeD-gL_@H6Iq64@>1o9+JmT=1{u7Q&vf9i@XD#CIt?w
z0|Mir*G%dox`<wDq@RF(%Tg22TM}Yk0b-_6%-3`uVx@G$3L*=xP6OWzmw1}T>*WEv
z#F<f^V^JP)3#|1a1pOi852inP{^Q%=?l&Ub15j{iJrG5<#V^x8E7)?m?n=kiVUTd?
znybT7b%O}Ml7?H^cZ*v<zz|0k@aG-Hv@<KN_j7@`nG1}K0GI_-w>$|slAsE(8o?Vp
z4u5gW!M$D0eVtvMeMfj4U3i2`@hr9bxJi%6Q2GzK<r^?2E;Hf=K#@bRqBzZm<NDCp
zNL)YR8+BUvt@zOB3$Wa|xREdsUy9NPpd(j7QgabEay%d8`BuymdtuxrFIb>%<OUn!
zH(;<80}@pk3L*DcYmTP#;N-PSKE%*$%M&LLCZA{_g6bFUExUl7(BA`j0;{0hrNXj`
zXl~{8R$+Z}bWO{2Zi`@T5prAZJDft*wy2~25v9vm`?~d#@zU7)d1Y5PF>ei2arRQl
zwqCTYpV`nMZRi!@XX_IVxTbAKXY~;OF+<rmN%_5Eey`AXMCuERec_mQNb;T&z2{<{
z0m%~<J>l4)W6~kFc*y-YO>g(mQ=M}b(oO5?rMf+0-JZvKycMj)k4@AP`<tDwcmBRt
zZb|pIH{P-e-K;P$EDc1&fk<@wB*ca`Hb>Eggf3~)O|`$Dn?EJP?hjtd`|hrvPh4pH
z;Nj5UP5tLzJZQKE3#o)lcxD?xhvEy3_FXf^^)R@^b?4T{^<n6Qrhd?&u%UQbaFl2e
zoLM~TKuN>od(ekXj0ZGG#g~Hq06-I`Gypd=^uh2Dk3$j}MB{m^XWZ>Ytqjn>87_c%
z#&v<wxY5J&o^c)*RdFNl2@G<4HzvcG*J&n=i!?mG1w&6@G};}v<1*MMj}c0vl2;P(
zOl*mu4|4Nd2y{ODF-&(HNC;uk$&+%sY?2#g;WOISM8k`<%|<MD4#>Zpr(y*Tsi0mg
zsGr&1D{Vg^!mq$BF!{3<s=P`ns~5}a|2a*czhl-!*^3{iQTEkRezTb0eCL3)r(fLD
zAKSH0+I2$Qbt2ZXOKLeLwjBFsqt1SUendf{DeJ7oX12eh`vLQPW|ji)?E@d-h4>$r
zQe_q2?)X;6JMFhigq;VYEr+7p58qpR<i_dmu+wXgL`z))Q}n=IB$PM2U)B&Sue#sR
zdb?HV@I>4CqYd7BPWEQ@cdDkHY;5(08#Py}AE%p^mriBQW>U6Q0<-eTqh=bIc=D*4
zs&>&&9$Bd>jt-$#<HnBGErvg@F}LnuepGC3(`9Od2o|OW1w_1Jejym~EC7;R(gAk~
zhYPtcG5|m{7I}*R$kUg3wAO+S0Eh<E005%BphH*%E(L&?0e~c7$8ZvA$nlT@07)+7
z5&(pmGEY$h#smaGEfR5BsnrEv%3?1GK~lmPWeqg}c`5!y@If1zpfZcN1T;y49X0=7
z3pC+tfeW1PP>Ta<X*W!#Fmyc=hr9tz^sB~a<B*H<g!H`lBm%1@HLi+QmZymM-w3xP
znj2slO%7OU9uGD1v6B|h*f^dGQ{ggUflI+un*mdyLYX+NZuPO4N~^PJq9@29*{zh4
zJ_b`+v^tK8cK}l%>%<MiN_nAE8#%#L$<9D9m1f?*0;b|o|D?Tw?}I1*W}xYsF1~bv
z<AXS}kHX3oc79kl=~%LoP%kg>(^E92WF<KdH_40obI(1`%G!Fl(~|uh*cQ^nPI9Tw
zf=!<V0nLX^jxK;rwXotVs*)T{qNC|nfz<30n_ZIQD6GZc@e{uNV+H<cLM9#;u6!qu
zYcg8mcY`1HB@ii**Na;dSc%+ep{3uLU_S?}&WB7B0GYM}WZHeh3eqjDzG0Qtw}|j7
zX}Q&Nw|FNmbSFT#d+>#A@-lEQ_|=7H+}PXEystf;)!WzH*X};pyuY)#rK`PHMMv_Q
zvlmkl98`)v>;ybQIQ}4#LqM*j^C9#fMsfs5+@>NRS(yA$e5N9w92xnf>=uRMN?6Ji
z63>(yo&tu*5;laZ26^R)h$sPxa^;xwn&<@gYv~CA;3sqpRBH%{@|FqtRnffF*S*5V
zwrF*`nAiSp31E%rZf-i46Rez&%RNAJ)Fd<?!3E^uXv-0y$`y4SMXa<@!AezEYsI_`
zP`C52Qn$FFTeR&J_8pkE9Yn0O5wKEG736k1S7<*JZ9WXSs=4i^Q?mPBu28!xx}if{
z-67_6F3kC`xZ$v9J0iH;)3%eC^KSZ+!!YdjTX#rXcZ*wh1F(Wy!Mb7r44a_uH?`jC
z7W!luc2*oX8*Ms=Fl>UrFhZBSM5n?q-i^)ZBoYsjejt6k7bvuG6;i#7&(0$uO%`z#
z??aLVQT#C8o<ibBf-@ICf+Pu;u31t5(>Ol*T_jl9@#P9+N*zEGm<ifGu7*-j)9+xq
z3rM~IgaG;^bV^_+r;43Yv(y-qCptc@Hq9Y3`Os|t74X!`Vrk_LapjJgh67T=Q4xMC
zj|t53`Qe<{z=<mdARKU3<r=ACi&(J*aMto|h_gxoXBDiKmbZ$_TkniXds%TW8{4&C
z+I3Rgbutxa6%d@Yd>ddM%Mul5ffsQWTpl8MTuqf%e*5sZ4!?8Y_9kK1k!Y)H=J-j$
z6N(-Wi>=}4j<I{yXKvEp2~Ss_iI$xenBoToB|>HW`(=$P=IW2Od7};NJtrq)E>6W<
zD@qYB0_buGOyQG9pP}J3o;=z@tvf4&t^s-uA;k|fceIrlepF~~t7L9xnA_IQM_q`3
z^zc8|4T603zBz2VU~J;Fl;jawYvTq&HP94<YApI7RAbvlRc(X1ks3y&;Q|-YD;Q+b
z@C+XHnmp<?dDMR*9*q$rD7bYKUv}){_<<llBJVlNJA1gtowPOr)rX^hT(#{%LlUw-
zeI}^~TewM$Q-^Fs#04Cl0WeBA>*3iD8t^1jlTMhDP~O7Elw^JAWcbq{zm%zx3_fId
zQRmAqK@_JcWfU2OfOsBomef(g+Jnr5{1@?&EjbD#f<xH6uvBH!(wvMjQTe>%z$M5d
z^fe&oDd@J#S4s9AqJ76rE^2R^%6w3`RVs9eg|3)2Te7YZt!s#CWxZIiK4yogYef5+
zSXSO^=PsUmY&JOT0<&V)O059xOQ%@SDeOKGC3=?!1+`MaL9yUq%<7P=^`f;tR<KSg
zXcP+?WA?R@y<W7}tJ$o8Z1N!+()Gx$s54`s@kW~4%?7=0H;?^AHjUYcKAik{)IP~I
zfHLN>bMW|@3k^JqF$_r!{D;m1xj;SC>5R-Qqc^U(S}AO56|352DYy~(jtR#{#J+%h
z7dktKp|jQ!<0@hEKB3nwZg$U7c*hRS;dQo)b{ZW*lS?@66PtXq6y62+IlRsuq?f>5
zVcpF&V&TqN3U2PyJjRP`N`fq*`4L)*x!q`#g{DbF0c}7E8}k`FhbrDP9BgTaJx-mh
z9aIgnlA1q=Ywq<9acI88!%b!jA3PiIc>;Tas2Ke4Lzw<Pgu#jO{ZH`u{sGDVLh_GD
z=8*gX2!ZlW(+A)9I=X9(AKYB^g@5R|`Q66Bw?=nZq(8XPI0$)wyV1!1K3oP*W9aA~
zHx9}XKiddAX2JuqBQaS2w|oEHn}N?ak{NqY&h%pA;GcC`b*o?b-NwN$`9JuVYY#u)
z=*27*hr<~eO#cyTG<A;>4Q5$An97j9w}D-BlaxA8sn}U-SXK8P!^weEYhY3=N1mP=
zVEgCFg*9F`Dadn@hJiVWz-9iChLb}v#7?S-SR>0^H!EprDvats;<VIUPv`bG^X~KB
z%c4vzZ2EPpvd0QjVN#LCX0VxTR)oH8OFo5Nu@q$(tj}=Q6ZXk86n3XTM-ZZ4&5am9
z&9~G*O&VbeOKK3pNex06w|t1Zo~_h0?!gZyH3-Uc(BJ5<=O|o*{EL()!`O8fI5zis
zo@QKJeJ*h963v+93!=fT$~VX%En%+!9c(f!lBQ)05ASXxHVkP`O<A?LBsHZXm3eQh
z!5i2^7*Us{TvKW)m(-Mgc<thHB1!8CC~--`-a;qGn^$7>;<R8|zHCs(=3lpK^0<C+
zinkL%^KyRC+FSnIwU=ybAR8v7_LvCs)Y@azR;rQmX|=~_O6HT*-loO!e4*MaU|0N_
zYY%7q1&&>*S$mroM1xy)m1az>{#>XTQ$y<EElN4zZHf<S*qmq^FsDtLBWBit2K&%I
z%%p#qKZQDl5ff~j958n7P|8)WYON;9h4Vge#KNFiu2#P+Vv9d<%{D50uqD7<lX9nC
zQ@Bv$mO|VXHICxbj9UhA+msmURWoim#NDaJQG9CLam7|kwa`jS+G?pj^(m8ls`}KY
z=Hycdb5?YJ_ypR(hqwm%5ElhJj*R>_fLzn7nz*=`h4o<|1S`91blf-;9OFZM5CIi*
zXzvKNkxYmSgAzA91QEcfe?0VIQ%e?VJ+YzlXulXY`vPEG4f%xQ<`K_1Vonwsl=ryb
zYWx7AfP23&5%NYO*wtt8Xs3_m!jAMA&Yv0(8pU!gD&&f1^(Pjg0B>*=dQB&9abpj1
z(qt1FY*=tT^q~m|aGEyY8w>%on>ghHE%;hEbpTp$2RZj3pLIyW9pw;6YvObPpg~OH
zNF-Shd)y%(k^mG*aACrtSw1xJ%bW$VA@2!WvZO@XorFC+uM!MQ99hKPKGgTf=Tbg~
zrR3=i?y1bAtMNj=OefjO@h8kOo0VnGiHtpo(+rL_fD98Ii`XGi7qKH}@Dx#e$U;3#
z$SlZNOe{@#os{$wHgaSGn}VYkYkpg5NEbGaZ4>FL5VuX_^`iMABJ<D?*zY>fVrQGP
zl>Z78$zKK%PXnumeqVr-+vpn@qz4UJJOj<Zh;bJ-X#T61;7xqGBKZK3Q^?&v4i;sJ
zHXV}jApznz;j2xLV8*z9)E|zUpuLUpa2zD;3&U9$!>B(PR`CnpgoT*=925iA#=!Pj
z{wxU^_j~%G^_$Mg*UWi`OG0teI3COi#j__;_HsxVSO@WN)QP`=*<|{Ifk8K@9!A_F
za0Z6|j~KWr3GT^8Dv=l*r~rw%Q3Os)oY;OMK;-`v6Bx<6$8~2$WB}<7_7BHx9(KeR
z3i)s=M}BTm@&)4~95{K@X2!D#SMG2SP^f%9Mm04`(Ky(Z#GE?>H3*q1N=ZHj+1!Qy
z5Mp$+1}eDRcBS}A|J9<aJvZnZ8=|?jQ_TJ4mG9(BTRX+Ao$pr79CS$sPlyLkM7O%{
z*ELFYyTrO(cbJ*|2c`Wkalb2CcQm%C=CM&%uz4yAbc*JDi76AAvg<2v_RKgNZ+V3M
z2L+~VhB@@WW|wT6Mcd}vl~T)ov1R{E@9`P8S8@-E?!jow(EX+kscE0sv`^?cGIP`|
z9rcPwz0oH2eluvC56m<lj5Y5DyP@nZddm3NLS-($S{kcb8!L0hs<uLSX8n{7lqH+%
z?-d-qntyZXPO-GxCGK`b8(iP$5DJch{sQQOC7Wh;9=hL*rbbKm(o+^>Iagvfip<8F
zIRdkBhS?5UZ?p9^%SFrOy1PuteJ1@i^F_0e^YUYgGB@k+9&Ai!>bve`@44!`<dkxp
z(H!S=_MZEj+U{kyUxA=E*L`K(bap$GVctbQkP`^mMOTWh6bsp9!odMya7Y;R2?vMo
zRh+t0c~vJ>){B+(H#_cDwog}_nqmA{3UDCgRSH$xh1?yt#_lqE5=Fmi!7LZ?H!{Nn
z5;5M1+{^B|k$!2ll(RaTvwAwa>waD9z3jHDB&Z~sQ!<_1hTQGc;O>}T7zqd?LE+fw
zy^7PqzQf2~vsl@DtMYE;XQnGo&oF#~y-Rzp>=1G{+^oIJG=D5}!04s=8KzK4(>RkN
z)MGQu@kGiuR?YMrx>s~q*uF<7-gKiiT3k0>ba;k2l6amXz~duAASeVzh2y91Rq)VW
zuIjJ$OVur6b<3?S(dw>fW!H2CKf{ESGWQ52^+N9UTijiyE0G;aF+<37Tq%}{YsBK3
z8K(ArGGLQfylIB1fq<!z%lp51{OiYOnAPNQ>6Lz|e3w|h>n_vr<WVP0tvCkC=R7K>
zn|>0{ZhsQ5IE4m4IeYN74Q@|Ad1RxCkHBpOAKDIm@3tYY$6~l`Hvs)HliQQU{J1Q)
zC(rT|dw!4I@)s4kJ*$|%H01V_SpITLeov+4uWGG5Yb}3WT+p-8qOE(eEzrGang51i
zjVe2$nb9el3RTyjr3_Y9QlPg%eH3v-s{_{c@?TQ3L#r0xYFsT&Ko^4x2;!brW`t(b
zt}_asV5_cshBihA`j-TkpnI}hPgl|co_wk{2Cd*zv>!UqcqsW~T+dYX8*CP=%59TI
zHha><=1iusxswdsn^mm{=sQdibHo@)i!higXc-cEr%6jh57;3+fgMmgk{(HqXxcs`
zwIk_(Do{IOolJj*c4SGirZOT{czZzlDW&C-(kz-<lXT@>WrRPOIhoEbRn4u!jzm>a
z<mlTnmV$E~`4<e6S&@w466KkCjU+WklQvZ@!?=oE;3BqR4a^0hl?x)mEre=lkswq9
zU4y>CAm=b?gBThbJP6e&IgHlh#0_hpCR9$b7FKtCc}lC=kVrrcqoR9(V+*dYP-F`&
zP>uU6oU6vvz`64@McFA@itI@Ca1yVotU#^GI;QNWrcB~nt&~dJn)enOyeTa&lKhCm
zbEo*YHfwvHHVf!CU6V%~ZWlQDGX$xh8<@u<g0clJMJuJ&%!}4{k!H)#km)?#Qcg;J
z=R|UzTHiTOP5HF?&e4>m25-sw{`lH!ULZ`kjVu^(ewEr|i`f#;U8H<0;#a7>R)rU~
z6h?qH<xah7=@MA5O#Fh5H4W%+1W1vLnp@c?9Z%HUl6s2tq=rHDWhcW_pZYW>`Be46
zQ)hWM|8?M)s3Z7)kG^jrxq^h~DLT;iEhK*cq>ukY^j<~s9VFQ7`R^k6Js=6aLRe8S
zu*%+&(CB31%T>q&cIS%HLDn%WNqMHK8~FbYna1rZrdpURPkp4Oipyw}U@JHgq~I|x
zpd_;O77Xy%<$2Va@&5_QCM0D*78zc{oJh_6*6<pnK%C~u&)*te>yE=(0#<!5ekPRc
z*2-3Qq&+59m_+!fK_u<*w^r5^tXq%63Muu3s){F6%kT*h8IH)>R?sO317*9wVY<Z0
z)!$lK6WOSi+{(H{xh7Ap{-&&~`7^*Fe-4O--Sp>GRTmo^^Mgteb#w9@gxX8>pr{)0
z8P<Ag64@$no_VVJFnRFwAavyU7SyG?=~yKmJT0r1O54QJwp&M~_7h_J38~Z#M!xX)
z*Ka}1zk~urT$Hp-k}c2wKak)Nlpt;gCr+2@%1_citNP5<iW}Q*MnH^}8*g+;H9JN4
zRqVX8;cj`?Lki=_rqcXpAtnDge7*F<>&fRXWh-N10y=>o*dX6E0tM@@qn)(lE4hH6
zeQ|z)u%bGezwUb_!sd?X#!fN6^Ifm7e<<4Rn_lJ<Y(8O`??LHWp}I|IKYrUQ>^>IV
zd0ePI5iNCteR1~Y*SjvYU#@*WzxwK!n2(nEOO{J{HDX@POl_A`yI+J~9-g|K&U1kk
zaQ0>}0xqkD+-~;@okyeX#~@cVw|#U<cHavL^?Raq-Qv1#F@NvEoR5jM$Hctj!U^wm
z9*a5eL;K>Db<&DM;)+ADJiE+AtfW#Z*&>!~i4~PgMKxkkO>EhUH_yF})@Lh=E}7@7
z*yLk)#<N4L>j1SQ+zK`as9EhRziIxu`K=PUJ|C1juT~4&cHe1}x{ixo$D`#ZK(7oH
zJxA$E2!%7FmyDpX&0l%RDw}1wvGPwM@gV63B3l>pui*U@5H0In{!8#+V*jV#Dz;<A
z7XkTKu+T+$G>b*eGc8A?7Pkn$qLYGk)%<Xu*y0n5h9MlZ*BduW8(PE-EnuO$s*Q#>
zEvW_*-NFshs$Jr$T|)0+sdq^19g6iFlX`~5p5a(mkJL3Fb`8K;$ig8!3kk`lx@RrR
zGFHCR@`H}=cg#}YeRs)6czKBA@kXj@&7b67%fDY(`c|*ttdEv$e<vig9*8y`6w3}q
z3lH719ll)j<-BRz;W<5B<pM+Sa;PgurLd;){nhQUHS6!Ub)td%P;|F1+BSS|-Km?W
z|I{+Q?o@0;-OaoknQ%JNQ3clHV5yr|Dp*UNJnEs5uP2WhsBBP#f_iklpXOi13c{m1
z@Qr~2a;O^y?8I@j(5MFtvdL$^Lj1Qe;vXUT9+Lk8Wa4w$n`n;Y9@dL(Im+KUTZ<n%
zgHO68zILX3T1noBbn5x<BPaH~yl>DK@c5Oo!@k5O<U~QMGU~9(L-?kdyg|5=|1(S-
zT=X6<us8V}T=Vas2>&Y<U7~LB;rR^*k-0<JDuV4up4&E2`HV<-Xr9DW_6C1|`J=9x
ze*?)aB$tu=5J_@3kpFYM#Q~e|MN*8U1W759CM3jU^b-13AlZjxKN3{Z$S1MSqwhyZ
zZX@|`NPdhY6A9Uq{|Wl;Ai>>0{;z?=i=esT*C+6Mc(Caff{zXi42+STa`@UGYz>EC
zcM*0kow@SvridwV|Bj!=<asHOHi=sk8-ywMDX{>;#u)-w(U&DZA@_(~WiV`FM|k&{
z5q<{C!A&~;9u}6{&%s7GC)*#p<-JNWeDSYgoE9YGKtc#0aB^SZ_+=0tPdVwWIRWzj
z8)9YP;Ppd2?hHOyvQk=7CN3#^i@jQNBl|{kw0!eB20UFIUD7;ddFIC9op~FFvAV{T
zO+w~*HVJQ4#hN;_w*Fw0bd-QibIiVSD)W6i9K(*~u9{+E%U4Zhy^moJvRB6{>SM+0
zV+GDwc}=Xy8C$zOR!|nR7d_54=UAppvrEY~p_^<ImP@-&h+q`ma00gp@kBaM81I(W
zEZ8VysQq+5E%bYZepcw=?yVZQb@=ibsc^GcxcSDpyM;}{DmZ6R0Cd)}##}nndVJ=j
zUu^ZyQgA1n9-G7KEDJkE<x;^qv0&W|Q?#HC%1g1tULjfQL~C8FV6}W!K4y1H_BzpC
z7t1P?vWms5VwhCrV-Qx#Y?qjFktr8id!^QZ*cy0DQKR%O-A8yiq<fgWw9$ukvGp}K
z@obX0;xR>=8(<<|yvI4KqcZmCa9^-Tm)Ny@k!{Y3Z8J>$;>|lYER3BI#?A`txqB7k
z!r_xb<rb;3Q>^T~0~?IJ(-q@0%tT`24$of&!*`jnluf%uTc5K4p4)Wr^5%ABclL!g
zK!+!Umm<PTlfv+4?^V1koERVs?iDNH5ZB?ml}Dy4QnrF|cT;;86gC$(3AOD~?VwmY
zDAoGKTK_a`tOiGgkx{W$-bIBtTVTZ_ZR5mk+|0lvRNWxmja8Sp)bG{(6TH|y-IGTz
z>8KU3=zWw)6%N9sOPAbp{2vwL^Y<KI4xzU8M@#bdIt)LmG6218&EH#Q_{sL%y;aN|
zd+y$KmcJ;^-&<q(X-)3lt<1aGxqBNde`U<yr?)sa@~=Z;a%wPc3XkK5Q)P>OL=Un7
z2#)V@BYepPK7n}({h1-JZ*;sGKbC>tAtj%$h}WikUb7lLuUQ?EZQgO34+r7vHq|Mg
z#YldwRJNKwuqdtiY0m1Dft4J^2vvIq2EY_W9v$7}1G0%v6jh&*KX#fpv%%mika-2w
z0&(usDh0+=_%`YS@Cow^`OvC7&EY<j{N<3B(RUupx9!2t-}MFe;ip#HU@DcrZ%HOY
z8^(GAV=YCSkTLk0ZndoCOdK#ElW9B~OhM2P2H*{RkQ9A!lYEuu#jjxwRg2zpVNE2e
z20nN5CMH<DC_#$&7Z{4k(>pde{-;Rr*j_xRxwY>=bC-MX!S?-b*&k<;XF}h_cx1Le
zgpu|5*(fsa$M6A8MX<UeQ}}KSkbn^IzkdCCGM&L!7NO$d^h5*yf8ZHRTT}>DxwCqj
zrXT7ov|%ovqOBiL74K2@zoBy8qe|YR`aaT8bU*ejp#KE^J-Wvx9i4q?;xPpmINV~)
zjxmK2QzbH0S6he|Em^Mc#Jf&p*4@aNO*7=0U<xu8K2Ovl(`<${PbW~ek5=jFCi)?T
z^dsA8nsz*-kj@V2DT8%tBC5CljUnrA4HfShYTh%Hd|>duXJ~uRup9U^_UL||z2p*m
zx%u+xXm-*0-4DS&C1a}Z(uPZ(D3kv)#`=l<vl(eiP3OC3^QrP0fE>13KpaboXVa+c
zZGx>>vTYS@TW`5yt@~mP`=kc1*x&`6k<B5_u+^ULcm!5Bb?0|Jgt^52t?<>h8$~yI
zq7`*F&&)78f5zme293=y?F)j!GfdlpAdQ3?L1$-}UBJ2BBp8-FTuN=*ar4BT!@{BC
z(XA&wGV1e8a2zPl^mA+N)Sk<ALTT+onDp#dCU17!Y(qeFYw*@#q1!FCyQAAr-eWwE
z^$`1f*CT7Kv6Fr@N;m0@`*aUG43x3-uAywUH;pnZfAVMzyzrC9#SoQz=<>Fsyn{0Q
KMDOe{GXD=s2W6K4

literal 0
HcmV?d00001

diff --git a/fixedIncome/src/stochastics/calibrators/factorized_calibrator.py b/fixedIncome/src/stochastics/calibrators/factorized_calibrator.py
index 3344fae..47c49b5 100644
--- a/fixedIncome/src/stochastics/calibrators/factorized_calibrator.py
+++ b/fixedIncome/src/stochastics/calibrators/factorized_calibrator.py
@@ -16,6 +16,7 @@ from typing import Iterable, NamedTuple
 from datetime import date
 import numpy as np
 from scipy.optimize import minimize
+from fixedIncome.src.scheduling_tools.day_count_calculator import DayCountCalculator
 from fixedIncome.src.stochastics.short_rate_models.affine_yield_curve_models.vasicek_model import MultivariateVasicekModel, VasicekModel, CalibrationParamterType
 from fixedIncome.src.stochastics.short_rate_models.affine_yield_curve_models.doubly_mean_reverting_vasicek import DoublyMeanRevertingVasicek
 
diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/__pycache__/vasicek_model.cpython-312.pyc b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/__pycache__/vasicek_model.cpython-312.pyc
index 38cb598e3971334e3634403ce0e3b52f2a28817d..0b40fc9ca52050237061e89e638fd88d4328c119 100644
GIT binary patch
delta 219
zcmeymp5@j?7QWNGyj%=GaH;TrmJP>7zRI1GFYM)Hd^dUGPQ}Un^BfFP7_+4q7>a~S
zI6=xlAcd)haW+E=a}5)aWSPslnh_%2#8|_S#XXr(R#=cRow0^#4eM$qh)gZ><Z}^n
zOeKPof9;fIW~(|mxzJB^vi`2EQXmCI5<mlrR)JWnL4*~MtI0XJ(O8sm{p2^h${D9j
z*0+(A<CeY7ZE}&@WJBx$-wVOv*MoB|2IpMn&b?4rbcwrY@|>-vOd=AS8+Vt)007!Y
BLQVhx

delta 68
zcmV-K0K5O%u>|$61P;p$4GI7N001j+|7!IIu?~5;ldvuclN7^=0m+kbP8E}zy0w#8
a#0-;!yK@0UlP^3N1@H<06&bT;ymVZXtQw90

-- 
2.43.0


From 6c5f84bc34e659a43340c26dac41cff46dd39f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:16 +0000
Subject: [PATCH 22/31] Remove bytecode caches committed by accident

---
 .../__pycache__/__init__.cpython-312.pyc        | Bin 126 -> 0 bytes
 .../src/__pycache__/__init__.cpython-312.pyc    | Bin 130 -> 0 bytes
 .../curves/__pycache__/__init__.cpython-312.pyc | Bin 137 -> 0 bytes
 .../__pycache__/base_curve.cpython-312.pyc      | Bin 10071 -> 0 bytes
 .../curve_enumerations.cpython-312.pyc          | Bin 1786 -> 0 bytes
 .../__pycache__/__init__.cpython-312.pyc        | Bin 147 -> 0 bytes
 .../day_count_calculator.cpython-312.pyc        | Bin 10064 -> 0 bytes
 .../__pycache__/holidays.cpython-312.pyc        | Bin 6589 -> 0 bytes
 .../schedule_enumerations.cpython-312.pyc       | Bin 2846 -> 0 bytes
 .../__pycache__/scheduler.cpython-312.pyc       | Bin 11921 -> 0 bytes
 .../__pycache__/__init__.cpython-312.pyc        | Bin 142 -> 0 bytes
 .../__pycache__/base_processes.cpython-312.pyc  | Bin 13689 -> 0 bytes
 .../__pycache__/brownian_motion.cpython-312.pyc | Bin 10697 -> 0 bytes
 .../__pycache__/__init__.cpython-312.pyc        | Bin 154 -> 0 bytes
 .../factorized_calibrator.cpython-312.pyc       | Bin 24469 -> 0 bytes
 .../__pycache__/__init__.cpython-312.pyc        | Bin 160 -> 0 bytes
 .../base_short_rate_model.cpython-312.pyc       | Bin 10165 -> 0 bytes
 .../__pycache__/__init__.cpython-312.pyc        | Bin 186 -> 0 bytes
 .../affine_model_mixin.cpython-312.pyc          | Bin 3082 -> 0 bytes
 ...oubly_mean_reverting_vasicek.cpython-312.pyc | Bin 9082 -> 0 bytes
 ...chastic_market_price_of_risk.cpython-312.pyc | Bin 6959 -> 0 bytes
 ...rebly_mean_reverting_vasicek.cpython-312.pyc | Bin 9899 -> 0 bytes
 .../__pycache__/vasicek_model.cpython-312.pyc   | Bin 71898 -> 0 bytes
 23 files changed, 0 insertions(+), 0 deletions(-)
 delete mode 100644 fixedIncome/__pycache__/__init__.cpython-312.pyc
 delete mode 100644 fixedIncome/src/__pycache__/__init__.cpython-312.pyc
 delete mode 100644 fixedIncome/src/curves/__pycache__/__init__.cpython-312.pyc
 delete mode 100644 fixedIncome/src/curves/__pycache__/base_curve.cpython-312.pyc
 delete mode 100644 fixedIncome/src/curves/__pycache__/curve_enumerations.cpython-312.pyc
 delete mode 100644 fixedIncome/src/scheduling_tools/__pycache__/__init__.cpython-312.pyc
 delete mode 100644 fixedIncome/src/scheduling_tools/__pycache__/day_count_calculator.cpython-312.pyc
 delete mode 100644 fixedIncome/src/scheduling_tools/__pycache__/holidays.cpython-312.pyc
 delete mode 100644 fixedIncome/src/scheduling_tools/__pycache__/schedule_enumerations.cpython-312.pyc
 delete mode 100644 fixedIncome/src/scheduling_tools/__pycache__/scheduler.cpython-312.pyc
 delete mode 100644 fixedIncome/src/stochastics/__pycache__/__init__.cpython-312.pyc
 delete mode 100644 fixedIncome/src/stochastics/__pycache__/base_processes.cpython-312.pyc
 delete mode 100644 fixedIncome/src/stochastics/__pycache__/brownian_motion.cpython-312.pyc
 delete mode 100644 fixedIncome/src/stochastics/calibrators/__pycache__/__init__.cpython-312.pyc
 delete mode 100644 fixedIncome/src/stochastics/calibrators/__pycache__/factorized_calibrator.cpython-312.pyc
 delete mode 100644 fixedIncome/src/stochastics/short_rate_models/__pycache__/__init__.cpython-312.pyc
 delete mode 100644 fixedIncome/src/stochastics/short_rate_models/__pycache__/base_short_rate_model.cpython-312.pyc
 delete mode 100644 fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/__pycache__/__init__.cpython-312.pyc
 delete mode 100644 fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/__pycache__/affine_model_mixin.cpython-312.pyc
 delete mode 100644 fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/__pycache__/doubly_mean_reverting_vasicek.cpython-312.pyc
 delete mode 100644 fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/__pycache__/stochastic_market_price_of_risk.cpython-312.pyc
 delete mode 100644 fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/__pycache__/trebly_mean_reverting_vasicek.cpython-312.pyc
 delete mode 100644 fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/__pycache__/vasicek_model.cpython-312.pyc

diff --git a/fixedIncome/__pycache__/__init__.cpython-312.pyc b/fixedIncome/__pycache__/__init__.cpython-312.pyc
deleted file mode 100644
index 1a76195dbee7a28d9918e16aeeace29fbbb57d20..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 126
zcmX@j%ge<81cIJlvq1D?5P=Rpvj9b=GgLBYGWxA#C}INgK7-W!lGQItEy&kT%dALE
z@ytuk&rQ{jkI&4@EQycTE2#X%VUwGmQks)$SHucb%?QNBAjU^#Mn=XWW*`dy{e~Ka

diff --git a/fixedIncome/src/__pycache__/__init__.cpython-312.pyc b/fixedIncome/src/__pycache__/__init__.cpython-312.pyc
deleted file mode 100644
index 826939b5464b05fab360cf781f39b8d46ea0b2d7..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 130
zcmX@j%ge<81cIJlvq1D?5P=Rpvj9b=GgLBYGWxA#C}INgK7-W!Qq(U>Ey&kT%dALE
z@ytuk&rQ`YE=tyqkI&4@EQycTE2#X%VUwGmQks)$SHud`!3e~~AjU^#Mn=XWW*`dy
DgeM#T

diff --git a/fixedIncome/src/curves/__pycache__/__init__.cpython-312.pyc b/fixedIncome/src/curves/__pycache__/__init__.cpython-312.pyc
deleted file mode 100644
index 4b24d92c2954c93597bae1f37dcfa67ffa289590..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 137
zcmX@j%ge<81cIJlvq1D?5P=Rpvj9b=GgLBYGWxA#C}INgK7-W!($FtTEy&kT%dALE
z@ytuk&rQ`YE=tx<E-flcE!K~Z&&<m#iI3MSsQkrYlbfGXnv-f*#0u2N2*kx8#z$sG
KM#ds$APWG9gdWZS

diff --git a/fixedIncome/src/curves/__pycache__/base_curve.cpython-312.pyc b/fixedIncome/src/curves/__pycache__/base_curve.cpython-312.pyc
deleted file mode 100644
index 0b304f098a5efc3d7c5860a5ae0f44453c13c97a..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 10071
zcmcIqTW}lKc|Hp)zy%2K22#Aq(u$%)LZ(2AlqFdbnb^Ac5{Y6hl1dRf>m_zcg2IK~
z1w|5uCUQra(lgFjo@vHy)6B?El}CPHXZpZA)qT@UU$CJaV7ARzo#rKdf&yle_$B@S
zb9NUOLa{S#&j9C~J$vrwKi~hI|Lng7gMI?;O7f4(cMcHpU-)1<j}<9Dg2+ciAyJ}m
ziYvh-T~Sw(i*g)3yA$ptALWyts3+--dTAP;Xi5rEfyO-vU(^TrypYcy_0zPbL~}9_
z4J3onAbl1REy>nsYqBlcmTZr<bHqhnCW`MaQT(d^p_}z1+CfvBAvK^1PHKpz1|hXY
z4LPZuG_@5{+f=WU+O^>cx65rDA^w@AxGw53ExwWwW9d{zj;C}{7UyMM6)&u6w^T8f
zkab;L(9%h9Z7CjG66HifOlOu<O^jg%U0jPpioQBeb4FN|tdvtD)EAG5@l;0DR?-PM
z6Hlkah1FCHBXT01*%+yP6c^G^eL8hZ)iUwaqMtUe$QfuYlNJ{eX*r{dPzQ9QuGV!?
zUXSY$zyFd9eYJbV`naN{Z^ac=loch;TCQz1;{P?yaoA<@*p?}vpNS{cu-g<~g}%%4
z2}r%R!U~(hw3g1KW9dYgGldH<FZg~69{f{sQdMSFR}v~z)^SnZxR72=WiH@=Qdqbu
zO-{sCVMfv#G~%aI{%T55*UjcjDdi<~Nxl_NYi8)x>Z!Y`W|q=QjL8G@E#V;LVR-(C
zs3gjPpt@#>>Q?z|6CtWc;m*T5)eA8f#x~qx-VA;xmCnq`iB)x4j%y}=6CO>^ElijS
zH<^MYrC=zMWcnp3nO0U47!OF&+pBVdz0t5~jR((cl_WU@70~t7A)|+`)F-42Z^>83
zMm2RMJ-QHISCv;&v2;=$)wS3tlcG@+If=$2D;ruHR*GH+{PlM5en^V`mU}(#jqdQh
z#pbrVSF~O`Pt8nVUUcOtknhS&C|uO7xKw_bZgiH#_MejKU2d^+RKf*bajSyr!^Ra}
z^(!8=S@Eg?HAqvMR9+F_?^C^sUvVw8Db061(H6B8ws0FOwct_$cln1_mC<(k&I_r*
zs?-jp2R3q0X@#0YYH*QLI~QEo0&T?)PhO=BYVM-B@R?WI@AA=oO0UuZVfQyEAA<5d
zN~bd#>@Tl$LFry)pX!4#^wBYRm2ODu-*AQdOb?Y%c^t7r1ot9?3c7A$dVX1rWh|Je
zY<AeR^J->IRoQ;EcA+8;<MtX6sj!8`6_7uGo|HoCWl*yOj|trKu+39yOx1N++pus!
zhizox64t}2(Gd-7fQZnVuCLDP>f5WZ?-*WLz0}3wctnjb^iXwx6OHyp2TY4YmqxHF
z;znFeC>G9zS;wluj^?pZMM)<CJ&)@vYAn70Xjg-8tS?h$XJuNT{}LU$UZ0wz``a9-
z&8x^8QVd}Pd<REbG<8AM)KpBBC}g!K)P;<srW9%3#*PjxzPMDE=802`@oH*jRZGQ$
zihL7Pcetg?{|(+pBm*nWT*k&2lH(p)sS0<OeCm4WVmWd|vSNhfT<}yW;f5!~2<meD
zyRICc>dBEtyHRnYj4ubQ%vAx@0Z7JN&I3<QzjI!A@;UFC;K|wNIl>WWsoQ>A3GF?|
zkqr{&r((`fAq&Ps@Gtj)_YqbAVZFOfKH;W5;WWgYPXPAWg5j#_SYFhy@K?h5gq)mL
z<jE{ksS!zvr{Wn&ikwfRV~}?eA}j}@w;lxV4#`XLf|N3()Ez>R4(fN`R5vu7;c&q8
z>S-;bDkh(Z>lw2PYOK<&mRxB-Wr%hVy=TzFZfYWWhtL}U&-6k`R5$yjn5M!GsH=!=
z>9An(x|&#E)l_P&txG!$73#Pqhz#iH_)&?l@n%~ndN||9p6MERcgSuBIXd#`#r%m&
zJ0q8kE2+<qq&NA`g@NMW84M2<$7V1bEj~Ayf9|!vOXa6$3e$08I-Xy?X-p>y({CHo
zZ)1-B;-N7N4-^MZVtBB)uYZ$&zxh9fKv4)3gs>rmzYw0KQ@UrtsoekR1=oh4zhO>$
z4gy&DaU4Qrt?2}1``9oWEeXw!YUK`j+!`vhhK<&6UI_p1x&!?<0aa?J>N<n#k!`j+
z1FL)*63V!-XzL%m^WHmop^vuBxQ+zNZTe+pc~#FO0Wo9F28J>`{OJT8g$UgdIPN-^
z<8lrhT!(qeO5*h;kkr^}2ALa3djj}e9dA=bhIkc%nO<X{zp4Yxw93&!mWom08fcot
zMnnX*)m)iqU}|(pw6oAJ?HqVIcDY&<u?vz^5k>Y)vvxsNYh4Z+tq1Q55034$KA#t!
zXUpSY8)S1(^84^mjgrgNx!@f-01uqJItNolmc4a}@c1cb6ZPA!oC_w=C8uGgsrJE5
zMOmZ<3X76rS)|$z=BNP|K8{?NX-2B26^k=FbvfFD)#9k;wIxeg|0OCwDnYh(hYI10
zkdcAM0$eB~PF>hOuGev=7N*}(kM8XoXtU!~n=y4xS+S^RG-UfYN_0*|-@H3a&thRm
zT@E{gq$+ZR4mB(upA^^G{7{n0W~ovf**J_+%P_qvph~40)~&>1VP0#7l`{7MiCtL*
z(3E2_4H&VMP*aPUC5EwxZq?#w_Eh8)bw93+1=KY%+K0_ZnRFczV|H7CJUz#^piv#M
z2_UtN44x_+zG57{Qta+8bRRRik8OSTvy+7j%f^M}UAJq{pBKcEm$VJ%g`vF&grZ6J
z`y@!;(=^~k@&OlfEs~h)O;9nnQKYd<oy&2JHo!v*KR$H5e~>4)U9@yvNqnqo1CSGP
zagDYO)Y1mExNmbAhZZ!V7t5$#>l~03ASjLKexsHY4k(Ycp>Oj!zM6<^xMMC3X5%)u
z2EH8&^Vv5XslGt<EW@`NiLiDUFi(d&T8NmGS9B`24frj}`V5@pxOJ1;fCC(;b2A7>
z_Ek8xF^(`5_A$kM35Lx`0G_H$j~<J|QELL@0_({Mg>nWnQ0W*POg$7+%^)5QQDP<J
z>ZY)6Nv|nv*o5OM)TJXfVy~F`*T&#6J78)4KS45R*&jpZJEY_%-{<DJ!kf2@H*ftS
zwD#!gy^Dp;aiep5>uTZTW#i=KFFIe&ht@U)@QM>J7AEG5iMd~dZalbp?`olQXs2^1
zAG(2WZ~Urzf1!KW=pHU~pD?;lY`s!EdA@l1T;cSzaeBINdd@gKSN!(HQWNPJD-(Cm
zWo|Q2638>*P5uj^_Yc2mC7tWsAI#7V9XI?3121*)|H_44>f>uvBeGJuRptTxVXL@+
z-?~yRWXFKv4XL9-PjhcTeh^s@p+@wQF=3j=bK490!hI9+YfF&3ftFe4GLDvMB(^t!
zTxtQ}!n_OFxx?YJ(E016s;skp;DzOA*^Ug(0d)$W<9^~&JUKV`-k*Bxt^8M<k5uIX
z9^R;@KOu_nQ+K5djLdWMqBXJxy#E`I%=>>ZG9Mk8Kj-<{ku~V)o{^E|R(sAWVP)=b
z;|$pri%JHPYqDpj(TKv$+4ByZFk_Gf6rg{f4lGWQ8s3YohTvaD;rWPcaADUJJ!EJ-
zkO1_Gld1{svyhlQY;#Kc%%Sc*%De>`brjQg+4+Um`RhM|%Z^>rG_dc*Q|$CjErP0u
zCsz^FEEo%z)hi;-0HvTuWHEbK1mXd<034po3<(QhFvy4qN>-+?xJY(iqq-wvwhPN+
zRv9zL;ZP6urbu?YQFf7@n4jL4BUslWg>hh~c6Y!|TGJaFbq~QDXsC3+MtE)N`pk<{
zGp6U#>#tvX-Sp3)p^bKdp2jqa&<KQKp^nFzemY#nL3}I@12KKrti@4i6chdH4!hWU
z9;1MtZQrwmZ$Pv9BIsnmUx5rp@`qpeF#5B1HvL6$upqu*h%am(GQ{(S@XV(F-mAp}
z1BC;pjRU8*UB-cPhS0z1yLaYsbLigk&zr@^9s3F$!$!yO<F4@Ee6P?I{-P^f>>vC%
zyEVKsbk68Mm+w6Ht1hw7b@cPDqyN!2SR&l;SaIy^*8cp&TY33r{;gC#l`grtqi=I%
z!u4w$<ml44$6fm%cYbJMTPaM=7?U&kiP`+@a{kE8oxViAGx0ds^|!vC2M^Kq!$wEA
zSl#~NkC(T4c8;Dk`p@P&&pxgF`Ft#qpHJu0E7-n9+t+FPdTsl&#^h{%VlF>-Gk+wp
z)0fP5CV@=#9VqmkF?!Ez_w4k(wE0>w)LjS-8ll1a(Vft9|8#bHX=nUpBlL1U@G?7h
z`BUner9ETSpza(na9OGk7=NZ2hAcZK6R5~?53LXkA7BK|UUrb-byZj4WKm1kVXLBX
zmL49Uw_=US7)<R{*MnCBE6D9AtbBvxv<8}qXkqa7Ak7#PQw{r7M~FetS5<v4@ca<#
z!Tkm{lv$}Ts~EG&9Seg-AbASddjvvl6g}k1l%j-PY{%h&j^dVWzUX^;<2E0EdX9Io
zwj<yH9~Y>JW2<jx<h=2c^7#=J?GpogtP-Zr5s4a-fdqq+j2uLOWFXguSiQ?p<9_3J
zjkvjG!o&3fM@?lYdv&f(V&=q#k^;w?im1q7vaJ&q5$#=YXcT3z1^~7@2Rv$niu}Jw
z(21{+puGb0K8#)WgLj8)XaD5~Kl?$g^th?afI$q*8ccF5o5MU5VKy*aCY%47y-$^n
z?7^?;+a~tp4DAU(%kfj2d_fp6gn|3dgB6Pk4n7rxAp?FRQ*ey?T)4JJpqR<Zr42$w
zQ{nv@ZcD8bJv4ZjO_HRfW0FL5ly(Etk=dC1)U~Ng8p;B@jX|rGhSQ?q$&g+9oP?Mu
zz%s7DMcoG5QPk9U7_%Ue)X?s#O`>-RJv<Fi4W!8sGu?2|&=xQa*#?C~YBbdL<0E=l
zUPoxTOP;tq9-*|4jGr!!O%%p17-JWT<CBH)i^llH;*rsRls=Z8w03w#ibJDYL1SpL
z<c5dGLuX4K2w?(Gy~356Fe;FNV-E&DK2Y-Elb;-UuGEaN06BW16vS8y={;P+x*&FT
zvP@&c#M@GGah_xMl?M~X(HDM0AYOLcsn7s>-+wQQulk)={ZG6u&#C*JB?7_LneA6T
zQ$Cw}H2c|`#`){U_zX?XzonM(bxCOU3~!w*5eT*~l`$yq4|u{)4jlHp!ri}EA{cHh
zZLdG-eB{kf&prwo-<mT{-C!^Bv86K2QF@K@ct*CqyPY(izfvL)&;P}28N*TwzL=nC
zk3#mVU3|snA7?!Vf5+Jbwfql|^w)qr_VwbQf2p?MhU+u0+C;ChcvXPwGap=^`IRQM
zSq;!sc74XP>$6R=z`+$7+>om+aBW6x9E#ElHFjwhZQms8T(kpBWi4j#VqB+oCAzh;
z*Qj=SQCw70ss@)biuKmI3j)3j#woB%GCK|c5-1wDDPp=sOfMi!Tml2pnx*Has!ZTi
z#;J8(gn6mh)agd6xl_T7fS6D|58jVCQ0EXb_nwd=KY~pLa1M7OaI4`3?r&KI0gUn9
z#GwTngl%Ov9Nkx8$7#6zsOcBD<~YXb-lO*Ur*+QsNfN!Bmn0o8OaP{+yTi5})|lN_
zGl!139?$0baqxZ*%B++4THb3igr0ow@gn}t6?=z@y~m2Z&+ayRe8*wmbnoBff7HC!
zu!O3H&c-*P28e!*4cnpGUQ!kE0CT^99*R;8p~4nvs|bUrK9?<(2ak@+k%v|)HC}Hz
z+~#$9QO1~2jgX*>)TlCBV4R}VcxlU>ZTw!5H_*T?%1OM@bG~J;voZ0kP%Aiw1+8Wo
zS+v-SDcH?bQx*;HRI>fG^HWp&Q^=q*b2q?WTTh|&h|zlFzOvK$Y~H#Y35V(wg|-NV
zs+2^XW<Z_MNIhtAd_l#Lssikr8MK5jrlK((u2a&GO3B~1nH(mt5PBcti@yi&_lW;4
z!2h;}`2VD}-Lt;}{O~}5A40%o!15-H2~-96FzUBeKr=oCPz3}r)`BVk>w<Q=`+wVx
zv7-R&PXPF<5WVCDxO~v{y9#PzXJhbp9B;+SB1HCLCg7k4uG@LITKB^DI9{`Dnt{(8
z@>=|oBr99s1^P9U&TOox^s^W_1y|toqa1cg4!6PfXFIi$X<e!;#^IwA5$*|UppVIx
z>51VtJPffMoUuBNmWwiu0;~cId6-FnXIQfaZ%kg+7Io8ma}7fsGb5U?HKbB_png=5
z8bREK64YRLhZF^d74Y3jL&>8e;fPQ@U$_MoY3Thk)`-Yr%Zr!u1nz^ngWxlD7Xzl|
zFmrexlWOcZWi+N2<{36A<2{t<;Q7gHg|B=PaOH#_9Yo~$7~?kI!D5J_=JQowwM5{n
zmWUo(QsHwMs0vK^>4Y9}?jt0)ak4)7Vf&>SD+t$DKo>@j&;Ty<!JG>pC}8uHow0pL
zDH(nx!{`#7AvzJYWD0Je*|$5B+7BQzBAos`@Zf;UaZg-cj{jX7;Re4XqXrrMB^ms8
z68I%~=1a2lC7CzK{I1u<wcmSfmq4)Vzr}GQo3HE=40khbksG;pX_r8-dztfafqUz}
JB@oal{vUqZk1YTI

diff --git a/fixedIncome/src/curves/__pycache__/curve_enumerations.cpython-312.pyc b/fixedIncome/src/curves/__pycache__/curve_enumerations.cpython-312.pyc
deleted file mode 100644
index 79ba7c955eb81f812f5e27dcd040cc20194c3e80..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 1786
zcmah}KX2Pc6elH0qW;BJEZcF~6inj`91_PikS;|5S)v*uBI#083UfKoJUV6}k?N5O
zB25b550EVx`UQ&4{S;l?O*kM^CvPn*FPZv|vI5z4TLOIl?!9|=zxUq#RxTGf_$unf
z55J~4?hmHSzs#j@egeWf4s$k#d7SF<y_B8enVjyXdx9+_ve3=+vUZl|Qrx#3&YW;K
z>!p5yJ=tgH5^D~u;(}F7ta-2&7OeTiS_Erp!CDxW<y)hl3f8e7Ns&wZek{3R5IcSl
zNse^rM7}FUUMz)2k{1km9&utngteoPNbZ2V@}#~)oSqkZBq}%oX3<Cf%fZ}_nc`zl
za=T76i+Ub}@uL?`cfdk@5=n!|!_wh!wp}E}q2vd!T|ewPvG=%e#;z*!R8Sy4@PZEM
zur=s+J!Zw=<T97}$6pHPpM&s@^EjIakW-kq(>P@dIBjRJU}uLJIZId6PnqCWnin63
zn2LSkz4F6BM6+E#@Ek((KMowsZsgL8J2>=RUCvPvp#V;T5G^3o3-O@K<Pt*Q+`U{8
z_f6%6YINE(+fsF<X42*FI<<ybv(!3j?=u@M)jNBiw4b?icKnY!Tg2;!TSxwD537M2
z_Pni#xLXP0(Tt(RdOYqANe%)NQUoDd2XewqmNv%ECgs&}bF%*BsZgD)+<ns`)w$=*
zz-_|vzXOLeb`EE4ahQ`udix51?Y`rBBn9DTtO{p|#G3U?V1%{4F6T)JI4Lu73kY3m
zsO`GZ(Jj=h)h)xM<)&eNUo#sBa8lYdbD%1%2EA7|bW7DcfM)9e)eUVQVj4;V&6X<(
zLzaQGn$<B?>wwDt8L{X}R@iA0SXP<Dz)MI4gy;bffO2hpY)q=FV{K9@kCn;h!&Bk@
z<j%&ausV6N{k!mJ7SBR&hV==o{6DNXXXmkK7jWJ#4hwRT7V2!w)Bt<0si22}H>z~n
zl4UBjcE>!Bl53B0U}_spb5ybvQ%gi?TU*q2uV_!TQF+002h^t0P|R9OY67b5k=RoA
z3{%?Gbh&iBV1jNy-xfP<G(QCuSaO;qM@&T9+M>35MSH5zB>AQ1jz&dDj#y$k%Zqlk
z>m^}LNf_CHKiUEUB`H?MjmhnY<L8rN6{MB><JJPHK7d*+eE|cowDIQItUPRoo6Ezh
z|IhLa)3QK|N`UvgV+URZlC(Fu1J1gfxsFUmF->S-5gM;;)pYCnC0Gj(M%XbTHV1Ht
zq??wO=O<*#I@CRf5Dr~<QUo^WgpCo+#>2iJyd(lsME3N>KD^0nux8_*G%njb$#O0I
zNAc^~JM|6u3S8KTMhcKW(>%}rl}hu%MTz6rK5+Lwa2r!W;6Ho6Ipu&&OId#BeRawK
Zn=a@1yKg}THeE~cmA9K09Iyo5zX2BQ!XE$t

diff --git a/fixedIncome/src/scheduling_tools/__pycache__/__init__.cpython-312.pyc b/fixedIncome/src/scheduling_tools/__pycache__/__init__.cpython-312.pyc
deleted file mode 100644
index 7789918027e6c964faca2b462e01520714776951..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 147
zcmX@j%ge<81cIJlvq1D?5P=Rpvj9b=GgLBYGWxA#C}INgK7-W!GSV+fEy&kT%dALE
z@ytuk&rQ`YE=txfPR>Y8Db2~uOOG$f&(A5=kB`sH%PfhH*DI*}#bJ}150p%`D`Ev2
T!3e~~AjU^#Mn=XWW*`dyCaWU$

diff --git a/fixedIncome/src/scheduling_tools/__pycache__/day_count_calculator.cpython-312.pyc b/fixedIncome/src/scheduling_tools/__pycache__/day_count_calculator.cpython-312.pyc
deleted file mode 100644
index 8e0827009bc30bc173c580ef6c839a1dc7d65cce..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 10064
zcmdT~YfKwimag&(<3P+Sm?RL2M+i>B8}c9zIsrN`Ndt+=i>Bi)yUN(a4^ma68_VoQ
zqn3uA{V^G>R?W^sOG~32qHd{~-Im6)J3kmrq(Qs$qbjCl+RA8IZA+s_`@;!6yQ|hp
zyXV|;*~XYow)@v!!M(TcJ@?$#Ip00^T>o=%v4w(A>;IqWe>hB0|Arr0Fs3qF-+{~r
z6i0Eip9;_ubby+m0=fxZKtG|Uv0Udj1dJ0#lGpo9fr5zwn$l61D9-R6#Tj|?M|zdl
zMB$vtUhoV*?1qGaV<kRe##r(N_(UPb9PgLdgaNa5I$`c-{eITv$9&lUJJ%nY4NCo?
z;C((Q`9eXr%2tgFQy*JDqH(-DH9>RKgpQ*p^qh{@hhaVw2Hwc&c@t;g3p@tS_@3dT
zRHF$q)R_1}-V!dLVBGv3$QO8Y`=K5v3$iGSfYQJhYqV2znoh@=v*`8$T_In{S>S&U
zZzX-2xuPtJ65hz~P1E3*Ok8oMK0UV5Jal{W(3Rz(v*w{I&qG&|hpr+IU1=V=ed<h8
zYX|d9uVN+4s4UZB!ZufKugKa-*6*J6vr<U#J-A9!e<Yi+e*d+E1^3^n%7RJYrCA~9
zhFwhu9pq4^wuT`3fQnGl*|jM$ZT;ry2rXd?5~dAWE|Z4$P?UqR)8Qe82$vv<49ld&
zkqNn`dAGz!At?3uL#)II{EWbhD22f(D4YoiD346Y!*J}J*vi=TiDD@vv3{q>yF)=v
z6j0F;C62-V(UAd%b8PUM^Y-9{Yj&Mb1Qmi6A`!>PFkhW-1MZ<VkMCWc8xFcd0lrNX
z+-;)U%X71S=+G&JLVmFgdUCo^A)M~?I=0TtB`V3{c?8ytV{-a}&N-eH#IQZBKpFD<
zq&Ot85uyiF(nRfVh*z~MRqe5=&V}L)YxR0<N4)l;0)N(vviaf`&{3)yJ7J-=?Gxyd
zx=;TOnGYx_y-N`)vm+m+_C_>B0AoBl2kxhaKFB;3vi6gbaQ8`=Hfgy`3j3|00ie@I
zsa}CALAwkc=04VI=oE(9d0m8#=%$Oe)8LoZyR=uUn=a9EnG_`nXJ9vkdB!p0_Yp}#
zh+{$m$c74ann3x2AW}#I8^{Ma7AfW!HpnrOmuIvcM5&UzAatbCFYqik$IP&z$aAgC
zl-9R^s|YY@lES{ACuA>7SbU-{C`xS5%?l{>0<Kx200heA3-SW4n^1`n3ZE*U)@=D4
zxNzI97b>uk9=c8x@P2j%Iu(%*!!SZAR#iJioF<5w6mkNY6Nc~9h8}Jk&_FvQb6?k>
z3|NXBL=UJhO;pK&#pa(4ty^0*$`39&9-fnnn9aSFKM1@Z_>0hjexvNbPj1C)T9lfW
zW%sAuQTp#suAcf`-*5WXYaB|MW1(QfTK4c#yuz+j*kcvP)>~hTw~i_BS1~4A$7J)E
zP!1h!lUJM>{%<i5eGgAPT7sM!Jh}zSLvy<KiV#s?kM-d@7FY)oF3e5^01ia5b1vQ=
zdWUQm(NEl7f^!HFp4lMLOP~Ze@gw0Z?9)_QIK<X8Qvv1Bt@V#7D%3&v-}+k+>c659
z`ZyX7DHsxnI?3s>)Qr}IKcjAUn_;&PX3?Y-B!{L@N4;-Bb<h;lK}je_BuwK-azZ5C
z+aw6%ynf#B68dz{gx)xBis&Oob$q06eMFz7$a-xqVdz&IQ^XW8pyJ~3?f|0$M!ajA
zh*4`bUy$OTDKTp$FY9r>Fj5dPM+&f4&XDOHM-?fIn6W%!!tr1Uh>39|VF5K1Bv21D
zctF!h?iu1zN`I4mb|Y9lb2B{AQlgDQHPj0Tg!VlN)7^JiVM<Kw&2U2OP84a}$XB6O
zJEsw9nh4rUx}8&7q>GDvLBIkh>vjvXtUpl_@Nq%klvhfZ6o+P|EP`^JL+aQ`i!y*7
zmC^%99;m=j=?l6A9+d*%AQaFJ!tg*INB~m*EC(lk3LwSSv;Gihjd;E_KbJb_QKVr3
z|LXy@S<|p|MXBjn7}+>jw{%oF*s^ft3v2nqk(jmNXVMevu}=*vld<-TkGUu9-}&5j
zboqSrY|J(!mkfPrrtD|p%{P_ioANDBta(Z)I=nFa@Xww$o`^R(ltza<{&uX9Rf_5s
zE<K#wv{o%%dSY!r7N=KykL_z0etTRwF%q+l$_}UOno%4xitV0Ua_?WO+g1vHJ-o{P
z;}xZSXzfU>`r5)9pVxM-oQ_V#YG0R&sy|1H=*h>o*Y5pxQaN*#P;6GzZP<=1w<xxg
z(f-v|<?NVJdG)!T-gk}Ov^B~{PGZGbrSj5qqi)|2ouqWd!!!Xgz<nbzOu(LKL8)oQ
z^}!S2?G#Lx?pWe*<Ev~0%Akm_0t=nAR2B}?pBn!}VVZ2GN}6QzVKM-r7DxmJA~-AD
zZa0Fc7Epo-sFuNizzERFsp)L0RB42Y&>z#9o{D=UY)!&XDNX;s3z+mSEu|0sX|qO?
zNePNn(b>JBl;(u(y*a3DT+s^333<5U;h7V@mTMlPArDtPnR3F{a>Y|RC*<L3%OQc!
zT&`KGTD6m!@U&&^Af81zA(vwzCDmvooGzmKF~#YBn#S_)(slzo4uX+B^xohlZwM@)
z5CfLV41f<gQW4%57cafT^Fc;KIjBQpNrOOU$_E!iLJo!qGzZ%lV(qrbh%>y~=kf7e
zx-Zw9O6_(7PXSKhR^}SHZJ_<1$I?f$EI1o*@d6rU#H?<$q`8f;0vq4~Eydn+8Ny;_
zxV^wu!#I-BEJ2v9Iy!Ygq=jnt!4y?&X5eh_g}97$fULEtzba#(e-*Z%!pJcV5V>nO
zhXxBSM&5OX$;^s;*21LLbo;7Y*lmGvtB*4*Zo!NY%DP&0kQG1vGBL=k&?8+2m%{sC
zHale^e3|iyj4ybf_4~k_cJO?@S@W>zyugw>p4$(mH{$_w9yW%bk<dNC;K?nv+O4V?
zy$7yp?z`kP6BCvjtbdjt6oil<AW$W&7y8GqU%28Ny#bfNt`qHvQYWl89JrD*bRUjd
zEXtwj*-6ursM^k_$2m4SJTmU=>`5HRW!U4K34wu*b(P~o!`H@dtG$m8T^k&94Br~R
zohTt~y4o{iD9h%r=5vPuV@?!~!`#XA;I@!H280fn>h_yLWlEnl)4~aNo+-(j_g<Qx
z^epoH4~XD)P)(K8$E_`jwIzCB%`015)~z?6mQ^o0{<2Ljs@vRKx>4G-UfK{Z?fR^=
z>#5Bix1CXJXI8`VBq!U>#B97=!f(C`$yvhX>}REC36}xIHXx5p$b3My4a96gxg@w*
z+DmA9KP&AeG`)(gcXe8R(=FS2V>V7M;l99;oLDbCvFk|6o>tb%^(UkHmDwakpJU;8
zr|Vqw7De0Km@jp!N4*<QbuD0C5C2<D5W!^tE&*tMPHXj9DMzQg9J=rdvlC;tgN(?y
zSh(pia9@Ef2E&j+$z(t>^J;uX<Hp&$ym|*pwacI-Kn1XU34$Y>bH4jN4!HOv2JjjB
zZ2cpd$AkN?J)+TTI425SP?GYO5NlI72?cpAnp{<A$J^!B0f@k$DWXdEFZL=WhvU{`
ziuKqsuUNZebC-HC{MHNo)&H}F?rBwTBl7*%gaKHfovVEMRad#kkL_Q_h+MM2^;!z(
z=@Za|+hu5Hpeoz~7_a(>v)m0i;F`fgv}43wB*CLtyJd6t&e0p75m7nS%^acgDI1h#
z&ls9ufKqIo6Xp$YQ`UiVDyJMjp)?;KDleacdDFZxV&Z7D(%z+oY8u*0>3ce-16LPb
zIU(T9G#_WqfNkf^5&bqU^f%%HcVWR0DHL>^aozxVOba3g&P1%pqDX<76OE8lZ~ZD|
zs$8Y#3L?6QQM=)DM(_}rv@e`R#Gu~9F+XpKSU7VE<_cLqEM3|T`#&IFS9{xTKnK2=
zG{<o-7!KK<odCf;mJz{D1NZ_1k>#dmMJeSM0t=5g0S4fXyWMOB><tMVF{wgn_FhSv
z5qsO(_+aZhzPr8|p7XJ-Az`WwztF9w`F_*3S%W%o=XFPBkj))-W*FUvJlZ(CIvBKg
z21nl@gJ{O#bYKb6fN7(;8Da3R^Db}+2y^xfUFX-*9Z!!PSOpokmkmyVHPwlxd{=wc
z$~AX>`#~MY@n$;d*x5-J=>)omxpj4rNeqyQcD17~wyPtDMV@hXt1Q%3x%BBS(GJJ(
z3{_P?&jf*}XNVHd4q=2=k<SadC-g%OpT6+wkT3>9LCGs10;SwM8T(0f6A`jPH1bta
zP)<s7CXu>5s!XZ1Xapn<WNsTy+)l7U=kN`{!@Cky+I3+^O}YA5p$aUI{;4@p-0s#<
z9SOoY=p@{*8_s6gkMlq%QZQ*aXPc?!_MgvxIKSfkW$+ilRqyZozws~Ld}v=VZ?v5J
z#QDe>osOR$QO=KmWfdR0qm12I+W+wKf+cCDj&!bERhmvbIqZv0|NgW*@#gyFN#*=x
z{G3}k=a#3u$~muWuHR^ESt<Q+<Vk}&+Wh#oJbrzB@P^WRBYyfV<@8%J>rzg;WHa;J
zL=`nDM=x$vRxMm29~)H%7KY)Cqp19$>-*;xeaoFc3a#vqy8f<~&|uBJMcw!N2;JtP
zx}{qy7UgiSa_CIdwK^=1y{Qbm38PUCP0DXi$<w0pwx}GEWb?rdYyDD>Vr`bq%{$MK
zv`6GCSf1_AB6(36oX*-K#eBARH$R5!5g)niHu@}YZ{Cw>8@1u3)H{1H?s8J)?Tz4n
zZQ5APb0z|+6U@(d&Z+pm%L$uzMQ}a9w+v@2=JN4`Ix?qxb=V)ATlDTDdf8~<JT-BI
zKb%#d72qR=m^>1Ve^XODWnP1x?zq#oK10uyFoF@H5nRg<iiA;&2C<+p3ug{y;RV7&
z$m5jYWFv2ei9D4AQwa9#Pov3>b~~yvt@gd+4f%P(-pTnq9$w(#fhu8BhXIeOJ`V01
z=@+ELK4iY5Sj6`|g1Q)~SAae!dW9<htlY;yDYg)3`m%^Ra%{QxlfFlN(Tl6PSW~}j
zZg|>sG*#5096Jk|ULR{3gmQS2I&5FA`lRMjO;i`X7;Eg4&2>*3o7JL~dyi_P^-))>
z@d6YhbX5MJ@BO|-@81OeI`CxAv5kuA#W1`@#mn22@;15aiahF7y1enupaOs8LAfXh
zjq2<_FaEH2#qvw*FRTg!9n?T!W8dllrQveC{;E=cRlYuxq~I-eRQH^sZb0&%6m^}x
zj$f&y;kr&X*FwAcqw?`VrEW0JTvnLN&>uAP(}PGl1_?AAr7z=GDyh2+4Qn<_4lmP6
ziCu0PP^<&;rAfs)DVryE;uv~hi7hNcW;>2$-jXz5t^oQMJe2itn@{hv?bY;alEz^^
z`vE!YNnfjn9_W|$kZsHE>;W#&5&ABi$e^9N5%o>gAfVq=eL_W_sQPlc;|AIdRpCQ<
z4#q5J&_4l<coU)r)E5mc%hSJZUT^6C;l%H&;={L<;oI^Ax9*vi@A_k&Kx{a;V0l_=
zUvB<%XubB_4^KTl74LT_{qQC+xqinbySdmMKGyGnBh<Qo@s?setoh<c>{SV~(-{O`
zq|=$OIKg&+-wj~C$mzTX%B9u_=+zg{9i1ow<&%7F@LhuEm6#$z8&=|Ltco4DR|%su
zJLBioXDPf^2<;e|F}i@!NsRD{DBxv`SPB9vWy0WsA1nyCK#$b>psKI{#_GE>%8~fr
zppWlSaN^q<9*l0-YL={utxYymY#2+EI=!)<UOt_qFpcheLDDTfWhzsvk`|IJFkYpX
zr4{d^KTlGaU+r0|SesotsPtcdK?+h$ur66fnp7K`R+^&&tEYZ7DxbNs#>;0MO6T|s
z3d&Q&kV~E?wDm?ez1*FoFpZ{C`Sn|Bf&7;11*u6jL!#se4GlMpl}Vk!*uBIhDM(h-
zBs%*7zmVFdHZi~_cqG1ggPvsxd+3R($(j*+=-J*wPjau;!!e_MX*@|mvZ5wY{sn$z
zH-OLNM0yfc#<ysk1*SL+OmQBVX1Buc<SDXddSla)Vd>out+;nh(eBmeU-gmfnuNQk
zF7k8O-zEYt#D6+sw`6{>po$|(2>i5RZU$~i0?J<EMAq+PTH*IGt+~IC(F%BHmiJav
zU9cwg7d`4Ts~5!(y%a<$zcQay_2s;PJ`4~_N<{lTsi$fBU#RXF)%^$R;2)^#Uz&#W
ObkkzxpD0WTgZ~8#)!m{1

diff --git a/fixedIncome/src/scheduling_tools/__pycache__/holidays.cpython-312.pyc b/fixedIncome/src/scheduling_tools/__pycache__/holidays.cpython-312.pyc
deleted file mode 100644
index b1d64d4ec3c226b80e5ef30104bb7ae1a9f3ef11..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 6589
zcmc&2ZEO_Bb@sk}_JP6Q$w4;8BpmhmLNI{@63Kvxv9S$48?Xa8Ew^*NHFvw$**zO0
zBhi$qP8%s{{*bDz3RR_o=nqG&RDP!Yh1CAI%Q-!FRjH90sp6j#(+@?J+V^I6?+)8Z
zRH;=*+L_rmZ{EC_d7ty!P$)>CY&-eanRi<V`7{1FWvks;n{^R#lgMO>$b#(32wB&Z
zE9;(e3;6HOc(UFpZ`L>E<NuzFKO2||Wb3Bt1mYsE64`r$$Uf@5=eFog1!X^V$pPw0
zdE~kqo~e2{2><o8j>CL%1Hc+wga&C~<_U+HYAc6my+i9uu(oW#3Rh`3J$b9#c!R8?
zw$mA{w(_<O)Wqtj)04Mv!0L3ys;%6#0jsMz>h$E0+`NIaXPnV$E4Rq48}Rm2$DN+s
zwqe!Hu-fI04b=8JG^(xqM3tKS<PYnoTIDcplXuW|c_(~N(GJ>1gDF=BOo3Z{g7RJ}
zD2s5nPktp{Kz<tV!t<SxUDCG&LW1LIMHlrXQ*wrw)Ko)KR9!UERMe><YAJC*%P6um
z4=|d|Wh8^@qNK`*p)i=h7}ax{Dl6)=D9JN<-N;ha5L0<IX(*bi_XPXY%?3n6x(uXn
zp|rIEC(EdjXEp;eEGEvSm1J5377<?shEhG^c$(_8%1`h=;YXA*8EsC?13^ukrYdE)
z3g2&zCY6+utnh>D>%o-9fU|jVTA79Q=c&Ycg24$@F@OQxfWu%^Olf&I5=9kL$`vY~
zRFhhk_V8g|C-h{R%J~eOQNqx)jBY{ged|5B`QSqofQZZV;G$-op=7B{Glm49;D`i2
z<M~{Mnt@}$zH})=0qz@y+e+(Z;2fow@rIIBAtJ=K2xRRQfZimOObK9RToZ)4spqPn
z5bBkMBQOU4UfIQaKI)$qsNa$;fVvSn?}>O#zbyr(moI9%k4y7rQ(xu26DREZ9*G3Z
zKq8?6%ZY>;OeC@zY#jRyiNx3QQpO%}E2_bO3u10fBqUYU42g?NBEftBWyt<rvIaHz
z{P`H8IW1OmwlSS0W9tt!R&$;VO)sw+p`)Xz_!e2I-||lDn@38Xww1buZw{<<JbkP8
z)-!jyZgm$sV#}TwYj!4?4K}R=zYd=zl}S*SO7TDsnOyrlR5!^2nW-JM(eByp6~O>I
zZ<QIGxvtFMp4XMjU_)4=0F;e7XGj))?z(5Ma}|JbQbU(}8wb;BzmV?M$Edp3Q>}wl
z<0Rsdet{N3gkoK_rLQ1sqLc*H=SmN1gxWI^7f*o5GAZL&3~>xDUVn*C-`69aOo>uO
zwNfC)x~PF=5a%rE?G{0!bOQ~Iq=UZq@OjUF@w~VMmI7Gmwyg`!w|U7inxvF-cY>ku
zvWV^f5@Mjgo03XtXfDvWf#7pWoUbvOqKv9ZYHcrV7&-l=SZr=?u1Cvdd#1J7SPraO
zay|+IBt^AZ%5-HqZNzfYd^AI)SsI(u*yX4#!&Hx@q@)qm)07%|%s$Adt#o?yq#8Y?
z(0p_>6+KQ3%Cd^e)rIqNqVJ4&CJ(j<%&oYOgC711%3T4i$-Mp$1t#J%{q{+-0Q{SQ
zc;EQM*zvwe(>p6=@|2-in!fnN2*4r&YlUAOXNnAh7h>+n>xq<g!3jq>s`j2e4LEH$
z<s4Mk$!aU9Zz~6P7K1xWL2)J2_15`vXlF6BvmEOBDAcvm^wduyOWT(_dy7rIg@)cw
zLM?A6-b|E3oy(z4YjE3g=l){T{zAk4k3(AkRA_jL>!%q&l}u=tX4no`Dp}Dh_^IgR
zPvGaPbaFwMshtZmuyCz&q4aM){^fdp6?9M*u7WmS0~&_cqDjbt>v0Xc=3a1vez~Qx
zqhG_+NNeC#HE<!8cZCkqK_x7&L}f=&P;0;?RRt5ZFUPc5MFu219820k-*5y0+<n$!
zRdjB>yX_H2VG^5DblNT2gIuC2q#pP9w!+!;L?sKJN`VzK^XnM2__E{`xTjYn2qs_+
zB?bEejlXQGue}k@x=ODY;Op~D2Qjw&uMVD-?}<+Zt~g0&lTrn}8!4zYCt&C_lfr|r
zc17jdtv<d*2zqe4m6gAESBjd;8<iujQ0C+wqIY8$WJlawRM}GqKpBmASSR*TfXzD8
z(S)p|Qf340IAI^Aj+khAE&XeprbeQ6oIMNUQTX&TP=U%dlR#tH-&XXumHZv=o%`{{
z?_d1TzjtM8+v3($A8Flj^Wyg|-a232eW1AeKxy~EV#~q%`-;s+7VB2pP#ZgzI}aDz
z4lg#WY<;p2c+zr)7}r1Ch81Qkn>)Z4VB{t-&{psQf?rXr&79pmdo)h&3L|&jd>@ug
z@(quo^|>qX<EgPep9hX)r0gYGdWFScjpOjGp@F(imItQ_uO*jhwoHv8HA;i|>x8rZ
z5L1nZO<3VU{<m3YUjw478>=3uYIx-w@@fD_pTi0Ri-%}-{~v6egmrcMv<A)>CZ*-%
z<#Li0ldLqLU$>d7M-CC`f5IVX07|RvdBz7O#^P|#Uwm>yH7r*zc(zDqOM`O`%a{N~
z>dn9iotuQHTsPgrr-sbnX-G)G6siV9#=|tLF-6Ll!NI%=juW71v*DyF(;S5g{I}^n
zC0)`O1lC$6pS_faNoUc+N~&%)jHe~_vJQbi_<ytRSehx2-AFLtI6w?$&AJrRvI$HK
zOuwO7okj;EDP>?Ki6v18oq~}Xj~%}QN^_GywB=qPxSeYr1FZ%x3!WL2n03XdM0t)H
zvDVEoXByT`g<rLPbKGlQ!+DVazqjC$Js4d&D;y_p`;x9S_}YtmfJYzDK$Ebp7^rK!
zEch0@fP+H6t~jp&_iSVFuIsJ69&*hOH2rb1ix?IBF2Z8MV@Bl%{Dou&&uv{<aL-gc
zZFR_ry`8mSzWYZW=kE<+j$Cn1k~tyi5@2W7d~+n?l}<VS7!B{Mc6JC6X(m$%UD4O*
z;+{FhNY~`GdITIEB#L5AVuq5;XCzjcVP%f!Qf#RZQEs@Cz-8?071BqLJBY<F=|*XS
z5V(Tlgx|=B#lVIDyc&#ElkaL=0J$kLFkq+JBbAgA{3vJwWUb<*`O0!Nyz*2I0&|8j
zFmBqW<Oq26RX|pF#xF5D+{V3K-G?q0vO72#*qS0gb_6}**;<&DOJ8+$i=PWU3|$YZ
z_Yj@$XAD%-GovZ0>A6hjbu*~w@JwMypur4H7f&U*gEhUNyVI0~5Q@UWP!A#j_A2(d
zNk)Un2B9)Tm0j@c+MC6U+VpT;4%lP5j%tXT!D2b%R_EcM5(@K6VP^sJG<<p)DvW|X
zb?1eZaQB@H#qdju!;gZb=g|F7`Or}D(9rMBE=R}T36&dn6&rVz8zUb!Mha8Y<*96O
zD!b_YMBIH#S!%n#?fs6Dc=&H_q50*N_VB8kv~-r64-}gZ{8GN(`$5ZtP<ddoI51gy
zVd|si*H#IjEe3c4F2AvTaqB-GZG-kR;sQqgxc!OuGVi?(!`=H<_8s_D$NL?H!$al6
zr;CSAmky7W_Qea&jTgozR^3AQoUlfOrt<<IhoE-j{C|EH1o}Ga{u|z-Uh?ba=rQ8?
zjrY*em)*%)y~G2<|FslUwV{EdlMw&9Hq&Hh{5ZJ?*5sOJ!CezWdltBDx@TL`t6*QQ
zx!-E>fc1n}TDZE(#rJWgwdEZWN=yDLak3+}GUlA1vG{rg`6H-^g@S;JUFU@Jxu~H<
zL0O}Un#|;_+!yd|lWzsxmG$sd$Pp45UYn2}Qg_w`S%)y6$E{Vx)vFIlRZc)ND^lvb
zz*&n$+@>2I>DVZoG8eswcb$N<2^>Pn*U>`ONN|h8TmnprBgHzK1gtcoAA{;TdDK7}
zo4%XBKJan-o^pG%*d8sl$37#1Hz7cr7-(E>-h1cB{f-Y_Eeu~QHNRdAy#8hYqz8sU
z{2H3CkMhW8B(lTwCla!jgl8b0zTxwhrJQ(~rq7tq!2vPkkw5>KFVsBt^uS|J&-%w6
z2S5{4%>yy(^~f><D1O!h(9_t%$iwsx_Ki&RjZK<?6a7cWc+Wiy$**T{Vx%AIQ<G+0
zy#Mrg|M1cNG1EVKY<v_ufsxU(7ASDM|CrTlnusS(^dIjZ>pPVg7(I0oLYX++guxi9
z1|;2J2-$gD8tnl;Q-;pb3aK%hhIrO`7kh=xz%P13{RY%<c7pJ!%P)BTzMTlW|3ses
z3yDASxrOHzXC4t~R<|?>;*w{TKy$x&4V%^OMj`y3u}Yx1ljhC+-ZlLDbT8S_b?d~>
zMsANR^%V||m%<Z&2=B51M+=80O5w8>VD$Fr(pd4ud?`F@0S0dmF1ZT5XG-BQ3ovwh
zXlZ-lz*s39uL8E!V3fOhi(S1-QY{s}aPgpC3L7=+6ka@A3ZJV16knVxg|E~AER0Xv
z8rp&d(zLp>MQC4X?O1hV`%J`Ydk<Re&}iXwyfAU0aQZ@V=pu)G><uh7e`9jZ3;3(g
q)eFtH;;RIjrTx5l(DgtsjKB6^p*VPf0}7H{ph{7KBL*yfOaBJDYKSxd

diff --git a/fixedIncome/src/scheduling_tools/__pycache__/schedule_enumerations.cpython-312.pyc b/fixedIncome/src/scheduling_tools/__pycache__/schedule_enumerations.cpython-312.pyc
deleted file mode 100644
index 36864e5a2f02d058ef2c9b407873f26e664ac792..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 2846
zcma)8OK;mo5GEyxdO!V0{D>VCeeqHUZ5{LwB&8+FVk(g?N!2kggkiFcQ%g!nsVHwU
zkVB5SC4ZslpXj|8=O!%BQ%|}Th;j+gx-(13l4-dp0nW~TJ3G7c?d;?CY&ONfSCrp9
z5n>GUCsrmO)am#3Hz-~)He<6VOp7&HmWeRCj2(H-*inc5H5!<i5sGqv#%9ncMR`Eu
zGbl&V1fa<oG)B=Bpy?Tur)UPy><k*GXb#Z)44R;50np+Mn)FM;!Vsq^u!NJ^z1C4M
z=RmUK%G=wZykZ>2WNpTb*sK|~BPM4@&6v%Zyd5*+J}<;cVeimyIqh!Mb)NN{_L1*K
zpyLqT45`MUmI0v%36ij^_F>DhERwRUR>$t0pq{a;XT8IdaZB2iG}S7r%{^5iyr?Km
zu};#u)R3)lCHZYr)C@_hACP!MRg7Bw;1}jC48gpAu;n^WJ6qo$|LoXu`>4}$wmkP}
z%R74Pz+lJiAFOVtbK*?^$8vxG$35&GciP@(Pkk2`nhKn^w+7-lGbk<ezZqn6{c4~U
zihX&IE1d4S3lr=494<ohRSx~Az>%e$o_E}KJg;)-i}sVA*F_d7c`gs#6d~qfI=X2T
z$R9~o)p}jsmz7;oYN!>tDoYjX0&`1fNGF8Dy2}%ReZ4FQ2!zgjW%UiW99W{!{HfoD
zma9|0viv2Oe!0_YcgvmjPY?jmIE}%LgOed{2{!=(5+EE>UMw51yq5Z%q*-6wy+cC4
zHo1A(V%yqNWyP>Q-zKHmmOv-VMord?gTS9r(<Dik9~lQ>ZdP$hD2niV8z6w2<r{r9
z5SzEpxb?xx>KV5@xV7<yTMfv<4)e+S3R?b~ESonIcHB(b2{UCU&9t2|Gj`g{`WYch
z7ImlFJ#jDrrZf)!K0iMn{(}Pk^AM{pW+r8Ih#5P?lo=x3ijWJFyl7YrS!wE)v9DS?
zO<h(bT_+c)sz_6GX<|z^;jHmq9Xwn{7YvJ{mpn|sOM`)1YDt%5IvUJj>b5M_C8Z*2
zWa0tcUIEeV1$f!*1P-tE2S^o)75Kdh2w3g4TW8$Ov0UFc<5mW1>xitbopCqDavf~u
z<8Qc?AScl6{G9j{TK->7_z59N68nzxqkZUm*DkdCF?e)80ig(~@EY@Q4pu}s4~?dz
zqmta0DzMI|CX8BBqZ(h;WQypb(bQ1m^(OWUQ?`vmp};Y{k3axr^Z?A|`@6w0k}vdY
z0XEi7s{tq2Z$2mM&~iN|eoWv=Qf{>xop$%J7o<4GJ4}LbQ7A$@9C@rEYULW?9yS$;
zBz0-ekQzIZMiLdN+>k&E$95l`p|}IThbJJ!mdW;|K|0f~jAJXF)`DQraDFiNpym2t
z@PfQ<)7u#{=Vyf+;m48U?xlz2bX!kX+r>;8;sNSDKn-t&A-xp>M)F}s;txf*Gc{QF
zs<fk_=6(%*NKD+*<T{BqV7)~IfHSy4d9k_M)D3qBp}1N$R7#%$XYvJ+R0|U+K?fJb
zUHCmD3W%inK@);fN<}K&F9+mOhG`y+?@&mld=c^}e?d4poKN^oXqivA&j~S-9=}A4
zW4O>GU`y{&N~<F9VUjX%)>vxQqVETi(+zl0OzWwt{0J`BifBmTsCD#=0uK@oFA#`&
zVX<EyEG_qyL9ulDFvuLVft^Y?d}6p!s0EJ;dNI=*2oDds%V;`MDyiqtkna=sf~V4b
z_Yw5Kr<L~@#9vXCW&dE7MtqDdzU+<|C`N?{yY{*=VxSnMV(jMYMZ`Bpg*3bI`pXdm
s#b`Co=3jt46r)9sExqJM3>2eGhAq7?Mhq0A^(edW^22uw6f~TF0XC9^4gdfE

diff --git a/fixedIncome/src/scheduling_tools/__pycache__/scheduler.cpython-312.pyc b/fixedIncome/src/scheduling_tools/__pycache__/scheduler.cpython-312.pyc
deleted file mode 100644
index be14e935d01b6c428d6a52db1a22c68a18d19695..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 11921
zcmb_iOH3Tsny%^>-OxOnH^wf%2yHMJ96NqyWNcsTu}vI<V+Y0Q6x{_h?gy?ajA0rn
z8s%OQDT_q9k}b`>BNkZ@C7Q7`vtY^WJTseWLj<aEBunGPc-O`r-O*jlo$o(YT~!T@
z?MzaFQ>V}Q&;Ost|33Ba<>jRup5G?^GI73}<NlL=<R7nDc`2iEpNnzBT#S#o5`5A%
z>`L;(e9}Ga=Bdq{@Fcy%URL)ce8VMZ^CtYsz;J-I`A{z%E@kzSL|HO8988uEmnSQR
zD|pVu^>Z=*7hEhLRetX_XbxA+c*3Q#qorq3LV9FEimJkBS}rZUo{Fo2Dk-WWh_WO^
z(<xPqr=*w=PYI*(ds6ITDw<A8T?~Yk5hXe<#ikPR)L2AKrxQv+t0Z?#&XhhUqG7l0
ziHWMD`>9mpNl6b-8IuyK80PhISxSg%{I1b3fEND^NxB^qXB5<H2PIWaNJ%NBo=vCj
z;uTM)fU<5(N=Y&hM#MxSGM-MvX@FjG!Kmp~W0D$4N%z#qw1F&YY=BXgn?GJI@pJ+b
zH_YP{T#`G+OP-iZ^2XefXVe$-eBt@t1ReI7y<Vv#=9BzVKq?(|HKCWm`eP*y*fJA#
zE1VA}V&e?H1}@-$E8hmL0&^^Nz*PdS3@ZrYAG9&ED#=509QDV_9dOl>JHW-7EZ7RE
zMheZAU@etcojs~FR`rF~+JRbo7Uup`J8;%*>8)|})}yyV3dKT_M`~b{+!D>c)&bK9
zm^#e7UTP}3!wnAD=9$KDvmO{Um{5`p?uvk?^%C>Mb)PJ$Q*tWmGLMj69{iImylh5s
zpHp%E#*^VP{P!m0AQ$Grh;kXa!Y;W2FS!zhLj8j9=fmByG@0&p2u8OeN4qymM81Iu
z14B03Y)!apGlSL;0iyCb_pEZ)f`9RymC9bt-}@3xoL)XMr9dDRCBpc;%H;S+R7^;z
zm?%e00ViON6bxHrJ!5Z`HBvF*gfd&Pa94ieN?V3g^Xdr-=m*#L<_66|WahY^fr<aB
zEdvF1`xES)E5@hzm}kzdg2jv{=FadLcU~=><8B=WevdVx-a#plA7j6rb57McVClp*
zJx<s;?yDmnF2mt~z2aGHMyX&v*BGlPf;uh<q^E@G@pyDxh#M`Fa{6vO26dR4N{&df
zkRBEC=K<&$D9vecMi`aTNrpg~l%ny`IN%9YSE)s1XdDQWk~*G_L9NP)Du}U(Dbl(`
z*P_BEFft<~K{YidkZMjd2q#e?4HYg6@g!7f9ApxhKsu2~Ph*Hha4XvOp^ii0F5x0@
zj!P-fk74!#cxx;{E1wa>R7^;Uw<TjvikOtlNs<nxiHt#43qu_}goIQuO;N?dETULP
z6r5^p5wWae=ScZ0!c1IBfb>vDeoc(Au`4MtVQiZ~vXTUT@OWaTQ;6G}Zor-vQWi~E
zF+qWag27UyF&t6qguU%-KM&%0U$7>{*7}+)WOHC^rAZ#L2+{rt9YPO{4+{p;{1V=X
zleUh~^*GV>{9<&y7CNEpO;yZ4b?}#yw0HhFX^8K5GV(KuOd9g}U+{!|GFe%@GOk4O
z`$NYjlX}s;vX~l^^aikB#NfRGAbp22HKNL5R4vvU_8Ka=7MSEZLKldqqB3(5bUvaG
z1t!)q=~TU%h&ZR9%(mEScuOalOXWU_&$(CoxX_NZnvQHu$KnO;=x<hQ`qzWCe+Vqx
zS#1nwgW>rLuiS+YKi2f;d|dN8i@P5;b$oN?Va<HtS#|x_cOD#EY+9*4yurBwH~IN9
z>o+AWKJobG#P4U;8jfWfjx9B6X9rgshMv^zT&p{otvk7NLHo@|D|I(sxViGWoSTN_
z{9IMze5D-1+=|<@XXt@VLuowQsC&!KDHXP|&v1VSh5tuO;r}fUQ(&uW*AMRRf1W9@
zsgP0mbuf`pA?586=P((I)z1_tu|CsM3g^U`F5!%#Op(4($3@kUX{caPxGTbA6b7Ve
z;p4P?TX2r)WGZkvo=8{(WHGKl4W<O?UR0VS7gR_?eah2lcBuFB_r&C60>r?MiK&=$
z!a_hAsJ-`4Z*Qm2ga6(hsE+s9beyfdVL^o21Zvi0_~J$9Xe-;zm=71l{2s$h)}Z%Y
zU?&~ldxR=*_Q_p>4?)Tc6j5PdN6GdX)(Lj(?6@3P)TC(BofQZmm4*o`vW>viB{zTz
z<wg`?57Py53+j65M`B`1Ixov<ndyS>Ob3eu*>td&+{&$JnB83{sYP_fQ5ts#1?07!
zt7=-SY|mD<FE(n2&#qRUds4Gw!T(@Z3t!Y)|9Yk7k`}!5)L-@ciwixgwfnRF{qz23
zH7$iA{&bUwd$)@Cc9Lj0UjKvn{47aqbV#k`fB}j5WFVUva>wAa&@%@o#vxPgA3VR3
zbp8@ddFk|ufA5seK~t5J*qMGtUK<n7!HpPYELZ6Mn9-@lW6mL+1aDg)_(vqIg5mBn
zTnQ1rm2-$NBEdzFwh}5Pz6f?-FTN1eBH|07{>9=8K`nwALJiEnruZ^L4bih~s7wLT
z7HO4tQ!6o~ybnczeC|ZUY@02guQS<~Y4BYX#f7v%SZnCbHuOF`_NYgTq_u|Lm4?ar
z3+qf$dsl1Qvi`Orl4=-ZdA0FCHh5q=V_e*3`Y;!grI&qR)%%d93A{Hy`N&tbBFG8P
zW*7ujglp4t`#p}k$IBi3+hg``LV=&#VV-kA`mIo>AWTEnX(G54)0}(T5k#lh2oFY3
zILe-kJA>d1K7grz?(%cqj2A0(VTCTT$g@{0V>iU|NYmqpbKr;**A|L4Gr&d7n(e(l
zCx^jcN4FlJ$SN`;iLzdzrdfsgePKTf%VmPq{ex$Qu3tNM=40Ip<31(nzQOAQ_-Qzt
z9vUrEC<(`u1@z2uEQNP!rVHdSQ9MAX%3#*4oD!X`5hNOBiHz86lg;*<{M*matvo>S
zIhQNt>fz4q&(`f<se9*#V{09!vK^<^I{LEstLuAQCokVy>%Wohzp>K)@#-yU?N%at
zE3tM<&f>3Mo-c(fS-<n!z~Y@%p(k6{vsU|Fw)VaGz<Q|V5AnqhS9f-2L)~jNN3u0X
z=1bP=cdoXbT#m1wyR?4g)+?{;od}=fTn!O^zKlG_mdBN0*g=1o`Hy<3qKdK#hnx~~
zu>P!8Jc+P?#oXt{IE3%08BcM~5;n@^uu&f3ncL7Sa#zMZQOv4YR*QFft(LEtr^a!>
zL>{Oqhe#CUG4o#mH{-wGS^U>;rUuF2B;dACxQ-A~n6g7s!`U%n{6t(5+L_0uAUsPT
zsvD71FokVk3Rsx&B8w=QuassxXEQESta2Nsjsz0%Sl;;|O{)9E$w}-s^KB5u^q@`d
zrGjx|1z9Y`&hnH+r(_vXH^ohxqndgv0h%{+3~H7|&B)6l=~NtI66BN!3NUDpYu+(m
z@uYs&T76HpzUSeAM`yIpCbjyWmHIpLW$P794{koL*uNfZUJLHd26r!XtOmQDH1Az&
zKACMkxpYYzp3s_4t~B4Czm)TGmCX-su2k#?(^l=&{H=`7<Xs@72a@7FwoOXZsXr|p
z`~%a$F@DYiF7sx%IiDjh=d!hL{`}?IjH?(w<@I%pr?k^tN$Rf(@K}1<!qcEyT6e<I
zr<k$%WLz0v9v0Xd)qLKVi@6-S(TbT6LAn2E#Yu>uO5`IMpCtpHjGIYAIOCnD&eO2p
zpk>-1=u}V4!%}Y0!o>Ttke*q9&iO2SKC~P7_^*I*kYhcRZtJpoemNz=w}ldtXNMq)
zMFmcg?o3Iks6;|XQlbb<(@>HK0T@XV`_1~0)5*u})Q^l;fuvcTofah$Imiz|BL<V=
zfHy2mUWHLgjF1@FH72G2q!tSsBW>pQ(ou*Q)Pn6C<`LNv-8W;}FSZ6@GOfhvx`HUB
zq%n4NVI%Lvyd>n$X7ZEE3!wobk^@X5V-gY;#;^R2DK^O=%-50`VN#Tlg+s25=Aq)w
z#&89v6tu9MBXVZ3yOOLzRUiv!7+W^klsz%j*fvbdY0MxNmw^XythKW^F4`sAERY|X
z-wX@}d6-oeAA*b|TlkT&iz8o}NT(-RZ%jf6%#wmhDVdgM>{T(<I9qcuf9Av@>dd4h
z%wDi#Nh2_~4y#M}AcZwq7e<Uk!Hp4%VWHmB(^AZcIl}=Rc0HcLTEK{g{V!M3s+fo<
z60WvlicG4&$WOIIV8HVTBkWQtl0RZSFofx`P*wNPOyzem4qk_?w@JUr$580rXnHE8
z>R!h5%*D_v@`wz)3Mm`Il@J6YH?<?r9)^01jLbx=r7KS7`gL$~K&ynHJD}0)x$2sE
z?|Ky#p;q|JWp!W2zinDA>sW7XTWftc+xqTG>(Qm%+18U^4m>Mwco6vZ^lEv}6YA{C
zw)QO_e>A?*dgIH1S3ZQj+Rj7&T>CKoPrI~3XL20h$6tm|!M9%FUvhkCfa>J~{0ko!
zY+kQvelY&Hrfu=a!;6nQPOn$h-4A{fd~kEMstxrA)!&qU?Oku#zvz7!$hIHPwjBT3
zpDW=)E!Lowj?=kXuBvW6m@9L(|G$xyGGtq`W#or2&!6n>n`89CxEr2^Tl8S7ExEa3
zX7eG_;19%@Ns<hvg7Vq;!ax)ZXkKGF^6FcHU<*G}Va#LB+j;U`j0o6_cnx)smg8fN
z<oO4f0?SWzI-xAIhJJLSEPj)~R#M=;Z<1%j)o~dKp555eErFumWZg?JE{_;lCAv<S
z-D~^N+X8({>`loa#Ew-g!E+#6d0_F_a*uXnOshPwQaP^q$6s^M<c<H_gGPwuDi-V^
zP;|O5z)a8WcB~sC2AyuK87dhNMu{{I?!9amnWZwxN3qUjdv;2uW9&}pptVtN!&esK
zs|Ir#ys`}n`(Ws@g?QLX0Or}yv?A<UD2cBG#-X4sPP2$@9XbNVYouW*8kFwF)0@0;
zM;_*yG%CUEjXLtD<ElEToapYJo}TVXiAqeo(*=CpV~Mn)i1JK#vU}_H9L#e!<mI3(
zb=D+pPo3pH!fu;~buU{Rn(R=qAqwXMUm4IR2kg>LGJ+<B&KX+WQ0RN|^N3h`yoKpI
zZKi)S^gjT*@*xVAIoaE}w&!$q&*`Oc?V}so#H_aG^va&U(fqrfmhD+9YtNRoFJAb^
zf$s($mz`J-9ngXYpvG%k*Fs&{P}kzUWm)?qp@q6uLP;%{Gy=iEh^R<xiUoHH6lpOn
zS&s_kM>0I~Kf&biXW<osb@|zpa7GxH5>R~kTTLURGQK1M4~bAd#@8M2c<{XkODY$2
zp{!%E>>qOva93z6obRB0SwtaU#H{cc2@(y4;dGvXd<vbj`|VABjfMXgfGTw3!=m-N
zoeP0%ZFoNLw6gKR#cbt%&A;E+rSi!sIXa%-DZNgyzDkMMoK-x0Ucy#l1NnQrBYdXq
z-SjXW(u6?R(k~Om0%1x7JA&*%q?sIet#HOh{?>TiuffYcX0mZojp6Mnn6DKc*^tiL
zcW6kk%^TPEx_OW|ZhGE&eUw7566l-ut!fie{CsP?-q+xz3&>5+TjTW=;&q&I?Ix7?
z$*?xQac@fsaRxY*E@{{k^JjPjumNWPi%-SwSb}MqCVT+^)jK%_pP$scEeS?kMd~C*
z!5MYtrN-#W-!0ig9KvHu`Sbt9^)YiRjGQ#d3cE{sPPOMG>a+FsXJNuw+o75bl7fk+
zSP;<_4$34CdhJl;%Ef`}gOQ;dA4K}D4_+KNKRD=6_E!G~1Lv)Ny)Hj$`201;Fm{K9
z5mzq*VL_K3GFuDK<Qtu|2{#)*bm7{0o20xKvxSDcf|oo%1-lb->NdRzA45c^pi(8o
zGWjp#m=1LMQriOk8?Y+BgTn!RSHo5Ads=;BwR-<r^@$&=Pdu@*@Tb?$oLxURgq%*}
z;g_7N@gvG4R-^QDH79>2{3!;1^2h3vPjHtW>db~Z7jJ2&F0Y2Jthcmlwe8PZ_N}!X
z&9)qUIJbVjfBnKuklpbf$nF>>vUMo8C)>B(G>v5)|FQab!Loi8_*a-u+gdet;^f;Q
z4?U?Dw7ti*6CY^DuWDC6(RSZjssB`~`ji<Ld}$W{FC22XMfXP{DTMlwh+Z0rz&Ah|
z5A|Rqa%W0Rm_0#+wfH6m2?2aXBolM6{5Si)Om`zt$CnuKsH(daRhCI_8+SP5K+AMx
zqkBg1xu$U!>!I|hjJpc+j)#TCef0Aj6&I)=bHq$46DE0>eqN%2zC$ol;-vSPJdqkz
zu0u?};GTM`b1vR{c;Q_{iQdBx+u3VL-JoAD-JGw6bt45ywPtVQ!nquW*HVbRw5vnf
z^_$wTs9hJcS4WJtvD+I2Vva^FcZ`h=c^en^<v6^S_bn@r`j<1=z9IHo`}o!dwVOjw
z%N<}tsxd^(ad<7OkIrfz-h6a9+y60Z&^{g6pbm2kYPmKxrrdjA0c7x6+P9=E_b+9#
zCoZ$!+K1OSsNEcbT5cyBQtI8ghz-DN$#`jlH`q_@lg~6!%6>AsL7nC})N+j&_f(pA
z;oj@5TW{QvWAFA(<9)nu`BwJ$HRDHQguR~z%I9NWHg9+_z{G=E?lR9NP~wgAi`ZFu
zFPra2LmTY32~Ay426PNn-W2~3J4f$F=3Dz{c!M>V;MAAf$H0Bww#B&|hu5Q8?dr{c
z-NowKEpda|OnB6CRSdkx8{yYmcIDhudAj$#oR=!d7w_7;aCos~;Z%0#p<IdCcJ#ys
zt1>JvT-0iC95GwCS}%!2V(DlkV(=#u1B&eRdh*bx)OeyR?|CxElVyB#-z031sOYZA
zn10mp`DPbB-|SL0f6#0;ND&F2{jo3I(kaCdHfC4CZ^V%QE}30C8Nx_uX5DApZW}hJ
zP?-MgKV=C1`|@poLRE9h2^2Xu&+{)_9^Uh(AjfxSxvrnML;t~re&R0u#NGIl%f(;h
WUvN~u@+aJUg#X(2-yEy3ZTmkFYuG6O

diff --git a/fixedIncome/src/stochastics/__pycache__/__init__.cpython-312.pyc b/fixedIncome/src/stochastics/__pycache__/__init__.cpython-312.pyc
deleted file mode 100644
index 24e92859bd56fca5fc9ee1b491ec408ae98dfa08..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 142
zcmX@j%ge<81cIJlvq1D?5P=Rpvj9b=GgLBYGWxA#C}INgK7-W!($z0YEy&kT%dALE
z@ytuk&rQ`YE=txfF3C^MNGvYNOfJ@skI&4@EQycTE2#X%VUwGmQks)$SHud`%?QNB
PAjU^#Mn=XWW*`dyQv@L6

diff --git a/fixedIncome/src/stochastics/__pycache__/base_processes.cpython-312.pyc b/fixedIncome/src/stochastics/__pycache__/base_processes.cpython-312.pyc
deleted file mode 100644
index e44f860c6332830c94bf6633b35eb6c78c2630d2..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 13689
zcmb_CTW}NEmEBTHmgI;0#1D*-W%Cf=w*e0Zj2{d(*d7?;8PLo`(^j`_30d-Vw*f15
zVrH3**=2*7O$Cw7?wHxF8WX$~@0(O=E9`zzl^=C%R+`RCg{^E=mY*#%W-6Qf?4EO5
z-I8T9A(^@0+xKzqx#ymH?m6e4tDk0P+bBr?8u~wf*Di|sC04X#O%&Gt7fQD%j&f5R
z%^3ppn89tJv1|+&$Bb^{7~^J0oe7x6%x*I&n*teQ7Pn>0>b8#A+&0o?4rIEsU|dEZ
zdo0JDGiG<&NxLPGJC^6pqbUP*g5s=KDbB`Q?-|wk-T9<76I!!)gTGKCFZtCW3kYO3
zK<3;tBt{pKHaoQC@&$b1Jtom!#Bbs9F6^eLIYxLFXfg+i$4cC#2|CN%Wzd!%*g973
zE=RifEdQb8j9Q5+;0i|!_vi%9is!>YPnrLyHZJ+)inP(;Op4-Q1up_OVt7$VZp({e
zOj(D6cRYV3TrtdE%$1B7k|V;vRo>z6NUlpOVUODh*s6G^wo)3o*{wk&zy4FnvQ|ot
zdJ}fkz0<vmD|YYZO5HB_+w(jsc^6j{wg62oeoxp0-`$vx7}nSMJt|b{O5A$^r;#h;
zwsPel0p#Dk43!%9KGL^s)4m$$%i;I&HCz#AUaZjNtQOkK{a@48ll&qq^qINR#qAnr
zILBh8KC+&3UZva(TovSvTs7oP+z!Z_VN^cfz&9@L)TMksX=~z}Q`!#j`}qUhuJ0S%
z2cfrsKgicE?$$@NK-=?Vx*)l;?w9x$|3s2%t;D~?!453$(a&BhS4uE$BIEo{ZG9-?
z?!y3A>JMv}l3%VA{_S1dr{N?!e$?H@xB0Imp|lcL!__X<Y3m_pwABBu)|>qDt$4aQ
z^LvJ2Ln$;vy)?DX)kD2uvGE>A2quuu3VxRg!O@8^hdCO@q7)(F?hdks&1S1mA^8sV
zJ8a-9xKc82hx#2ha7`d1&5QeAct+6CUw+2L1Da&5TVbibLPF(Nx5D3JzOQ_J&)c05
z)a0Ffg(i<5(%iwD^xvAf7TA-QxI^DJew$86(k#lt`oy(r;}S4`vc4Z{+~G8s>zlwF
zNy30^-`E7=DA%@lEKRoOHi2tj>`3AwtA2kY)V)Mgg6i*Vgy1^UuzYtTOd6KRMhJ3t
z6SnXRxY(68*Jh`vp0DqsZctvs2>iX3O;OXhb1hSpHdZ}dHx1YA3_wg%+;Q$@?!;nu
z@=OtKd~YL_a30B7=6Ybn$;DI2Q$a@jVbqYbvyPfxuI~k@A!C7>Uao%wH7~a3-`==N
zke^pHUM2S83-@%=JZbiVSBJd31i4mnoemppwkJ4&i&l*6kk@5UEF3HGl5dPxteA6r
zKw_acTi^q%<hz(?Fe;W;#wA}U$OaT!KMQbYC&mN3V(DZ90d^?B_XDb&4k2_Y=wpL@
zAp}*5G}Im`<QZqBQI8j(0eOBGJJ}hU2uhuy;6*-&z~0nlC%i>!4G+LAil^K(N4X7y
z;HSEcJj0uKvp*+wfLaEhVAJ-5R<v-2!vOdt#v5_`B;zu{3IyM<)a4r<o)Cfh)2vSj
z|BuZ9somiXu%hUYLJmIYWyi${;3Mx~9UP9R;j|%+aTwzW4LgP>f?ni+=ok(O2$zHq
zLS7zFc|#$A^92D-Et#StB#ovFlh_Nq1NY9s!nC8jW7sE%l7kgSCdPod4mQXE+F>9=
z;)6Wr2u_TRPeQlAPC5jBT;N6Ag5U_jjpMx&f`9`zQgV?EOz@&gg<>KrQmi^yzsssv
zJf0wkhsUGXJf5)-Hxa;cmdEqX1RF^7WOzJW$m{V4cq>s%!+{VhDTd&<Vj@H-c8`Y*
z2163aAF##axl66#2LHCH4#*AF4f`(hTu;y&8sqCk!CNOvA@3+FN<ObxH^hp(XI$kQ
z5IR07pq!8l6b~hKLiQf@)WDc5t2QdDaBeWt@j>_P?r7nTdEukWcP>W@>*UP(Wu`uE
zFOC$=8$Pn!u|!K;3ynW)x!V#gX_D>DD@?OcreXC$K~MTEiv!J>lv|Wq&_@hsSTt(q
zc$nsh9P=4v6ldZsoSC=sOc=aVE`zfSTj1toa@+V!E`!ekFT-|~(R8*uTW`%wY0V+6
zc7V-FY0V|A3Cz%!ozj;_`tqSQC#AIjTJ2XUeYQflYh?iyMgD#II`zUZ!{uFN+{ISP
zN`ar94^Z`br(WPo$+`;oGOm!{%G=R{A{aM;g_Re<%FDqo-vXGoam9Qo;RwT(K)nLS
znStU`C~u#%xXP8>F73RWR<}L8C2<Z>7SzK?8lIpvyGtvk(a?k-DrH1^J-YCEyrDpV
zCnr&{4<!^CNHEc422N7U0xwMn!G3Sz)=8FUhTI5$Yjb4Brwmh+hjd^zMfvq|vfwu)
z%UTIW>8;Nhg)^lk7^TxPW$=UNm7V}XA2(%$TH^Ktw9!z5Ta}um0<8qI=W6BT*I$$@
zYb8xWG>HZq&)hJ1jXt#UfEhjhX=d6qWtw9C+;H6nw%s^wnr2|$Obv&GqCnE-^J=(Z
z3?5&SIN+;C*Z!nt*ZL+^Ye(j}1e@LO$`zc@sn|t{6(kQDBo8rmxt{cvLXMpTApolc
zxn`D>A{ettb2cC3Qn2NC*4K?5P7*3{Vk-~omKR`Ng}J~_ib{niUGRuj1Pkd4a{Oh*
z7~q4TJ2}wjK{PFjiI`4Mio}9yCRKEq6-ML(!(<w=NTCWRG^uD9#46(Eqfv4=gss>K
z+SwQMNghwQH2v7rYF!8@{sUw)6sSl?-7K?WDUUm<V~%Fo(HwJh$&M~;+ZNy9itTtw
z-tkgwN58zIAKRSqiketOt6b5FwXN}jqFLs;<?$XeVAp?joO;+5>%AcNUWoOM%e~{v
zy~1*b_-i9wH$i{gbaZL|{pwXCRo}ccc=zjT6t*Ioz0b_l)`|!ht2iQ899b?q3OMcY
zqEh(S;@hicnMaoL->hXKI9c$&8?!qNW-lIhEn%4)Q`FnHo^vn<C}AgbyJ%rIeD2c1
ze)xzuROOxkK{YDu*uc0nL8`-1D4#RbV|zi&UM<_Jqn2u7GQJE^sD6b*h&+X)y-*KV
zY#?c!G&bRw6oQ<x-5IqwzcfLOn-GNFKtgcCWgE!S`wk*WS&$JP-T3CUZ$>Q@Uz(tr
zO$Z`~B3!VM6sZ+yKux65aQWKhS^JkJVb5kHxS%n-V<QQhD3&%PDrK)+vfUN6xV|)9
zC<E!jqcEsZ!bKYh!{$yTB)LQ3YvHJ+l#rohX*$Rg8uEK}y9EQ#o{(cU3x!*hq#r@F
zHk;c$KLem?31D@rmF$96#GjU+brZX{NZ(6f7@%B+@OOy=fNF4HG$csg2?^bExQm1?
z5r=s~<OOWud;)j?fk_A6Q%FxbZyc~>07*iEW*_AR9ltcn1|38L6SvzJlz3r0L~a1+
zStDmv?-_}4nTSde@DK~_kSW<ZYexhhC!pZC%mNB&8l=#SZKU5o^pwy64I*wvimu0H
zJV)27UEMh77-TclGaHq=WB$$f{+D9=d*uB+@uq{ZrsHzc@%WzFAG+?kNd1J|bRvG}
zXzb8{d}!cVrYU!jUZqUdL0XlJ9HI*0D&Zj)1;rxrl4`xcRPo&Ap3^E2{XCWIM`=n+
zu;ZJ_j1l%cA&Z*lA?e=Erjo;KCOI65D^6|RXC$7hF$@$9>n{b<=9GEx#H6JuTGG9h
zMMk4>I)gJzTckV<IK=~FHhUMDGHD|<pQwv^>#q`CmX)m7Hk~<@F=ggVoasHoly#Wg
zc2j8EqRo~30xwIFHLWyEYjaFz0R-C2wB+BG)&SLei6)@y<pf>X(>XA{Vk7KSHga;>
zK9%FI+@#ksm7%S6Difoa)42dy^*bPK_&zb6H<de;hdVTtHD$;9`t@#x0={Hn+jPd1
z1u$X^%5r_4v}^qOf*n^mIb{%>Q)ciz^EEnPZCWwq>qjRdEx{=Lt!v5*I>{Wi*>t7h
zG7u{z;As?4h6Q99#7Rt?G&v5Tl_J%NEf|6OJGzqK#CZiCFZZH461P?{@nhrCq+$|B
z*>PSdMm*@Y3$@s34Ex3v`mACK^Fl}zj$j9}9{fd#9}@+<iV5gP3+Vm}XfME)!(8Ys
zi$vYH@>NX(yGsctFhhcs0{ya-qzV+7ltLsZf>2<B+@vxS!3ES13WLan1BeBv4tX!A
zF03`kUzWf>=f{=8&75VWG`&@ip(s|kxg|Vly9%XKrPw*`s^}rJiMW%fh}S38RnFF#
zO|0ZbA8TFzS->RT0DA{cb1qfe7^`WQYuaNqgL2Ja^!!_~^KZ-N-;R!4h}H})*92tC
zo~UJO<gHH%if*;sY>95Gk8L|3Z#%H`j=b%qXlsA0^{m`_Hahs4-1>Ud{f6B7Mzs9R
z<$||nEuU;DxixxoH1dsq99-GbI-41{=gu;pIQK4gM(aCc^~dG<;}52n_YE#PU;B*8
zv=+-*6|={0w$2@oG{!6U&33<kCSsa92d$r!lzm{iZJDqBsP;~6w6bxzq-nP2ap#Fx
z=aAev6zd$7J4cs0{hv`xb`LG*wncNRqdVK;<&Ic+n_S)&J$6<uADpwsovkrvyX<U#
zQ2j7-*?Bhl`gz%Te$GzXkIT;E54eY?mYwIKZ@eu#--h;G2kvi|cXiKMBd(w2R<BwS
z{c0Aqb?1UrE^C-Q70=3@>$rCETGwhZkiS|+?LS7(THeo#7Ve4_*2sl53#?pNAI+<m
zEe#)M7Q{;{XS=SSj92Z7RUMS84#uk5<*N4Cu9YmuV|(#t4jrB^;-fgA059Qq4~CMO
zNDX#TO_MbE4sH4|?dAh;uJphgIt*an(2XFj0*VO<`}K!{i9j976$D1fX;LlrA;6sC
zzbnNa48N&HQiP}%=YjKakr%_e(>;&c=Rit`u>dlVJPWm@EcI5TT4i&PzXbQub)K5e
z1$5$x_0?Am4T+>_bXtuT=n#Z2ykmfuL<j2t?BMYv^pS&;Y8_|6(+LGQ;_WzmBH<D+
z3;E(0;=L@mTi_i{l75}L02d570-@jt@EDYXk8}8j3HMkaM?l{mIEhy>VF<Eyu8tX5
z$VuVi4NOxzzK#P>Ap(!glr=kMsg^C(E0&${0=Px~nT7Ca-Q5f<i7F*{uu)3<`s$$}
zkwE_=AJdXQ@%EV7ta0*Q0t@j<f2yy&9eqad6o*+a?-=8y(GZ8yHOgLuz%DQo;;4K8
zd`@vZ05MzEAz|ztV#hiHltGLxI4+I)yrT&R6h{&jNL*1}_dz&W3v}t@VX_g3^#dS|
z^<DIF5Uu^)5$mKY`&-)PGAfKe<O>qBBH%4}!-b<7)Gml32EsQDym@d9;r$zT@dbum
zfeA$?WU$9sRBqvo$!n95!dPjGT-p*VJtCJLSuSl`wjYaHj*;zl8P4L-tcDT&E{A}Q
zn1J>`z_TQvwHELSp)j1!D=9`%64X#K-Zli>Vxa}QEf8!5tsqSbC^AVeT`|Irs%94b
z76BbY;;$1&UqFMcn&{(DQZj-Z34IfTtuRBOP(VQERY27wkORPBX%sVboyZc1p%Ty)
zBN+;~I0h1S6$0D_ljUg^)!6pn%u2(Frx|&s>Ud4VQdRU|PqgObsuAjso%O3G_`-?U
zvVDG=TvWS?U{LL&&(Le6yqhxTtQu(3j`@<$DEO=ywFUrFyQ(6Wv8zh&s?xi*N1Cu}
zyWX{3?<$$=na>7oj{PNie~I3|C%Ur*`}XL4dr03?Af`-jD_gbLOoR0Nxm60kOU{4U
z{dc?9NO`rK+PyEnul{L9g{dUIbN5I7JN~8p^3Il3BQ!jARIi%g3pls!m>;;^w~An(
zKg%mVICT5aniXnm$7mC<BZo1SMFv+X_{>Xd_*u;|o7(9m?=uR&>Q3M$c;Qb^iGxn9
z;l?MQ0#J1-nJ3`|CK0XfziUjFy|n!u2Lu9U*WhmrCGRQ~XH=a<+Fy9yLj7Q+5+J;T
z6QoUwRz<+<Iu-=X@ESmxFp4<F`hp%0xTw|v?<kM2Ji@P_AJS^uh+3eIJwff5sIC4)
zYo<oNcN^1>+K8L$`&9--J;77;1l>=c-2#f9NggC}hLn772;QXN9t{yum|PNkmxb*J
zeyqa|;EF97gi|b9^h>eoc1f|0v6o4}R$ONX@z5IKZw>ulh*&_bCitBR#ZlVtOe9^;
zPtjqZ6>k~?)LlbAao6t}@VWFNFJQbDsZ;F9Y5+O{071hO*EwmO*~(BgVS_LWbN)U2
ztzqnShWf-_9y#+N9XShuy1xnCH^@5=$@bQ$rIqZ#=Jc1t$mi1!p-t3}5Yt3cc-J8O
zF?<xW>IJW(DO0x-o(AFD0QFDsw}#pg>8hNs{P4^?L^O9rExW#enm?4Ac<&M3#q2%E
z))AIqR-^Df^xQ`fJP%($!|&wCO&tHHn4yrbn=FM3jly@J_s0l!12a4ZU^n!u61a!}
zorrll8d58b09T1)&@7#G8HM#XCzs&~Du*X%X5b`c4EshzUzmq`9KMw*#-Y$<XtuGO
ze*&Z%-q;f-=y6*(bATN~7vMDboM3mY0Uvl_K292iC)B|BD65#@QJxQkGho~yf#<^A
zuWIt?=p(1caaw@G;Ts1t-$kNcAiA~zhzh|2aSyzH2=KNriB8C?p^)S_?t|M7iRr*>
zCU79&H2wvy>@Sgag8+dDiZm#6*AqCvRM?)Juoq7NjI)ig!Ua4ea0Mj;aBz6%*-N3C
zE{%aeP9M((YshGPlm<G<BX~Gdhe0MME6C(afM}$Nq+hnZjK4$}0_Neb4%na<B7VSI
z0iHv^w*){)(KZP3e;*3r{@U6){eSAiGCWX=b-pongcs|iOQGa@3>)x_0fpd=1Cx+K
z?YX&jJU9|Q2&(~xCdA>nt8sMdPx@pJ#ROsh-4?dsmJPu(dpIuzs3Eb{D%W-HDQ1op
zLH~x!*THV&J&_Pmngl(a9GnY3<M2(4u^?`+H6TLkrfeiruEX5uNXJYIe+_JO^%I9l
z$xOPIqJU~ub&AktDO)g@05O0-?Ydu<s7{s{;vB$A)#pL^N&GZ`{8WKBOUmAq-Km9V
z|Jsyi|5`l+p}yA&#7WD<X%B1|rrImqI0@V=u~tkNFnGdKU+Ul_h^oJaaXZz&B1V`P
zMO1}K9w_<oKu8MshTt~_SW?W1uW>veDGc<FDtlgdZb7(+Q<0d>Rh)nk-w`CGkO&#E
zDr#t&koF3K{t-f%#$nfBYB>IEU_>$Uz7Zu0GCrsVV8ul3B803%@aAn4Mng&_C=-0V
z<S%*}QY($bHfWZVJdzSiN=k;IF{NCOc;Hrwo}tOq5RZv85>rO(2GP?*cfwP<b|4zk
zo&S`+#`Hc_cjn@1iQ*)_a67I$UnGjkLzYU^k_aKDi6PtwSS2V@#lT*MrNFh26~|%q
z@YaEwWKA%K_bMiGiGq($g5NQjFB65Sm?slo(6-=4C=ABol`P3OGAeoC@)eqplnfE>
zWjF_e*BQkO#R-8|GT6(bsE0wdbO4d$mS0a?^xs+ztG|RfDm;Q7bPdIShC{Jxq-h#l
zb(;CyLeb^Fpmu*s)&GKOkg0~BQ~AH3-ujdpe8yzZ`y*w~DEK@p9H;4adQQAGb#v+&
zMJm7M0EzV}1=%w*WYMjA7v6Y=Rd~E*vS!1}#?nujs-H9VPnoXATPo&;Fn%;|oF9mU
zm$&ShdFAoesz~DpEw@|dy$h~|Y7F%+wcpz(?>undc)#a<*H3zW)boJ-aj)Fc9o^9r
z-|0$+V(y>6fA%Nme{}xAJ3oF?Zt02cfcpi#qnCyk-10s;%9K1V+`Z7E{(@%7d%tPP
z{h;cB_@FG>+`GKDPcH0>p5|hwhh_L*I6Tw$F=L&rS%FcNRUeh!Dg9{Moox%#%auoD
zredadZr@{D_Dp9yzhLH+nw3^Y@;@lKT{3@aDeq4I(y0e~<>tPJqTKvyv}zz;UAMGX
zu0Ha>C|7qrcq97iz`uPhT6Grat9lLTD|;R2+w#;*<(EaO=MD263-m(60=tyAoYypS
z@?-c35EB`ich0j5c?<0e?=0IJX1f2=TD)M3@2rhGtKxg>o@E$q4Kp3U>}&|2#j+aZ
ztj7EP_~EXPkDQF2d3EK;K>Wzd0F>QL&m8~EMw<?QW~NQMF;h!VEtIqQ{;r2_tW=(l
zG8G?JHYF=?Jt=977dJdL8J%Y6d}^ceDx-&Ai#IeqGtzncXL<kv_Vm?T=Wd>hi1VEh
z|8kLQrazup7|V3Zna-u!ht1K~UXNxvmov}Jbj3@{BCkhY{owW6ug|}^ysc3#ZG`1N
z&MBMq-UwU^L>eOOLh(vY!<7>=owNCI#{8|mD}8gj=J}bv6=q+Y$(rf>R`-?e*|T$%
z@1L2gzUGb;M%WMYBHZn=1@V66gCmcaGeA+EV}9Qc-dU<#kYr~w+&CXr$_IO8XRn;w
zJJXZI5{j^Lj$_`n(0*rMG`lXIvu%CD(&WSTc)`~`HyKQC(<<8XAHd!$aB^i+^g#E+
zJo&&Wx$=~pd+PT^`?--ey+Xr%?<*u##rZgQ`&YL31eIpW1R{@&k1|8o__<e>bE=^<
z@0FRMCHDSg^fbH748<7)>bcSr%{j2b9E>wLP(69&<m~hcvn{=5M!<-Bsc5E$z$P|!
zuK5vD5@!l$I%7<s%oMILTjGoz@SM7GDw_ND3d8EVcl9Lfhza{(j=4*ZnC&S9oLFJH
zb;#Ml2gm=T@Z?hO&GV6|<)VEHXO@fVepYxg`kFgB6j-IG3A)?xIYpUz4Ekhq_IU_8
zI~PXp`=h6WkC@P7UG}~Rn*`XV>C*(;nN6@okDiX6yZDH?q!X7|ae`NK6OWKr32wZ1
na<$J$F=fB`>>CEE=oI~%&&>ECuj0|e`2&r%pBeK94%+@7zemb4

diff --git a/fixedIncome/src/stochastics/__pycache__/brownian_motion.cpython-312.pyc b/fixedIncome/src/stochastics/__pycache__/brownian_motion.cpython-312.pyc
deleted file mode 100644
index dcfe6642f602f65a424d4522a4a2788449e936bc..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 10697
zcmbt4TWlLwb~Aj5q$pCd-Vf6wN`BC`<T&zE8^5JEc5V3~*-jY8^oTQ(sE{1`&d9O|
zYFE4PVr5`kJNam2EEZP!(N$mrtM;efk9LisC<63nCUQV#)<GS#Mc03FWuRz2x;^I(
zXGqc9EQ(xPckc7tbMHOx%YUh<@iLJ9Ui!o2KZh9R->_n)+CpJ%yNzK!VFV_^2&`aB
zuo0GiZAp8?!D5>|;Y>Os&ZH~iqIE~2D(Q~6Y1x+WM7%J@nW#?sB0k#YO4KC%5r3gS
z5D8FtwUIjbRwXth>m&8F&z)#UHbxq0*^_8WHb<IS#={6*f>(43)$r$ozZ$V#@QW>?
zvlS2)0-{g!PQGbwqWGn~wPIW4-b@w4jQNGS+s;V4jXB8(8*Vc~z36{vHy}hh#EnA3
zhuav2{DsgM3ECKdbGQiIED23wPz;XS#UPgOi=}b<xcwnpfW*OEr_e042(7SR`tKpE
zjw#Yf``Rk@g`lrP>=Z*nyU0E2c<3n1=@PppPZ{OX97el^jgNxnx=`Nq5N;AvWHZb;
zYm`g#hlL8u!0fF8V%jB!ObF)eLT{(ISqR~&7TafRGq!Md=5z1JL|o?N7>TD9E+(ZE
zKAw^}o{J@TS?0zh!i|e5k?=}9HO?ic5=y*Bh$qFA9G6mjf;&#6=~SFgac3n3TDUZ?
zOvv1HT$$jcG`7H)m_&$}00>g5*XzBMiYuHV$_lJPL~}_|;NmH6EPhKAPNiZ}QtYKe
zXdaanDK^2&N<1bT4Worsqe;4IZ+gc20?%V8Y}4HWuZRkusCzIM#Dv0!S-r+U;ilE#
zK3BjGI^8GuM1mhph)~`zz|WkJrc%lYDRom!A=c|!`9y3AHX{*e^$f=*L}4l+65VGm
z8<j>U^?<DKM2TWsl;Tn&ri7AegTT*3W4H?B<}!MX1!J7V1>J#%sk?}%Op#Q~Rk(2c
zpd>(QU;AsI)K8eKbFNw`&@Awk&7^{#uvsR{eh8E#JE3IzZ~%DXjgpaerNA=`lV!|V
zzhDGMNjqE8?ks7yR)O)ZUsjo;e!?nFL=n?uDb7X{lXYa7M^z>r&bk0EN7jY3NjcV&
zbt0er)RuLP*|2q($+`r026jAKrFaTJm`N%N&6@EAI8`_UAle^!OldId{u8sT_1Dev
zWZhZ#%K*GgHLUHm@TxNKnyt243YgCNvc9Z01G~>w3vMU@j#xt&!%W!ApMfj#a*&Q0
zJQa^|V^gUZ<r`$QcuEmTT0%|%UgIe*?c|7<CZY_42rR-QXQtA<DS;=1pV`Sx$#f`%
zN=c66QvwIH#+jtVO;5yQ6O`3}p{IZ$I7Q+{MNXLztwAy;jnM`QgMv&66exhgY8*Z>
z(Hcfq@8w1Sgtdd|cp||i;wh0QiJ6kUh;$#^O+GOt$`t0Ps7#AuiY|!5K^9mGP+1|T
zC1Y8@6wyo*>1JF2%*{>pQaD4IWV!f>0UyJ-=?MUj+{1xv8<J9DFZXtwz%tlx3N$fF
zM<hjMLV_tMvSd*)8gKF>j`9Fo@VrLIl-QfuaK0Q7F4KZbNK=Xo2*N2Mx`a=Si(JNm
z6TfA9K~Au@ULbph?Yg%p7<9KO6Lh-}i-ldf_c9*RAR!Xb?Xp62*JxZ8V~SpFe4`0*
zOd-ewdK1XV^b|-JJ{BWWd;+>s<H|(1h5)rP#D`f8W`4{9n4yuNH%z6|BB7E9<x&(b
zR=lM*B&6xrTifUeps<)21#O^2Q7T2#640sMO#2imni6lV>u4yUVks3J<6|HybuZBH
z%_yY--Akt!^nfTLM_B3GJ-dM5rClYOV3$l{yGm5RuGgi%-e^)r6i~uzjp9v{Edag&
z{^Yme_~)3_4#w@9%RckBtTJp{lwD)kz;zbN9>`scyWyVnMb+k|j>k1$ga=`i+TQah
zw!Cwt_lVka6owsRw>;YtUfQ*?rC;6rgU5UR$^PW*%F&DJkzsXsWYx~LU8W$fP>@&H
zS6-$glxy$N+IyCgkF!tP&!~=;=T-IhX4TCHwdVdWs`~SR`j3yP%{$bF9a><g>fZUh
zeb;iQ*4_srpLO=-I!|kzr`5|bRk)>Hp2?3~&!3CEa@s;7t2%<O+{~ukx!_4Hcv2mX
z<}X}Rqq25E$)C9nLpF`VkoHwK)3HxIcwQY&Y6p{AdkQhAYy6m3TYJ=|9<8o-?sUGa
z4kuC54E>s~XW9FhSC3!T4qw*ZxT5*4sE#XZaGXpGGc(~GVp{tc4*3&CWWeZTA~u1I
z*ae$l7af&^^_X37h%Uhie=e~~s1n_xXA-ZfETKRb+@eG92=+0b;02?vTJ#AX5rnQ#
zecNH0L6I7()mPH$r>!8eg_@F9FgykSZN{2g3-v%ry$<TNCG`zL9pLE!43VJ9(wGAb
zP)DQzjNMi+LmR~=G*E>G*b!AnFt54t-u?(Ys`kcQLL=<8MQAI5*(A2EgIgINx6lkT
z!7#neMA~QU;db3`ib=yr%Uq!1^H_<EM-97DyUye>&akk)%c4WxC5><@Lq)Npdn{o3
zh7$WPn&cG{zhy|JI+(N0tU+T0|JJTkO3H%y5{0UfvNoup6s0L^hg!iz28HYRu`TOJ
z1(kwv4yK3O99jHknaP47UTg!CxBwI2S%yp2E(cG8838jY7#fo(UCR<0FD5;K31k^Q
zlPG`7(j;!YELC2q1UJj{5x~HST3FE<ihP=A&BBh>Ozs3D5$0Lg%rKv^L*am43&!<&
zOVuAW)skVkdZWdww58IzU7Qig4p>fi$`gEA)Lo$T`NX*Hj!j4jQT}koR3~uLpb5cP
zCV1_-lL}@X;1vvXSq~Vpy4c{43JU0?7!kq6P-IFcpcoypm>4Tk7ugQWQyl038Bg2L
zAY?Nl=8gi4xDt(Kn%7f)ui5c743i%~21>!tbiOg~c<SDm5AMKkd%mq}-tqH5{=jMV
zz-2A8=jqjJxvQhv)loGzo{JGJMpmxMIC9fhffm(0un=BUa$65;TMy^94ruVdZD7Sc
zFhBFGd&{p*eR?X_y-(}jx2)v$4{7^{R=UsO)XsckD=gy8w*~21n_$VO?v8vgWT4P}
zVBYbiyOV4M9Ag&MLj}u}N7|qOrav<Y-|{rfkRE6Yv!oY3pRwcz@R4yUM^A_zWhPj5
zIAxUZ9?n66nPZ*@>T`i^EzqsHyT3O|y8t9Xf4meSB-2bs8A9s_@dFsKR)S7Q3xrg6
z=zF8{MkRERz%ngm=vaKfBPz&d^knY-=+2K+ckp{7vcD1{XtZVO%Md{WM}!W!h(qR1
zMs>G-Zyfq7-~euEDNnw3OY3^$2;eAY-<NU^R6@mLiHg^6$CN5boOs+sf!f0{OH)8I
zY6i+d^HBJNDZ0a`ZzfAeLO&*Gt)Mrc)sphYxWd@Vn#YpZ#j%grhXn}W9@;X0NwqS{
zvEd1cD6uK(d4L%!O;ayuN)`#a6hfSUPXIm^b!O1vSWh07mjsRo^b!lKG68WKYVcDp
zv1q6p&LH)MOyGuxg~)`RC4v|EujoyLUDU!Z?>~rxkZ{8`DtPD>$at_|D3}5ok*_GA
zjgA{IT1Fu;$AB4KyLs_ye(%BD-c#D%Q~AFAxxPWIZ!q6~IM+X{^$*jQlUm=&{Px~o
zhd&Fys&>}yU1gk}y_5=do1mZy5rr7uyO~gHQaZrAln%Z(4L|_nk?moDW<cv&)B`kA
zfer+_5w@sAPZ+!*n=8+ov~;_<B}%ImsM53}SVlotkfuqzp|YgZn+=t0@yb}3um_mC
z_PdUleVmEeKG?!AR{`@``>aE0wqUlHrQ#QCEC>iqqB1K>W&r0S+t0T-m>58swF0xH
zmW;B=oCt6@vt0a|_{};Mq+XgPLuRS?okYqkOIh0^hdCe4?z`usz$;6D5!i+0DeD}w
zf@dZ7fjXxwefN$qxP$?;$(?1>pqh1Mfa;(Z`?=Tq$85uJPi)~_r<t&m|68yRyvXsG
zF4CYQ4L40CODr<(7MFqsSrOARmeMm^O6V;_qaf@85nYjocoPI@jkqt3<;W<vcnkQ6
zLO>WIHKyn?<HtqYkA|!Yv1b@KI>YhlbYcdhQ7H3H6pT%7K*UgpB*$qS4c5Wl5|@KB
zTn=k-43JTGrvw;;pfIuxplKkar)aqrW+VOx7s7Q#+(*sWcfm(0;$D=V!y=03_&97I
z);%kd*c6FNTV-zhDU9}E=<6aVF4#T<s^y-M2~i@jQy6=mK<EU5Zrm_z5bA?M@AjP#
z)Pm4b-|pf9@uSBBOxQu1;EoBhn(ndi&^<~17B#o!7k_{RhTxyUh;TDODWrFpr)vy}
zj?R=^bcs->n)oEnaKROTQAT!S#Yt}+mV<pLl9Z5jcbborX$V=-7!}zFqYO_E%?jNP
zAu2LR!9avekdhP`8Y;(lrVvd@B*`bJaS!7922sd97#*%Ml*nm>hUkOefi4R;A}K-l
zSk$Q3oA*(&3%Lp=P=Yp9PrbEi>zL$B$RtC<LGG<EW)=X+`+-G3AvH1W-MO}-THDdj
z2XbewYiF+K2j0mIT-F9I=Lb*b2Zvr&+1t;vXxKvl##ejy@SVd8A+37jq9ez>sc~<9
zQT=8fnuqQT<$Rr*uXC|G7utiKhHvk`2e}6m_a~n1*pu6FNZWDfvGCi}Z&E8e&i=QZ
z-FA-sYU9?0ON%F7*_rSUa@#Iw+b*aVuc+@`Rj-Zau1#y#roY^F3&L7367o%m12{Ag
zC~9n3aO7IHYc1PX8g|Tkp1HkuJ$F2J{dfEe1M`0HN1nmD@%!;yaK9GZ|G43|!QTWw
zZ&eQruLMV)UU@Hf<(hT{;!Cky^oAC_v2ulIL85}I6bu<N)c&(t@GQ0jLW={2%cBPN
zsqTIMvsQ=bP$%slH}4qi_v&sl&Kk2cBb+WsGeaN$FBGU}gAPks0vpW^b`u&Ckf@Gv
zfMmDy`v1dHb5x2E2sHX4*fIdUD5XJ;Iwq^>lIt?T_Nb_nT!KSz{L}_9FUZGiZ^6i{
zjkKTyj#@eyq_L$%ilAVGWi@79U=2Dme`N`*lg9fSMBhy+HHD?jC({t4M#D{pm$d?&
za{`3ZQF4zZBwm47xFkay8_X&Zn`a>4F7E_k23=4Ulta7A1vSpMTyT6D;5mF|fcZGN
zD0;|w*a40FK#1GH--^paVGp^6jfQ~8h(wYNXT1+vbysXE2~QA&dO9dj2%3uP7#!n0
zl*<YFdxp61TZ~P2`Z`b7Sp13uUUN{^_1*`t@=qWG&)>)NzM1P8)OrS=jDD`DJ%cMf
zBbs|VQ1QYC&sy6bwA^o5-1Do$pB`5G-p=)%(fZDOenIOyr(PV^`i9le$V%&_d4Hbk
z%W?f0*Z+i7x&9UI_`Lt)8w;KHL-(dM_r`Ck>+`K!=Ldd%I^VSwLCp_5^>NPw8&&tl
z*Igte6C~xee*n_|W6r(6(sw){v=qGO&$5Ce%l?A-rES*s-E1H@AGsbDSPG1pBFk9B
z2`d*;)-q6Fq!oIqWV`}FTLC9?HZ?;ll6fVgb8<s*o>>xDG>PGzuz=-k$xCHL(-cE>
z6%5)*REuRvaD#d7G0pRJCsDyb6}*qCE1p^<leMrC%giug-w<UDot1Sa(_YTH!v^b~
z2YL<LUZ6UDf!6?xR5cbKm*W{RY$p+DA@4(`SHYuAToUAQs6cvt1RlCQ_}Dfb7vPQ9
z$tThie4$f40&$-dj0*b=U20D!6x{`2r--OKmAH}+bz54{z35Cw>1$Pqw#QQ>lwBR^
zgrw-~i0&|+qvZ){8Y~TrCF!noVv6tyd}9Z2U=I=^L%WOu9p#V_W>TQ`dh`OIF5}n*
z$mW=QOUDEMeg9J37cJXAs$aIvyYfxDm$xjps15z7sH*RJ?|2vXf9dYRGAONkVF;8x
zYi$1HgO5H~YRH8TY2iap_T)}n(oS5W8frp|PUNB~Et*oLG-#`*jbz@7lihdR_u3Xl
z9=vz|y$A2#e}DPJ;~QVPkC{EnmjKon_2*v7n??}LHZm0Mz?fo+hX=DL1Tf)e2l(g@
zWnVOU176<>Jyp@DAjP6lg2G(iaO}j$rDJEJ=PnOkj2dNv<gDAl^Co!PhM24>yyg<r
z7+^yY2`*ciDY+8#45&j*<sqSxa~RuBVTMOeP<g`LPJuq45?FVPf=Nb1?8965%m~OB
z*Am87%#OpK{6mllx0#nVo6`*vv8y}(*3tZ1L%Fwj?JfRgb)EBIKD2$+4&Ue8wpAy5
z;elu)w_1fIH?yU8Y4q2VpG|6;53YK!$;)i(U&U!q8fQOb*JybQ<MOZCSm)-&mj7bl
zvt~CN0GiR&wQvi&x~#4)t83FjA9iiBx;D|SmjJNMYHPFF%0b|`b#uMWy^HUzGVoar
z{oS^|*|vto)gaTg^<`C?bN}<&)`hcLZFtoQ6@XgbzR>qk&nkAoj=h0-au?!l3vWI+
zaQ}cB=+ZphYaZx(dBE=sE_#;EYTUt92Fg!H=tq6`y2=aMyP{FMA?I$)Xg6loaL8J(
z+gWcA8(s*KSrUGM6O9&_`S(W(h1DbR|Ez**i^HfF=)}i=57ie)P{5NYf{piHN-I0C
zicc~iPn;9d6p<kmV;RsT(x~9M&`1(}k?qeko`I)cPE61UJZgW`sr@kj90H{ojV*5@
zXcCil$n-k!u~1kf;-m0e94a<k#+OJq2(hGesyCs`nNs43-gUpnDbO!<C=IS~DKlv>
zIw+s$ftUpE`t+9)axXs`Bd~RbjNsC)H24y{ObAx?l{_2w!n1L&Z2Ue40KvmBxF}|W
z2#*}_TL}DFla!JTe%<>gCzt$a$NCkJ@f^SXPtGl1A`-**awOs)Gv^R#C$-azNE+o#
zv^{k@fgm7da=c9QcLVgdMD%w9v}7AiQWn>p)H0%+4rPJ@<~B?-2x~KxzIDH42(829
z7f?krKu$squhuO4(&k_tYhH%+f6Z+AS7zJS%p1RBHhj&rf6a9Nj;Z|}Q~w{#rLUQh
zubHE(wak|7FKc$P@3Q%(;Hn)9&s#fJomc=?X#v4Ni}*IZ>Y+t1)6%i<&PP97t)^8U
z6KK9iKFNHP(fpxR3JTs}T-Eaz??&!KG-vZ#0LQ($%HCwz`g`xbV(`0q%g#7_^O-N~
zt$DA1?nJ(|b72Fu&`vDXFU1y*EDt~KdMq!WdlLJ+Pdz{UB&vokt+ZZN9ZlcVwJvlo
z+7^#5u}iy`_~p8ly1u#7Uj>>M91Ek1p+$bFZt2+4jg`Rexp%(tG%tDcTYB@MuKbQe
z;KzB7%pC_wRujniIy7I$r!~vRo^tyhUr>D=E50LhgL#MRXD5Gr^7g5393IuX^|K92
g?>y{y>e%-cRy!B>E;W66=u5}$)lSCIMz7=l0Kgd&*Z=?k

diff --git a/fixedIncome/src/stochastics/calibrators/__pycache__/__init__.cpython-312.pyc b/fixedIncome/src/stochastics/calibrators/__pycache__/__init__.cpython-312.pyc
deleted file mode 100644
index 7864d123ec263aefa9e22d3feb8f2ef7839fd2f7..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 154
zcmX@j%ge<81cIJlvq1D?5P=Rpvj9b=GgLBYGWxA#C}INgK7-W!veYk1Ey&kT%dALE
z@ytuk&rQ`YE=txfF3C^MNGvYNOfJ?>PRz+nDoQNLFDllLkI&4@EQycTE2#X%VUwGm
bQks)$SHuc5i4lm4L5z>gjEsy$%s>_ZSdt~Q

diff --git a/fixedIncome/src/stochastics/calibrators/__pycache__/factorized_calibrator.cpython-312.pyc b/fixedIncome/src/stochastics/calibrators/__pycache__/factorized_calibrator.cpython-312.pyc
deleted file mode 100644
index ffdd64120fe48d5e4e086ca55a75d1bff47c5ddb..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 24469
zcmeHvdvp}pd1qC>RNZPxtp}h+fLd?00P&I#AkbSNVIdF_ujbLTx=K=uR=22b0n)TQ
z*ufcL&z@oIu?IUjYrL7n;2{p1^`6B!v&T4QZ4ytiRcb-CJIu*=!#R`L?B)nWGRDcC
z-S4~A)zy+}01p#;|L|4ot6R73<E!sJf8YIX{WK%PLV;U)`u`4pWe-LD9o{I;n()l!
z8z|~ciltl>OS3vZ?V{nT_v=RVF8zqXWuP(K;5Uw#Tqfez`O{nsgc<$j5sS-0!c6}3
z5v$8e{AvD-kxW<SNR}&W#OAV*Fvg!flH<yuDIK+oV$ByQ*1{Ry*2_G&a=9$dHe9K&
zrd|gr2(MD_6(0#-qui<2LCUA+az4Ghd^*=M!f`rqY<*iNm*mPPVHpsXnGCaY%h{|`
z@D7(~{!oe}Z6G<L%Q#ZtDj<@`_OBRO=~_wrI{&JXLYIU1b7TpQ6uFAXeXhTFq{LN1
z{CWP;kup~q@ux_VGqFq9rR>tA9LseSge^-ABO&>VLhOq|mM;n^SQN4%HDu7_s^BWx
zsMjd3ZV>*D7g5wC)Gucp-lx`x;^WFA6jwC7U%6MW*H<e1zpi_=!~i)>Qm(2&ie2>|
zXxD1UFL&`<v4z(iisX|q=Dj6bq!DA@TeHO)G3H5uEzyWEPbzGwMvQq<V$0MRAh9*T
z?OLvatKwEGZ;cXsjebq%H4rJ5Qq(c%7n9T^J*mTYi=a&D;bW@A6kmi+ry{xuBSpPU
z%VBC+Aj@))rD0MB`B1KPZ21MswVtg2x&iXr@OB~-ni|)Q>%2Oe$o(u(@Fh~6rJR+X
zKZL9;eM7#G!|U<;`gu<{$UESU<wCx}0LMDQLC1i{3!%OV&JiBs93w%N^E*a8yk~?9
zb9~6*3qYLkP%y+<&JOv!Lk@0Wfb)h)<Z&P8XB}sPeoxrv_l132$l(b<rWo6?D0XPb
zGs;<l11U+pWBeJe+G07xIR<=uC=3*H#^fn15C$NG51#R{!1Ur`*Cfj20+v%8H|h%v
zCUP0@or45tF?*S1o*VJ_0vG`bNW3EC-_Jqeo>3^`oNvSvCbF;)h8>y=_i~(LKi3}&
zfJ7ZtEkSteeZ0?$`Jx1l5W%$K+d1~2MBzb|qZj1n3kDn;Hdk-1t|1YLx3=2yA=YTO
zQx|7CLF%4<KNq)jLlv-nW21h~NyiN=a0ORp1h^l8+5&%0n`gW=I2H)Edi>rosDvQz
z)W`GpjQPX9GalXtDGqu<J}-BQ@DR7oyITgSNRt4T_F;WP!F}VSnDO$q;8?$Zd=KXd
z?B~vKd>GhIr1d769=Rl@0BWunZr`Lh3Z@^*r8_`zdd|So+aZ)Qf=`FOalO+Jx1|)?
z85kW4$1_0OW4tds?#4Ha8_#(BV_dh>6ldJ-07$^?j$7PrXqIDs^jqET(_<dL{Dg<z
zL&dY)ZciW(3_~Lf20{?WIN%R@!q=!dcuM_p=Q^Gn4Xz_Cp)=qOj&SQjymwtF9P|!(
zLSdgbv`+0Dp>@gbz`E7o>d|pN12Q8dA3Pzv`vMiqT^2Pgi>2Exbn#1-=kr9An02VR
z74TRU5vOPA3zX82U50TT)SQ)6(@xSK$Gu8QNJpWd@qZ2m7|10;4JXD7xJ|kUt&AkS
z)HS*r>d`U42S?n={yFX@E!wSiEog9huRj#GkRUhf^M*rMuEW7EgG=1%<vFMo6hG&m
zu&44@o%(1kL=NQwIZwTxl_O<s60<hl*d5Jk6qrULm~N+$x50Bh8%Yk3c)Hi`35B2w
z4h31h5QCQ>A!5YBdAmYztq{WS3slT#d#Iz0P4t|eGG)tNISIy|CwUVDpqt}?sFG)C
zm!8#e2F{2nSZJsTpMf<Fm{`*VgUiIGacLYgkp|B()W9+jYF-p-hENNHrq7FOfl%wX
z(U~4!bx;`@$K^_eZp$hiAjnUA$<gc}LP(62Vb3Wtg2I>^3VQ-x4#%F4>&*@r$y56?
z8BSo73z6ZKR9MOwYH@&DIF9<T1BR-}vv_t&Gm#&}t)nocaqh&OiRYlB2D-i25EX|V
zkTlFMgXc{uoNSiiWGuB=Vw1nFQ>Ok1<xVzn&2&1YIkWl&>5_Se%?cw*SAtxTC*sB_
zr=i=MWC_C1kIi&$IS|s1;JVQDQhWh~U8DI-a)FkLBV|Gkn1$Rse#vb2dq(<MPs7C4
zr`L3~8xs4%Zg=%|e-JVYHGoG>x(%`;gUNYHIKoOtc<~5-UhW0Zf%T`j@lX5$Jg&)k
zCl;VG&98?07vQ%ZvqSiCp1Sjrw0B6{JEX8{ikm_~KFqOkgWnel^Cb|A#{rA<WEkji
z5OK@n>o^Q|h7ji;P-BI#R-u*3BM*%JvdAVXo>R74A$h0{$a(61QN?wGu(lyu*(kR2
zGew~(!wj?P{)*zaYOY$NCADJx(98-S2HNkhbpGCnDZ^c6IT=RcM#AO1!53i|@-~+V
z?e!Jv75bI5SC}`ci}WxAE_C5!n;teSd`3|?<a{yhA~mcGPAO4fDG5tCvW(mUOGusC
zwucE2Oo<9!C>?8Ifs5#dvCS@U5EsYZ1@1bnEMj4~xs5E{bzfvyT^L7a;)e4SpL%8W
zVH}Bx8!$}KQ)yGw6azz~;evHiAI8o_oL1T}zCLkb>|n%QOjCNfas@dU5^?|uPQm~T
z{Fw-U1|`m<F}zaAA)=2MS(8@Y5u*}cxh~2(P0gESShJ75Zh1Q~eoUGore1kTt((*(
z7T3B-L#of2-hE9Ux4>x4hvoGP!v$E`r)Rz1d7~<sV?%ryFg~wOW9^bb=?-+$uNq!4
zrjDbkeAF>Al7tKhSwp(r)aPk+yj4@QQODu=F=&wpM<P^&#tOJ-(rTIEWQ!bT6v?Vr
zOcx>RxmT+UR5)FEqSXeq^M_EamTA&znGiSG29=U13fgO;M}5&aWgGx?#|7phqt(vZ
zk_#(nk+_r~ZWz~X3!K^xagI^j)J1bdubsEjXVfy3wxwJr4G}{x&OFdEGS!w5_Kk3H
ztI|5iosJF9YY6yyo8W)056D;P&%ktrbJTHI98J;}b=qsb;pBj$zMI0z*XTECntHX!
zK#fy>tUpVWc@5TlHiDp17KUV|gCSX0y*_S+g@8QQ#mxckti1M149@4t;QUMT_CYSd
zog3vFCPL2`oypV*xRXmMEoA|!PKZ#dj3UR~{$MEN9vBM{w4}yJ7P=qaG=z)7U;I7w
zi}TbYiZ0(v$Er5X>ZywLQhAeD-gL_@H6Iq64@>1o9+JmT=1{u7Q&vf9i@XD#CIt?w
z0|Mir*G%dox`<wDq@RF(%Tg22TM}Yk0b-_6%-3`uVx@G$3L*=xP6OWzmw1}T>*WEv
z#F<f^V^JP)3#|1a1pOi852inP{^Q%=?l&Ub15j{iJrG5<#V^x8E7)?m?n=kiVUTd?
znybT7b%O}Ml7?H^cZ*v<zz|0k@aG-Hv@<KN_j7@`nG1}K0GI_-w>$|slAsE(8o?Vp
z4u5gW!M$D0eVtvMeMfj4U3i2`@hr9bxJi%6Q2GzK<r^?2E;Hf=K#@bRqBzZm<NDCp
zNL)YR8+BUvt@zOB3$Wa|xREdsUy9NPpd(j7QgabEay%d8`BuymdtuxrFIb>%<OUn!
zH(;<80}@pk3L*DcYmTP#;N-PSKE%*$%M&LLCZA{_g6bFUExUl7(BA`j0;{0hrNXj`
zXl~{8R$+Z}bWO{2Zi`@T5prAZJDft*wy2~25v9vm`?~d#@zU7)d1Y5PF>ei2arRQl
zwqCTYpV`nMZRi!@XX_IVxTbAKXY~;OF+<rmN%_5Eey`AXMCuERec_mQNb;T&z2{<{
z0m%~<J>l4)W6~kFc*y-YO>g(mQ=M}b(oO5?rMf+0-JZvKycMj)k4@AP`<tDwcmBRt
zZb|pIH{P-e-K;P$EDc1&fk<@wB*ca`Hb>Eggf3~)O|`$Dn?EJP?hjtd`|hrvPh4pH
z;Nj5UP5tLzJZQKE3#o)lcxD?xhvEy3_FXf^^)R@^b?4T{^<n6Qrhd?&u%UQbaFl2e
zoLM~TKuN>od(ekXj0ZGG#g~Hq06-I`Gypd=^uh2Dk3$j}MB{m^XWZ>Ytqjn>87_c%
z#&v<wxY5J&o^c)*RdFNl2@G<4HzvcG*J&n=i!?mG1w&6@G};}v<1*MMj}c0vl2;P(
zOl*mu4|4Nd2y{ODF-&(HNC;uk$&+%sY?2#g;WOISM8k`<%|<MD4#>Zpr(y*Tsi0mg
zsGr&1D{Vg^!mq$BF!{3<s=P`ns~5}a|2a*czhl-!*^3{iQTEkRezTb0eCL3)r(fLD
zAKSH0+I2$Qbt2ZXOKLeLwjBFsqt1SUendf{DeJ7oX12eh`vLQPW|ji)?E@d-h4>$r
zQe_q2?)X;6JMFhigq;VYEr+7p58qpR<i_dmu+wXgL`z))Q}n=IB$PM2U)B&Sue#sR
zdb?HV@I>4CqYd7BPWEQ@cdDkHY;5(08#Py}AE%p^mriBQW>U6Q0<-eTqh=bIc=D*4
zs&>&&9$Bd>jt-$#<HnBGErvg@F}LnuepGC3(`9Od2o|OW1w_1Jejym~EC7;R(gAk~
zhYPtcG5|m{7I}*R$kUg3wAO+S0Eh<E005%BphH*%E(L&?0e~c7$8ZvA$nlT@07)+7
z5&(pmGEY$h#smaGEfR5BsnrEv%3?1GK~lmPWeqg}c`5!y@If1zpfZcN1T;y49X0=7
z3pC+tfeW1PP>Ta<X*W!#Fmyc=hr9tz^sB~a<B*H<g!H`lBm%1@HLi+QmZymM-w3xP
znj2slO%7OU9uGD1v6B|h*f^dGQ{ggUflI+un*mdyLYX+NZuPO4N~^PJq9@29*{zh4
zJ_b`+v^tK8cK}l%>%<MiN_nAE8#%#L$<9D9m1f?*0;b|o|D?Tw?}I1*W}xYsF1~bv
z<AXS}kHX3oc79kl=~%LoP%kg>(^E92WF<KdH_40obI(1`%G!Fl(~|uh*cQ^nPI9Tw
zf=!<V0nLX^jxK;rwXotVs*)T{qNC|nfz<30n_ZIQD6GZc@e{uNV+H<cLM9#;u6!qu
zYcg8mcY`1HB@ii**Na;dSc%+ep{3uLU_S?}&WB7B0GYM}WZHeh3eqjDzG0Qtw}|j7
zX}Q&Nw|FNmbSFT#d+>#A@-lEQ_|=7H+}PXEystf;)!WzH*X};pyuY)#rK`PHMMv_Q
zvlmkl98`)v>;ybQIQ}4#LqM*j^C9#fMsfs5+@>NRS(yA$e5N9w92xnf>=uRMN?6Ji
z63>(yo&tu*5;laZ26^R)h$sPxa^;xwn&<@gYv~CA;3sqpRBH%{@|FqtRnffF*S*5V
zwrF*`nAiSp31E%rZf-i46Rez&%RNAJ)Fd<?!3E^uXv-0y$`y4SMXa<@!AezEYsI_`
zP`C52Qn$FFTeR&J_8pkE9Yn0O5wKEG736k1S7<*JZ9WXSs=4i^Q?mPBu28!xx}if{
z-67_6F3kC`xZ$v9J0iH;)3%eC^KSZ+!!YdjTX#rXcZ*wh1F(Wy!Mb7r44a_uH?`jC
z7W!luc2*oX8*Ms=Fl>UrFhZBSM5n?q-i^)ZBoYsjejt6k7bvuG6;i#7&(0$uO%`z#
z??aLVQT#C8o<ibBf-@ICf+Pu;u31t5(>Ol*T_jl9@#P9+N*zEGm<ifGu7*-j)9+xq
z3rM~IgaG;^bV^_+r;43Yv(y-qCptc@Hq9Y3`Os|t74X!`Vrk_LapjJgh67T=Q4xMC
zj|t53`Qe<{z=<mdARKU3<r=ACi&(J*aMto|h_gxoXBDiKmbZ$_TkniXds%TW8{4&C
z+I3Rgbutxa6%d@Yd>ddM%Mul5ffsQWTpl8MTuqf%e*5sZ4!?8Y_9kK1k!Y)H=J-j$
z6N(-Wi>=}4j<I{yXKvEp2~Ss_iI$xenBoToB|>HW`(=$P=IW2Od7};NJtrq)E>6W<
zD@qYB0_buGOyQG9pP}J3o;=z@tvf4&t^s-uA;k|fceIrlepF~~t7L9xnA_IQM_q`3
z^zc8|4T603zBz2VU~J;Fl;jawYvTq&HP94<YApI7RAbvlRc(X1ks3y&;Q|-YD;Q+b
z@C+XHnmp<?dDMR*9*q$rD7bYKUv}){_<<llBJVlNJA1gtowPOr)rX^hT(#{%LlUw-
zeI}^~TewM$Q-^Fs#04Cl0WeBA>*3iD8t^1jlTMhDP~O7Elw^JAWcbq{zm%zx3_fId
zQRmAqK@_JcWfU2OfOsBomef(g+Jnr5{1@?&EjbD#f<xH6uvBH!(wvMjQTe>%z$M5d
z^fe&oDd@J#S4s9AqJ76rE^2R^%6w3`RVs9eg|3)2Te7YZt!s#CWxZIiK4yogYef5+
zSXSO^=PsUmY&JOT0<&V)O059xOQ%@SDeOKGC3=?!1+`MaL9yUq%<7P=^`f;tR<KSg
zXcP+?WA?R@y<W7}tJ$o8Z1N!+()Gx$s54`s@kW~4%?7=0H;?^AHjUYcKAik{)IP~I
zfHLN>bMW|@3k^JqF$_r!{D;m1xj;SC>5R-Qqc^U(S}AO56|352DYy~(jtR#{#J+%h
z7dktKp|jQ!<0@hEKB3nwZg$U7c*hRS;dQo)b{ZW*lS?@66PtXq6y62+IlRsuq?f>5
zVcpF&V&TqN3U2PyJjRP`N`fq*`4L)*x!q`#g{DbF0c}7E8}k`FhbrDP9BgTaJx-mh
z9aIgnlA1q=Ywq<9acI88!%b!jA3PiIc>;Tas2Ke4Lzw<Pgu#jO{ZH`u{sGDVLh_GD
z=8*gX2!ZlW(+A)9I=X9(AKYB^g@5R|`Q66Bw?=nZq(8XPI0$)wyV1!1K3oP*W9aA~
zHx9}XKiddAX2JuqBQaS2w|oEHn}N?ak{NqY&h%pA;GcC`b*o?b-NwN$`9JuVYY#u)
z=*27*hr<~eO#cyTG<A;>4Q5$An97j9w}D-BlaxA8sn}U-SXK8P!^weEYhY3=N1mP=
zVEgCFg*9F`Dadn@hJiVWz-9iChLb}v#7?S-SR>0^H!EprDvats;<VIUPv`bG^X~KB
z%c4vzZ2EPpvd0QjVN#LCX0VxTR)oH8OFo5Nu@q$(tj}=Q6ZXk86n3XTM-ZZ4&5am9
z&9~G*O&VbeOKK3pNex06w|t1Zo~_h0?!gZyH3-Uc(BJ5<=O|o*{EL()!`O8fI5zis
zo@QKJeJ*h963v+93!=fT$~VX%En%+!9c(f!lBQ)05ASXxHVkP`O<A?LBsHZXm3eQh
z!5i2^7*Us{TvKW)m(-Mgc<thHB1!8CC~--`-a;qGn^$7>;<R8|zHCs(=3lpK^0<C+
zinkL%^KyRC+FSnIwU=ybAR8v7_LvCs)Y@azR;rQmX|=~_O6HT*-loO!e4*MaU|0N_
zYY%7q1&&>*S$mroM1xy)m1az>{#>XTQ$y<EElN4zZHf<S*qmq^FsDtLBWBit2K&%I
z%%p#qKZQDl5ff~j958n7P|8)WYON;9h4Vge#KNFiu2#P+Vv9d<%{D50uqD7<lX9nC
zQ@Bv$mO|VXHICxbj9UhA+msmURWoim#NDaJQG9CLam7|kwa`jS+G?pj^(m8ls`}KY
z=Hycdb5?YJ_ypR(hqwm%5ElhJj*R>_fLzn7nz*=`h4o<|1S`91blf-;9OFZM5CIi*
zXzvKNkxYmSgAzA91QEcfe?0VIQ%e?VJ+YzlXulXY`vPEG4f%xQ<`K_1Vonwsl=ryb
zYWx7AfP23&5%NYO*wtt8Xs3_m!jAMA&Yv0(8pU!gD&&f1^(Pjg0B>*=dQB&9abpj1
z(qt1FY*=tT^q~m|aGEyY8w>%on>ghHE%;hEbpTp$2RZj3pLIyW9pw;6YvObPpg~OH
zNF-Shd)y%(k^mG*aACrtSw1xJ%bW$VA@2!WvZO@XorFC+uM!MQ99hKPKGgTf=Tbg~
zrR3=i?y1bAtMNj=OefjO@h8kOo0VnGiHtpo(+rL_fD98Ii`XGi7qKH}@Dx#e$U;3#
z$SlZNOe{@#os{$wHgaSGn}VYkYkpg5NEbGaZ4>FL5VuX_^`iMABJ<D?*zY>fVrQGP
zl>Z78$zKK%PXnumeqVr-+vpn@qz4UJJOj<Zh;bJ-X#T61;7xqGBKZK3Q^?&v4i;sJ
zHXV}jApznz;j2xLV8*z9)E|zUpuLUpa2zD;3&U9$!>B(PR`CnpgoT*=925iA#=!Pj
z{wxU^_j~%G^_$Mg*UWi`OG0teI3COi#j__;_HsxVSO@WN)QP`=*<|{Ifk8K@9!A_F
za0Z6|j~KWr3GT^8Dv=l*r~rw%Q3Os)oY;OMK;-`v6Bx<6$8~2$WB}<7_7BHx9(KeR
z3i)s=M}BTm@&)4~95{K@X2!D#SMG2SP^f%9Mm04`(Ky(Z#GE?>H3*q1N=ZHj+1!Qy
z5Mp$+1}eDRcBS}A|J9<aJvZnZ8=|?jQ_TJ4mG9(BTRX+Ao$pr79CS$sPlyLkM7O%{
z*ELFYyTrO(cbJ*|2c`Wkalb2CcQm%C=CM&%uz4yAbc*JDi76AAvg<2v_RKgNZ+V3M
z2L+~VhB@@WW|wT6Mcd}vl~T)ov1R{E@9`P8S8@-E?!jow(EX+kscE0sv`^?cGIP`|
z9rcPwz0oH2eluvC56m<lj5Y5DyP@nZddm3NLS-($S{kcb8!L0hs<uLSX8n{7lqH+%
z?-d-qntyZXPO-GxCGK`b8(iP$5DJch{sQQOC7Wh;9=hL*rbbKm(o+^>Iagvfip<8F
zIRdkBhS?5UZ?p9^%SFrOy1PuteJ1@i^F_0e^YUYgGB@k+9&Ai!>bve`@44!`<dkxp
z(H!S=_MZEj+U{kyUxA=E*L`K(bap$GVctbQkP`^mMOTWh6bsp9!odMya7Y;R2?vMo
zRh+t0c~vJ>){B+(H#_cDwog}_nqmA{3UDCgRSH$xh1?yt#_lqE5=Fmi!7LZ?H!{Nn
z5;5M1+{^B|k$!2ll(RaTvwAwa>waD9z3jHDB&Z~sQ!<_1hTQGc;O>}T7zqd?LE+fw
zy^7PqzQf2~vsl@DtMYE;XQnGo&oF#~y-Rzp>=1G{+^oIJG=D5}!04s=8KzK4(>RkN
z)MGQu@kGiuR?YMrx>s~q*uF<7-gKiiT3k0>ba;k2l6amXz~duAASeVzh2y91Rq)VW
zuIjJ$OVur6b<3?S(dw>fW!H2CKf{ESGWQ52^+N9UTijiyE0G;aF+<37Tq%}{YsBK3
z8K(ArGGLQfylIB1fq<!z%lp51{OiYOnAPNQ>6Lz|e3w|h>n_vr<WVP0tvCkC=R7K>
zn|>0{ZhsQ5IE4m4IeYN74Q@|Ad1RxCkHBpOAKDIm@3tYY$6~l`Hvs)HliQQU{J1Q)
zC(rT|dw!4I@)s4kJ*$|%H01V_SpITLeov+4uWGG5Yb}3WT+p-8qOE(eEzrGang51i
zjVe2$nb9el3RTyjr3_Y9QlPg%eH3v-s{_{c@?TQ3L#r0xYFsT&Ko^4x2;!brW`t(b
zt}_asV5_cshBihA`j-TkpnI}hPgl|co_wk{2Cd*zv>!UqcqsW~T+dYX8*CP=%59TI
zHha><=1iusxswdsn^mm{=sQdibHo@)i!higXc-cEr%6jh57;3+fgMmgk{(HqXxcs`
zwIk_(Do{IOolJj*c4SGirZOT{czZzlDW&C-(kz-<lXT@>WrRPOIhoEbRn4u!jzm>a
z<mlTnmV$E~`4<e6S&@w466KkCjU+WklQvZ@!?=oE;3BqR4a^0hl?x)mEre=lkswq9
zU4y>CAm=b?gBThbJP6e&IgHlh#0_hpCR9$b7FKtCc}lC=kVrrcqoR9(V+*dYP-F`&
zP>uU6oU6vvz`64@McFA@itI@Ca1yVotU#^GI;QNWrcB~nt&~dJn)enOyeTa&lKhCm
zbEo*YHfwvHHVf!CU6V%~ZWlQDGX$xh8<@u<g0clJMJuJ&%!}4{k!H)#km)?#Qcg;J
z=R|UzTHiTOP5HF?&e4>m25-sw{`lH!ULZ`kjVu^(ewEr|i`f#;U8H<0;#a7>R)rU~
z6h?qH<xah7=@MA5O#Fh5H4W%+1W1vLnp@c?9Z%HUl6s2tq=rHDWhcW_pZYW>`Be46
zQ)hWM|8?M)s3Z7)kG^jrxq^h~DLT;iEhK*cq>ukY^j<~s9VFQ7`R^k6Js=6aLRe8S
zu*%+&(CB31%T>q&cIS%HLDn%WNqMHK8~FbYna1rZrdpURPkp4Oipyw}U@JHgq~I|x
zpd_;O77Xy%<$2Va@&5_QCM0D*78zc{oJh_6*6<pnK%C~u&)*te>yE=(0#<!5ekPRc
z*2-3Qq&+59m_+!fK_u<*w^r5^tXq%63Muu3s){F6%kT*h8IH)>R?sO317*9wVY<Z0
z)!$lK6WOSi+{(H{xh7Ap{-&&~`7^*Fe-4O--Sp>GRTmo^^Mgteb#w9@gxX8>pr{)0
z8P<Ag64@$no_VVJFnRFwAavyU7SyG?=~yKmJT0r1O54QJwp&M~_7h_J38~Z#M!xX)
z*Ka}1zk~urT$Hp-k}c2wKak)Nlpt;gCr+2@%1_citNP5<iW}Q*MnH^}8*g+;H9JN4
zRqVX8;cj`?Lki=_rqcXpAtnDge7*F<>&fRXWh-N10y=>o*dX6E0tM@@qn)(lE4hH6
zeQ|z)u%bGezwUb_!sd?X#!fN6^Ifm7e<<4Rn_lJ<Y(8O`??LHWp}I|IKYrUQ>^>IV
zd0ePI5iNCteR1~Y*SjvYU#@*WzxwK!n2(nEOO{J{HDX@POl_A`yI+J~9-g|K&U1kk
zaQ0>}0xqkD+-~;@okyeX#~@cVw|#U<cHavL^?Raq-Qv1#F@NvEoR5jM$Hctj!U^wm
z9*a5eL;K>Db<&DM;)+ADJiE+AtfW#Z*&>!~i4~PgMKxkkO>EhUH_yF})@Lh=E}7@7
z*yLk)#<N4L>j1SQ+zK`as9EhRziIxu`K=PUJ|C1juT~4&cHe1}x{ixo$D`#ZK(7oH
zJxA$E2!%7FmyDpX&0l%RDw}1wvGPwM@gV63B3l>pui*U@5H0In{!8#+V*jV#Dz;<A
z7XkTKu+T+$G>b*eGc8A?7Pkn$qLYGk)%<Xu*y0n5h9MlZ*BduW8(PE-EnuO$s*Q#>
zEvW_*-NFshs$Jr$T|)0+sdq^19g6iFlX`~5p5a(mkJL3Fb`8K;$ig8!3kk`lx@RrR
zGFHCR@`H}=cg#}YeRs)6czKBA@kXj@&7b67%fDY(`c|*ttdEv$e<vig9*8y`6w3}q
z3lH719ll)j<-BRz;W<5B<pM+Sa;PgurLd;){nhQUHS6!Ub)td%P;|F1+BSS|-Km?W
z|I{+Q?o@0;-OaoknQ%JNQ3clHV5yr|Dp*UNJnEs5uP2WhsBBP#f_iklpXOi13c{m1
z@Qr~2a;O^y?8I@j(5MFtvdL$^Lj1Qe;vXUT9+Lk8Wa4w$n`n;Y9@dL(Im+KUTZ<n%
zgHO68zILX3T1noBbn5x<BPaH~yl>DK@c5Oo!@k5O<U~QMGU~9(L-?kdyg|5=|1(S-
zT=X6<us8V}T=Vas2>&Y<U7~LB;rR^*k-0<JDuV4up4&E2`HV<-Xr9DW_6C1|`J=9x
ze*?)aB$tu=5J_@3kpFYM#Q~e|MN*8U1W759CM3jU^b-13AlZjxKN3{Z$S1MSqwhyZ
zZX@|`NPdhY6A9Uq{|Wl;Ai>>0{;z?=i=esT*C+6Mc(Caff{zXi42+STa`@UGYz>EC
zcM*0kow@SvridwV|Bj!=<asHOHi=sk8-ywMDX{>;#u)-w(U&DZA@_(~WiV`FM|k&{
z5q<{C!A&~;9u}6{&%s7GC)*#p<-JNWeDSYgoE9YGKtc#0aB^SZ_+=0tPdVwWIRWzj
z8)9YP;Ppd2?hHOyvQk=7CN3#^i@jQNBl|{kw0!eB20UFIUD7;ddFIC9op~FFvAV{T
zO+w~*HVJQ4#hN;_w*Fw0bd-QibIiVSD)W6i9K(*~u9{+E%U4Zhy^moJvRB6{>SM+0
zV+GDwc}=Xy8C$zOR!|nR7d_54=UAppvrEY~p_^<ImP@-&h+q`ma00gp@kBaM81I(W
zEZ8VysQq+5E%bYZepcw=?yVZQb@=ibsc^GcxcSDpyM;}{DmZ6R0Cd)}##}nndVJ=j
zUu^ZyQgA1n9-G7KEDJkE<x;^qv0&W|Q?#HC%1g1tULjfQL~C8FV6}W!K4y1H_BzpC
z7t1P?vWms5VwhCrV-Qx#Y?qjFktr8id!^QZ*cy0DQKR%O-A8yiq<fgWw9$ukvGp}K
z@obX0;xR>=8(<<|yvI4KqcZmCa9^-Tm)Ny@k!{Y3Z8J>$;>|lYER3BI#?A`txqB7k
z!r_xb<rb;3Q>^T~0~?IJ(-q@0%tT`24$of&!*`jnluf%uTc5K4p4)Wr^5%ABclL!g
zK!+!Umm<PTlfv+4?^V1koERVs?iDNH5ZB?ml}Dy4QnrF|cT;;86gC$(3AOD~?VwmY
zDAoGKTK_a`tOiGgkx{W$-bIBtTVTZ_ZR5mk+|0lvRNWxmja8Sp)bG{(6TH|y-IGTz
z>8KU3=zWw)6%N9sOPAbp{2vwL^Y<KI4xzU8M@#bdIt)LmG6218&EH#Q_{sL%y;aN|
zd+y$KmcJ;^-&<q(X-)3lt<1aGxqBNde`U<yr?)sa@~=Z;a%wPc3XkK5Q)P>OL=Un7
z2#)V@BYepPK7n}({h1-JZ*;sGKbC>tAtj%$h}WikUb7lLuUQ?EZQgO34+r7vHq|Mg
z#YldwRJNKwuqdtiY0m1Dft4J^2vvIq2EY_W9v$7}1G0%v6jh&*KX#fpv%%mika-2w
z0&(usDh0+=_%`YS@Cow^`OvC7&EY<j{N<3B(RUupx9!2t-}MFe;ip#HU@DcrZ%HOY
z8^(GAV=YCSkTLk0ZndoCOdK#ElW9B~OhM2P2H*{RkQ9A!lYEuu#jjxwRg2zpVNE2e
z20nN5CMH<DC_#$&7Z{4k(>pde{-;Rr*j_xRxwY>=bC-MX!S?-b*&k<;XF}h_cx1Le
zgpu|5*(fsa$M6A8MX<UeQ}}KSkbn^IzkdCCGM&L!7NO$d^h5*yf8ZHRTT}>DxwCqj
zrXT7ov|%ovqOBiL74K2@zoBy8qe|YR`aaT8bU*ejp#KE^J-Wvx9i4q?;xPpmINV~)
zjxmK2QzbH0S6he|Em^Mc#Jf&p*4@aNO*7=0U<xu8K2Ovl(`<${PbW~ek5=jFCi)?T
z^dsA8nsz*-kj@V2DT8%tBC5CljUnrA4HfShYTh%Hd|>duXJ~uRup9U^_UL||z2p*m
zx%u+xXm-*0-4DS&C1a}Z(uPZ(D3kv)#`=l<vl(eiP3OC3^QrP0fE>13KpaboXVa+c
zZGx>>vTYS@TW`5yt@~mP`=kc1*x&`6k<B5_u+^ULcm!5Bb?0|Jgt^52t?<>h8$~yI
zq7`*F&&)78f5zme293=y?F)j!GfdlpAdQ3?L1$-}UBJ2BBp8-FTuN=*ar4BT!@{BC
z(XA&wGV1e8a2zPl^mA+N)Sk<ALTT+onDp#dCU17!Y(qeFYw*@#q1!FCyQAAr-eWwE
z^$`1f*CT7Kv6Fr@N;m0@`*aUG43x3-uAywUH;pnZfAVMzyzrC9#SoQz=<>Fsyn{0Q
KMDOe{GXD=s2W6K4

diff --git a/fixedIncome/src/stochastics/short_rate_models/__pycache__/__init__.cpython-312.pyc b/fixedIncome/src/stochastics/short_rate_models/__pycache__/__init__.cpython-312.pyc
deleted file mode 100644
index 23eb12ec66e6bc0aca60ad6d7f5b302f735f6025..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 160
zcmX@j%ge<81cIJlvq1D?5P=Rpvj9b=GgLBYGWxA#C}INgK7-W!vez$4Ey&kT%dALE
z@ytuk&rQ`YE=txfF3C^MNGvYNOfJ?h&d4t+i7!elNsZ6VPf5)w){l?R%*!l^kJl@x
g{Ka7d6fDh2wJTx;n#Tyl#URE<W=2NFB4!{90D8wLLI3~&

diff --git a/fixedIncome/src/stochastics/short_rate_models/__pycache__/base_short_rate_model.cpython-312.pyc b/fixedIncome/src/stochastics/short_rate_models/__pycache__/base_short_rate_model.cpython-312.pyc
deleted file mode 100644
index 26f9041fb3afa5429f5b2001e30014ca3b3f818d..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 10165
zcmdT~U2qgvcD_A-YDpuF5c)$Jp%#*W;YVN)MhI45Apx?D{=lp~fo(?9Eop|H8SU*B
zAbBPsTU14CdCT5Pw(Lz+D!B5nxNucO<-t7c1Di@!sLIQ9WNOB3QKk~V?Au`B-L+qm
zb8b)fj0OpNlk7w8!~H$?x6k>`x##x3RaI3G2>+h=ujs*Tg#0HKtl-XPR{sMs?-Pkg
zoI+w;kc*KZi8+D}4(l9>Gv*4qSl+3)gC3}JDrLbkNL>maD-V{(DuNZP-K|u{yg_fC
zwklW!G#;fo<_r2*U71o7+Z5cy^1M<T+Z@~+s|(h#a=B6;YX~;5e1*~&YYH~8e5JA_
z)*Nh(wFFyY{-B@Ld6m}K*5KAyTd*xA1O--C1!K1d+d1MOr-@X3lSn?f{jSs8V{qHN
zGf?weECif}OA2YS!DFmNVzN<=u_P;6D8Lz2R8~S-<f>UQ5^xy&=&Tk=#6ya~pA0EV
zXi|}Zt~xZSYBUtqVzM@qkf5e^Ff@NMF&Ec>Dm({+Bq*z;ktuC3GBq`)!YE^*2!%20
zt;t0#A<l-h88Hk)8`T3eaV;JR#m^>i$~A)~;#cK(zP9{act)1y6q&+yss<x!n9Vy!
zugXT%Yw?73A*9U7IG5o*iM2ph!7{^fNxp7W4#lMbc_wr<lAy-s;kYK#*#vGo5kG5f
zr>3xGnh49P8aB_;jLY+d)fJAAzXJA=NsyCB&>?ZMQ+7oe+ZA^pWSWybQ;scADLLda
z$tk&}Jd0$CliWAGL0&GGHt09ykUTeCck_b<D_%%hRzz9JD7|tO&IzONMQznE8>~hu
zzv&A4%1Jqq8l(zXw~(KvD3Lu2Ww7Q-d6VRoy>czv!A5K4rK+3m;AW{>u9NFoKisE_
z?b8SQY>*mRz6SD*Qj@d^Mr@L|$jwNLBfoHTmsAU*x4fXAf666o2AWpMC2x)P7i}Y-
zg*~r7XPvwi&ZKI}Bh^EHVUb+tg6-!>V2e?GZYDvs2@sdF2@n%wi;88DLWKw-5Lc%X
zG{%_6Xje6?y&9qsloM5yEXEgSO)fG#RMzHbd?cKgO|~w?A}p`|4x(Rh?~^2#BqD3V
zDCvL_Fq#=OmzBHaOp>2fK|6^$thz!P<qLT$w*lok?79J^*BYsie#}`ogGdA`g->Y)
zR<c*YN|xZ5l=i&yB;XhUDQ%VzE{cvVoKO@wjFM^iCiCbZ#uz*p4oM4CQsfxg43Xhh
z=VoPU@S+%rM>J8St=O~`qc&`>5sSVYq7KwVK=`NeQ%Venj4m;p0GNr-CFWFR9tyEp
zz!nLbL*X!;3n?a<50+@6ju>VD<1$>TtV|WHrd$-mN=Q{jQN<4?2*QnTU*AXN*~Gr7
z$aPs7j>F*cK9z>|sahgD6H>KESlw5&#2B)hx^FV1%Ec>Z)!no6v>k?BXk5#k-PY#o
zpi#XB(I0M*Tm{*6l3R3r%5TrUG=XXN3SV`rOy`@H1~WZDy(gIInbUjbvVpysz^EP=
z%>+a}AZGnS#y_C@2QvO4-9MCblkzRkh@<>8m*Yu$7Y@{#6*|rI&=E`zWZOCxU5|MG
zDojnnHq$}@^Nh*yV*!hkD5Ry~9QlYF32+p&HRR}aNL1`7(47z)zM|v7FSxL^WcwxU
zozQ8u8loHIiEnep*QxtD(|jilK-K?badbCygynTWLia$lW^pCV^xWb~+Hps;8>9d2
za=O-APW4(AU1%*is<q8*GesxWq5C@0e22NTVsx>wY7r)7pRxEOLmh@BcQ;>~a%eWv
zMQ!9VsTd`R+IUe^>#+J;Y1BrJ0+po{0j9Zy+Z7;UEKD$jRRwKE78pOEd<%fmtR|eG
zR90sbaVZj?7A!-g+wOhd>Lsvl5px`X@2e4j0bwoT3yCQ<C_)5P=5a)(0t8zH6b25s
zO_*}TXN|Iu8lp5b&+x)<MKn1Ua58Q;yw;M$#AFm0eyv7P@i1YRrZ@o9q2VNo>%f57
zuph|P!w@kPXlctdpU|66Jn%0!k1YCDe4E}~xV7*>XQsJVZ|=R{w%k0t?0Yri8`XWI
z%f9h6KhD0t(E_WWfQr+ixg2#i6h<`%R+eh;s;rr)2oNYs;o^^s0MBH;7uaDVnUC5G
z0@V2c3eb^s7F0{hrCA0$iFz!mLYj1~r|t&HyY8@KnuHyfdI(9mi^i~3Pth183d*!J
zB;6JZT4~f*N<)ania&R}^Rf%(OWD0ro}_~|0@`ibxEDu~9#EV%izhwjU<{6pa}8AE
z!cT4Xd_|a=i!+5NT$_o6XM|}vE+eNF@w>^nYA80V$O6KoFhvuw5=OO0T+6V6ZL$bO
z1E@u8>@=!vc3><(kHXIAF^B>cCW}{Di(-61;p{;>Gln;~^YjpsGqwFPHZ+PLk9ihS
z#ZX)_RjO*ZS?@p@lMC91z3iEcI+GJEIb)<M?Zp8r3rav$5nLE5<Yk5)hl&M%2^Owd
zFAk#qEkqzQwM6L5v<>NPLz%X7dfT~d%gfpN*6gPGTp1D0bF0KDG^Tm~vkKC<<^7qT
z&twn3mN|S@KYaFgPEHu*vYiK?IZ1oRuPQ#QxYLu_J*@8@ez<RWcW_zwvy5<A7cM^%
zCch#`x=OglF>bN)sfT#$vfi4Ecc<>%`KfnTc1!2t;5)BA@inLU=5N08A+d_W@arQ3
zjlAKB%hyCn3m0QF3KSE&AY{;<)F3s(EwCkj2E7Xi4a`T@L+16x(h>rW%yYn)ZwcpQ
zO%*}{tU`#y!&HvJHBFGTJ$d#7{0u2-f-zsA{kvgP0CSKEux7)9%pqxvv+^KGPeB9S
z0Z|?gZ!kQhXP{=GzU14Q-A9qQ10t}8zC`2aR`q*VKjpV(d2fdA*7@!Xe@N#KEloY*
zfAG9Me$jz~sg4I~ApjV`XuR8>gO#v93#?=#BrDmt#t!tjEth9x1<cukxN8XkwgRWA
zu){>T2ANL?BZ;_N5YLf-haDRofccmiWg07;SnPr*;4tNhogS`I$R8edSlC{2cpJ#(
zd7xEMx4>yW<4Jin8k0Ld<pZ`kxPe({>XULy$Ej=B7I7U<YV~7S*GAgnMrFaEkZd#K
zCvfKLGVwaPA_XF_E-eppmxPov$=zrG`gQb0be+pkijy3mt85JsttlB0ilEsz$%z06
z<JLakZe6ERZpkstr94`_MH6kXa)q=Y$b;n4UlVc>&MsA!;vF!0vdj`!R^qKvsv=dc
z;R0AlmM1IjA}2u5TFeyIR#cnvrYgU4PyBc6rYc#LbT7a;rmB;blJg48NNbbcWc32V
zQDxGLZDvVwEmQ(C!ctPc_$FvGX}rnG^=Xo>q;COqcgmHlO1YDsDBk=^LegdJo+I!4
z!bLQ^6S5E$@|mI}>9MFmmTk=qJKR=8l+S|s>0Y>5k=HVU=|W=mCcq&$2EZr`nQGY7
z*l-6#jTZ;pL=!cCD^M(3l4&nfg`<qy<7&d*ek2y(*2Mj(AHA)m1S+b6AgMOVw<pI?
z+XLppt(3wH%Df2=!l?*VHQQEz^%N<0oEQvZjm@ccPg^^r$P>TCC{Sy-a4kj!^Q;X~
z3Pv<uteJfZ&JdJmk$DrVWKiIC(KH8qOgpn$q){mflhJ^e>pAFW-K-TkJ`Ho!Ng=#=
zgC`O1;(4#1Q4TgT)e;E>49;2b>|Kkfvf+$H;t++d8=lbYEX>SI4SE8GXQ&sbF|qDd
ztQf;+93rEJ&c)+s&00rq)Fc#%t>0RVQHO1|Td-j3q9F|0$ndazYDNXKg_t+U;IR&E
zF@uMNS-H@4GgpI(8uxF{QI_AiQ5%=9Yv@dxl@}5b31?FgI4qX3Qq$^hvaOZ;`YrFp
z!j2O3-iYu=Ft+*^V3M<2fw$(}Be#yEEB!0A{&ef)a&0*64L@n#nrZIVo4Yg3{d#l%
zqA%Oz&ou4PoAzXy`t+v0#j0#&9rR(<{d!Y>rfEcP8d)69wroxFO)D*XGcAL9%ises
zeL+lL4(S&r)6z^vO6gK+x#iD+Br9}$FbB5NmqH*T9MFXWOGlQ4AACis%lmY%fAP$F
zQ=fJ0xWoTL|Gl33o_{*_0l)a_N_*$+;8N3ad*825KB#zjX8G6~@69ZpS!sJI({@I0
zJM*wD9lV^LoXSkTtxvwa+?Gsx{n>`?>A(@a;mG3YoQKpjebD~XWVUPXQkmX$_<rw$
z8U5%;dg3j;@2&L3OM2fWz3Y-*v+c<X3DQ8|^`~Lc-UB#8+dhoFLdLs8_wGpV?0w`t
zl52&1JQL9N<3Hrnfgdaj{idVjIX?tSm=#bmm<sem?f+L52ry|YKx<<F?Y6S!h*p49
zRNU(+!ThPf70v~hI48Trff2*hn+vXTwo**Gv_@-|Xp@yIq(v9F{Frb_+wLMMPYTB=
zC_Inmw|Yep+)4thQz)r|V$z{)vudMgWR-*$w|?xnn>SEE&1|;1!c5z(d?C$W37si-
z$_1A~=fb>=`=?%XC1egt0W{8>!gLY43l@7h_gY>~)Ks96>|skZQNhThufwvy(7Xsq
zDN>pbLdLeW__;2oS5tXP1~mn~1k@PDCPfD4FM{Z#^*U2aBhxc$>jHIj1m>k^(VN~~
z8`+t<p%d6Jg-dfTL}pF%7x~R_ft!BDaLU(bDRLY|7BW1q504DJGC|R#rFB^29-5dK
zoiMh4rz_ZW{pRndYjq4opNqlU3Z~UMW2SRT^~!U%RHMpLifoSO?yGBBe*#mf_;T<k
zK=UVfJ?hf=uG^7M`Tfs4<P7&3_wY#iLNIgTihkkB@@eJwPA(AVKHGcp&c*w^aNFH=
zcq#cW=l}K1-@N&7W_jp`j{<Mz2vVf^uBR*mqZ~e#9*?h#OPTR2`uLTs7|w{-b@6)k
zwcyIgTbU729}!nZgPGCG`sn3nmF~ln%zJ$>S50c_GQK|D*O%t|zFDouaaEL{fA$0h
zd5=-ajtkBhp83|iu%K&&;p*#v0e?bVg%_FceYJ4?u~!Qi`+MW+dYB6Rk-<wsCAn+)
zYTX4S1qYnlx)cBgd)_U}V=zb(!(dOUtmq2ifvZLVT{i=|@_?^pMd-?Z2fE^=Oek3z
z6gN1}JZcuxzZhv>+zL31jv@$u1P+&_Jcz?1CK{G8G^8^yhT&!mNF$J^QH-u&q(Joj
z!OJvd6WFl>qZmdAV-zhzhFx?Pb2f0%A7hc-@ym<s-m6$^L!{Aa`~BA<wCT+?amyi1
zff;VSa9x2H^}GSBq8wS)Xx<53&u%#Y;TF9KS)C=e=(<#Y2g9lG_XI*0PyTNW(Y4U^
z<<4FI==sRA<jU+H()SOg_YE!YJOz;SW$)4Z!|Bt~a<2?PCQNgmb@tqTeQ6uI?Yi$M
z_Xi#c#{s{f0ZdiEFUSCX347B67gh$|$P8T62QFq0_Gib=XT~D>SR{MwMCRC-erzmr
z?6Q9B^2+g7GsnmD<6|o)Udx;q*H4T;tMUlv7@YZYH4M)3Pc7f9Hsa_eocS9D1y8_n
z9{#|fXrYXlFHhU>bu%7<JA`Odi0}}Ke?dUrD~dmc$4Rq=q93Dh6EfUWN+P6D^c}D_
zL%2ZE1h|&8dAb+t_G5(XZ*tZF%pHNqD2q#`)7CW!7cavJ48z=~6kS#nMUZ*in5)Tf
zDG~T1#D$dzv`hh;YIY8bXxtdCk<pPMn#62X{&_Sk<NF0XsWE>P0?`T6mxq=d#Ryfk
z`j^o1hnpnls&;o~_w+1Hell}!W-0ifK7HtvzUOq#3H48U26Jvm!OU-L`ML~q0`XMm
z9GtuBcI~g4K5PO{tGjE}X;lK@_iFCE&EIL&g~Qmr)9w!Qc-#}*9rr51G*?G<?#b@i
z|Fo>$-I6_c=###CeGlCF!J(WJDxL_PIX9#*Woy^%bH6;BLo(ob|JJ|n{blcJIhMMe
z?*0$nf~i_x&JoDp@A(>&uPb<W=hM1&ch}O+`#lf%hdsaX=|{)(1LHXYmFY`j=8~*m
zl2@_x^bEJfef0MACD+oM4_x;|;B|e+sT_gI^u!NWG0pXoA#Rw<zI61HwtH<)-OX^M
z+jiaQS>o^a-1F(XPw3lT$vL6+NoRKsTb~R~{2o*0ykp-a&{6cIksFK#wBY8nh|<00
z4<g1ThC4nNg9qy#{G@TD_Gt67U~QUQhwN%NLz7{O=tAGX;-R89@@{w|?^exUe(=`L
zya3%r7Nz~ek?C02^<3Y=`+7HfP0#;~0iK9ToNV_CJFNZdfTGin;yaP?@^jrv*O*_l
z3^wgt3}0#BKL(ZJE35JRA~)(xDJp%Vy>vDPv#PlvmN&(hsR)!ABd|da(?(jeB$Q5O
z{F-`&K?Ta*N9Nl!lgMxRV<z78)4zcx6jc?C-kg);xGzYzPP!kH{hyQC&q?JMr0X%+
y`Z=k2OwK<h!(Wg~kI5U4$%!w>xK75uAd@<od`wP1^T-aaGhN^HHNgzyum1+h#d|aW

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/__pycache__/__init__.cpython-312.pyc b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/__pycache__/__init__.cpython-312.pyc
deleted file mode 100644
index bfe0f7832a4e052443c9967a4cdaea37c1fc679e..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 186
zcmX@j%ge<81cIJlvq1D?5P=Rpvj9b=GgLBYGWxA#C}INgK7-W!iqtPkEy&kT%dALE
z@ytuk&rQ`YE=txfF3C^MNGvYNOfJ?h&d4t+i7!elNsZ6VPf5)w)=x}J%gjrSugpx%
zNr_J`Eh>Y{#K&jmWtPOp>lIY~;;;cKFU?7{D`ExO#0bR2AjU^#Mn=XWW*`dy?*%f^

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/__pycache__/affine_model_mixin.cpython-312.pyc b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/__pycache__/affine_model_mixin.cpython-312.pyc
deleted file mode 100644
index 90cf7d7a3bc53c6efbead7d9581f4ef9e22261ab..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 3082
zcmcgu&5smC6tAA?nVp@TSw2JrH$oXrU|e=aBw}K~gg~MsvJ$co=%|&Rt{SGbzo@ES
zm^ql3;NQR%ZxSvZ{S!#M%*KmpLoo5=$$^bA;b45PdS-Umb+h2XPUm&it5@|te($~N
zAM5ohfoIS8KfgF!A>=olj30Y6SicH`JA@N%1thc_D<lrFa9#)sVbLj?aWSwR8+dk5
z3d>H}@Jhi<SaB-htTSto0{M{e@@>Lr?icctoocVxsQiwTMj^Agt3_5ps{K$jtZd$G
zD=l45heCH_z6`9&CyDms$PHk_-g9p6Y@9~=Y#gnM2>DYyH}KNH)v@$)WjO^O&9lDW
zLZ1Y2EKZ!lW$?`@@`7WFk|-Yp5i!Gyr{D{`$`sE=o|xrzUJ_MahLx(A>(3B^d-x15
zbjrMPyL2CB_&Bv4WM`*j>)XqUc{sN^CA(_}*|{m%-8;zEreyc@3XS<}_nA(|kHm$T
zi{OHP%a8hBRVh4YsF_hOaFwE+SW-Xof|UEwb=pZIFNen0J+syqGG6lHG>IeHjw4PJ
z>3c#^7lu7w1YDUz+pZFvf{Y8V(VMT*5Y;!0%yPD1HZ!FmJ=m%%eYYJ5=Eb7ZQQ3ky
zZkxq==;~C0QOqP*JxQh41)ce{ECsAaUNHx3LUF#16>x|2tVW^#x3L3*a8dfJU<B=o
zAQ6)0xk+_QmC#go1vN(bo)0OhXj^EPy?u-}o6TeSB%yJ~$QfVg*q1yQs3667z<I`F
zicy3kCs9<ej`2oKfItXI{(g00oP*L(6c}?b)D!eH6}OV3BRl9~J~%#6%Z>vNj2o{c
z8!HKIOwL`tNA49fTZy0}>kt(=4@6;*z~HA|ONu0Jb^Kd`pO3sa6fGsameMgsTKk@A
zsctMalZc+dRkd=gSq`0-%GJ#)MvjG;f6b(q9b}#qxF2(g<>`>)-+ya!zBad&-32DE
zWB>V@tOF%G0{_P(2LBuI-l%tpE#QypW*fk-VNn6#dCrXyeLk!wUM|Z$5Ei)?$QWO_
z4<?)9KZ4EF-%jzLmOX%n??>_qkR79cdSchvaZr>={k%A!lH4sp%3B6j(zd?r$Et$v
zfps#KPyHiX66xOsUw<(#?r!G=UUW-()bETlD@)^cWqRf@db2B}pqiedD;tijm^K4f
zUX;eE3VP6H!vwBE4xPh9oBE1!flb`BlD42rL45t_MW#PrY0wruy0WAj8|S@1pv>{l
z6DT8i<i!H@<s?v-Ok2*e9!1HIpkqex3h)_w-%VF?iY<js?hx#XTQ3osxYC72Eu?x5
zpI?1O5gREoy{o^tB|)|qZa(9C!&+|a%_@vVU<qScm0=@H;Syt6jj<c48;n+F7~`?W
zn4H4{%0S@X$oF)%i!nEfVz>g~S4V+B4FyU_uoFwXuH?%|@NXn5b%NN{ase5yAvui1
zR5#Y1scMP8e}=$63{fZGujm`{xKJ!rh81$+y@7rB?t$;#{PxgK_Q{{$IXON3we-^C
zLb+7?UJnU;9(**od~NV4U%SlLJ{E>GxRE}=rS&2y?;E1*a5s$p>#ic`IyWTnd2nEG
z>B``myLQQ4JKr{}L8PAG(nuGKhE=1>&Ue9Q^DbbSUGN?4g3+*McESE1>|EE?!4+rl
znOM6b)-H5%UGnCJE{s*p^fD90#$1j9;*k~IwrAkUY$)n(R@S`)uI?Ptcc*U4Cft@y
z<#h$*0|+o3$AM~cw}&k%(rkPo#8M(m68~az<eo+IY2{R&Qy<7h5CJfWIs{}`v@Gip
bdE+5D^b47LNERNE?qBwzReM5!80-H54dq?_

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/__pycache__/doubly_mean_reverting_vasicek.cpython-312.pyc b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/__pycache__/doubly_mean_reverting_vasicek.cpython-312.pyc
deleted file mode 100644
index 08c96fedacff93dccdcbc6d93a7f1ef3519983d0..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 9082
zcmb_hYit`=cD_Rn$sxsuBuld1rX=b?*?Rf0ww&0qY{{1Vlx^9L89TESXGD?aLzx-b
zmMV7@z{M&++I4^~;w%b80Tx&X7Fq-C4+H&Uv?x%ZK*5QWa5B3A95e;i|L8}MY<~5e
zOAbj}v||Jvjqcog?z!i_&i&50hyUerIS4!z<KIOGS_t_cEEo^1A%uDQ-)2HSA_5VZ
z7>P3hh9Pz=nPR56Ibe>P0;V_{U>T&DW0trzV5NCBW(#mYv&8IiN5Da8)>v8G8F0p3
z0T)9|<OmULH;KTB&b!bDJ^{Dr5$spG2)V^bpVEHVSb4l6P)XZ6Vw>Vsfhx$C1*!#S
zphj>7HVf`Rt>6jNLAl;UM3Yc1RKOp(%jRS@P->;HNvIO4g_^sT9K8|fZn0Y2EY^!P
zVy##wHi(U@o9}YD`X-?w&<s3P(fwIUaf-Z9#|jm9nJitXU9HRa>4iEjda$@fj;mg9
zhD}DBKr8T7Mh}<ZYglbGxNxmRpV(}aN66(-SgUriDSBdKOR-gG65CgsjWuP6=p7-y
zAt6&3{x7=-xq<SU7KtHG*s=g?@}cPi4+|VONT8FBYNCW}uh=P+3EtHfW2OxG;0TNI
zDx+sg@Ha(wZlq@W6Iz8f!MEC8kVK_Smf-iSb{J!&Yf%|Jzme;1j)e1t{b%b*(X4B5
z*05d|H?}LW4z;;;=%FKeo!zO7UfL*G=zL++C08^%R<Y-<DJvm2!~chMm}lqNkcpvt
zdJR$|=kI!iUHKWkESN|nm7o$yCS<=^XN905>Kvv@BrfW9Oa(Ef1cBEji80{3nkAeB
ziu<6Hyq1Ur6DN`=!Ee%QPt3)DB`8He#QC5c35i!uBte3{`A{$xnUZK%6G15$S43%Y
zepU<>FI(=!GEe^vsJ{l(5lMg%NWdg80W<6cE0|Wz#+ptuc0i(^{u3O_WSSA!o34OG
zw7w`sFio3E%K$yM+_V^46|jk%;1sMk**wKAxB$P{fCIi9e9Pc#hp%&)TxSBVv&8S#
z>qnAvQ?dCIVlZ(=yedjcBoWT7%fhO|n|lPW#4FkSKJS&_>}=56rOb#*5U4#^=l2SV
zcdJ*9gyTV8@(LGtsi?8R>fPrJ#%5=rv3Cj@L(^Q%bImCYMbL~RFNaFa)4d=}nn^;x
zS&m1Da<J!?ndF=#hjP||Zk`=dz;EX1Gf02Sd_)$RMZ(i6OcqU0%3&mw%uvc{I+R!_
z<**-07AWO(07_OU<*=F%1#m0-MBPTN@D&(CE1*pdzn^PUS>QEtizJ%w%b-E8C8-6(
zzTqeuNolFpf;1y1n8L6MQKMM&EyEs*%0@N}EsQzcC<C7Sni(8)togYXsEFmjU%W%P
zO02oz{K@f`kSUlKfVv2lYtdPHELo1?QNvE;$DlZk@kIfNUwoo<FH-0Xsy0&dE8<e>
zjoN6Vkt=**j3ssfs3qnG)I!62uJkN{nx9jim4q!tqiHVCjU2Qpp=n{JsFl~?Eqs+W
zBM<G%jeOy2tVIM*R9+L6PJ?67w#W(QRo3tWZn%{$qwamrBKg~M1iZLcYlC1CECoGW
zbS#!Fx)$Aw_Eqa$TUHiB=84}1*5DB;XxQjL!U2Ot@yJS0Qh2l|JT)mUF(DKc?E+Ys
zgbdar*EBQax9L^#OcGjwwGjD80xU&HoK^JAMbuDIoSu$^B4R?3b&rJ5ibD7p<YIbx
zfe;TWQslZ`aW#p?D;81a`5ehJm9t)aoSHA)Bq;tGy}qcIf*5&L6a~GysIDMTcgJA(
zJPb3=#{uZ|x<dIy2~~xvA_3kaxdnz$Qp%d#WI{J3W_61gpH=4dTDqiQM|jA<0#R!_
z6%%FM5|pIiyzZowL`cM$>eg5!5sZa(E;N$_rYrLjYOwA&f9m+~<oNON$&0$>?AY+c
zsO~vCIXpSapC3LmK78=_=vkeOMPx;9;AhcZi!eVvR50Sa5D6&~o+sTR&&`UG&hfBW
z5ryad<vJ^iv1zFRY9&0LQWGY4G^8z<cp=f<1>K;k;WShOOA?-M3Bdv#4`X|ALN&pV
zl$7P{dKWFC1M<1Ol@L&LJI{w=LEz+N)JDVD=DtfmCi*0CHrY2Fxh@LhiBK{w_Q_JH
zPgatlnV_shLULcxzQoauk^6$6b_tQ6kBBjW56wweVU@Er0=4v119&=OwDqt%)CuaH
zotJuH5DRTDcL;io^~0&le*}~H!xG8VlC7i6GP}-oYVCXR+p0Bh!*7G;KZxHB&9?`?
zEn5EsetW*{>i#G0GwxpXT@RMqzpZclr0e6Zm65b>x9Zz{zbZX=Tpc`~YCEx3e{$LL
zZEgK0+{fI?&UD+b+BW=PN2>LR=IcuP4ynFFskTE8Cex#WIx3`E#f+J04Kq&(Q#Zpb
zyE0bN+L3N~Lv4BEzL4I3L4~*FLMrf1I`AtM-j-jbxaMygn?D)*cx**UcOFnX4?GxF
zJ4aJTE~h%)(K`3tSJFcl)uD^2%kQW|@1#0-=%6Er9W+hRIoCb2lA79&E`E41UEQfx
zciv&sU4v@Z;9B+GWe3!`d}(K|>g>H&l^!^y4xCDzK9@cnRZmB?fnDi=33Xs1b>@8f
zOiVo!qm=XN!1;{DH1HOaYwTB@{yQV-ZA0p|q14s`e{!~^ojX+Lj(?fF?@RB!pzgh}
zw(G4-nRS~3m$K_wC28>AZ`O7n(st~8W-&GVV%hVIBX;-uHkGT@T6}-<b^KxM)3H0D
zdpqs~)_i-k#;saYx7OT+8BayVL+o|m5u1I}Q`ln?DmGGhEU6nc13QmSl!7euDP{ao
z#RUe_*Wxt2HmCWuIoa3dv~1ukVGxlgHzO0ciL7A#2m1|h*cXXlkAOS)d*<($8@5GT
zG-rC~(&Uoo)}Vxur?PE}mQ~I$hYVS?fs5`~usaN7kkEul=x9>&^#~o)M>tTwy$HJs
zpyowRifsLu8^8q5?&N1?z2OCvmS=+i$XA20IRI)-78O8MWd?Cl6h0$<3q@rK4YcHk
zM0bV7gh&k_@=4u5^K-g66qEJ(gm^8B$s6(b`GH6nxX>LGzbRhpc5IskEL^4h%zuH5
z-f1Zr=L?X^%QL}Qu>k+_!W*wZub*ms8oH1_hr|H2_0db|(Xa|{_e?4hRlBcfzWwV%
z=hH($6<*&|DkP{rQR^Nl!P#+OefX{Pa7cx>Lr96!YDZY>Ke~QwDt#=j!rPxnC1=(C
zceUm{>w^>N!SgD-%@<N{T~wO`TGLjou}iD0dc4U|<5+e)t|8U6YE}E~Zb+8x8ds6#
zwy4||t?S_Wp+NdjRE4+eidJ2xRa9qe#O{4YSi2+RAmw!_u2$L&(+cJ9I8eYmJ<O;N
zaF|Q_n4o?Pcuvwb;Q5S^`rspDL$5@)qyFV~cVX8nHsa;YlGp=YpO(l&&!)7ePxbVr
zxW0|U$AdtJe>ICmC5Nx%uOy}1+oIE4e8u~@lCt<!d_DZRlCt<#bhRwKIj=FhEdCKb
zkK#XDQWhTxpGUTNtKYUDdnbceL>X`K-omN$=J(f|g%dA$ERraABMHh$tG(!*d4mbT
z3s6HP<WUa73sQ2HMrgbg2?_$`UhfMSC=G%pNP8hU>F1;|ETEmr0#(7EdjS)V086nZ
zw;|r;W}rmoix7pUsDXoB*#8QZevS4r_W65A0A8%5yEpA0Q~hJ><G)OgUs2)p$5Qcx
z>QAB_2bU@5->i?kogSH1;q`@6GZEDn#rhTv+INqu-Q(*=gXyC&72fW6Dv?yXXR#h!
zF@L&!L~SoZrgn;9?N_kARqNlG?mwmWpIV;?rza#8-hMfy%&GlXm)S44o>!c>lQ4ys
z0mf_SWY!}nI&t$Rzxl^xktR`4FYNixQzGwcXwgYOTcj~))w0I&MeS(D-F?y26e-5w
zPbkLAn=YbG_za!c(w1)Cr#A0f-+wN>|7{iC=1b^#HuJbA4IB4_g_aZr{~9tM5hV}s
zaL)7C2UWR8L4Nv_3O*nn8dr7*;6rfZ63Dp0+%RE)tYlz<c@x@vP{WdW#&432L*b;~
zqT9v99NdrK>Q}V7=pRUJkoe8ij_8(1LJ+U(mMlcTEYQ|x?Mf3}@8|E1Ma#YCr<VI=
zEtjAZ89k0A0^W5~$BK~d7*#t)*AHJ#AC9Z=b|lsslTQd^AAJA#^60Hy+KxTTBWWjf
z!rMQ0_CGd572OAa6}>#_mg!g$Zt(ODc@{)xHHhXY`p_J`Qqr6kS!fO&p&vaMcknKH
z@k1|_)J4O{I`z|jtV1G=Zv)eF;ceY2iOQUm(Aks8gy?rl2cgkID+1NqFNtLD#oO{_
ziF#nPi|0F&AlyQ-4w)HZ8q#?zVpt5e7V{8%2jRJbbO9^ec%@Fj)tl#a2aj&sTnzJ0
zo_}{P7|YezcwR_`cwR!|K`)tl8NK(ym3<~DNTVp6L(GTp^L$okjv_1mb|js_T37C-
z91>$OxV|&eE}&8XKR{K6j*})8Sn&fSKinjbO;!u{xRq=ldT@Gu;7DfEF3TpZXM4sB
z--lg284G;zj@X&8VU8nEXUCj_Ky4Z3oMh)<#)UaIX&uOTFjr2zeVGc(Rg#)MDm7C@
zHaC1%jkE+qtQC))q-XB~W_{a1t+p=XYOvHj>^hdQz!&;!+Lp0ljw21-89U}2q@p`h
zhB+tMR73fpKZoy$2WU^tATVRX+P%c;eqv%Q{YZ0XXwGW0Tw|VAnk~O%zUNp=Ry*lZ
z;O4}GkpwQ7Za*8E5pjE@Ff0x{4~N3P`xu|khQfbU^^ZrsSx}6OFqGp-4MqM8n?`RO
z5exX^k5C^Tp*la>jL932fY~ir*AiirtiqwLMGhSF5I?Is3UL*kGh!;bJ(37XA_UtM
z-5w8Kr!hD=yn{afJmfb$!h6pnjJLydY}1jj99a-2B^<&d0g?qy2~O>ug8K{n&SQt5
zl6Wm5zzxO{O2(4Xf~lt`H>*Dn>1<dM=OOw>*<@uNmIYl;X*Mg}LVu-L*nKbw{>ep*
zq{!asq(r@!Eco=`4<_C-827;_iZ}O@iT4DCTKs)@8m8yqe8Opv5Zfdiw}kjBp);n}
z;EA7ucwg^xr<xuS-2(Ut;g}X=+*%a<>4oS|Z&CE8_k{pqHrRFURV_Bei+W!gFY3)j
zhO)OY34cV%x>l$IQUC{60pYIMSW<x>&LDn-Io+E3nrCB*-o0TcStZ1{lafrv<X+j(
zN@)rO7ROcdLA6}?vZ!1%3vk+Wj)o*L=gHR4GDasU8XNjXV|Y~GXwE9cCH`t$x1T(B
zf}a?k96PHw=I^w)Ju*Kv4*|oRQbP2S5+xrFwC-iMXIZy`YQo0r7Acqrixg0$1K7rz
zyIiw$p=`nHGpMAfixC0t*)z#&dd&hTA|Fc5%|fVn3bZd9$J4DeoCiZtB1%jI{ii>H
z^2w<v1;Ks_f<JO^W)XP5^!LyoIs<YWm~e<$G0fMbHN#pM_Io#B`c%^UHR=B&sr+AZ
z_<Iv!CQZ*+nPCP~ErZVhR++&}%uHD4^1_<AE@LuTxbLjQ;`^E%dDzgLVr$`+xpeYj
zb@S3m%~QKHrq$FhoqCA0Zz}3;`&O8hftBD|Mc2~NuRNP?v$v;KT34p-w61x2md3tu
zb!u(9AwZ~YZr57-wWfB>zen5LqE$CNtFXJRONTQxq@r?Z{GoIE@_5?0U3G51AJyI*
z`D)+c2k-vtC2il~XEw8Ij9D55)NJvunEt?h%H3(dS9Pap&AU6rHa%qBONV}a^u43E
zu6@C7`KrA7R%ET*`-Ipm!w|81$hp&8qsld=2G3|6-CAo$#zO2(&xpz11%SL~-<K8p
z?(F%n<96*@W$Vh0waSjqEA}m0HLiTw{2T6l?pF0}>z%fHfiJlO84rpC8(=Ai4v)Qe
z?3OiM-maFn-!ZG@Tkk0kl+@XaU$6m<bwd5vdt<kDegSJ|lx`k{{*EydOlsnEYU0d)
z`oDBd-k({XPP@0N?yYym*4(@9h1T4IpSvcP4r|X%N@HChas0jUl>5j!JC+x@eD2o3
zt?kPfZ(G;dEqUtm-Tuwd%sfNb`oBE6#E{DUe|b_#+~*h>&-A~yRUT=w{zr4ekyiHq
E0H=(gsQ>@~

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/__pycache__/stochastic_market_price_of_risk.cpython-312.pyc b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/__pycache__/stochastic_market_price_of_risk.cpython-312.pyc
deleted file mode 100644
index dc8e54f4f7a0c9770fcfe698472621c99bd33707..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 6959
zcmb^#TWlN0agRJoB*mv5)`NPSXi5<+o01jPR_v&9EX9^p+evIWvDpTP6K^G*e0=2Y
zBwMW9Du9D1K#RCQi`e~Wl>Wr2gd(46`(vOe(4rqDBPYCE6Tm?eBtn1a*g+p(oju->
zv_v~a+9PjwW_EUVc6N4WZvX6dI}tqo6JO0;Zbj&C1Tmjl1Gx946`?l}kD`dDc#BBI
zEm2FHic)cF)JhSWRixv#s7;4yu_{^(G@EFTJE9JqRwX*)HPIRhS<rFBS6@ZE9oMXZ
zRPsb!*v&gG_8@ePl70(4Y0(q+Mtyour|6H@Mr#4CiPrJ1Xg%+aHt?S4F5Vk$<bBa5
zz?%VX;r-D7UmI-&xXpqv#n<um@T1mfW0ZEC+Q9GP8~G-_dCg|fJAm%Ob$A!9$BnoZ
zH{d4RhMRE<4&Zi7T5Wv&ddnJB;9n1{d5oS6v{la?Enwy44B}gVNtr#OLCnk@FK;iv
zILNnw<aW~z#5%ZkZoC3#K@TfmZ_4C5)|ukWx^UMRdL6|qGw{CXM(7HW#4MpAcV`-A
z`xDELyfkoJLD6n#_syN&IT9aS-);8N_3_O;TY)RIjpxix9^8ey*DM9PA!%|a7w=l{
z+9vDy3S8aWc+T(SSu;o!!d<ZLbPFo8$u43OScUKI>{r1`O@@^s|D%;2+op9zD;0Fb
z5x!?V{D3F;<|<iY&o-I=olPHUuSI&1j#(((GcG}CLgC)@gmZEhJI`XwoWWDc1g9jK
zJx7xXo_SUhVnSku;Q+oMV3B7==cNVAoJ#UogoZuLSsYV@WP;g06ge0fj5xQ5>BCly
z<~apxc2X)r9BU3zLMMd_Q<_`CBBuxo1;S~dc#cZRO9_EXoJtaLKxsNPF9HiE2_WKm
zP8MSLqCRY_d~rJr<la>PUWL;OqbLO@n1!dJR#;b>x2#)DTTa871H0S?Zxy`N@Y>;Z
z!0Uv!23{AuZg@TLdT|x5PFEwu`-+es+cB-vYWce9_7wy&>#w?_jumv7iaO7taDx^&
zt0ZHyoU913Q=D`WE5wTUndvive35${&KD<RJUk<@N&y~bE^?_9$4X3(GK&=s==(@(
znBf(smyv~;IBDcxV5PF|CM#oh*9lAyEGLK%64M~W;4uV=TzrZL>4d?MT7b)jF$gad
zxXOk*S<?19y0#~o9_FMm4m3WX>`9{RNoTS9B|(`jB0QNmZ|Y{+W0;X<ldNPaw4K}3
z-C#Gk3sf*uiM=S7XG(nv?7Hj+yKIpo{~b!R%_iq1S!<DJlaj(p;C8Hp7qBFQL$Y!T
zV_x%=wJjt?EdV|(%*QJ;d&?UMx38QK$6P`S#dQZ^Q^Z5q<TNXRkL(z=sUjDV*j%wi
z7ac59wS3%IQY!4eWJ2pL=c%MgIrH9fDHX>p=k~}72UaZZe-}>hCCtJrT9t&Ac`0!^
z<}KUM4uDC%aIXm>+0Upq&=R$T*doJ{1u!E*BeY}%%!oaJ(SRAb24FV8jGO?lD!`0P
z0I+Jns!X9vcEDhl7oH^tVD=*B1dQmUKT9=$>3I}EmBs=U<hhpIJhg5y&-E)_rP*wo
zYcZixy@ck9Qc6_b%3Eh(Msr2YN^La==*8KT=%fcv`jkjTNbgg`O27>CSu<>S#aDSe
zpc>gvsUJclyQr*3x&|Vz|7&MmK_<v6TDvsXl0OZ|quR>mQ2Vvxx=NBwh^NyqE{ss2
z4X72?z?gl#DWOywEtMq|{c{JunRk~ObPMY~P+8VD(W*k9;@m5=!Q3CNv9C;310-{Q
zgvJk-^^n<Dw*5EJs&b#g+{^a>?CGLkD(&VBU#nX}KYj{gzxC1H1>XR+(l@|T?UGMv
zGG)vKO{i4Qb(LTf0!`tYZ2M#G(IxMaXT568IH4%Ch{DyUx5z;UX_mKi%(8l(<u=dR
z0_xx)?Mjdc_PHs4i>yi5DiP)MVy4iN9|>1$^<@!3NGMo};gq5^mQiC#JUtCrAx<c=
z<}C$C5ke(|xDp}GDUxtm^Fy41Tu&5~Mb;pBr;KEejqBN-6d)SaNn{x$5)CBcXp)~4
z#7(3+Qjm=&HIM?*d?b<6S0bjCh-EZOBBj|lN#YhYm!32xAfUo{noXWhVM(*IkfsO<
z%W74SxN_o*W{=G#MJ!)j4A*P4jK%41IzBn;C34K`^N_+s9msIa%z-G;#4XH#HY6E*
zFxHnFOt+w{IaoF(a<a^_GMTcO8<o|||4#KuIF;<17A|A{L?V`q<33r6^~uG=Q|>EU
zvN*}s<vtG9ErHoZlE<?#lE;Jn^_Eh<ib_UOi&6wsNrxVh*+xtQ6LZKv04MwBGRg;0
z@6*%@ecS$++P;_60k!uSse9Cp2&r3Drk~Vp>fm`&?^k<{kh)6^A0>6SIxtD<KK1Z4
zsfW}jXG#6Ur!74j?dri%_3^>`HcQ~Ziub-9H3#0b->|E0f6jd%>prky-8h?ZJ*9eT
zbDm(<6U?}St7Ey)ST;0vE0%FhsBYi2!Cc)ywr(I(JMivUZt!e&5PD4JtLdQg9-^CT
zR@`|f>I&yVL)p;K#$fL7g)IC-7cwt$xficw;lKMz#?E{iXnS+$#?b0yu4^>gHL607
zu0z?bLz&@o*{*Zj(7esk^#XMdSz6Ci8G94x-PZBu_>J*9zWSVRU)HzpU4Pa$pcXMY
z*FTnpzi;f8k~@Am3xD6`2bxE-{i9jm=q)~XY#|GO-vZ3Q?a8~4zrhgsa3P_rFLaa2
z`og+Mf~_jK#|~xT?>n?HnH%P_@b~eRMD85;YlP^{yR*LCt1o4JJq3}CzHTtKudRkG
zZ1epPa(G^=&f1&Q&d^7p?zhL^8vhl$85&kw_o{7sK5A#)6mAH)_Wo>p|GV|M{YSI=
zk8ZY)s;#}M*Pr(yNAp*x+EI58+z^Fp$i`1_aSR*Z$r68`7YXcQ*_Y-y(P*h=Sw0zK
zS&0Nh%{DD2;p`$OtVD7yi6oBt2GHEb-i%>UWZ5t!eG8gol1v?u4iGMq*XadZ&mj3P
zQ2g^Mx@&RR>~{yyz{suVZtp*Sx9w@lR;TV8$Xf|;r?We6BS5|i^$q5$b<mD>_v9Tq
z=tQA#zD5UKXlOX^)<F;2yFc&MK_3E9ejThu2M*`!bg&+cj8XXp9o~hGP)}3&MjdHF
z!S0*(w>t98I@*Gm(CX}sALau(+KP5{thQwvB6(fQd^>6k{G)?3-9@C74w^G0mW^{l
zg4jWGoQ=(5Vq0nE=Qqgnn-L?dWK7`B$jtZae|`Luv@-H}0k}Hyd4c(z5u?|iOrD>P
z2w%XtE<s+21RG>(TO=deBA@$P<mBHv4248!VbA~P+=hq<;T}mxpqSZcf93DbZTw<n
z5<+Z153z9B!2$r^gmQ|5(6YdZ^H|pGGC9#XWtM~x_!c~J)QiHj<}8I}&2C0y%^@UW
z5{7uJXpT5{S^pf8w|FuM%NB8%E#hfl&FX1kMi$aIJ#?0fr$o#=3nMVeY4Tmml+Ix0
zlpay^TN+H7$qhr{ZU%(dI59QLrR`@xX{M(uoIV!CQgYvDay|w3HTw0Aex)Nb(^4}2
z--|ZZ^@|a*><~-wC4pCF(~iRZ5DXOVll0Zm_l~}c$h5Rw<XdnaGJ(hgw?D?7OU%b1
z%IqPGy=7r70%0vu3Quxmd+MME|8tM(u_F*h9vTQE3x#{8LR^%{he=^a4-vim5Xn<w
zQW1qIh=>Hzs*Kv25*2OF4lN3Mg1C;7Op0<uHaCehLIjp4Tg7~#bW31n5QX%I<VBj(
z_y&iZs*n$DONI1oiR4J82kJSY?twbwl;bJMm|ZVnYkrt>%bI%zC$N4CqWgDi5hd#=
zvr~(ZP#NwlYc`#zRT<l&3LJP|!kSGH6cKB*ZY+965_qj@QRJo|Q>0;CE@`{c;FD}j
z_emD69{ECg0$e0Zk-^3ED?~OqHK!l5{rWNcZ~K#lll<FK5@tcpU-=+p9C<56QFkp?
zivEWaQGHny`55*871e%*j(v>M_vz;-sxA{ebRQ8Q4<9<TYbCvDZT^hj{V_duC(xdu
zo7BcYhOSq8BN@8qPDA_hY1QAhJfU`kGj!{n@ZJm!8OebR-KRbdW&fSVPQuOX$<S?|
z_?xeXR;ktftK6o)XL;g7Z{v0P`qXN0b?Rnt)4OkZ{1g9Pb@xHFu}cjNs!c()Ijrt`
zPVIa`4IWl|PpN~f`Yldv>{J`tKCEfF{?hH5&iifN+N$LV$fG*LtCqLzZ`t1qAKql1
zgyHVco*dnprCT#koKb__YI{fChHP#3k;T@Tw<GuCD<^WUfvjs_V@`c??8D(>w_f_)
z_tfEI_p7b$accQ#$ZLj%KX4D<9C~f;def#Sxcc~}r~5tk@bWR0_AHOSI`Q(vwM*~Q
z9V+bx?8M6_GQRQK^n^;g03CmMeC6D=W4Gx*5x+M0KA6w!x{|(4w-np1PJl|!P?J<<
z@?2)}`9BIDxX<6}S((du`m&zBckP>=CpLC(dWPR~pMS*g&)=rc7e&JG`>zeGT)19!
z69(=t4gCEIN*OA@GLb(HtKRajFQ+Nw`S!oQtVf;;luY8t?`vz1_tAf74ICe&{{!ww
B%xnMv

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/__pycache__/trebly_mean_reverting_vasicek.cpython-312.pyc b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/__pycache__/trebly_mean_reverting_vasicek.cpython-312.pyc
deleted file mode 100644
index e7bae670a08d70e9655b3911c538ac220943ff7c..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 9899
zcmcgQTTC2RmQ~%=&@}zx(Yzl8#+WwdX>14E46(5>ei1@rPtp^sQuMtvMf!oO3Je{h
zA+wnstbK&lYImGn?S_n28dgRl|Ez>G(#WfQ2r1g#Zm`{z+GItv6U|ur(@7jnlCM3t
zy7~dMNjAw&Lsgx7&*PqR?z!ild*8L$EEN2TE`B!kc>_iLH)*7Pb{+WC3N$~Z5ap#1
zjSK-gXz&_>w3iMVy+)e!83Rnv<TYt96Ug)CL!T*N4i<O|w7$H6C0OV!q$vY+fkOFj
zP{@o6?;4Zxy;f{P1+TPF)G{OfT>+8D1nfbF*QxPZ0!6`MZ!y4y-V$W>mLi+ih3wuk
z<nWdwr?&zXc`H$|w+fYbt5K=9#z0{jxlkGW(RUerj9RU?995u7RE4VVn)LoU=(pk$
zT!u?=Ij+GjT!AZb6|Tm$xNfcHu2rY22fF;JXOpe$x1U0_Kcnx`I$Z;<pE{q7Pr|qX
z)uFPr`jpMY6S#P4Fb5@!3pgVxOUXp+T0`27Cfsz6dXw@Q{P5hcQPgWhQvCvzrf!UY
zZGUF?V+R8iuTkEEfOk$^**g+Cu-25~()4jo4d<XbxQk|FFAdoI%-&w4X@Z*3A=I+w
zPFbLjG`g1_@3gIw*aniX?WN4JmIg8^ITF}howOMpT06YM)6S{yYP_=F^LVXabG++&
zy#$eY<YzQ$TWh~-NMd#0zp$4Ub*y#nnrCkgs;*r$FYTqdt9Q{9Zh{raR8d*+TBgq_
zx0f$#PE!$Fp+|7%w~XL!;P1jU=xE9he@&qtt*>H7-?6_j?XoXt)FiFKojIZ`m(Pyx
zlKJ(#|9|ytiSAjvpJ!o(xOAT${gysG@&Dq}qhHgf&-`9|`VFIXpSTzHo1JtPOU3=M
zeIy0<mDH>60VzpjwwzPbdwH~7lI#QeUi=bd3U9CXq(+}>H#oV=^ZT!mQ){PFlK0E|
z`ieS+`u5O&cPlDKhD6^({eA;_7INg7jGp-9)UCaqO64{0Y0WqL*?j`FptEZOyLP->
zmYmz=&0IR3_tR)_r-qsa`(}uFW}fjGXsrUc1@G?`a$ku2xn*opkXXql3ez&{3x{N0
z2uZ9wiCG~y9l${hJ+crEu@hlY>mC#FcwoNmD&|9Nqj(mJvJmpK*Lg|s;aAwJVT1$i
zmQg%`MI7?slk6xS4~KX;%pN`)4k30#6nun%2lzz+2M{|jBhKO^BOnf2ERV^oxs57=
zcp0l^@|J}lRtv}*#LK*!R&62<fMT=Bj$!DrpB2NmLINMU8YT)uPsP=l0Fdya03vh^
zH3fayaZ#%`K3xRhCr}_`%1c9$Y(TWv2vfu$!<sQQ!4pu_ViPjKlLt>eJZ5+b;IY6{
z2#*yW8$5QLhw~%(P}VrokQ19RqxBV`;)$9i3gnf%Ve=L&QFFA{;-TE7YE{z1#KCF*
z>dNy?P@h^@{fAhQlap{C`wBlj&2u8#G75cd1mk9r%(k+U;13c6`aUOSu@W-vmtq}d
zTdruVfZ4%1N?1p;SP7ZVdRZIw3fsb7;e^lx3=GH}+*b(q6-%1^mLN~28wk{7ktVN?
z6(_@-2;}lEw5F+!23@ky1e47@n&y5?>Uf9%(`0x?l+-F|GAzoR2w}j9BxWTD5KfxL
z7^$u-+-#V{R6vmD)oKVeVJ4WHrz{(p#bghJLw-)iVvq~M^r@AZ_U>UzGpH;9jakZM
zkKqf8$#@TkR5ptyBP5%mEt@qb371W7mt-EilU`?59736v0m*8fh~*hEH0(<qCCQR0
zfQM{1pZ)?4XMaKelv<z{s7yt;V1Sl>oT8`&BeeAL6<Q3m^sNe7CTQsgJZR-XOFz~@
zD<4{UWH|C$FhdJgRPwh_04;O6Wq}saN&CsJ6tqydU`6zrA+<5QW|zxTxT%U1l=&`D
zQ`%8F(?cL+L`FZ@FqPIbgD<3V_Y)38crv7ENaIPjGJqd=?&@B9&GD6*>c`p)KWNHC
zz$Y+j4jlBReVO4QMFwDsGd(Ft$K;ljp3M|BMd|d;Oiv0T7|nmVWqlK^a`2>W&w&FA
zpRRFsT<a=-g~m^p^%U!K`~I6~m76DNdv^T5dVq_C<WH_iLARX?)SvW`h~7WC;Mi%(
zT!`#X3mT=@VQL&LroMJ>Ch8X)G8F8|-xQmIGT*5K88`*O_*E%5^G&Uz1^a?+E$^<L
zH)v{}a_0{}Cg}%?3`ZvUaaxsOOJ%=gvj9QS5hDA=Z&H#Uleu>rMHW8V%b&y~`rY|z
zX;yX?La-J1@U*O!XZ8BRcwz#IAgHV))sfj30<bX!RA;6m$jhQIrxs=Q2Tt#DjO(Qi
z7u0GUk=!o0i$yZsB8g?uL0%*h#Uk<|Yg>e~B_)=U7fFsH@v=yqq8dWes)-jxeqOa|
z)e;nLWGK}n%}iraHFL1J3o^&4c>y8B2mGqpHyI9K>6LkRk;+IoF!2qBCRtb{30Tu!
zJVZ2ssxGxVlkp2U&KKY%iQ^<<MzZS2ycfR=b%=O6+%X}{VRSL%3kPwBB>FleIqaL{
zC0X!E9a)|alHyeA;KBVN%*~VPlk<`46Wpj_WUaQ<_U>ezKx$iVHd))YPtS`-K#RzM
zrx$4LDNm6Jk>L16eZEK~>ZsQ9^b+&Hd`LNXl6)JL)<N=ZQJPPa?*XOm2>Dhk?z80E
ztTa7Cz70zE82NT6og?Jiru0pb@5x_RwXD}ECkB+GJx@%A>f=j}CuXX$`fc-DX2n(%
zx3$J>t*f4U2cp*FioG~)Z;#pAqqg>YOuTa>);SU#y%x1zS8UGZo_I-jtfV_y+<os{
zyvGyk@kFg-iF~Hf@+rks7B1PISgG3jw};*u+IE)4o$i>^z1kIX9#PV*bMYe=V({<0
zu+bF1v=D=T=fV#3VC=|X%sIGG8owBd!M`&E1K8{dD^=vuMLu0fYs}fY`h3jUu8GuI
zDBeC4gMa7HMo;{*7=wSOm`mi|fxkkChCUo~9$q~YbG9W#mOGol7tY#3;`quZO;myX
zc7DuUp)@qT-_-o`p?8Kh+xoVezW07j9dXkNiZ}PhntRuK;-`jVr-q{=WAPDRY{VBm
zh_-65QhWIQI`(bhEg@dl8LR8OR~qj+8|yl|RX3p2v?`9Ggo7%m{EW&kDESmZh;kQ_
z)feJ}7*?N!BY`>-Ah4C=ZqD!l9h1*-DD2}nk!*abX(AAY+(9y&Na_`llv7&lsy2N^
z`EVe>ac)}d0+d7wj%USgLPcsH?M2dv^bhd*{0-`3LxIWsaXZ!BfB*RhT^ByC?lYAr
zZQThYe79TL5+?X2@~DoUL_UGc)Zvaq0f8)3<Do<$fvgnJ+X!T*fWtu`Cw2T(qKH7n
zR8McBgg~X#8G4XTxCmTEH8!uB->FZOlU4=AHmyv)^}|FZX;o2W^((b8S9^je1I?@S
z^Yrfs{4oVD@o35p;=dpqYKgUKfyXzAi3dghpU&K@wrwZ+{k|W**Ej#dulxO1PTW58
z@<+@4{#Q$XapA*=-0y$<qc8um_r@Rg``>l_*GG-N`h$Kw({K0xCQ0)~zn}0#8{h5s
z|LPyhn?0sq_6xs-q$(D|_<{-czsIEFd0bCkB;!3k1uwVt+vH2P(f?O(k>B6<i>E=F
zf4%O<|MUF%-}aBeepapRXC!R_0LL9^nulaQ%Lit#q?#oxbJM&$Ns>04Z=OBtpxlgV
z$?SouIko+%1wzOtY8L=%L6D!*P6X0pMASDtCOgez5?0{U{0YG?2@xDQ?%~Ou0XqUC
zu;Gc_*9CADkn_4AVrXmA9sApUmGO&s9t<gftp-c-d;kvq1iU36(A(q-2f`x6?J$fj
zHV_4vi2Vv2yVx-}cCqBt94X4QN5rrXOH!ods&<@95~VteJ>*!(j)I@yUP2=r)a(&q
zy@5!O4!>wW^qKg;^duiKYqTu~-H{0|7Q<}=;hAZ;8_{kywA&1coe;ypuWPwQyNv*U
zkpZDrkWR8h^|rJrtVrs%Ncj=1KdJro<RMiS=GiZ4OQaxqi$Zj|nOi4T=MZH4U8@&y
zCPz<?FfTX{fx>7Y9Gb;*aFAw&&_3Qs+CM(e4upf#a8Co%sJoHe4}lOQkh>f{z-CR=
z8Hgg@kEMuN=EqNtLu5ldJO_SK^ARt;BEq5Gq)CZXoSF5vv*+igu}{V*OGc#72jv$Q
z*#Mr9-3HYd2>ZklA|elkWuSE%G>PI>;{F2}YtEpl8A&F$Vr<Je)CCed9fmSbaz~2K
z2^0FI7hJ*!{z=&#vFf9UTC-0)0n(BgS<B62{itQ++&u%g4(&T`wDe3Knh8SL(LxAY
zv#OkSsB+q~s+{)S1tFv$O1-up$DX>V{i$_PyIuh$%OsH$^~rsrhm2ALmD+S5EC+;f
zD3J)H=ILMKbU;=Q@6jTegGr8(!{LC`E~S#PNRs1@5;|QEs?OA<Myf(oleaAy3VW7G
zP&2C*orAz;?HYtYMM)|hNA5x344_>PX(Y)G9h>eU)n_VAYNrG(O=?h{92B|Ppy(zf
zl~2pQl4|qg5X3E{WGw;Lq?=^^C2o8kYHU5<N~%fgRP*$_od+3qM#QQ~7G%hW`TX1@
zNr@_>dAlK*>9xvz9IA2-K_t#-S6tJ{tOj*EhVc+dt^!i?<^%jVoHZD*`<7Z3flLM$
zLL`%Ma94|xl`&9}0vU7>!!y9@)S4W)Fm**{N%u%<HJ@CR9M%^bmzfOJ!O!}$5a946
zCtNotlZ0BdvqRAKs+n<Oo}?PVdey+sf%&(D(41=I=ei*!YZt>@czjALUplq&<xBJF
zWQFuSaS7&w)HTuwEVG1>rs<Cj49)z`O3@uLs{I41^FOKLkEp>9sK^s$h^9-T4ZTk&
z0wi8AP>gjcvSqAH7z`%!XL*#V=>z86c6CFPsZh#mqfDvds$Lx4cGWEoD@FB-mlQ|U
z;?Q<Qb(C=_WmSvMDP`4*&uzPE7KcA9s=U**La%hK@LNSKi<jPWl;2_QjIT7VjITCs
zIocM7KC~TD4xE4!fYQ{X)Vr1PgGytkQhQKoJ*~K(QI4Ni${Q3{?UPEIJ#TRk4igRT
z6~oWX@0d5;r?%MBQKojAvBa5*7*i2FHmo!@D|Ph=6J@G=LK#dAP>k7*E?taUyJObw
z^(p1_x%c`8@8A68OG@A1lYFCXh+aGoWm-?~BU|sv-0g|w7q;wmccd+Q<EE{5aZq9G
zivvHo^!lacTMwCfg|R{F;_DZq&cO%Fkis~idHMCr%Xx9<!I<;lsu8O7d-8ob>Ur@Y
z<5d_d;D=rxTDlhH(4$fu_55J@dfe3)bM>uHZn-XO&@tDgjiXzx;Y~o^oO#I1X7lh9
zk4pW~Yd3Q6c(z<4n}C!+t+{W;qZ_vA@I`~-Lq<wVS?+lV)0{GVDe{1+O5@(R1P;AS
zkI>PP=c6N|8}3K8vGvKNiMYKrW^Y{`+Oi+J=i9RPZraA4>bwL+7j?haePZ3dL2q?m
zigsO&ULKG6CZod5s3dRsW}@S>(b+kOSx1C^LeZvI>Ftasm%Em`mtMS+w+dQzX0&|u
z0aKmUQnx_&zNYhe`Vzg-u+ez`;-jMBb@Os_yx1KpcCWTPEIztfGz=k}GI-}qe<#XX
zR^^9GPkMx?qu~M5_;hXapqL+}qobba=-9@^N4D$t%{x52Zrrk;+O%B<4|}=j%Y5|Z
z@u=7Ls0?jPF3-lxdt>Fj>n&U51NVJf<rg>05UfYf3(*(7(HDOZ^}O_`;>P{CJ7w|8
zj#y>KJ@Zy&@A}|Y<=M@O8?bt}?Nv*@Hv_i=ce?KItK|>uU9VqQ99SyOihTLOjwnsd
z$4cZO)19_y>6+f}Se<{!^rlT;$~8}VBr0ZyVs1>B49+GvOxdbdj(wJIG#!T3S!jE+
z<#x*-9bO#R69~}?_r0?F&pc$Vq{oOldLA&xGEHYw)NxQLX;?k>nUOYir$zkuQsSDC
zVyeFQ1ksfJ<QJcqDc1!3g<9&@o==>V{TltnCuLOebMPsp?B54u8Tvx4xFH>f%=%B}
zVoxRW&&TULb(Vi=uk#$R{A+War^T|tR(sl*cWo7(Zsy-kRC`V^|6Wt=InDeBT|GuK
F{|ipC$}Ru^

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/__pycache__/vasicek_model.cpython-312.pyc b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/__pycache__/vasicek_model.cpython-312.pyc
deleted file mode 100644
index 0b40fc9ca52050237061e89e638fd88d4328c119..0000000000000000000000000000000000000000
GIT binary patch
literal 0
HcmV?d00001

literal 71898
zcmeFad3YSxbtl^0=mr{V10X;GAeI6FlGqpSI|&c~cW?o?2qM{Rpb86xjnxg3XaSP!
z$PVbp5tU>{q^(3$>^A~K&KR2b8$*e|7;=&^{bs&Nl_0r0J)C(+toIzfc{2l<auVy!
zm%QJ(wRWQ#q!wr9k5>e5SKYez)?Lpz_ndRj`FH8*DK=d1Uirt%yWDo$Pw7FsQq`MB
zi%9dTjkk5#csuVHw0GIrucOO>--N-0p@go4A!nC!$kpYtQyS-B;!sjo61#T|x`&dx
zlG(juFr_P%<xLw(@5*3tiG!Y@%&yF#tgft~?5=DUmo&IyD5ooj-Ma^KhgNp2WcSH~
ztA_Hr^4NU};`6)m*?sC@!O-fi)$BfPuyClTtBBpF4;BxVbd}g`4%-16pYfuN_Xx@N
z5|nmzaeStbEu>y<)*5X5_SuCsy^efD^g8&g7oA;YeD;gBu5x~bu!hgU|6Kgf6!LrB
z{7SrC%gSGc^7Di|Vf8(y`h|5YJ|FP~QSs}A3V!u76*k*Vr}!rNqY!;))ptdMl|xls
zRaAc=fiLDucn+!Azk5mQH>%mYQp<NWc$Xto3pM<j`(=8&YY|&@`Ml9u?T%97T@q54
z-?J;R{M!5L^!C)_?K*xvU%^)jwfC#^_y(cA#rCqT$I*xX7jkU2N!x@?Xt><1m2CVz
zQ(&|C?JupEu)X4VX{8hCCv9CD_-gd-M!p8&CcYNoX1)&L7QP<gR=xq@Hog(zb~bxx
z=56TOf!bJ(9$(3C>~m->=-L@K-6npsDcvr9OV@6GP1hd$-y1KFu!r9oblYsg9$|0L
zh2Py2_Bo=Tg}q9uK8LCNeJE2Ijjb`GVcm*tNbk7(Wux!3JASLywjkCh|AguK98a2(
z-~MD@j%r=A&>XMNFdpb<elx$roFj-;A~awAs@5vwm)>->ptSYE4q>OTOK1`H2{db6
z{2Hz0_jl?mpf&DyH}Shn{of|EUVhp5igqWo@fh{{d$jezR@*v$gK$td6g|uFo#obz
zsdmw;rq9-O82^vp|521-zx)mD+s3a@ueGejcGG@=x7p4+&<pKd$C0Dt@*N|kb|<t8
z$I+tS*Pe}EttDNjgm&bn^}JUrJ&0s#>^{rblIYmJgsu*J<*re>b|-WQ?f0ARp_X)Y
zoyM0e=dsWM*kD&-LoQ&09p(K?C6_szu%o<Ytvo=7RSY`VwVHRG6;2ChX|;8o`&8fh
zL-SXZ`^SAN)z;O8T7GY7&X`u87cfl11))ng$DqMkT9I0fsju1Fb9xNkc3l*XT>gPY
z$rrU$YzBVbzC6BcUtVJMx+I*YT5I2psVlI4mrw9T#|oz?2eq=RTR3dlj&7|yJ7)4r
zeNO6wjLZLaX^Z(a__zOli#A``jOV)qmj2%_O)u2*4!*U(ru~|5PCDTn<ZGSKTf?_e
zO)-x=3YOsy@D=wDYB-DaamMB4zH$WRJJfj#Y&+?gaOh<wvoan0A^tGG_5P82_!3=D
zQ0n0)D7At=${*to-*3N{7*+0nP@c>ofBgOlqrX|tN#^&;J%2JL&AS$9PQ|2oZ)uu7
z8{hH!cD|E8egBL$YHFK*vNSb+)+kZnFaPDz6!+99wT#Hp6uiE6)HDy5rZGwxcZ_4i
z?2M|ohLGLam%X#;Zyn~l%BOs*Kmw(7_7C_ue~&mY8sK_Hh6BEVVLun>7q~M%|3HuM
z40mjV7Y4cB5s}6E`$xn8C;9?HUCJq;R}h8a9-)S-Y8$vN@Z6!{o{=Ge>kxXz#DTzo
z;IH8}1^T&GzOIVv9_Kp8dY&2b4RgL>9%)3BQp1h<`UGx6!{)k_l+(il0WKi;1AfjY
z3R-PY?7(nJFO{zpU&oTL(CZJ3^z{4ufq@>s8bS5*QvJL`RB<)h*V{WVEO^HUghAem
z%3Y0qeN}0zlBI5RJmo_gg!amWh?_@Ifq@|*;-tGsGTo!xfUnXXNf(7dUtr*>9^q^q
z9vh-u$43JLBg4MIi2G1L5PjW)Ld3n_H#kUl$e7VAj$9ia@C_dup>&AJY#He79rNSi
zggDY8`2CcsgBo)RpJiik*B;4k5eIq$MpEB^NO_xB>sX>=1J?(ryzCa=`2LZx;lTcp
z;j6;1`V}MAH`p_Vx{ruG=IN%=#I{Fyh<(*2*sv3_(JrVffp>H{`GhXlxU<p~S%tO?
zbfcH4zCO`6ghqCbj|w6o%MYoP59zMGGBM)zdWU^Og4Y{K@lyYe4bpv@*L!8mH>kZi
zbNpyi=b@vAI-iQTIu16SXpML}I-5FMy=R(E9cpSm+S+l~_6P;qKDk&g3Zo<Srs+`c
z7klbW^PrwhQS%h2k30JHu>&uHwzsi>_D23J1TWgcS=lcf4yUER&>CL3>PyGPVl7Q1
zQ4|7W;&6{jBOsm-qRmD-ut(Vle%<!#_E&9FwkbRIS@sv*9kxnG@Nf!;>lDkXtTm;A
zT<_R$4|ORfJUX;Tz>=)ycJ+)1y}dP@KY)qAUG<3rG>QCsSRp;yh~Zo8t1IZs)QErP
zc-3~pal<}gBWjZ{b%*V)y<IHA9cHM973bB9i>xwr8~frw&j99)Kayj5q1Ve#E#zK!
zK`g=VC+=N?zM*d3w<lQ9BMPXdSM71FL3O(ZM|ymN{yn%+Qm#QhKh^W^U$9AKTcsT*
zrOqCCM~__A^MXz3VXEm}hqx9$;yOxBJ$vaA`($LL^@qetq@nTgry=;|3$~Blwlv-@
zIeS={J?hpN?`$?gX>6bxa6<$2>*%t8-l4{zO*wkO7I@KpKS3kjFpSP%6B~i1!9n5b
z0NSjKWY6G;e+<BD!0#UuxN8G|e!gMf$nf~k$e3RrV1J!5dgggURf!(Ggd2_tdk|C#
zjbMjOEJF%q{G1VcKrF{&#3Kq<1(D!}7xfSZ%@O`lLE!z!YvZ(`64&D?xJB(ez<W%C
z;eeMXu;S%45ab;NU|Bk5RmjVh1jcN-WcK)j5qZ}Ix$>eqU{R}px{<X8TS?nL!y35Z
zh-yJX#7U4;X+(zcWz72_WpZ)K<oaASuBI9jBLOv@$x!Qg*Aa2C21k<h?}`~nbT>h)
z#gAA=K_dcIkxSZ?D}Rz+6Sp8AO<6yI&`*>JSo|>K;(yHE^RX)-EpgG7;7U{`IDIT?
zys$)sNXpd_LMnp;f$^y6N|X|tuJ>`HO;_F?z>{+E4%2-?K%ZNeX$Hhxy@~4dcD|T4
zneaJEp{3zM8O{K8GrJ}dCY<*ZO-m)ow*%9G&G<GA!UaY+-&kOzwoe!aegt46l7o#3
zqYm_eF_w%@f@p*Z14f`07&XF5XBfYZ>qJrPmIG<P3hroWMd93T?isF%s~F;HIkA%C
z3A*|R`i6WQe>T8f>jyEzig^aBm-BI>BYw~@R|T$jaKwkN2&1ClCsaDz#|qU~9>*41
zjZy{5OKlk(8Sbm4*~|?IAbB+UDXP*n)K->FsfL=>m;efx5D7p<(m}R>+6n+>4~_{U
zhq$N}N8pUDxLvp*=x>0s%lcfvEA_fzKo{if(|4ijD#apk439=!K2T}nl}=U#aR>4$
zOJpnVq9IEpMFAqc*L#M8)f!%n0W1bgF%q+)2#sKkKJ;Y0eEr7tTP4%SXNTmPBXa&x
zDeu_4r(JTlD*)Ww5*=bv{}7CMOp6^$S}9UrRVJ8Pw~ZP`1p{O%n8pO0Sle`(A%5F*
zI7%6)(=<${wXfh-+Pr72<X)=)f(=v)XT-%Onz$QJ;vNb-6z?*6T%_8Gdnsr_;HM!6
zc;YyvrmN!gy0{<d>M6r11b|74nReH4`)j$2Hu}9kru=?C`v-Y%=lv~<TTHaO*1dL`
zUab4>X7=;_Q$INO_PJkB%*TngwBkF5XY1ZeJtR2~DI<fT^$WXIc0D?ZuKe{FN)mfG
zC+`3<RZ%S<h!dPI7yc*Wf0B^MyM-jd83aV(llhe1v?&|Xq`sKm<rb3pWWfbmD(yw5
zwkzsN(PPt1v8j4&hAB2pkM)>h)AiU)Q)~wKz{DH(;5Qq;nfP6S-z@y*;5R$j##e$<
zzCy@hbzLdw_e4FinkMqAUUYS>e4><jNV!TWkzZ04`XQ0eM~b}1mX$9QP#-bwej;Ch
zJgb*2bv05HK0!+gk*?^mUw5INMMzovL@A4rvgC<UmLMg^QgT8m_{=M)&sjfHU*)Jh
zzUFe9I`>RJs8K0$mp{>W)*$8DCrVj{l<S@-WjRu=f1;FYk+OoX;@1h4Z0<Yx^@ypO
zvR$`#RfFuTj-;vhk8SsY-(u*aiR&5k`9WV|m#$(|!cu<U(CDCmEq0*a&yDmlyfiW_
z)bgObhKXkM4eHx`M&&b9s^U&YyP9J8aqQNx&t@OQ{sjot8z7Wg0dyDe5l;06Dx;99
zH^35$V2Wbz5png8jEQ~|jYZ%r;^|iR!q^?s<|pFd0}Q*h_o&PvHj+B|^8vsH0s9GT
zZM^y*PdM<T0u-AKB#6zcqY8sGxlGh(%*EU9>!K9oBACjqfCj`M>bXqhVa$ct%$O)V
zB9``jF&BUx;S^l>0tkBL3arxZcqj7FZYbs&uunKAT=!jC?#aXek(KPaku+iZ`euNc
z#20N7iT9H<g3E3T6l!TM(^e?v!j~)vLd5F*Wn}1cn9Aaec<m0kv|H0}pWT#ejp>DY
zi(Gmi7;gt?%=Eq+w^h2^EA9H!@%Q^i1&u%_l7ZpEPg0BtdN(0b5QCDvJtNqiu`RWD
zkn$Wt5Vd8d8N-MsnqHVw(c3J0L@A#!6a17`!L-VrWW9MI)_J`HU|)H?28p9>b-R$y
zPvyU0o4fpivbhC$m2cWt2SnenAB%U0aa1CuF`IMq&P?SFt%!KML}Gf0#Pkx08OikO
z6sea{q>)swK}s^RBH|K;Mg!xKGVC-M|3=`!Li344)6xxg?m9<+Q4Nud=#MCSBergH
zVmq5QjUsKkBQF0KctOPaQTjyTsubXrxS9f*pOJ!5VjKymzgMdb?PB?Xo<OBL;`9rH
zy)mG|7{f@GzCrMgDm@ZO_Ieo*^m_fY$_YZ@Qa6zo5fjX{9I!UL^8Y6Upg$KgY+U`6
z^F4QASotjquU<>fc@H;k{@%8?w#}8lxA6c)G<;CL^Fd4Ks8>Gf4Ie!bI(kVydMSM1
z$d8_X=lPFaj<x6Pl&Tc$hoagCh0@ulLuW_jv!l|%E8*Qo!wnmdrf8Go&PRgej2lU^
zJ5SztBE0kHVuCF>|6`jyx!sOe>E)rcIytRwCMVR`BsVtAZ3^u_C+|NeH9Yk&tt^yQ
zDW_FVw}fi;$u;|=>LwPqQBK=9(;3=)LEd~}G09n-GUa^Vy<VZwbO4Fw(mesCM>H-p
z^{tk&x*NbkJcCqs?cyc;m{-Encn+?P>e%QR(?b~ue7;~?@T>@V%4AQO<SzT%^*M_o
zMV<;bt;;$*2MeQW6SF4zD2J&!<+7(-a+iPZ>YTHx4y}{ms;KH13zE9qT$2*nQzE%b
zmez!zH5(`bVetlvx0BF570M~rkX(7MiMEIh*)Fa`d6f=jQ$al!+no^)7(`cv>)=Fq
z2M2}*0x?}1^L7|T_=*39k<QF{)$@wyPL`axM)It=<C`uIRqc_h_RQJkswR0|lk91h
z+|5hd`spTRq(lcDQGiUB0W4`zu?A|a(+8`g25b4mBDL2vl{U(rjgoug(nb+tWdrzC
z+{7Ee<@q&4-A>vkpczAVK$KJ-yAa1HeZ<j3QQ~ZuQ?+~JSKBYyZQ}`*&QJVYr|%h+
zYiZ0%5Q{2Q2CEr-2FQjWBw#WaMn1CF906&@r|}CA)`0%gi9+8f;PEJU)L`i-JQ%$|
ze;vo<0}Q7_G$0c7W<m{Y3DL5S6ne)-N!nt`mjp}r5+zC*7OsI&iQ4)ZXIR?>m!VD?
z-U|$jD@h2=_`SX2$Phy?!G@@Deu5lV@ku}Jyn!SVZ7T~xxtrwNP48_!8rpnT#$WEa
zsTAOfJHFey8NLW}Rnv`cq|<#-*qs(~SIX|n_ubXY%nq7QU-;~>T~0=^F_&p3I4To9
z88OWSMrVEANx(h9ENBN~!<Yb!EFcsk5)=_f5JU}XF%1!`oAr1`uiNDlKSzacM6h%y
zPsy84$+;aE%96_I(%X|Xe1%Uqe5X+27d?FA7@pv;d3d6PK%Z@iKH2CvO`}8fnn?I+
z>A)1RzK*6GP3x>`$vTUnGL5ufLHYjm2$l}Zd3p1BIrjpFrGEQt>0J!V`|g^hD~Yyl
z49?!djhP#0jS>;7Lri2)FT@h99&_EdYg@1wI7_5v%!Lvxwl}<E7t#^r4esTR64>k=
zgX~a<-lX?p!!mM>L0XmFYXwD*p(L>#0YTCI^gv{oSVsZT9O8KjPEf!jFjGjhyn>Zc
zqp}>Z{SC^#55WtzCnI<P9JlWdZ96G%J2~YHx!23?_0wtZx;L}Yilk$MLz)5OUM5UW
z9~~1(d=EemXdfl*(8uy)d>qTl@j@E<75A~%q$8l?Ld)@l49$8>wGn0V4;@Ncj~z;&
zolVR|<kUn0h4)m-nxu7;w3*L{Ns324fk-qS+uV3%k=D_KlgeWP#t9v(nq|eHx_HPX
z81sg0)}Vl)F?ZB)RdhCLIDusB97HWlyiirOfve{>RQX5-(pbw0*GDUAHz*>JKyAR=
zP+3{22pnkR#IW>-|L~9h_>T&m=w>2g=vFYq%w%`8S%)BYWN37ZM7}*eB0dK(<Zxf0
zKa#`y#<Bl~1_DA&1tH?Z1n7?>;M2xz1tPeFlEmv2j8mCOYFUv?f4?{|{0vk?yuH32
z5F(7_P1RFb-YZO-Xst7X8c&OH$m%Ro{1!gqe;xrqO`0t&UrOb|g<PnxK`v~VI`%<!
zc_@3QoV|1QSa{c=@UDHKU8m(;rysc-E6&=dk`~>z!lKs#uV24?ecCbI8LDlP@mJ9_
zcR;Q<GGB63UVT(@=Y>5hUVi?@^LOmBr}WOr>6}pIZW(`TcgvnVQqxJ<b5e4jR6v+M
zeNiEO+W$2ke$~@Hu<WF_o~EfW6CRV@=>S1Gq4Usa`eGO2q@`fJ5GX|u?W0{t@YZ7|
zIg_8M+{>s5&Kb-f4gxwK*9U3cFsH#7j%F&?sl@7EA=#X$DK2pu08-Lo4a6*fO1C(H
znu;{l#YqZ?dJt*uh%ZpUU@k%5C9_!k5@I8X*Mxz-{=kxXixmLI6zxLv%}UI?wMg;%
zDA7-pDCTX(r=7PD+GMYMHSd+YTbn|w>*dw;QbGO9dbwcxeAbSs#IPs#w)577`Mhe`
zQ$2lUX3O2+Y-ecq2^oKNCuGkF$$es(=_&&L{i>%c<lA4sgr#YTNo);+0e|B`Z{)CG
z_tG>5i#CCNX<ARZkd7ux%%#G9!VGcnhyweSbgZPr2^Z>_$S_LMMAC$lcfCeTZq#47
z#_g4fL4zHC9C{$)0I%zzkURkFwf+&Fi3LEX>5^-+eh+(zjV@CMBcXwh3ku>$EkO4u
zG?BW2Z8+@bdZ6#e;4Xr8h8q}K_|S>EfSH-BYX(J9O{G_+KI!ri`%w@hULvd6=VI8A
zKqAnB^51pG;0m_NL?TlnE@Fi?DnA><uOZ6J2viY9zE{=apoW2Wh=!>}2iHYYMe)*o
zmkR!K1XzSnF8Y+nBhi*$@LJ332X7y|!-v-Gkk{>y*6x@+E3a*tFKm_bTBVh34{}0>
zF39*>d0{FwoRu5ODwng$?*u~Ycgpz7+Bui{pika+TFyK(<qDfPEe4xKUbjci+&fqO
z;L1C7a^?vn%PqLscI)&j?NiC&?aflhMY-BbRCL8MYx*D1#$U~vHmK>zgfC)EPePuo
zARMeeS~ZsR*95Iit2L~mBX!j!PB_6vOLz_XN|jDu0sxyn@ij8c#~2_)f{Ejbju&AS
zNZSPN8DZSdRjk*S!+ORhS#Mes>nk~*v1%zJaZ}X7NCp6A3v^|P|6Lb%vet0jV*#iM
z`U8TG2R<V$L_a6^diqT(R<F1D>wb<G#DS|!ZB?l|v|0!k5uK=`PNMI)PGiYKV=#pY
z3KYWKEnx955<Y<k*+=p{@dkp*<WIHUE0e5Nb0h_*Po?)F>5x}?hX#hn{9eRHJbK4^
zSu>b&mkO5@C5TPL5@f(k@W!rjB@b)5-+K+Ttk&LOQ_R}`^hNv`n(rq#1h9}9A1usG
zhFedC_qBxfJtgmZ3Q~X-PlKietAAy|tLI)hcPkJo*(jH6l!`ab^vT7$=X3X9*PCB(
zYsc-vsr2ybid%KW@82ue?47HXPMryz>Xq@=+$-1g$_0H>o`s^C*~_y}%br7$TUE@k
zq%WWQ{}J}D0AT}NV+Md6AVPv6ZALHS$r5@0@A?Y;6(Vn@^KPtUU1@&@$DP2&%Fi`!
z*<9PWwUPFarvxk+XoYiC&4l+)06j920QXOk>O8lfROglLC0<k+#hPdWaSDB)fP>G3
z{uL$tXg-mOqs6b&DkGkYMvEwmJ{qg5TK<e+SPrY3)BPnC{4N44-<0^vH_n#uSB2FZ
z<;?PFyC&h2EB48mO>;-2lc(NkmorZ>w0>*zD^K59FXvP$n7z|0b$F#qeR4;iT-_fB
z#Y1sMVU*3{W_c73lxc<^NKY47Dh`vr0T8HiS+UMg0u5Nqr3o@D-!Xy4(p@F3t$To5
zbOAXh1b;Km`tf!9AyEfPQ?z0fDi{Y$v`O<TS_6#cWV9$YgKXP)6E!t$7GJ_6bQmsC
ztj_IFwGCDJbR`krnC(P-oA6h#EDAwcC;Bfa*Uuxs9A3)SSRg6HI@!JM&g9I{d+wHp
z;82jRr8AVbP0rgkyBgGIxS%*xutP4`F}qtXIP~Kd>Ey+Eh`0;9A0^oHFWDd2?3q40
zv;mWS_GJjie~v1A{#k{2<3vF*mp*T--Yqk4CKDzS*qnJup9Rq{*K*G2X@B)ICPA4o
z-$Z-GZy<oq?IpU`=Sd`0fme!Hj+#%?S%H69<_W=)1&iZO820|}k>5{z3(S?Jtc2LP
z5{AHQ<raD6mYHYemHWeah3cFslJgGyxctH7{NW37-UUpORTu43so();u9n;dOQ#6c
zn!w4U3Iv!Uw#({r#-n}_aKR3Nq^7tSlW2=R5Kk~@22z5kQ13pdFuZ}{#NS2mxFx6b
z;A55?O9Yb=HveiA$(CGZPRO%X_N<*bhJ_<}*3NsplH0qq8wg&qZfHUF<yXq*XKtgD
zb+!q<t6tF%9BFj6f|i1~cqD9Q6b#;Ci)G2Y;2p%)W;{KjdWgjlw=5;?<5=K~iDJb-
zXJ1mNE7FV8m@aIiwhvvY&yxKb{jTWZW0M6LHVz4b8?GxYSn|xVrQ+DY;v6ClqSSGR
z>V&!)4(Af}T}ABPtyet+$#n~XYXbO>w50>`A=bN66lrDpIAu$<l(|BOAt}qKUl`*@
zYFQS&A*d}-*%)yOX;Vo2ia0zPoE=opC71;S8WT~G6lzU2@l8oLRR0>oU5u~8Xt+4c
zPlnV8m6=%hi7~)RVaxm`C3+bFQ-4#iuL7_<teL=bs(wj~W=YK3Oj>2LC<m)-nY~q9
z;w(8m3iE}tSBA1T$k`iacFWmKQWml9vyMn7a0KmKsIy=0?3XS-BX>R{pLj;j9ArF}
zP-cUi*)UT?Toov_G|%}Sl!p#ql=0VgQO@+nFk;TinKd)Hv$<~-$)3HEdoKe4kqm9S
z$+ph^D0vqx83qyx0QaI~m-@*J=zl0uFcmT)hkii{rW0WkdX5PPStAiw8w#*E>0^=Z
zo3ywc2orwSbq{?_*O%>&;mp`^&O1RpJzj=|pI|7=T1mg4pi7c33;v5Hhr>zswd~Zn
zelh^3igeIr1ym-?bs)<N^aWDqjJfb-$9<=UQFO}-#&=ww;XB0ih`Ap7okZRRK5n80
zFag3a8WV{|Oow)+J3&9I9d%ck6ihMb*iQ<MLBVop3}=i~xhj)mFi7*sHh`>QZg?aB
zz{KIeD1kym02b+DK?ZhI5v(bvy-xfVTJ|%gbqhaG1c0d#=imT<5fQeL1h8ZxDQ8GS
zs8tk4MAM;_7*WaZQSwY>K^tmD8t3Otyk#;!hNvTMRq*GJq#C>%e<V%Mh$H1oSw2}B
z8&?4)NE1W-EO}o>0Ob$@oX<<M6%^kZp3kqH$_S_C#fSn^Gp3%KPc6Pv`)+Fe!|Xz-
zWc&BaW{2l@9Fw-UFWPL!?FStAIp{b|KL;FV=;w^%Ed3Opb3B4_@l$l4{*>c`6}hi&
zdu3a=aqr(I*o&I%VXpS$1Y2=KsHjaYYMYys&h$vaKuCB_7M^>*==q=9C=m$moM!u!
z8?u{K`LFiB(jVTuAKAH9d$_z2s-mT9L)=c8+xehY>I+ER&iA=7WW;M^T-63r3>otZ
zUcLUx^>FP@WGvksF04epHS0p9TjbI$a~GuU5vg>``=z7ESGpV7^7c%n5doKTv;U6$
zm1jtNc|`Wq&(zG>->R2AO_ICmmp@-YmHXw-6X{d*Q@Yzv!~V|7iv4@sKg=s=NpSyZ
zT0x839R=fbvggl`_J4J<M<Fv9FFB6HhEb;7I`Y(*!?dXM`8v+TD@#Qx>-{F$K%oq3
z^)*aWUp*nrNc`VGcVWR;2_kRemB?`MHr(Bf-7_#Wte(?T_X^?+5(bN+b_cPma~Ca-
zex$S9NIp(Jo@k53w<N=8l(QOVYUQkbb6e%C!;<I71O6{Yemo+3E=cYROG#uWzRvLB
zw{gRE3iyq^UPv{_V_wI4U)Jy>l@W7II-=PM3}X;GB<2FPqGKT{rX?XapP&-MPTom(
zm>-zWOgaad1LlIuM^MFbIuM^8$E<zB0y_jgB3|=};M$XT+ET8q5R8`6Y-4kCfC;-9
zvB}IoC{jAmw~&*mXZMvet=x%=oj9ihQjn|Qns8suH6x_cIyH>)jIN$R9O`Ysxl~>t
z0~(-IM}SUt=x=C#*7EgyC(gU}sUK3FpN{?%cR|k+Jahs?Ct)XsoJMdD4Al-sKh<|w
zr?fSCHoAJ~8@>1Hu)!P0SSY)^uhAV_E6#|M=vwhR6vLLyE!;s@>JmlhTSD;^9wVuS
zJOr3VEnYeCL5g71LT#H}5LFegIc+fdG)Vk}M`&%0p<t}7Y+G99%iC{kmr@G}xfJ!!
zXAeke0}HWe=&y3~Z`ID{RzMU$8}Z}v%Hz_-XTles0VrQ}f&u#>0Q-f!GQjG*25D8p
z%+A?KdE+tZM3=m=OJ3DAl@|73OTK#PLeqir9P0E>0F*6wfdT9rmCH&vK9LYlphpYv
z9=ek*y2m242Y;&1vzSew2_~zHE^3enQ0o&*Q76#>GE*c`mZLA8@`$l8bzTwI3jHf)
z&!eJoOWl@jm9)G3v@CYbLeADr#uwsj%m@XTxQ$FT<=-GK8UaMsMzuR?7HfLb(9jER
zh(Zxhl;;x7?YK;($Kee(hz`=3`gYEnd2i%RZ=J57V=RYc{8b&AFFh=K4omLC%gkUW
zKEM17#`b`aO3W3_aKiaHS`+ND<Yy}ig%<Nz+sH7aV!;E6M@*;+{JIheYH2}oD5;{+
z7ehg)DIqAvr@>0XDoFUNyXcB|3&96P5i+{u>k&t2S3sg((u`NQ5a#Uw$ArR!Vzi~8
zm#OMjsVm9Maxn0RV)+1bo{>bVIVpB1poZ8miWVbq3Nv_v<%f?z49<;>5|&}r3K(;~
zvmYv60T`<yoCSoWs<s$xnH|Qy2mrgWzM``>PzhB>EV_XA*}&w*XFDgk)~A8@{M-cB
z<_%onc!QV2tUutj=`B7&71wJDevZOUQL3pn-PByFAay3r+L8$$qeagQL#LPC)+nkt
z+@9T>scCGtrC=_V%41|*%tngV6(jZHXqsh{o}8B|;Ma69W3|p!t3yws^d;J76;bPb
znUq&(mD9Ek7;NPdQJKy<p1B~M0{e5_d+tjQAFEMWQWh$1l#3gsqDETur{&G3u_2N-
z^HSfiym?qI8exhsIuZHKrU&Ws`_IT(XTWqWK5GZJ8Jm`@GCFLuRrXX#?ka`n;>P$~
z^Y#w(McK+At^%Vj9SC9hmo$VC6?-whh~>dp;*}te1%>%d+wUfV8>7>dmI5v(j`X4z
z=>oVh(pmrwL$MMm^&`oa92QIN3TjCcDds|~#c^YvjuESE0zb#7*UFgecm%H_0URKw
z$^k;nCKW|cr`9swP2fqlPw1rc?Dtc(@}t`Q`0|m0v6hMSj=3h5eld^nk(_)QpMF2X
z@{8b$#a`BPKxqZ<;WPQH``MOd6~>kXX88)O7oyr(Y>_hOey(L&ZfROrCtL~Zgsbl7
zX*&};M6qJ7X{6RH&2>+W!nv>f@qE>0pi}2B;jXeESPx-8jI+V=90$ucgWwve@J%_y
zWrA`<S=VvFdKFx#_5nK-Qv-~$XO;s_Xy?fMDaXhF&L`<Rxih+DBkq&zogjr&(^Xst
zS*qeH9Upp7*AI#8hPi+wtXls-Q220Pvxl~}zlCV=w-J!GA++;g!yphz9`apR*r^}#
zc=a><$F;DR=_FM`F>w&vmTLn%w9Z|=!O?zSB#|EpfSn#p3i!Hr;AESY$R8Mo^(7aM
zjE{()IBILvqW)%Y#Mvhb<B;3Fhmu8^g7*;w74v)?+2`Xb)>f+NrM);M`!3!?KD|=y
zl@8MJRT5GM1y{7H@Ru{*1U*J~93@L$ZI#pobQo`BxV<u4IpV=cJR<BO38RC7NFurj
zXGoy)I1oVPlRJ9)1+uUwMhZ2<N=oN=yT@@BTkSNz!oy3~l(-nuU}xj8Z^F=vU!@Nu
z`L6d<=S337VYU#K#n24{d?ayDK+!x7XalfnsOV2A156{L642WeVG9VIf<4r5pAbo-
zdqPXzk?zYe7)ksoG6u7vFb~z>HweXSLjV-xw67{;+WGZzVZF4vVJ3Z+|G~)HBhv16
zsr{1V6GFZ***7L#y1JNP&%JJ+O8&r|`f|#Rlv`Whcb7fHee#Xuo0T}o^)R<Ml)F>T
z-8mNs9e7$k@N~HKP^k5++<G?LcKAnq@AQS+j(?n#u=1pRD&^x8TXNdV?i=o#1rK)o
zr0C4-uG{>bUGv2aGaKiNx4c_)M(P%%q2c%4BlHE9PVx@?r0DX4iCcWAc#B-TWoBZ&
zxMj{iUwru8qRZjcWz*Y#kzh~W0+t*~PQ8(Ovn7-R#f|mTWpYmKY|eum>Gad@yU$a3
zsJ*nJ>^*n6R(RljR9|`V?uxULulId--(RM#c$nsS`QVL%Uq6hEU|P;Ef1YInF8pPr
z=rS{Z_d_nbb!*C>X0C4Cm4clzhrVtX%Me!D+bU~BvOXc^Q9wX7lH~RBBRyWPNXt)b
zrhxWkA`!#lMFbHy9qkmvz<BI&BVrYa&rooMf&c|qDHx`J5Q>;U0nyCjuTelVOe87?
zW;LPx7)ija5pPlCHz^?MLJ`+~o9_Mv1%$IrY-Uo!WxOo$`*imw6#NiD#MwPEGRP)Y
zBwaNL&?5{Edc9be-AKSrL+xW?D6y4tQLv9*ypKx${foAb90@M>M>)0)d*@ER*LdKg
z)YYz(@S63D3HV*WuM58*Hj2v@ljzQED{EX#rn?l|%91-pa&FxsWx?Yy`$_vR*!>P$
zV#cDw?kd0I0;APc{wP6<KuOB0wRdvq)mr`4+67lS<>79%(hE+1!RdMS+m%fF?fT38
zcKz+98TPSF`nye!5))lDk1|~dGMuj6kJ4POQ+BW+4%&~}KXPT@AzWQQQ*n3iVgfxZ
zRBxPVnceo*ak;u>k-c6xfpakQYO!3;bkdyZ<dRH?Q8Jyhe^j2~x@4aTEZXSz!9nTt
zQ_^`}KF!NV1tm_pGWLkQTwG(jXz#Xvl(52e*d8ujJMDg>WKnr&I`p7iI{DO(>*b~{
zC2Ao#eX8f?=Bdkaa{eP1<@l(|;~HRJqTkprQ5^dc-F#G@>hjr@b}riJUg|tAUGPc#
zpnPFa?i^Ah$Dez|-Yyo~+U)oOx?y#=vUbLO7Zt<(LS^Gj`D`AT<dx0TS*sV?JE*T#
zqpObCk0V1O8Xd0NFmvwi$YKILEYxk83C#At^}JknV3ECE=s5R?-7MzVTI>grDa*Cb
z9$sHP-T%h(iwX3wu)coAIdlCjkGy{0B741X^yDLUvsh)@yB~R0x|;3bstq&SW?SCc
zjRW_K2^2#WtdJ{rF0%Iv2M+z{`a9Pjv4_PiwpRNg<V<&6w1+Edrmx@iEGE#yLPf(&
z&aC^b5}a^aWUm*FoqEJ>Fhs}g9mur8RT$o|g_=&oQMj;S$LyxLinsU58;&f}%Z0P&
zX;caq>tIjzA~IySj@ZMyo8}I_?WL|eVqe(ZI>$da_s)pC`waCRV!HdN^N!dT*V#_k
zJ6WTu!yC8GR=l;Bnp3^7ap!Ey+_txm%NvhUi>epSU7*HPf3zvbwdz*qq76UO{NK?J
z+X}FC-h*|nUs>wiqpt$SJ+YOtL@U}GmdmW;Va?1+<_QaD*73;#sAM5UwSJb$r}bts
z>u2e(ewHev@u@;Ote=@Jnq}|}JZzc4N?8LB>t(P~*1)WmWx?K5BcCl~E0(h0*&|20
zCwPyNENcu~SvjycmHXJ-WaldvDap3k^53D9E0J>5V^do8338JSHL`p5`0tPnwfrYa
zNw(Aq9-A^=A2F+HEca@mFsfglyq`6DYK{Ek%h0W=DScounv{ZBQ;U}Zb19K$R@9bF
z!J%JD`BL&l5oeCZpE+fie`_9-m+D!LbY-XowR?q-ty^-VzFYB_*+~}C%2^B4oUAXj
zTvYlxq#z4!k1Ib@hXnc!a+AHabxX=uSCLvb`bq`Tt!L@7<BUcnQdH>mFqdF8N33g8
zg)%B1J4>lP)ks<OL@8^KvRbKmT-cB<)Wm@gnq9$Klv2yaI^KM6@^u*Jy2qrcN1FO6
zvTxS_*5!ss-m$Skm|Z11*8#!2Gw}Tw8-f&)#%Sj5z$VnTInl@HNvDblH92PM-EXi4
zdF~vuT6aXZT8C%FYF!7+z^WGO=p$5yV&QIRjLdNN)lk+wsv5DvFFc}Hisc7<eRLjs
zAV{XUAtBKAwcu!q1J{|9E#T8E!y2!d#b)j*SaBmFE1lWBC#ECQeuvVQV(gnWTD5b<
zY{qgO%7;xd4dqh`zqI!AT<l}I45NnI56f#%hT|Hy5lcW5UqFEU1ZM=Wf9$JLBp7~f
z!}jf5?Zyq;lsYPhhT5?5m~n4$E#1{3h-B&=MCWtRe~~PsoobYLkdhywfJ4yUV`j(e
z+`Tjq^vqOXq7`?~kR4Cx+_+~dun%w?hW69M<MQa*L!Tm#&Z#oxAv1;!w1HjBj3H{R
zK7q$*vg!lXO2a%Moo4gWR*hYO4DHT}+OX7#vQ*Q&r*b99Qwhq~`H{G%%^<rT^DP3A
zF&8*%792k9TPR!SYa*qE=)*epvIXCbETyA7Vk5C@z&7a)lxk1bW2)7o#de_?T*l-;
znV#PA=mKh^_luSiUrpxWLGCLK#qO$gjib{TrywWX(7#It=h(3e1-{hcv;}B6uxr9S
zkvNfL7?7My39QrJ-AIKA$dfi(pjwMzdJDRy+e8ZZ%<9|%_YV^Ac5yS3##;aPipLQv
zV(#0-4g{4e$uzoZBQ%l#iw-esRQy{?`gatNwPG-Z1_1v0VAx@xFH#u0e!Yklh84Z_
zNKu@(3<&xo2?N7dBc;ox0VC^b#NHWk?I&OmaWOU%v%Ai$4~iG4TEwtm&HyUY#7lHf
zon`<TQv(c0aso*r_5smHNxKm+E(+lS^?E_!8c^B6(s*b}w*>hetR?>hg1-kBE60{u
z67p2Yo{IbXrG}>Yn&x+z2{g&m9QG7zZ)QC6HT&N6?33L4B+ow63#nn>d`;84O#Mpo
zG%b{GW99|J>-W%adAOubF;&Dh&~H(=bOZese{kYd=)_a<iKjv*F32Y?NEf?97ya@@
z|NM!7>^??GDyKKSSAFbZ<Hqmhzm@;JqPL1>1EIY>d9QE2v76r4g>&;mxz%!R^)w%<
zYmw_(LUnC2{&L%<oG+y;tX(g;*F4NxdGq<uss?#g!+cib&uy;cjH#xF`}i<d9^y91
z+$MIjS>`s+`2HwshKI&l7!se7&2otrQ?m2pBxjR7LrPl**8*9y3DWvq@22fuOh8#5
zXTXSJczsj2usZC?0*9_>1zAo6hfcAa_;B4W>GWXuRPV<L_VxYPRqtI)f)&MI*qq5J
zinthqpkLVQsmk}bF>BhI@PV#YU@hU{?Z4~LpvIT&Fk*2&MVlgKEilu$UI-D%vks}W
zkP;<fQo}A9H|7WT8{$GzebL;i7?RIV%9tJd;SqC|*wnCox}tp~aEJ{45@TH8nO-Km
zERb6k#_HqIUb876vc47E7<U@$_0w(aK{(5-r#+;Jy#~3VJ(*(jtoe55bosZsLTk6l
zYqv?|+okR2r8O7kGcHQ*i~l6uFAkwDBD`^e!$?7FLy0LF+!eQ>WWh=$Fyh&Z`zeZj
zq_#Nme|n3-%k?kcV&cFCw=Ub__{P-!hWap#f?^cYgB$(&!q<)nAE|LhjTp$mEz7qd
zp53wk8r1|t<10!XmBgDwYCW1l>gDxD4A5W&5D4i4;p@bh-d(mRjSw@5swP=p^U3s9
zC-021@kNU*Bhv!GFlpdP`&9@dD^W1LA^j1QXQk4v13F4)s*wdjhZ0Df5OZlY&@BR4
zh+e5|I?cm0xTY<EsaXxfY!N8l1c})~L9F?OTL`Mmu++)@M>Iqsiy+(Z^@%Ug^FL5v
zr)hZ_cOaC;1@RM#qb-jnM!QZC;}m=eLBs>{hEz46840f=aGylWk0Bc65KW<>#u2p;
zm^tX+=6F3*w_LVIsG|Rm@g2}COV0&9PK7Jcwz?!#uuCr3^{}w`^#ivLe7pJ0wl~`7
z0P``q=9p9sjl{EZ_1XFIbMu8yL3LwwmwkaOZ#Bz>%^$fOtM}WdJdmhlmfXn+l^&2w
z4?xYM^o;B|^DsN-)pf6|yOr~L@$KUI?275Va`ui{KD6hQjK8c?C@Zsr9Zl`9IGT#-
zr7ZQsxMAAFXlCpctp>)Fxb&Tvk#<7g_hGU+g8$oRo~)XcGF5<XlCXdAGnHu=RXRj?
zoVJObXw1^nrFn5?g+E$*kV)=>HBT_Nbh}oG*n#-B;G=9xl~;tyTI8}8spC?(;}YbS
z<?OUVc{g-;NU%j`C~IX;tyI@G?>Qj34=7m3JQ6zKUO;n}2i!EK><m=40m7l}V~=y<
zi53{Utbn-+<}JXu0p@w92}D}&WGz5>EYOZ`I!)C&$6lOi!&o2y)Az0Pesm6miV$+N
z78}0|AwZ`c;GF2jn9I;dV(AjCfj-M^feaX+$L<-%F>IGt#}ti6+UpV`(2xe!m`j{P
z#3$LumK<>s{{Sz<dlV4n(!ep(`lhy<47SlO)dYwch|Z$Lpo3%vh?TWrX=5squ5tO8
z$^FPm-_<^q8D)mikwiK;>TOhiH!L+)!KBo|O>tMyGMabUw361K+E_^zns=#rw~oD=
zTFK5S;jG0>iL~$fA`q)`NNL=Dkd7i9bR1%*lMb`fNk`b}q$3U!V1KY%>be-}^2=TR
z`Ru?{60Fa>cIx#rx6hElssr-61Jc?957x_TPtF&elJie7)ArZpv-G72`+mnqHrqMn
zC%?r3lQlS^RJva--T!CZq+#)3Xuj>dTzX#e_JDhE$=*ik)t@zO4#{1-khPwSg`beC
zPLTD1DzBX7g?TzUvbj#qUME%VohuJDpONubc}C7YL#FFsR-Qn{bnnd7yCd^3u;|{i
z6l&<S>t8<>Y8bHMvyyv{IZya0xLmzD0frT00Xs;?j*)LpD{_$5(xeNgK8YvFE-Mm{
z+00sM$CTE#1$;oP1@RXjo><lk7#T2tRy*pCbC3kl+$h-sW=y!%vMt`lE1TiwpX<0e
z<|shVh-NF46q~_e)|B0%+3w5Gj5;+cDE`}sDudFmqUg-brjxoa82M2KCXGG4iN8(`
zaQ)oIhHdbmv$0{jnaTbnEOz3s8|5m1Fx`?aWt=)Eh)KUfc`}j|9)wlE$RJ??JrZ<;
zC9g~PF}6+$NtzC4JwCn%9(Nh<&Ep>%isJ6AiZa)wyz(MZ#C1?%*0HYl(`=+JW0ykA
z<}We$qm5B;LtI!HH%~P|%AepXfRxLg7>|W^5AzCMPr99SC+E%LH;QL+zE}KKvBd40
z&uf}%3AG3^{_+GswSx82wcn|~TMzS@Q=agevTt|4+51NC^oUfudoD??JutuSpuFZF
z+&RELUnp~noVjH-=LZFE7s#3W=lD?DpxibXY8#gEmpM#l$JbA<l{4#S>S5mpj|9*f
zWl!TwtL)i6+Y;J!QQmbiwCj?LKhGt}eQ7Cl!+KIE+~35_V`!qdhafawF{6E{#F)#H
zDoRjSr$u^t!?tvamns_Vn3brFvAzJArX)KV7ncft{Myr0^9^I^u#wDG^D;{kB=H2=
zE0)s|SW9=bHkJ~~IaZS{hDiQ3WM76zX0*QIp;+sHy)<EuAe-gBYk|0>yXBJIvqKLq
z%$GbZ!74pX5;E4RlFJP(vZsX<8+&B@d3q$bh09wSBgXO|1=Y_xOQ3sfyG&R$<}xTm
zHjgaWBDxVDt9MMk3_2HeW!UR+HUM;r7Bej&xH}%qXJ^1^n)#Rs4jk*y?VFmw=hx7d
zNSgT!B~A^pX>k*8*xp?^Zu>kvzJOrq-n|^LkyWY(Waa2N_Exa6NFLW>_V7&8F<2iL
zz?tp(7$@S7(Pa4&K7+~fctcOjsM9{VVBcKPe8F)7SL;G+n&makb35fV$C(j9Q9dPt
zehb)}i5}|!{f4JDoN8xJ?5FHBsIwB)Xq1#!KksRf+zrbBqJGrxvraL?{12v3oP!q1
zc_<<u*ucMP47_5HTsgfn8s+Rx5w)8wVDcwm6P>@VIBz8Yr3m(~<G^gib#G%0S62u7
zFW0@Ju-YjqUTQ6f1T$D+3fHD7^)2*+SV5pfHSzR&6hUXUm%^45V~nFAN~FPhCMXsy
znJvp`u;dRO`jnF@eo;@;bZbI|tzi=hh#KVFhS^E!{D73(FrRxF2UR`!w^~AlyX3-M
zvlr#Uqp}B9(T}p}BEE^DqByYx1{hdsz?YVvGX`mHm^qoWG-?9iWC>mfs2JjR6Jd;P
zY3yZPhIOn#s57vqi?oe0<MWA0W^Q;FhuITdfNlLPZF>xnHJ}Z%mlW@Nu9&hDL3As&
z+2Qt?w|~Vk0au|+?7R+QXPvoWMOa&^5y07Vs!b;xl1%++v2_4@L}w{XBx$W6c8B4b
z7Xo`@vtmK=!xXl=Pu~<_?Yn$G!s^nO{{cavyj8>NT*Wng8DH~0J6hd1S;=H=Y|U0T
zE-}c&JY`~AKz=G<N`%hrvZUh3Ran>NVG9b!CrQo6Kh|TIPJ(TffL;ZHBSaZLJFvSE
z=MG0Fxoh45jz57Th~9xo25<mh8WayorgW$qOSzkCtZRq`NzvKW!--1)8ZaDziYWWt
z>_Cp%q;U>)SYr5>TF3y1-UddPpqUEUM8_Jnt&9rb^pqWfz;!@;PiHqbG}J|@2|ei!
zMlVdYBRY!(p&qDN+*_&cXZ|H3#s8OrPbgsf85cFyFV<iNh;;r}{2zD)2ZSSo(81b6
z_X)K9fKl?{9_W+7xT&CRZ3ql8ZhK@k`es19?j7k>fgpJo6yR(dRAXcXvkySWq`mO5
z8em2lSp^~)#v6j$ktB7>Me>YY5KRLVtG=<?_!O(}*cZeB|1)H($2*D>LvRK&FtUso
zZ~2V<1ht8n1=P-4a!m7s{36xp%|lQ2%{}utHyL>Ixi_Ah@yYAAzU$d0xwlE4Z6B<w
zc(ebF{u$@@GTzFVbN(pfoeZh|`20F}11Jj@uL%`*$i*EnArtN%g+6`g%JcG-=Rq>`
z*qa>S?3Q$rX@Zhw5Du$x>ZPFMR^avLZa+7lU-xr}<}cW%4lNXwhQLKCIwkpr!@dz|
zbX@iYk+Zmiau!e6r`i{`wMmE0%iGRNY3u*MKD`~@WYRV-CR2Wx?txLA%2z61t$(Fn
zTC-c)*CFlgn9uH<N_tqf_RVc?Y@6=*?#7vGf4EDo-7D4Xn=ga)8jgH$KX>D~Ti2wD
zeNu7LyvY+C;UMkOnauls^*G5MjgtWLbqJ_chnQ<HVr7^lNiZ>btr^W0*v}f9^qQP;
zN8z3X;8?VtE?}B7HXEshO}ZwDF_fjmn?qn0lbNl_BvTEoSkacuC7$6c_~cF0z6`by
z{>5WCO(sKfnWP%hN+xPB2uwKXeCeFi#wP`IWi(S=3e0s@?$MsYrLk7u1nzWVEG*O0
zn|oMrbZNgTed-SWSO;-t6%l|X#lfPs0oDKjrvm_b6ARIGZ_ZE(Rj`r<-Ie2hCR?`z
zoyp*rVuxZwW8H?WpUDn|iJ~QDJ9H3q_$ku9RXN1Y=v;fm>AODQ7bQejdX()`4D6<}
zead03dfY`4f&-&$D-=n^RtcK7&@&nGD?2U5p=zY`jA0M9v8^&iyhNWgYOsY$akVgp
z{8#AJbqcB}He0j)W!S}utZMcK)T8q3j@<8#j`#&X(SU@#l}i<~YGYymWs~8;_+r-O
zvP}_iUW4iZI9u?io(MQE5KnxwoV|JOVz}ibpyrA#0Gca0$eujT!moJM{fhgJ^UaJm
zG8FhNmF#^lbKjKfgS8dYt7huv*ESIt-fx%FN~hXx9t-Ceh4MGa`J3i;OP7YE{7v)u
z!&8SJmX<M2m^0LHLT&&{-YYj;lKT4JD}|++;_$j{(#~U{oyTSTtvfEIm4(x?Zg$;S
zC+Aj3)y;Blvz*p^qm{rl&ZVW<GFSXg$7|WIue!a8<hxtt(ygJ=?Q-e%*;cufaoD=#
zmM*!pYd-(!`P}oe=e*=TzjTYKgXRcEYx(WMr<4C-SwEhiL0^x#=qnnyVq6iOj5ZRg
zR--I6N)@1I=6OswLD(h+4MR&Yd@}+FW)_C3?LN}0Lm4rTmdqcZ0*Zv}Yjnq!r)ry;
ziOEPAK{;~y4cx`yWn?M#!2%<+yqNp8ST4r5k@?ebF<61$qBTGj#2Q%YNCifaKC?7y
zfy`K&IUX^lui0^8wl#fPE<E%AZkz|@ql41Wv+~giFh2G<juYeKn4SF;9S8lAANFvd
z9hS~TnlEhYN|e@P=Hg@duCNuL&p)fp>yt>J4MazRQM#ZHt&;+n;TAF^g_WWikU<&?
zf<p0M7$?7G8;v<Wh?75oHkt5Q<n(<LU8T>{gTf#b6g6`$IMJc_-C=t!g@=Y67`9wJ
z!YCAY=mbC8Hkny;WO>)ewqwYp%3bKdd2Oe%Ec9=UdjrfAno<nTbWld(?gaMeX;l6X
z4vA>|9#&K!R-dSj>%^YP#Mp!KCfp^#n+s0h_mDm(OzP;R3KyTP<rIrF<C-y=NixcI
z@!2MNrUNFxL`q$-3GB!2gKMHn;1mj8#8zf$&mf)FC&TbAY3v?V_b#v&H#lB{k_X@;
zhHP1}9;SWEQuj^<tWe#b-Newv`at{d6h}})LDT;RchNj623M95-b6XKQ9ul9f&UK)
zF#Hb6vqX-%ff>z?y<uEti7=<S{@xbSVy+0oDdqO3<n2#MU4p#5SK8J~hGn)5laI;@
z*<CTcT6S+{uKv!;yKwsV8F|;Bv=bm9Any$5iHhHKZ(9Zg5D~IG2r#%;pH;Ao#btq9
zj74v~bgh>y30?1@&UC3%ZKm>M4(Sb3Hd$egRqnx?)ejpmE)<c5F;`R?;y$^^xsv%n
z2?2$mAxG6^qdUw7)V9?%ZroBy#PFv(f<*FBeHkj;1t>xpGd#^wR;ugpDMY8Py%#Bq
znzc(vOGP)N)FP1%#8?uA|7-33DBU>yz)m_eN9;{YjNUTi2~WDXOx5)NIW4Z+7$Zxp
zyNn*l0$KgvA?NMTM5OjREur#O8Gl^sd|n$g@bVAXS*ks9-X3W4<?o$J2WC&t3Z-q5
z(>BeVogJD_J33_#r)7rHHppokX12~An@>B8nC&|rG|AQNhQAUfZWa$>c1CfEF&7nd
z+perNOS4Uv(Ztvb=8Tp{t(NNwDA7(kIBk`%b&wKUHUuX|*%qkNFi@nfG7A*URvDD8
ztoW{`(yjK<x<VpT8*^BdpnlhaBg?*vRS9y_Zd!v&v9e}SKL%~+NCzsa%w~Qa*G9JF
zOr{U9ayK<r>T3`_0S}@F4IUm7qbUlqF?v~S>z9p@X7X6gX7raRH_eQQeKbNC*gGur
zVSjs7Q1uO>Y@kKbDTThIM6&w4bTzdhc9|mr7VB9<wrDq7(LbSeMR<~}E1L71oW_OH
zs^qk)Df`3f+V5<+yJcomXk(|mu~XX6DV@D2Z@4&L4HIb<%%O&9X(<{9w4h+MftH<l
zL8aI-R=@1M;eAbf{p#(jcYNO*m(wezkA3I(-Q#lFPEv{OlJS?;g=OW*oN_NkSo;3y
z%b2!6Sf64MO*kwOm!+tMO|8dBZ=*Dmtd@=?y&AhL<LgVBQ5-{176=Z^BY+k3g2m!e
zmxtv$<cPDNtjn_MIaa<|XtHuCa3M=;hHwdGTY(RZq)BY@8B4LOAxgH4M@7M!OM2`G
zx~)cwfGYI5K!AXOXQ}n2<(f>vdwu_6^o~`XKwQ`^Td?=k@wIrPfOncdY$Q@~4%2B>
zGOKU=@m83E3{^~~!7^a{G7{Cg#G5&+q{;MU%ZOhO%Xw<q9-8rN-kWBP1!7~C5v}Ii
z6OoQ_zic_8Yy>hMGXfUtm-T2eh5w7S#WUfV$OvM}PNcIijl#*yiIj;{_MAx}5U(@1
zQ^$@v@vCD{xD#z86uP03%%ZaUZQElVwKHC;cpv3K3)(=h41umitio$$4Ad9skrA{E
z+uDKoM5gvvOn2+(Z7qVzEQQDVC5j+yD;`A<Dbq2j7cSNmt|=YJRk^7QD@GDq6!pLi
zmW1q}!qIgLj_Mv`N`RT{Jg|3kkeqtb(cp-yP0<b{Q?2meOFtVTN%XVP3%Qzd)1%#V
zYd1b6=|(>ZBUGNP@x!>c;sMk;xFfDEgau~D*A#XG!|NXqUjG3COS~Sg+xeZ5yCZYX
z(7y9B{_4Q7tbPdI>#A2)-70;p`}N-2y-W0_i%-b~r=&Aop)=QH{N-Pp&$<pZX5zo@
zl=FAa_R9H8lWRymFeK*>!7s&=C=otfUG)0a+gtB6-MMmS%QyFuXZm&-f2-Rc7IUxn
z-R`?{WxDiE?>9$gz{@=;H=GPLbjbKC?g$l~k&DQXY9Sd?&BGy#td+O26s2!z?PjTb
zGklSj@18H(Bj=M}VX65P^FD}#U_ob9$yrrWX4N#D-fWt3QSRJOW(_>xgfiiLxNfFy
zZc}LgSs8yD&N9{VVYzEqx^i9ax-M_HE@zIjOe<DOc{@XSyJh@k?}n@~<((8c`>=Fu
zRL&li{6RT8IF*FLSFDoqcZE<7{AKT%E0(hr6{hp@sq=F7`9&Ml$(a`Viv13&3^_k4
zc&9+lKJp+CIzA>J9}6A7CgU$#(O+l!Pb-=oblhnDE9-BSk`l{q8Gi-4=d<^qk5=pr
zH?@YEdgP{_P?I1x2^80BXUzCIIlB(~o)z`@aEdLqMWKD&GXAo=CE>E1efd*=BHTX+
z;m3fzm6((42VZVg8kv=MYrULVdgp+gSv}n+XKp4f(wv)PHzse5$)0k_UA~kIByi7I
zm;Vh*#C#CitXcC<>v9O_JD%jz;4?f<@<~pCG_$m2#Je!GX{`1}V5-vDM+@RlJJzE+
zCel?6Ctb^PT$p1btq$OcuzjNyZ^Q|Sscxb{cT8k_2d;tOQ<jJ&7oViL4KjV(lF-w3
ztCUZ7C=_k*)gAnaj&fo|3rj?jh=6LyaKLa-!uSbH2Dwx)Ne9!JA8K%FqV#4|*#T5)
zVx*JCRuS4Gn;WBeJfB*BM7&G*>JKQmN5KxlT;HNQLXL_jqco98BPS^0Ur|7!kjN^H
z1*xgzGGXGtbp>^jDoHE{^!F%^aH_U5)#Z_q6zI8Y`I#v4ElT^Z5iH$%eiyO9s<;?R
zW8Ub_jZ&~^{Upi3@%xN_8s|j|q~q5p=QhsOk!&!xaXxo=D&^r9<I;$EMB<o7BnUC%
zxHMwEkXFGL67w#ZbCWqHIymingPaq6cg^?KzqNk0YJLM0=36Cq>o0$vu6rnIvNJOt
z?^IUouXX>hx?ul?Xs<;2Zus{x4$HG|zYu96sd1Qq89+}QiJ~c$lbEQqOCfc)V6wh+
zV}*P)(KS7GCg1xuBG`emrJ}w4m_ble#wj*1NMfzQ#|rrV1<lclxN}rnI;t{5Db3KA
zkOeeT;u6)P&n4NT!@^tT!mV>dQqQPVxOKkp3Q6ZQm1gq0IsB}&rg?tN1f9Ns)UIrY
z?Aal?cPvGKw5vo-ZI4JBVfm3a824u6XkyG+>`*bX%d+Z?l8oKG*^8d>9?Ca$s`8DK
zaWOoob<BkmmnQWfCWW@xD=A)#CN$Mgr>gqd;DkMQD-?(}#M`Md4SlwIxu?%ZvuX?A
zy?U~W%?>aMHNXlN4vK&ayfbl}+dp#k>46&V@&(mEnqHcbgCu;+w<aqJzOz&r8fjB9
zTW{L)<w;9*8AExc-K3|YdM9VdfE^Hh3Vo{ZB}vOLk}M354MEux+ktP=n{QCSwp6rV
z(%cCdK;KQ`L~SF(3)drVU0zPpL)n=qyON72AlUHO^`!Nfic0EeT@lv7x>|ZTAGTO@
zPj)J3zSa5q#oHI}cgz&e*Y1-Fo90(EPq`nKR7@Aomu&mF&5?Y{e&hI5>&<P9B~Pr%
z**sc8X;tr~dD+p;CQ{6(lS@xd9sI46w_G>Ry_;6N=%S3^>}Te^9J~>{)$;n`+wjh^
zZaNQVmLzxM(v_ye*#CygKj})d;vU3Tq1K2s-maea)(J^)6zIG+d_W>}nmt@%c7u-*
zdrjE;2uAB<nR!iG@!kTo`(&448{i(smoBW2#5k&7hD|$7_e&KtE6auGDBlvrFVztX
z%m}G+Za+ZxK<@zL&Dvbk9XT44p6D>s=TzNcKeWOiWfn&aWB=NG(-ovyU5tW6?1N!5
z9F2=1v7l4S$SI<tO~<Yo4x+iv+!DcN{1q|4OpD)*^;8#0W~-ehdW;l#21N!dAG1`9
z*6pV?@;k_bHIlLf_k56A6iVGBr*4|LFn3JqI2-C1lsg9JQ-`E0;=8HhXE{2(kdqh6
zX^?Xo=8EP#l6O$bX_(I$no6dlGUGSKU(3BUKA&GXZ}=p!7HCbO%FC||%vQoyF&9${
z)zviF(F2hEv6tyg7HA1W-$TU*jO$4B1+WYGvU3JUbSNCNJ&1AyMf2o~ahj!o<*%XM
zQD<dtQ3NR|Y0#Dt)8iETM--G(@W%-Ju@LtAh+M|HRa7&gd|;iV3Dk$&jNy}(FQsx!
zU#LMYY?wN>u$%)n5Ibc5#H@J~<&y0=d1JeD@{+vqlDz6te3xuGwEPBE&hm4@iY`$t
zUaU5#6W(E!&Kf2fzC;ZA0|#t$XliNu&{AW_*mfHwMNv8i+|+$Hg3{R%Md?^69T26X
zLuW?mSZ%GNQt^qT2@IJ+EakI}Q9f4NXiKRC<27rPPg3xo>#M{}`IzVyg9suR95v~p
z)(+cD6Z9nqkx`J`&y;o885I3v-9EoSt~vB084TtdV7fha7yK<WURhV_Q3`$At89fW
zs2{P1z&4|M*dknp?r}9U`b3}%y$E90;<6s+jLr(~i3{YTIxcFpLK9a*T3%YXbOywd
zI{F~Sm2Wt^Mx%>rnxv+2Fb<zpEMx@j%tFQ?$6-1JnRUeR2z<7qxVNVtb<jBm&0X-r
z%xu!Jy;c5t-R-*jWz)m+RlBA9J@c7+r(6b+m5|)#Scb@=lfCEUl5<kuNVqS64KVi<
zoqgc0+7}(RYsBnJuybwn^^!KnRO@e*-aLJ?;%mnjT~sd7V7V_}yKxP6kqT}X$eyx0
z0*(ZO2fdUABdmZPvOW4Tg5{w~JWRvrA``ALAdHoS&VU(~bde+YNBV>|uO0)HYjjc6
z=tnJ^_<kC(-1O4pEElH0XZqUX$s%KgF}@P^)QspErisrE1ozWjGx}E?pmpHH9Z~%X
z&HpEO`fPLDsN_|e<0Rj)oa2lX*(2xdc`*54Bzz3sF>JYeF`07D!z&JEF8nKg3W|ha
z#All)fX}8`g4tw6kr0h-q#_n9;k}s4M7O|mx<<L+muZ|T5=@e!DXdQDmNui`^?{Ee
zT?|LB98bP#p;n2rzn$7NV~jR>@GT{~V@}ZNUtsa7h9&b_2q>?E?@kk=vw58P2CVHL
z85$v*<?yiiB;Up1Lui$%+McTGMCSewla)?&4C*z3Y>-flrV67KZfdhtU9~fPF$g4<
z8dFUpFhsz(o|Yt8B#VjvlrwZpA;-^-U@$6e2~sF0-Z8*89mDr3OitxI-8GR(51FEQ
zaCcms@Fdy4Ld)ej%nvM=oF$t9W_j+kTzFdIuY~z4SS>|o2=*5FAqL9_F$Y?2>B;6;
z<?;njzEo5<{j6NHQ`&P}I&o3n<CVIv$a}8HMOS2xD7nRDfboAo<v!~oGmacA4~U;c
zZ5+$bYAdYkmf?MR%-Y1G0oZx_YYs9)gw2B^_@DJzsp^sSjtwj4LrK3oN|Vf(pZ+C>
zQuT#I8)Hsir|N28Q%3)gF0_r+4rfYfe$u684nP%sYSkU6#)mqgsbnh}*(@=+$tIQT
zi=C=cwgLR1KT7O(rbMdwWxt8uh>;JFuBg^l%yS$+G99tk+7?-FN~AZ!BH>a7?w9D3
zv<r%5*3vQ!9*ethOdmAN4VWvaEL~<)K&$3!w2-c#Tr8xeyXs|BvctO$F}3Q`@-BFe
za;!Lu(@7`+=RONt<ieJ@v-5?@$)i>|zjdx}KEM4VSHh|ku=zpSz+-iRvUZ5?pk0Jj
zQ61Z(2m-U*(n{|W^On-bT$*yxJq#mVlh8-DBw^I|P=T^w<r>I|Z3`^T!qXeFVPU10
zjapbMb0H7bkv;fBeR_Y2b@aKGkx8qOEgYOZ_?&CSt;o+_KrfrLPM9W&ofeU<qM}*D
zVAJ{-y&@go7#b>osAcsuAG_ebLo>M_wPD7qYwErzwM@4ytN2yVD;~*Ha;H4BW{-?N
zlO;Oy1g6Q$CNOPQ0Q@cWFH@CCY0igibSc(ztfsZ~BvvP<#ROI+C-|e5K5pZGN7aS{
zzbN)nzZJLE?28b3<E$I9LZ*cfQ#~O#_fJ06bzrMZbao7fP{e0M3JOY)&>pa=*5Su=
zdi8JVk(8>KqLl{8zl4ZLDyrdaRN%exu)+KQ^(R3bxEc%L$7mVsdlCq*x6%To{4p(s
z-$pGMP=}r|v*0hSY?w+76Ps&`ymHITbMnfz(8`1I%7YI!g^pa3@wf7l)YBL0xhCUp
z<uytiZR;ge*e>I5C3sz@Lnoh>@wf76=6m2d`QmffQ}1)MlMahlIbgTyxC3Q)3T{0O
z?+DX7WzQDLy@i2&@&BPdD??D(7~`%|{IB$in10HBi*Yda;4zXk%=<*qHy-1?QY6uX
z_}?k;Qb5Se<f#%M*X*Q{8Or@C#r=>1I^3r?u4L3Nvo=8-F_E2PZlbr}rbosuVWa>l
zlr!Bkk;MCo2TR5XpP@%$PKs>X_$PEHQeyOrO>u!qKu)9~7Jp80j}VxhR{nw_DfoRP
z@&6k3R?KN-3Y=E1)16j&D&e$pea&J5eiy20zEg3xV$p?rP_;0PQ1M2^ViG;MZRP9U
z-0{Ya#bkO)v8`SI=HWLEFQ(E{8acL1r@IW@u_YCY1Iw#c|00X-y6nt(rPJlLPq*MS
zF@9BNlk7Gvfg)0j5Lr*!Ps5pCwyVP)-n5N;OD-nR!@{Orvz_D+P~LQGk-c7c>gmu^
zKKUu%BlZa2hKiTU6xTt+;Uqmod#PkG<ZzO177JD9fva45b?1S&k9HnN5#&4&zi@=u
zZa;+zX2B0+xN$RiJ|wq`KKnxB_Sy2eytnJ+#>3=x5iw`Zh0a`(&s-wsi$42ejatD}
z*xS_IXwpM;1z8MLkZu+^)i-3Ct5J6iiTh~JkQ70VA@Pe0f*npPk^7iEeDLUl>pzC4
zMtWE{h|}4prE`~LaF`GJ7Fmjgp^?zgm^?H_pF3uU?@Fcri(UKe;jMe;oO9>iNtd^_
zFD6jT!j?U=0Sv;Vyaj{6VvIqc$Hf-A>hm$*b-^CqynB|13&tUN^U=iwicv<f;_VCa
zCb)iNG35J^Za&(Q?kb&WS+wEjK_0A*Nf_KyKKW2Li;{-@kLcA$oX0h$I_?~^aNIej
zIqn>T<4%w3xSI61MbhJ1(&P5UHEFJ_+0BbK{75G|6riL$UFr^9>X$F|KcaVwh2^fb
zv$=~l{5%l<BKYGVyOl2XJff(Nj@olwZT1=WY~Eb?+eLE2fkhidpwlJafPC(<@)#~D
zef|3F>yHxX-A8q)uAS5UvpI133ICxxAM{ISy>j~{_8<*jA*Z4{F;Bbgz0BL`hVYuI
z>1{Lo-M#Xfo#an*L-=T?bozpP^dfs&NKSpZ;6?#C)ZFk<RhkQ)L6x#`OJxJl_R42_
z<@P>mU$x}FPA#kcs4&e{IP0Xi!UyM|d@5ZK<THYNtd~Ve;x$TEi0P%c=*)4|g!i<~
z1s?Rj^Sr$0>|z2UqP=udL^mJm9+bNWAGz?fxIxXE?yA<kd*VJi8%2<BPyE7x=vn*I
zn9DgXza6^-tgd79A-{cLSIb=IgNk=9$h$fg+3N)_PapB4KeJq`Y5JfSPk9$@^fY>1
z8lMFGd>)pLKLTb{ey%WfF5cr!r{f$kbDwgYr=N?COAe?~UWBtIB&Q$tjy-ic`d}HE
za;-~o?WH+`pSe>%I`_`GM|8WG=XPzK9b2^F=Rx*g<o!7B@90*+R|J(KZZFv31H)c#
zrJXrX#?J!cKl~Z^TOSh5B>o7&fC~f}GuH~w;*5>>*YxTW1aSQA<bC6Q@!wI*zen)1
zXLJ75fxilVdoR=TR-b-nFQll9s;HxM+bB4QfEf4srE`7%Eut8$X@09FGo(XSR3#62
zxVBN^9ee`xl8Ac6HA!wSEVy>0c}Ew{vo9+*;&s1kQ7O}u+~&|Ik$JIFd*Hi!JJlYH
ztcHrB7{Fmq_#cPDhSxvp>k+)F&nY*#cp<;_kU+!Hd~jb~U46`7@4$6|KQ!DkG9=W)
z4Yt32V2JGUYF_TW%u&0Se7)C=4);|iMbb6TgREealHgBKZ}C4Nh$Q)8%Nrir#lOK5
z+{`<!4vBB$)=%WI$`y`elD~7W-$#ynl%l?l5&9{SX01r}f(<T@LY@-YQ}X@h9~^x9
z;2b}9W`5UETIk(9*lf&u_$g=Do$_+hjii^7$wxR`i%U6Y-gBQ-oriy2b%JCj%4r(X
zAU;y88}ar@2T>i$WwnpyO*VqeW(tfwFhqBk*k0FiO7KqJHIV?TKI+tAVmp0uXkW%j
zOZ67KB+}z`^*H)$J&p^g@1)Ct4TIsT58AS6PTOQ6ba9QETWm=nAW!6zcsHMXKjogv
zh(-%^ZkEBrvfEzjh7CNUv<#zO+8v*IKTTT<D8)#dsiiP}`E;gol7U5Hp<N8|s|Rl^
z)T{6&6K^bpl5i2{w)}dY@m1}P&$3KepuIPK`E1LSg+>bPP8%I^Cf9?Vdyiw%b<I|}
zqWwc^#$CsU)T<v-CyPI(;4A2#PVuV<KXC_q-8;Hr8k?<H2FC#S-ltUWQXo?hq2NCv
z2-dX>_`w^-q0;?h;#F9oBXbH+6@w#`;V}qF2ghso!_FsC@Z?l0xHHC`23xNjtyk^@
z7QR1)alem^@WLP>MBk7Atu8-zOaOab{B!y&0mz_7|7@F&ymAIxW8efH9|tP5BD_k?
z8NBc?h#>xF`Vj5<#jhcN0XemiUgoA$aa!*JV-tFD{}(0wKPX@zo<Vm8=l@TN`wc3C
zft4ijB`PY@#}5s_!YnNIDJGyIDeb3^dH0__b*8mLyg^A)uMT<nUgc8}H&0M<r2BFt
zQ?EoXYqEcdhH@l_!6-eQ;!{<84Tb*S1gBiM0i4QR1(jgHpOhOZx3<3TE_;}hf2(Rf
zXD#`I%bRKmr)7lF3gxuI*_;PXsNP6vh3}=E3l|iI3aaIT>iL4&sUzXGGe0RgJ6rKa
z>h!_)xy@1ur9${H&GYiX8waJ_wbJ^nvq9<PDe0o`{j~0fur^fw^&^X^_yTmHlha;y
z-*DdyyzefgiX`7imU5cscFfg4dV1X65N_BIYG{@lnx*>vh-tBNVQ$Tv>2IXpdS0sA
zH<ul1>X4f{q<x)Ga9eT4{xS69&e|b1L$PR+w4(ey_gWpmKK-8iybfT0`SV;Gch1ga
z9PfBMEvplIFiQGGaE?J+;?tWsmaxDHgc{HxGf=Bj$u()?T@1a_Vv4yY>^vaaeYXKi
z4W$h$J|*m+rD{b4bmXe7d6P<p;|nS$;R`C~F()?w)sq-hS8<AFoz7?@Fi4V$L8^g4
zk^;Iqi51)p=n!`zDWF4Cs{^H4&jSb50tdNKvfi(#ldS;u@?K6>zq|@xPUhjN^Ky|k
z3dZk5vVl*Ct%efwQDO?*km^dlmy3<`+Fk7TCQ|tH`x#ojfSEp3?%2{$`&6~|=#xpR
zd#Uzi<98xen?ro6TK7CB;e=G)6Q?d~jNIBCpLySmsf>D;YblIhJ{vVzXFO|nz?duW
zrb2r*e(@#;Z>o$K?GCs!QLBGcf7NIyj9)(2G9|&|n2TS@uj+H~d3^r;0%J7bc(ySn
zAs#hsI+<qC|JuBz{wHTS8<*xcEa>v9jsBlZ$80ou@k!=RI$y{a-7nT)PgHMMwXvkn
z&T}y>OuM{!X$|>O%YNHpk#db?N<w=vm)2`08YJnOMvWxvcd7av-d2{ii(dkk`q?*b
z)AjaV@ymD;e~ki#M#;rj7@;EGq)0}+`~~8$dAm-pejBm4Cwe841P0?XqQINTm2pre
zsv$?!Ua;!9T=nkNO=|8#aH&be%2NZvAP>8`Fug<~`&RY%1!tmJnqa*a`w#9oez{JF
zKX<0Y(k?q<iI-23S;1Vz+RBKF-3C`{<yd?pm@+tW4W$nXy@59DP7(%3dc=ol--ns&
z(cmz(dL99!os3F*5BI_B7Tq!~S8-~fuRl;3OdT5~3tl2U1@n!LXyPxA`2*yPl&k0-
ztqkt{^rVzt7$c&J#8#>l?Qt3Xq-?s#fTUs-_*J@NJ1@6?tea>Szaf&1q_7<#JEtsW
zp@>L!)BeuWO-H@Q&$OQMD)-_WRQ69P_#p)b5%x4a(rgqBBJ5{)jJN{V28ORQ1}{E=
zedhR}uUi;2QD_+og_eD&{ZQv2e6Qo+@l&1NQ%#+%aBM#0r4u-YLx@PS8pZcUR;ste
z!|$VG2)we1O~9Tq;_zJ;{|nXUEeeQgh@>l$aW7Na_KT!F8cFb7-w;VvUyxa2e+H6r
zQ5REBQi(j47s6n5HjDonh5QfTSO1qlq(EerXv-*=E)Q4LhSyd;tlAD|ycs*E9N-)m
zuYs@@`_Pa(Pj=@?n-36=<^p`c=Dp|kk~hGEw-4U&-Cyxu?e6)?J<{5}|6h668WhKM
zrDvdlo?!q11H)6i1_VMH@eo210*oHKBv}Rtglx+MnBgS^au2dBEjYMpvx_UKGTGWH
z<4tXhlWcahVK-!-WaC}4eq?dQNxC&7raciAyiwLkWq)8KrAn@?+WpS$ndt_#<Ty#y
z{@6yk-822T_jdQ(@0{<PdyY2?X^zuxSyNwW{&Mqd&o`2Ng;n0XePVXC*Sa6>(+E77
z_IjG9e7?_DaoFoPBJMou&BNrb?YEOsUfK2KU9->5<$2EflB!;cnU0)pzg@il*O5l+
zK{?HS7j92G{MK5@TKmTE@-AQ3u)k|k>YBW1h4BH0O!I7ozH}H}M$y$Tx(38EgDYu6
z%SUIEX9a&wrIb^-WEXQPy*W+Z^d>QFXgUtXZ3vYRFnx)6b9r<5Vq)Rk<YMbhzUhJQ
zZ?*N1cHZk0+gvM&{Yzal`TnFbDXDBB&5N{!h*A95jl_Q0mU|CVDe~{~I+81znBtHf
zWqwD!<fs>SKeiON-23B;?_FH(7M~s!$DRd&bxFzBKr0YfV@9NHfUDxsh`R=(=~x7{
z3UcdAjSqPnlx^9PEL%z--damx2uQPgI_||pn)c%HAt>_TOM_n=o{qfT;S&1?#Qs6C
zV`wFHc<JdG!EY;(Y$cvuUR(8Ik=OQ^m^wTiiy|ohYVOA$EEX*{-{d=jb&J+wF}Xyx
z**&g%kw#M$Dupl||5ChYtMKuaVPU$%$9HOk=~_Ib`y0`Q^kL)u4YMI>0IMv6?Sj#r
zhL`uP17)p6+}r!IT1&ZiQ!-o2%*!aNxIXL)FJXcs3oq|0u$fL81`N)KuNmRXj8|G&
zoRLIJK$vEK-wHBWS}Fv>oZb<UDq}{rOea5Y3V}VQ8;3=9J(mJHUS-9cVRhbVo{tRy
z@TW~L2ARP-E%R}qI+@@b4KV?f$$1w923{2aobd>s4B})yA$)byL=*%(b5Ov8=8hOE
z<_VMD<me0d)w_*fN}e!7FinME8jE9NbQ1x@qD>HdCxUBD4G_9<mPt3gtT_bxxPA%~
z9?hy-)0YO|ogJf>g>Z||7#n(`dildP(HrWKdPGQas5KCQ)FX9>5T{i=5-rRL)vvA@
zeZ>dwF;CCLnKHpUQ@_Ifc?9}uW_{(IwxFmORQop7o2y<ewDqmv#-`(RglhG;Fi~R;
z3q<M`578*|@sIxd`o}j;_D<Dbk5=R&5|x--G@$U#@6-o3e4&lo^}-|_^a2(Cjz+PW
zLBC8#M-_hO^R(j!wBvmgV20>+3d>Y5*@{)c<S&);IjzVqons^LKpIi9FEsQayuTYU
z{~!oa{+!&?m%!jE!qdr6M#!VUMleK}F-7v!CduoQxJ^d|%;BqFy+^;(AN@0YzCPi~
z92NbaBy6eWdc;6KTh{A8s$|R0>Kj2?5i1jj@9iB!;Lx$|p3y!etzwc>Ns@rk#-Lc9
z*J$fQDySZX|M>>pm1FerKdAT_6$?~^1&u)T^NRfNbNZS|7?yF8tdM-*>e%IRh4irm
zQdB9TyYtkEhBGZETF#scY*WLtU}hL@l<*g*GQhhKQk%T!nD7*cBJ#&A{57@aZ)krM
zJDABSOl%NHlw#ASwSs~oC)gMnq{s<j$7Iav7v94;4!p;1lAyr{<ra#3b|AAJBEapG
z>{;jBVNZmo!Sn1w-a?x<rJClCXU-m-%b)A@<ayc_j0@%7<SI;0%qU*WfNfH)+<O-p
zf%i=(03Q=Glq_mXJLSikZ#A?om%p7QH?%_hNIYSjj>6Q(<WwD@Ku!Vs6l1z%oIZ9d
zG27#m9hGuPo$RQ^iAnX-hXH&C>sNA~@pLT}FSq+oo|jIZ_Z~j~HD1iYBuFq%&w#ah
zx#^`Q(Q2P-n`<XLJ2xZ_Ul4~!#B&!{c8)H0c`E#+by8{F;`294n{VtKy=fU+PoO&2
zlMJxcftH_fPRIE8OaeHfq>=`F{2+ZGaIW`(C<|^M^6|OE<kLY1T2_);7ouj)&0d~6
zGdpr4x%5U-tDIIM=j~p&ydGsRB@sPU$Ji-F<nr+u8VI!+a=VT913O3WZy-y;@gQ<q
ztjFr3-^$~ttW9g=Ebr9CHJW&R<SYs!r!!*G2=t5udTPuBL1ZKn27h7njMU&O&(L-2
z5u64+F|S=q;Q;yQ*TNQE^u+NR^fZM=VMfab$I!`W&Db5LWkOel|C9-T8nT3;XAEMQ
zMF2eqF;Z)&7f|$wPc{)Xzb%ZO=80$xJwoUiI}tl!ek6Lv2GP@kV|iWlw4hCdp24-I
z28Dnz>!PPhz$B^!01+@6424M#b%KQ2x;T^O_3@5`tSyTc?=*K;4@0$72@U#e(Mzx3
zObtCf7=w6S48;=((`baDCZ}z}<V@Ryp(ba#GsBrVpA~vSo3JrA*Z|E+#YRm}elrYJ
zNd<KaltW4O<HFx#&<oNF*XxCUz$ZO~6#kKRFtTAYLJI#xI|v#-`meUd?O*uS>-7pf
z@pbxM#mIIABSVTYB`Eq`AyW7*s<;*(y5v=+tqb3ydf%YpU#R$36pg|X%HIm)zKM>h
zASb*<mkcAE@HTz?1rE6$C%i-3*Qt1y3W6`;`&2a3B`DLAid(`meI)yb2DQipr9~}e
z_DvvF16v{WmQd?QIQulA)?Z;Ggj#ZT9<<rdj$OBZ8|>mAfn7W%+AG-Q`aNKmTyuQ6
zVfnCFa|)_*X`4~rQ;kUvyBz+~TB)>lanM`Zv|QvZePY8vd+%Yw8>aauP#Z9NLLbZe
zef&TOzcg4TCKvd4`|k_P(ixa-L{O{lZ^Wy37H@6jqTedusI1RyG+Ew_jBAX42%i1n
z|3^H7XUV7HnOQfPkI|V3WKIg{m>8q=aZksz9o8B*;~ourTb2;sh1NQ_r-NJ?!$a~z
zaqk6&do=BL%i^@o>tmE2nx%f;tcP7NE7*YfI^;U`q^U6`J`IbU=_&?38jYM8>XAUp
z!Y!S`N0MK*pk*e|GHVN3W;?e#bLMk((Nf2>qKlTr57w?87uGmcj8wM>E%Ow#6n;Ph
z_wRs|!uxaqQX&-}1Az#84OVtDto+>p@{!d0wX~Y8+9@<pfuMzORhXk<Gnke{3@Ga4
zo%)Y{_&zPS>x0;u@*69V<UpX&B44MjhqXvSrK=wXwZac^0rx||vRDh2%>SahhbiJ}
zAZ>V9LBA9vTxEjb^XJ(3KY`Cjsea~1!e?B9;*cO7I8F|cJ-y5&p>OR#-Dgt?9}cVa
zQfd7X?=5XvKH@DswFy>}sclHirw6N#<bE+n+?f0vyc3M3E5;DVtASp|_kKF^?pkn#
z)yUe1s*#zSkawGky!qC~%ILSMIh1cFXEyG)yjv01Si2c{>E#0E8ty>I*yQ%0>tKdt
zq|C{T&cMR7GI$s|xycB)LPR>Fwah9sPB?Tq&B|X`_ta>QPU0aSJR(|kO+dt~Xe64m
zgb;2r20CsWbX;u$Qay(<oTs{vIaS}tcrC}OVPLnxZ7pIV24-&jP-p=g%0t(Df$5I=
z=o<-BcP#X?;N1ZFnlQRsG@Pwv!U6<(6#80%T4&s(Wx}YdKgQvnlhzqrYia<#;4HJA
z-Z)`V)9Rs(VJ7q%dNyGJwt_RJ#hDt!<{gadv^Z_^X=;DIG_}dqP6vBYyAJcJkGfR1
zQs0BxAo`xi8nmgPC-8EJp9S+zX$FDa*^Hev1=(33r89RvFZA4i<{0IaWmrdJbmq?&
zs3@&D)*d=bT|4di{X-iHu}24qv8QN)+v2vMw&#(UtZ9pmD}-~0ZmV@1A#_mQ66TfF
zE#j4ngQ;9qdpfDe4D<&SGyHqHB(kC+lXi@WQcP3+6FQGE%`ao?mn3uvKcIrB<*h=%
zbz>mvs;ftED|6UMBnYDIuj*mIXKscobe^9IX660>Ti2p<&(T@eERDgCM&vsP+qZ)%
ze-nj*&>HdL=@um}YR{;PqPA$y%Y8x^L+)62?rG-NtGFN{{L6#<^dn^p;rrCGCqKL0
zd{fK1gDqp;%iY12Aqp$`G21k}Gz~Sn)b%miu|?i^gT9NV;x-jb-Wa4UqO3K72s4>8
z{r-z|BY%Oth)^D8o;B(|v#W1W_ixfUOy_4#jvPH$jjI1JQ+6&BUp9pe*%UO!E%<Ta
zZ(=ld7h|xRGThQNDX%dGTj2uajO^)zTc3f(evk^-0F7OM^o!flKaI<ViM>$Xc|a~a
zh*CANr(_VBZP&O`h9nmklU(}c&nmgV9$U0;p=Y62EIjb*sECxBwe&nl1*vKNlnN=O
zVkzzYlj7%`z7rJZT5f0oj;B^4Ktk$qqkQrSgvCj1Ga`y$N)4`)Q?PC_#98kdxH$WI
z44Qct^tXka(P!HIDM$!e<Vo_E)JXW3QnTomtcRDKm=h=tU%JUZyQZ+-3n?o})t;ys
z*UZ`3#v926H<GI5v?4jLbfF_Gs~mc$wS2d{dyjv2owU17+*Q9gx!nHa^Y5KsJ|#YN
zQ5>BVFTOx>(__pw-axkTO{_WdnZM-YpVd(4g^KLMp?{2Y*soZh?bfD}=(i4VDBn)m
z+2pXiYq2y{@@yO$P%LRr)DIAa*S7f8dS$%BThA62f0zv^1IiccZwg<<tB5E9G~lx|
zH;TXSujwO9{6XHU1zW*k?C<K&U|5=_Uk17L3O*{>5P6WczE0<a$J}534;H2u1)_RK
zdipMeym@FG446j9vNRyLt}3J9pV9?hqk=j9aEfPk*!yRzk2cTTtI6GnBMTg6@tRc^
zrfYQ#myn(Id56}mi8*n%2XkDTp9tl+&OIs&^((pV!Yt&q@`s#n4xOK?p5G*lT^S#Q
z7t=sHyYcIoD1&aGv$yDW{2R8f{n6uNyBmbwA><^0V^wf0)=r^S{Hd4?kS3BSo?F53
zS?w2d+dAfkF%4aIYC5O7sJq97%LsRYOFY<A_qER7d^jJ4burZ9?u(a4kmCrNCF<?I
z2)}hj7o&REP(H?{#0E^1pMHF7Y{adEBx0jFMmog|8Av75-({Fr9fFI@tk1dN5s#@e
zG?WK83V13&7=lF*TbHgf534{Tx=JJJ$WX82(pB0DL@R5>+bVke>Ls*7;Hef96(ltW
zN;Qu14!6+faF37m4I+j5P@mh;izhZZgic%>qs+t%cLF;fc?N=>Ax;d#RVdeF*a;kY
z)CsCn6)Hh5Q7K(w>(>IQDFQi62A=$Em(#jiDQ@+lih_GswcQtoo*x<&Xnsgw-vbr&
z4I*76Vz~{#l#FNQa4TORl~pkIEN+fl@mH(*)RQr3i~{OlMtLak2n^GtAqX@*L#U(T
zFcl?KkQb(KgbD`m_h^gAHl4@tuvQAf8lANTwLhfq!l<o~6l72qXl4_eHo)A<n8BFw
z?~FxYn7m~e3`7cpV}V!-KaZ5quIG>(MDw9S86YX>R=}znzMVq?!dbKXhAAorfripR
z<i+PM2GX`n5@Ww6%$RU1(hZY9$o>#0(!3-zW@$1%vngfWc#lU1TnL}d#yB<>XkILL
zApR19LQ!h4&<wOoJww8kA-7BM$}^3+o*!rPG&I3dU!>dimsHTKa+vai<7D?0BuN>B
zFXLBf-``Siw&BfUQD4LRXbO2Ck;TMOX8J2ZT!aSt9<fzJ{(R;1ISn_6g8I`i1*bx_
zvw>)I2)+V=gi+U(ZZ$fLJCLsQ7^z;i-itt@dVaTZKLqCIpbB|EqlW({6+fqfQBq7!
zWb<3LNQaS%fcHH0lOwN3Hw|HBWo69$;1m83`hI!DRVVxpx`KZO_Zt|z0PaTP#}Uy+
z?oPbHnD`Sz>`x62$>3Nul&u<4equ;kHRSx%utzfNSv54S8k$xO&#W3+Rt;BH4IQh7
zGk2pSjcK#ay9TV*%^bK0Op-l&&W}l^XS>DD&xySQV&{N#64Qif=SF;tF?!t^Z)`Ps
zI@S%eUJ9<ouJg(lV(<7Jw&!ksca+gKQzsTw-ZjwX-J`KRys>)r1#wUPT?1{dpGY)t
zmg#HW$n;e%f0f(2${qa}j&B*W_PGf7O&C4po}Pt7Z(`+C>jw$8S#Gu$eiJ>OMDnNb
zCX`P#f0$}tcv7yck@u9rYr<ABb!r`%7b~Y*luV0@!}6h{AJn#rPqg`J+vVCuNR@HT
z#;Ied#hg0ll#Ae5P$(Bw;d^uS6gfszRIk|1&UGyoFZKExJEg`>@4?PL<8Ro`ikx+W
z<D!x`;<ur&??&M?=Ampg7NBf5?m&6Qi0|+88Vym~)-rQNE=}HEG~4^y;H!fk&f}V!
z^lq;bxlB2A`%LdEgI^w;<K~>R6W-KaQ>WI<aZ^X+q~xjNN|Ba38}S<dDnD1VkS7&X
zE<CkVBUK@^#2KmTjF{gc+xIM#B0J4eq+~y`^ptp}Lps(W7Ifl;$nP>jSWQ1?6uFd-
zqYbvgt#`<5$g<B?yte<<{d0Yu5|91cCD%(98osqlD%!Ugx!AIJ^v#y<wk-90?}W6!
zSuAY9P1<@Cw|H*x%$w)Fdv593?>#N;ZxIVyQE}l3syOQ;Do$IoVTQJ+_uGTlF;9DO
ze9?kA)u)#(h}G?0$7#uSTI?M5caBK-XB)wt{m`5*XP3*l5PWyY=_PVTDK<Wcwa&DC
z@zC7_J~n#l2yAh=#j^rUG51(KmpyUboP8pfC37);E=A%}#8k(kb*TZJ_Hm6LTj=?^
z@MPt@eVd-|120D-^+EG$;2m(3iQG<kJDy)Argu#}F6WfbUiIgcOF88Wg$N;j$B-4(
zVwCvIX?~_ePO1^Zxp<qGhVY2|Z9`JqkT+>~I%X{+|Ml~WiN3-bDWgVy@I#WX@Q{>o
z2yrblvZmt^d?G8ypIIwq)-FFIUT}+<wcgBecoK!*7`f^QjF`E{jIzBPdP$z$pL<Zs
zJ-D1L_K%9W2XE$%fo{caJP2DO(nhRhmU=EonFnx<wd}&#_Sd>z?UHL+aE%?%W_FSx
zw7As2<CL`Hl=#dAxYNRcFGAdL3b0swECScUVYt@z6GpJJ*(ZV#;!+U%d9P&MyY#r&
zJ1koFdaW0xO>6eu--#6W9uu3pq`h6@Q~lE3es394C=Ey#;JN$xI|jpuv4N(Z+Z&Ku
z96moee!fWJi^Lt^aUX*+m02*G|61{@#Y!jbp-vVS`|Wj-y>9uuIP4bfbvNzfXc%^*
zVVUS;0^ah%Vo!p2uvIE<_1cfW*C)33dLQqT?0q7iCudcC$1T<z_g0@+z9Ln3N?B(q
zcLMM5^HoTHEbePs;hWbF&?8+xWJt)I?t6LUrIFe4*&dJ07hnEj)6|jaB$=~J9r@$t
z7n`R$W-4b6Pd~YMY^h+WVzG54y=j4ewP1GeE4w|B-i*>4=}pU5#9r4;uK$5^#Pa5q
z^cIg5!&~xKcHT&D5!;>?orB`|<(u4dI!B*fN$*mR?h-%OCteuGGir!np;|j4&PCuk
zMLii2K6hsCO^i8QJlfj&V(auZAD5widd|nChCe}p-PUNtO;5{~x9_}Xib5C&iy?~6
zY<aN-l_YdQX*5Kg!^QCnvr3$mot}ULj=y+Z+&1XrhQjrJp>@3{*1%=l->5L8b-`NQ
zZ=$#G{svDk(EW`hdR+H6wiz;-;hvS=g8yCaGN9Ny$<~e(?ww)|<@<RV9U0~y+A=zF
d%s-CF=&+lmxTKB}vs7#8aF}ltTRJMu{|n*YA{PJv

-- 
2.43.0


From e870d3986513e7208e41275afa262594de515ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:46 +0000
Subject: [PATCH 23/31] fix: swap legs accrue over the stub period at the start
 of the swap

---
 .../src/assets/rates/linear_rates/interest_rate_swap.py     | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fixedIncome/src/assets/rates/linear_rates/interest_rate_swap.py b/fixedIncome/src/assets/rates/linear_rates/interest_rate_swap.py
index 155e0d5..f932a90 100644
--- a/fixedIncome/src/assets/rates/linear_rates/interest_rate_swap.py
+++ b/fixedIncome/src/assets/rates/linear_rates/interest_rate_swap.py
@@ -252,6 +252,9 @@ class FixedToFloatInterestRateSwap(CashflowCollection):
                                                                           end_date=self.start_accrual_date,
                                                                           increment=increment)
         unadjusted_accrual_dates.reverse()
+        if unadjusted_accrual_dates[0] > self.start_accrual_date:
+            unadjusted_accrual_dates.insert(0, self.start_accrual_date)  # the stub period at the start of the swap
+
         adjusted_accrual_dates = [self.date_adjustment_function(accrual_date) for accrual_date in unadjusted_accrual_dates]
         swap_accruals = []
 
@@ -291,6 +294,9 @@ class FixedToFloatInterestRateSwap(CashflowCollection):
                                                                           end_date=self.start_accrual_date,
                                                                           increment=increment)
         unadjusted_accrual_dates.reverse()
+        if unadjusted_accrual_dates[0] > self.start_accrual_date:
+            unadjusted_accrual_dates.insert(0, self.start_accrual_date)  # the stub period at the start of the swap
+
         adjusted_accrual_dates = [self.date_adjustment_function(accrual_date) for accrual_date in unadjusted_accrual_dates]
         fixed_leg_accruals = []
 
-- 
2.43.0


From ec3ab274bd25c22d67005dfbd85c9997af2778b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:47 +0000
Subject: [PATCH 24/31] fix: optimal portfolios of assets with small (daily,
 monthly) returns and variances

---
 .../src/portfolio/portfolio_optimization.py   | 26 +++++++++++++------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/fixedIncome/src/portfolio/portfolio_optimization.py b/fixedIncome/src/portfolio/portfolio_optimization.py
index a83a0f0..470f112 100644
--- a/fixedIncome/src/portfolio/portfolio_optimization.py
+++ b/fixedIncome/src/portfolio/portfolio_optimization.py
@@ -29,8 +29,12 @@ class PortfolioOptimizer:
 
         equality_contraints = {'type': 'eq'}
         weight_coefficients = np.array([1.0 for _ in range(self.num_assets)])
-        equality_constraint_matrix = np.array([weight_coefficients, self.mean_vector])
-        target_vector = np.array([1.0, target_return])
+        # Solves in units of the largest mean return and variance, as the solver's tolerances are absolute.
+        return_scale = np.max(np.abs(np.array(self.mean_vector))) or 1.0
+        variance_scale = np.max(np.abs(np.array(self.covariance_matrix))) or 1.0
+        scaled_covariance_matrix = np.array(self.covariance_matrix) / variance_scale
+        equality_constraint_matrix = np.array([weight_coefficients, np.array(self.mean_vector) / return_scale])
+        target_vector = np.array([1.0, target_return / return_scale])
 
         def equality_constraint_func(weights):
             return equality_constraint_matrix.dot(weights) - target_vector
@@ -52,16 +56,17 @@ class PortfolioOptimizer:
             bounds = [(float('-inf'), float('inf')) for _ in range(self.num_assets)]
 
         def objective_func(weights: np.array) -> float:
-            return  weights.dot(self.covariance_matrix.dot(weights))
+            return  weights.dot(scaled_covariance_matrix.dot(weights))
 
         def gradient(weights: np.array) -> np.array:
-            return 2 * self.covariance_matrix.dot(weights)
+            return 2 * scaled_covariance_matrix.dot(weights)
 
         starting_weights = np.array([1/self.num_assets for _ in range(self.num_assets)])
         results = minimize(fun=objective_func, x0=starting_weights, jac=gradient,
                             bounds=bounds,
                            constraints=constraints,
-                           method='SLSQP')
+                           method='SLSQP',
+                           options={'ftol': 1e-12, 'maxiter': 1_000})
         return results['x']
 
 
@@ -120,15 +125,19 @@ class PortfolioOptimizer:
         constraints = [equality_contraints]
 
         # use negative of maximization object and minimize
+        # Maximizes in units of the largest coefficient, as the solver's tolerances are absolute.
+        scale = max(np.max(np.abs(np.array(self.mean_vector))),
+                    np.max(np.abs(np.array(self.covariance_matrix))) * abs(param * initial_wealth)) or 1.0
+
         def objective_func(weights: np.array):
             mean_return = weights.dot(self.mean_vector)
             return_variance = weights.dot(self.covariance_matrix.dot(weights))
             scalar_factor = param * initial_wealth / 2
-            return -mean_return + return_variance * scalar_factor
+            return (-mean_return + return_variance * scalar_factor) / scale
 
         def gradient(weights: np.array) -> np.array:
             scalar_factor = param * initial_wealth / 2
-            return -self.mean_vector + 2 * scalar_factor * self.covariance_matrix.dot(weights)
+            return (-self.mean_vector + 2 * scalar_factor * self.covariance_matrix.dot(weights)) / scale
 
         if allow_short_positions:
             bounds = [(float('-inf'), float('inf')) for _ in range(self.num_assets)]
@@ -137,7 +146,8 @@ class PortfolioOptimizer:
 
         starting_weights = np.array([1/self.num_assets for _ in range(self.num_assets)])
         results = minimize(fun=objective_func, x0=starting_weights, jac=gradient,
-                           constraints=constraints, bounds=bounds, method='SLSQP')
+                           constraints=constraints, bounds=bounds, method='SLSQP',
+                           options={'ftol': 1e-12, 'maxiter': 1_000})
 
         return results['x']
 
-- 
2.43.0


From d35d9e3cb958777f1131484ba68eda8772afd25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:02 +0000
Subject: [PATCH 25/31] fix: diffusion processes driven by fewer or more
 Brownian motions than they have states

---
 fixedIncome/src/stochastics/base_processes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedIncome/src/stochastics/base_processes.py b/fixedIncome/src/stochastics/base_processes.py
index 3835f38..3f27175 100644
--- a/fixedIncome/src/stochastics/base_processes.py
+++ b/fixedIncome/src/stochastics/base_processes.py
@@ -90,7 +90,7 @@ class DiffusionProcess(abc.Callable):
 
         """
         brownian_increments, dt_increments = self.brownian_motion.generate_increments(dt=self.dt, seed=seed)
-        solution = np.empty((brownian_increments.shape[0], brownian_increments.shape[1] + 1))
+        solution = np.empty((self.dimension, brownian_increments.shape[1] + 1))
         current_val = np.array(starting_value, dtype=float)
         time = 0
         for index, (shock, dt) in enumerate(zip(brownian_increments.T, dt_increments)):  # used to be dt_increments.T
-- 
2.43.0


From ba2ea40e339af0e359e1e8146ded83c7d4b07162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:52 +0000
Subject: [PATCH 26/31] fix: forward rate covariances of maturities given as a
 one-shot iterable

---
 .../affine_yield_curve_models/vasicek_model.py                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
index b519573..25fc893 100644
--- a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
@@ -870,11 +870,11 @@ class MultivariateVasicekModel(ShortRateModel, AffineModelMixin):
         if purchase_date is None:
             purchase_date = self.start_date_time
 
+        maturity_dates = list(maturity_dates)
         if min(maturity_dates) <= purchase_date:
             raise ValueError(
                 f'Minimum maturity datetime {min(maturity_dates)} can not be less than or equal to the purchase datetime {purchase_date}.')
 
-        maturity_dates = list(maturity_dates)
         B_mat = np.empty((self.dimension, len(maturity_dates)))
         for index, maturity in enumerate(maturity_dates):
             self._create_bond_yield_coeffs(maturity_date=maturity, purchase_date=purchase_date)
-- 
2.43.0


From 5b9b6d48a0c21a46b6c2cbebf15eae898e229ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:53 +0000
Subject: [PATCH 27/31] fix: multivariate Vasicek prices and covariances
 account for correlated Brownian motions

---
 .../affine_yield_curve_models/vasicek_model.py                | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
index 25fc893..ac7cb89 100644
--- a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
+++ b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/vasicek_model.py
@@ -450,7 +450,7 @@ class MultivariateVasicekModel(ShortRateModel, AffineModelMixin):
 
         self.reversion_matrix_eigenvalues, self.reversion_matrix_eigenvectors = np.linalg.eig(self.reversion_matrix)
         self.reversion_matrix_eigenvectors_inv = np.linalg.inv(self.reversion_matrix_eigenvectors)
-        self.C_mat = self.volatility_matrix @ self.volatility_matrix.T
+        self.C_mat = self.volatility_matrix @ brownian_motion.correlation_matrix @ self.volatility_matrix.T
 
         drift_diffusion_collection = {}
         for i in range(brownian_motion.dimension):
@@ -670,7 +670,7 @@ class MultivariateVasicekModel(ShortRateModel, AffineModelMixin):
             B_t_times_B_t_transpose = price_coefficients @ price_coefficients.T
             D_mat += bond_price * weight * B_t_times_B_t_transpose
 
-        return 0.5 * sum(np.diag(self.volatility_matrix.T @ D_mat @ self.volatility_matrix))
+        return 0.5 * np.trace(D_mat @ self.C_mat)
 
     def zero_coupon_bond_yield(self, maturity_date: date, purchase_date: Optional[date | datetime] = None) -> float:
         """
-- 
2.43.0


From 421cbd5bd5f8b520f540419b7bef05dee535bad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:18 +0000
Subject: [PATCH 28/31] fix: let DoublyMeanRevertingVasicek prices and paths
 follow parameters set from its calibration dictionary

---
 .../doubly_mean_reverting_vasicek.py          | 26 +++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/doubly_mean_reverting_vasicek.py b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/doubly_mean_reverting_vasicek.py
index 7477410..d6130ee 100644
--- a/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/doubly_mean_reverting_vasicek.py
+++ b/fixedIncome/src/stochastics/short_rate_models/affine_yield_curve_models/doubly_mean_reverting_vasicek.py
@@ -120,11 +120,37 @@ class DoublyMeanRevertingVasicek(MultivariateVasicekModel):
         self.short_rate_reversion_speed = self.parameter_calibration_dict[CalibrationParamterType.VOLATILITY][2]
         self.short_rate_volatility = self.parameter_calibration_dict[CalibrationParamterType.VOLATILITY][3]
         self.short_rate_long_term_correlation = self.parameter_calibration_dict[CalibrationParamterType.VOLATILITY][4]
+        self._update_dynamics()
 
     def set_shape_parameters_from_dict(self) -> None:
         """ Takes the shape parameter values stored in the param dict and sets the
          appropriate model parameters. """
         self.long_term_mean = self.parameter_calibration_dict[CalibrationParamterType.SHAPE][0]
+        self._update_dynamics()
+
+    def _update_dynamics(self) -> None:
+        """ Lets prices and future sample paths follow the current model parameters. """
+        updated_model = DoublyMeanRevertingVasicek(
+            short_rate_reversion_speed=self.short_rate_reversion_speed,
+            short_rate_volatility=self.short_rate_volatility,
+            long_term_mean=self.long_term_mean,
+            long_term_reversion_speed=self.long_term_reversion_speed,
+            long_term_volatility=self.long_term_volatility,
+            short_rate_long_term_correlation=self.short_rate_long_term_correlation,
+            start_datetime=self.brownian_motion.start_date_time,
+            end_datetime=self.brownian_motion.end_date_time,
+            dt=self.dt)
+
+        self.reversion_level = updated_model.reversion_level
+        self.reversion_matrix = updated_model.reversion_matrix
+        self.variance_mat = updated_model.variance_mat
+        self.volatility_matrix = updated_model.volatility_matrix
+        self.reversion_matrix_eigenvalues = updated_model.reversion_matrix_eigenvalues
+        self.reversion_matrix_eigenvectors = updated_model.reversion_matrix_eigenvectors
+        self.reversion_matrix_eigenvectors_inv = updated_model.reversion_matrix_eigenvectors_inv
+        self.C_mat = updated_model.C_mat
+        self.drift_diffusion_collection.update(updated_model.drift_diffusion_collection)
+
     def set_state_variables_from_dict(self) -> None:
         """ Takes the shape parameter values stored in the param dict and sets the
          appropriate model parameters. """
-- 
2.43.0


From 83bc8cadba0a9aeee4c167da6eef7fdf9138e9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:53 +0000
Subject: [PATCH 29/31] fix: middle key rates apply their bump in full at their
 own date, also where 30/360 sees no time between neighbouring key dates

---
 fixedIncome/src/risk/key_rate.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fixedIncome/src/risk/key_rate.py b/fixedIncome/src/risk/key_rate.py
index 9294f9b..8c469e8 100644
--- a/fixedIncome/src/risk/key_rate.py
+++ b/fixedIncome/src/risk/key_rate.py
@@ -227,6 +227,10 @@ class KeyRate(Callable):
                     if (input_date >= following) or (input_date <= previous):
                         return 0.0
 
+                    # also where the day count sees no time between neighbouring key dates (30th and 31st)
+                    elif input_date == middle:
+                        return self.bump_val
+
                     elif input_date <= middle:
 
                         time_since_prior = DayCountCalculator.compute_accrual_length(
-- 
2.43.0


From 6a8f25e83dbc0df26f55e5692c954b5aee071d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:53 +0000
Subject: [PATCH 30/31] fix: yield curve calibration scales prices per 100 to
 the bond's principal

---
 fixedIncome/src/curves/yield_curves/yield_curve.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fixedIncome/src/curves/yield_curves/yield_curve.py b/fixedIncome/src/curves/yield_curves/yield_curve.py
index 7cd124c..43f49cb 100644
--- a/fixedIncome/src/curves/yield_curves/yield_curve.py
+++ b/fixedIncome/src/curves/yield_curves/yield_curve.py
@@ -276,7 +276,8 @@ class YieldCurveFactory(object):
         instruments = list(instruments)
         knot_dates = [bond_obj.maturity_date for bond_obj in instruments]
         values = [0.0 for date_obj in knot_dates]
-        market_prices = np.array([bond_obj.price for bond_obj in instruments])
+        # prices are quoted per 100 of principal
+        market_prices = np.array([bond_obj.price * bond_obj.principal / 100 for bond_obj in instruments])
 
         # initialize the yield curve object
         yield_curve_obj = YieldCurve(
@@ -318,7 +319,8 @@ class YieldCurveFactory(object):
         # Bootstrapping proceeds from the earliest knot to the latest, which is also the order of the curve's knots.
         instruments = sorted(instruments, key=lambda instrument: instrument.to_knot_value_pair().knot)
 
-        market_prices = [bond_obj.price for bond_obj in instruments]
+        # prices are quoted per 100 of principal
+        market_prices = [bond_obj.price * bond_obj.principal / 100 for bond_obj in instruments]
 
         # initialize the yield curve object
         yield_curve_obj = YieldCurve(
-- 
2.43.0


From 4d9dc9471ae3e4da280988a3176cb9e714432187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:53 +0000
Subject: [PATCH 31/31] fix: par swap rates ignore fixed payments before the
 curve's reference date

---
 .../src/assets/rates/linear_rates/interest_rate_swap.py        | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fixedIncome/src/assets/rates/linear_rates/interest_rate_swap.py b/fixedIncome/src/assets/rates/linear_rates/interest_rate_swap.py
index f932a90..ba3cbe3 100644
--- a/fixedIncome/src/assets/rates/linear_rates/interest_rate_swap.py
+++ b/fixedIncome/src/assets/rates/linear_rates/interest_rate_swap.py
@@ -366,7 +366,8 @@ class FixedToFloatInterestRateSwap(CashflowCollection):
                                                                self.payment_delay,
                                                                self.holiday_calendar)
 
-            discounted_fixed_accruals += discount_curve(payment_date) * accrual_times_notional
+            if payment_date >= discount_curve.reference_date:  # past payments have no present value
+                discounted_fixed_accruals += discount_curve(payment_date) * accrual_times_notional
 
         return float_pv / discounted_fixed_accruals
 
-- 
2.43.0

