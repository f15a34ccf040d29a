From 8de236c411361555c3b9030e004a77a271d9be19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:38 +0000
Subject: [PATCH 01/61] fix: 30U/360 adjusts an end of February end date only
 when the start date is one too

---
 crates/RustQuant_time/src/day_counting.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/RustQuant_time/src/day_counting.rs b/crates/RustQuant_time/src/day_counting.rs
index 1e5db68..b722370 100644
--- a/crates/RustQuant_time/src/day_counting.rs
+++ b/crates/RustQuant_time/src/day_counting.rs
@@ -319,7 +319,9 @@ impl DayCountConvention {
             d1 = 30;
         }
 
-        if d2 == 31 && d1 == 30 || is_last_day_of_february(end_date) {
+        if d2 == 31 && d1 == 30
+            || is_last_day_of_february(start_date) && is_last_day_of_february(end_date)
+        {
             d2 = 30;
         }
 
-- 
2.43.0


From b34778001f4fa9ae2642be362223b373ee3080ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:53 +0000
Subject: [PATCH 02/61] fix: NL/360 and NL/365 omit the leap days of the
 period, not the leap years it touches

---
 crates/RustQuant_time/src/day_counting.rs | 10 +++++-----
 crates/RustQuant_time/src/utilities.rs    | 15 +++++++++++++++
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/crates/RustQuant_time/src/day_counting.rs b/crates/RustQuant_time/src/day_counting.rs
index b722370..b08efd0 100644
--- a/crates/RustQuant_time/src/day_counting.rs
+++ b/crates/RustQuant_time/src/day_counting.rs
@@ -7,7 +7,7 @@
 //      - LICENSE-MIT.md
 // ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
 
-use super::{contains_leap_year, days_between, is_last_day_of_february, leap_year_count};
+use super::{contains_leap_year, days_between, is_last_day_of_february, leap_day_count};
 use pyo3::{pyclass, pymethods};
 use std::fmt;
 use time::{util::is_leap_year, Date, Month};
@@ -187,17 +187,17 @@ impl DayCountConvention {
     // NL/360 day count factor calculation.
     pub(crate) fn day_count_factor_nl_360(start_date: Date, end_date: Date) -> f64 {
         let day_count = (end_date - start_date).whole_days() as f64;
-        let leap_years = leap_year_count(start_date, end_date) as f64;
+        let leap_days = leap_day_count(start_date, end_date) as f64;
 
-        (day_count - leap_years) / 360.0
+        (day_count - leap_days) / 360.0
     }
 
     // NL/365 day count factor calculation.
     pub(crate) fn day_count_factor_nl_365(start_date: Date, end_date: Date) -> f64 {
         let day_count = (end_date - start_date).whole_days() as f64;
-        let leap_years = leap_year_count(start_date, end_date) as f64;
+        let leap_days = leap_day_count(start_date, end_date) as f64;
 
-        (day_count - leap_years) / 365.0
+        (day_count - leap_days) / 365.0
     }
 
     // One/One day count factor calculation.
diff --git a/crates/RustQuant_time/src/utilities.rs b/crates/RustQuant_time/src/utilities.rs
index 9780f97..602a344 100644
--- a/crates/RustQuant_time/src/utilities.rs
+++ b/crates/RustQuant_time/src/utilities.rs
@@ -134,6 +134,21 @@ pub fn leap_year_count(start: Date, end: Date) -> i64 {
         .len() as i64
 }
 
+/// Function to get the number of leap days (29 February) after `start`,
+/// up to and including `end`. Negative if `end` is before `start`.
+pub fn leap_day_count(start: Date, end: Date) -> i64 {
+    if end < start {
+        return -leap_day_count(end, start);
+    }
+
+    get_years_in_range(start, end)
+        .iter()
+        .filter(|&&y| is_leap_year(y))
+        .map(|&y| Date::from_calendar_date(y, Month::February, 29).unwrap())
+        .filter(|&leap_day| start < leap_day && leap_day <= end)
+        .count() as i64
+}
+
 /// Function to check if Date is first day of the month.
 pub fn is_first_day_of_month(date: Date) -> bool {
     date.day() == 1
-- 
2.43.0


From fe7b0d447ccf1e2887d2d20c7b96af6f8148fe02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:58 +0000
Subject: [PATCH 03/61] fix: Actual/Actual AFB counts whole years back from the
 end date and uses 366 only for a stub with a leap day

---
 crates/RustQuant_time/src/day_counting.rs | 40 ++++++++++++++---------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/crates/RustQuant_time/src/day_counting.rs b/crates/RustQuant_time/src/day_counting.rs
index b08efd0..36ec176 100644
--- a/crates/RustQuant_time/src/day_counting.rs
+++ b/crates/RustQuant_time/src/day_counting.rs
@@ -128,24 +128,34 @@ impl DayCountConvention {
 
     // Actual/Actual AFB day count factor calculation.
     pub(crate) fn day_count_factor_actual_actual_afb(start_date: Date, end_date: Date) -> f64 {
-        let (y1, _y2) = (start_date.year(), end_date.year());
-        let (_m1, m2) = (start_date.month(), end_date.month());
-        let (_d1, d2) = (start_date.day(), end_date.day());
-
-        let stub_date = if Date::from_calendar_date(y1, m2, d2).unwrap() < start_date {
-            Date::from_calendar_date(y1 + 1, m2, d2).unwrap()
-        } else {
-            Date::from_calendar_date(y1, m2, d2).unwrap()
+        if end_date < start_date {
+            return -Self::day_count_factor_actual_actual_afb(end_date, start_date);
+        }
+
+        // Whole years are counted backwards from the end date.
+        let years_before_end = |years: i32| {
+            let year = end_date.year() - years;
+            let day = end_date.day().min(end_date.month().length(year));
+
+            Date::from_calendar_date(year, end_date.month(), day).unwrap()
         };
 
-        let initial_stub_days = (stub_date - start_date).whole_days() as f64;
-        // let final_stub_days = (end_date - stub_date).whole_days() as f64;
-        let final_stub_years = (end_date.year() - stub_date.year()) as f64;
-        let initial_stub_contains_leap = contains_leap_year(start_date, stub_date);
+        let mut years = end_date.year() - start_date.year();
+        if years_before_end(years) < start_date {
+            years -= 1;
+        }
 
-        match initial_stub_contains_leap {
-            true => final_stub_years + initial_stub_days / 366.0,
-            false => (end_date - start_date).whole_days() as f64 / 365.0,
+        // The remaining initial stub is shorter than a year.
+        let stub_date = years_before_end(years);
+        let stub_days = (stub_date - start_date).whole_days() as f64;
+        let stub_contains_leap_day = leap_day_count(
+            start_date.previous_day().unwrap_or(start_date),
+            stub_date.previous_day().unwrap_or(stub_date),
+        ) > 0;
+
+        match stub_contains_leap_day {
+            true => years as f64 + stub_days / 366.0,
+            false => years as f64 + stub_days / 365.0,
         }
     }
 
-- 
2.43.0


From 3442086cfab88bfbb6de68371b95722f2b6ea49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:58 +0000
Subject: [PATCH 04/61] fix: get_last_day_of_month is the weekday of the last
 day, not of the day after it

---
 crates/RustQuant_time/src/utilities.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_time/src/utilities.rs b/crates/RustQuant_time/src/utilities.rs
index 602a344..8f95c41 100644
--- a/crates/RustQuant_time/src/utilities.rs
+++ b/crates/RustQuant_time/src/utilities.rs
@@ -213,7 +213,7 @@ pub fn get_first_day_of_month(year: i32, month: Month) -> Result<Weekday, Error>
 pub fn get_last_day_of_month(year: i32, month: Month) -> Result<Weekday, Error> {
     let date = Date::from_calendar_date(year, month, 1)?;
 
-    let last_day = date + Duration::days(month.length(year) as i64);
+    let last_day = date + Duration::days(month.length(year) as i64 - 1);
 
     Ok(last_day.weekday())
 }
-- 
2.43.0


From 6edd660b270a69aabe4919864e2c4f8afe0ebdad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:58 +0000
Subject: [PATCH 05/61] fix: date_sequence is empty, instead of a capacity
 overflow, when the end precedes the start

---
 crates/RustQuant_time/src/utilities.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_time/src/utilities.rs b/crates/RustQuant_time/src/utilities.rs
index 8f95c41..eb9d3cb 100644
--- a/crates/RustQuant_time/src/utilities.rs
+++ b/crates/RustQuant_time/src/utilities.rs
@@ -193,7 +193,7 @@ pub fn previous_business_day(date: Date, calendar: &Calendar) -> Date {
 
 /// Function to generate a sequence of dates from a start date, end date.
 pub fn date_sequence(start: Date, end: Date) -> Vec<Date> {
-    let mut dates = Vec::with_capacity((end - start).whole_days() as usize);
+    let mut dates = Vec::with_capacity((end - start).whole_days().max(0) as usize);
     let mut current_date = start;
 
     while current_date <= end {
-- 
2.43.0


From b647e93bc4af9dcb7abfad4e184efbcdcee7a6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:58 +0000
Subject: [PATCH 06/61] fix: Frequency::SemiQuarterly is 8 per year as
 documented

---
 crates/RustQuant_time/src/constants.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_time/src/constants.rs b/crates/RustQuant_time/src/constants.rs
index d1b9775..b4fdf92 100644
--- a/crates/RustQuant_time/src/constants.rs
+++ b/crates/RustQuant_time/src/constants.rs
@@ -32,7 +32,7 @@ pub(crate) const ANNUALLY: isize = 1;
 pub(crate) const SEMI_ANNUALLY: isize = 2;
 pub(crate) const TRI_ANNUALLY: isize = 3;
 pub(crate) const QUARTERLY: isize = 4;
-pub(crate) const SEMI_QUARTERLY: isize = 6;
+pub(crate) const SEMI_QUARTERLY: isize = 8;
 pub(crate) const MONTHLY: isize = 12;
 pub(crate) const SEMI_MONTHLY: isize = 24;
 pub(crate) const BI_WEEKLY: isize = 26;
-- 
2.43.0


From 6e16e6579455abe8f4422160b7539eb3dbc539ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:27 +0000
Subject: [PATCH 07/61] fix: SimpleQuote::set_value also stores a zero into an
 empty quote and no value into a full one

---
 crates/RustQuant_cashflows/src/quotes.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/RustQuant_cashflows/src/quotes.rs b/crates/RustQuant_cashflows/src/quotes.rs
index 7bc6894..a630e6d 100644
--- a/crates/RustQuant_cashflows/src/quotes.rs
+++ b/crates/RustQuant_cashflows/src/quotes.rs
@@ -54,8 +54,10 @@ impl SimpleQuote {
             _ => 0.0,
         };
 
+        // A new value of zero, or no value at all, is a new value too.
+        self.value = value;
+
         if diff != 0.0 {
-            self.value = value;
             // Assuming notify_observers() function exists and does what it's supposed to
             // self.notify_observers();
         }
-- 
2.43.0


From 6e433ef1ef525d604f3695d6f72dfc3bc5c26478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:22 +0000
Subject: [PATCH 08/61] fix: geometric Asian average no longer overflows or
 underflows on paths with many monitoring dates

---
 crates/RustQuant_instruments/src/options/asian.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/RustQuant_instruments/src/options/asian.rs b/crates/RustQuant_instruments/src/options/asian.rs
index 9c27aef..bc7e703 100644
--- a/crates/RustQuant_instruments/src/options/asian.rs
+++ b/crates/RustQuant_instruments/src/options/asian.rs
@@ -52,7 +52,9 @@ impl Payoff for AsianOption {
 
         let average = match self.averaging_method {
             AveragingMethod::ArithmeticDiscrete => path.sum::<f64>() / n as f64,
-            AveragingMethod::GeometricDiscrete => path.product::<f64>().powf(1.0 / n as f64),
+            AveragingMethod::GeometricDiscrete => {
+                (path.map(|s| s.ln()).sum::<f64>() / n as f64).exp()
+            }
 
             // Continuous averaging (i.e. integral of the path).
             _ => panic!("Continuous averaging not implemented."),
-- 
2.43.0


From 6efe4e7d0a69e1e2410b089ee683c7549e8fe86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:22 +0000
Subject: [PATCH 09/61] fix: BarrierOption pays its rebate when knocked out or
 not knocked in

---
 .../src/options/barrier.rs                      | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/crates/RustQuant_instruments/src/options/barrier.rs b/crates/RustQuant_instruments/src/options/barrier.rs
index 5ca052d..62db9a5 100644
--- a/crates/RustQuant_instruments/src/options/barrier.rs
+++ b/crates/RustQuant_instruments/src/options/barrier.rs
@@ -37,6 +37,7 @@ impl Payoff for BarrierOption {
         let s = underlying;
         let b = self.barrier;
         let k = self.strike;
+        let rebate = self.rebate.unwrap_or(0.0);
 
         let terminal = s.last().unwrap();
 
@@ -49,20 +50,20 @@ impl Payoff for BarrierOption {
 
                 match self.barrier_type {
                     BarrierType::UpAndOut => match above {
-                        true => 0.0,
+                        true => rebate,
                         false => payoff,
                     },
                     BarrierType::DownAndOut => match below {
-                        true => 0.0,
+                        true => rebate,
                         false => payoff,
                     },
                     BarrierType::UpAndIn => match above {
                         true => payoff,
-                        false => 0.0,
+                        false => rebate,
                     },
                     BarrierType::DownAndIn => match below {
                         true => payoff,
-                        false => 0.0,
+                        false => rebate,
                     },
                 }
             }
@@ -71,20 +72,20 @@ impl Payoff for BarrierOption {
 
                 match self.barrier_type {
                     BarrierType::UpAndOut => match above {
-                        true => 0.0,
+                        true => rebate,
                         false => payoff,
                     },
                     BarrierType::DownAndOut => match below {
-                        true => 0.0,
+                        true => rebate,
                         false => payoff,
                     },
                     BarrierType::UpAndIn => match above {
                         true => payoff,
-                        false => 0.0,
+                        false => rebate,
                     },
                     BarrierType::DownAndIn => match below {
                         true => payoff,
-                        false => 0.0,
+                        false => rebate,
                     },
                 }
             }
-- 
2.43.0


From ff8077e6374550d928a33519bb72d212271afe52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:42 +0000
Subject: [PATCH 10/61] fix: ultima is the derivative of vomma with respect to
 the volatility

---
 .../src/options/black_scholes_merton.rs                     | 3 ++-
 crates/RustQuant_instruments/src/options/option_models.rs   | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/RustQuant_instruments/src/options/black_scholes_merton.rs b/crates/RustQuant_instruments/src/options/black_scholes_merton.rs
index 9cf802d..e42c8ee 100644
--- a/crates/RustQuant_instruments/src/options/black_scholes_merton.rs
+++ b/crates/RustQuant_instruments/src/options/black_scholes_merton.rs
@@ -326,7 +326,8 @@ impl BlackScholesMerton {
     pub fn ultima(&self) -> f64 {
         let (d1, d2) = self.d1_d2();
 
-        (self.vomma() / self.volatility) * (d1 * d2 - d1 / d2 + d2 / d1 - 1.0)
+        self.vega() / self.volatility.powi(2)
+            * ((d1 * d2).powi(2) - d1.powi(2) - d2.powi(2) - d1 * d2)
     }
 
     /// Vega Bleed of the generalised Black-Scholes European option.
diff --git a/crates/RustQuant_instruments/src/options/option_models.rs b/crates/RustQuant_instruments/src/options/option_models.rs
index 391d541..463d459 100644
--- a/crates/RustQuant_instruments/src/options/option_models.rs
+++ b/crates/RustQuant_instruments/src/options/option_models.rs
@@ -512,7 +512,8 @@ mod bsm {
         let d1 = d1(s, k, t, b, v);
         let d2 = d2(s, k, t, b, v);
 
-        (call_vomma(s, k, t, r, b, v) / v) * (d1 * d2 - d1 / d2 + d2 / d1 - 1.0)
+        call_vega(s, k, t, r, b, v) / v.powi(2)
+            * ((d1 * d2).powi(2) - d1.powi(2) - d2.powi(2) - d1 * d2)
     }
 
     #[inline]
@@ -520,7 +521,8 @@ mod bsm {
         let d1 = d1(s, k, t, b, v);
         let d2 = d2(s, k, t, b, v);
 
-        (put_vomma(s, k, t, r, b, v) / v) * (d1 * d2 - d1 / d2 + d2 / d1 - 1.0)
+        put_vega(s, k, t, r, b, v) / v.powi(2)
+            * ((d1 * d2).powi(2) - d1.powi(2) - d2.powi(2) - d1 * d2)
     }
 }
 
-- 
2.43.0


From 369d0fe649d340327dfdcbea54b1776101d9864a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:31 +0000
Subject: [PATCH 11/61] fix: rho of the futures option models is the derivative
 of their price in the rate

---
 .../src/options/option_models.rs              | 30 ++++++++++++-------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/crates/RustQuant_instruments/src/options/option_models.rs b/crates/RustQuant_instruments/src/options/option_models.rs
index 463d459..36ec195 100644
--- a/crates/RustQuant_instruments/src/options/option_models.rs
+++ b/crates/RustQuant_instruments/src/options/option_models.rs
@@ -527,7 +527,7 @@ mod bsm {
 }
 
 macro_rules! impl_gbsm {
-    ($gbsm_variant:ident) => {
+    ($gbsm_variant:ident, $rho:expr) => {
         impl GeneralisedBlackScholesMerton for $gbsm_variant {
             /// Price a European option.
             fn price(&self, k: f64, t: f64, option_type: TypeFlag) -> f64 {
@@ -574,10 +574,7 @@ macro_rules! impl_gbsm {
             }
 
             fn rho(&self, k: f64, t: f64, option_type: TypeFlag) -> f64 {
-                match option_type {
-                    TypeFlag::Call => bsm::call_rho(self.s(), k, t, self.r(), self.b(), self.v),
-                    TypeFlag::Put => bsm::put_rho(self.s(), k, t, self.r(), self.b(), self.v),
-                }
+                $rho(self, k, t, option_type)
             }
 
             fn vanna(&self, k: f64, t: f64, option_type: TypeFlag) -> f64 {
@@ -639,11 +636,24 @@ macro_rules! impl_gbsm {
     };
 }
 
-impl_gbsm!(BlackScholes73);
-impl_gbsm!(Merton73);
-impl_gbsm!(Black76);
-impl_gbsm!(Asay82);
-impl_gbsm!(GarmanKohlhagen83);
+/// Rho of a model whose cost of carry moves one for one with the rate.
+macro_rules! rho_spot {
+    () => {
+        |model: &Self, k: f64, t: f64, option_type: TypeFlag| match option_type {
+            TypeFlag::Call => bsm::call_rho(model.s(), k, t, model.r(), model.b(), model.v),
+            TypeFlag::Put => bsm::put_rho(model.s(), k, t, model.r(), model.b(), model.v),
+        }
+    };
+}
+
+impl_gbsm!(BlackScholes73, rho_spot!());
+impl_gbsm!(Merton73, rho_spot!());
+// The futures price does not depend on the rate, which only discounts.
+impl_gbsm!(Black76, |model: &Self, k: f64, t: f64, flag: TypeFlag| -t
+    * model.price(k, t, flag));
+// The option is margined: there is no rate.
+impl_gbsm!(Asay82, |_: &Self, _: f64, _: f64, _: TypeFlag| 0.0);
+impl_gbsm!(GarmanKohlhagen83, rho_spot!());
 
 mod heston {
     use num::Complex;
-- 
2.43.0


From 0031d4bf3f2b70b9a0df8ce9434bdb9489e5be7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:31 +0000
Subject: [PATCH 12/61] fix: Bachelier sensitivities are those of the
 discounted price

---
 .../src/options/option_models.rs              | 48 +++++++++----------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/crates/RustQuant_instruments/src/options/option_models.rs b/crates/RustQuant_instruments/src/options/option_models.rs
index 36ec195..c1344ff 100644
--- a/crates/RustQuant_instruments/src/options/option_models.rs
+++ b/crates/RustQuant_instruments/src/options/option_models.rs
@@ -1109,51 +1109,51 @@ mod bachelier {
     }
 
     #[inline]
-    pub(crate) fn call_delta(f: f64, k: f64, t: f64, v: f64) -> f64 {
+    pub(crate) fn call_delta(f: f64, k: f64, t: f64, r: f64, v: f64) -> f64 {
         let d = d(f, k, t, v);
-        N.cdf(d)
+        df(r, t) * N.cdf(d)
     }
 
     #[inline]
-    pub(crate) fn put_delta(f: f64, k: f64, t: f64, v: f64) -> f64 {
+    pub(crate) fn put_delta(f: f64, k: f64, t: f64, r: f64, v: f64) -> f64 {
         let d = d(f, k, t, v);
-        N.cdf(d) - 1.0
+        df(r, t) * (N.cdf(d) - 1.0)
     }
 
     #[inline]
-    pub(crate) fn call_gamma(f: f64, k: f64, t: f64, v: f64) -> f64 {
+    pub(crate) fn call_gamma(f: f64, k: f64, t: f64, r: f64, v: f64) -> f64 {
         let d = d(f, k, t, v);
-        N.pdf(d) / (v * t.sqrt())
+        df(r, t) * N.pdf(d) / (v * t.sqrt())
     }
 
     #[inline]
-    pub(crate) fn put_gamma(f: f64, k: f64, t: f64, v: f64) -> f64 {
-        call_gamma(f, k, t, v)
+    pub(crate) fn put_gamma(f: f64, k: f64, t: f64, r: f64, v: f64) -> f64 {
+        call_gamma(f, k, t, r, v)
     }
 
     #[inline]
-    pub(crate) fn call_vega(f: f64, k: f64, t: f64, v: f64) -> f64 {
+    pub(crate) fn call_vega(f: f64, k: f64, t: f64, r: f64, v: f64) -> f64 {
         let d = d(f, k, t, v);
-        t.sqrt() * N.pdf(d)
+        df(r, t) * t.sqrt() * N.pdf(d)
     }
 
     #[inline]
-    pub(crate) fn put_vega(f: f64, k: f64, t: f64, v: f64) -> f64 {
-        call_vega(f, k, t, v)
+    pub(crate) fn put_vega(f: f64, k: f64, t: f64, r: f64, v: f64) -> f64 {
+        call_vega(f, k, t, r, v)
     }
 
     #[inline]
-    pub(crate) fn call_theta(f: f64, k: f64, t: f64, v: f64) -> f64 {
+    pub(crate) fn call_theta(f: f64, k: f64, t: f64, r: f64, v: f64) -> f64 {
         let d = d(f, k, t, v);
 
-        -v * N.pdf(d) / (2. * t.sqrt())
+        r * call_price(f, k, t, r, v) - df(r, t) * v * N.pdf(d) / (2. * t.sqrt())
     }
 
     #[inline]
-    pub(crate) fn put_theta(f: f64, k: f64, t: f64, v: f64) -> f64 {
+    pub(crate) fn put_theta(f: f64, k: f64, t: f64, r: f64, v: f64) -> f64 {
         let d = d(f, k, t, v);
 
-        -v * N.pdf(d) / (2. * t.sqrt())
+        r * put_price(f, k, t, r, v) - df(r, t) * v * N.pdf(d) / (2. * t.sqrt())
     }
 }
 
@@ -1187,32 +1187,32 @@ impl Bachelier {
     /// Delta of a European option using the Bachelier model.
     pub fn delta(&self, k: f64, t: f64, option_type: TypeFlag) -> f64 {
         match option_type {
-            TypeFlag::Call => bachelier::call_delta(self.f, k, t, self.v),
-            TypeFlag::Put => bachelier::put_delta(self.f, k, t, self.v),
+            TypeFlag::Call => bachelier::call_delta(self.f, k, t, self.r, self.v),
+            TypeFlag::Put => bachelier::put_delta(self.f, k, t, self.r, self.v),
         }
     }
 
     /// Gamma of a European option using the Bachelier model.
     pub fn gamma(&self, k: f64, t: f64, option_type: TypeFlag) -> f64 {
         match option_type {
-            TypeFlag::Call => bachelier::call_gamma(self.f, k, t, self.v),
-            TypeFlag::Put => bachelier::put_gamma(self.f, k, t, self.v),
+            TypeFlag::Call => bachelier::call_gamma(self.f, k, t, self.r, self.v),
+            TypeFlag::Put => bachelier::put_gamma(self.f, k, t, self.r, self.v),
         }
     }
 
     /// Vega of a European option using the Bachelier model.
     pub fn vega(&self, k: f64, t: f64, option_type: TypeFlag) -> f64 {
         match option_type {
-            TypeFlag::Call => bachelier::call_vega(self.f, k, t, self.v),
-            TypeFlag::Put => bachelier::put_vega(self.f, k, t, self.v),
+            TypeFlag::Call => bachelier::call_vega(self.f, k, t, self.r, self.v),
+            TypeFlag::Put => bachelier::put_vega(self.f, k, t, self.r, self.v),
         }
     }
 
     /// Theta of a European option using the Bachelier model.
     pub fn theta(&self, k: f64, t: f64, option_type: TypeFlag) -> f64 {
         match option_type {
-            TypeFlag::Call => bachelier::call_theta(self.f, k, t, self.v),
-            TypeFlag::Put => bachelier::put_theta(self.f, k, t, self.v),
+            TypeFlag::Call => bachelier::call_theta(self.f, k, t, self.r, self.v),
+            TypeFlag::Put => bachelier::put_theta(self.f, k, t, self.r, self.v),
         }
     }
 }
-- 
2.43.0


From 7ec81d8f82e1c5daafd23cdd5150f994babca757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:31 +0000
Subject: [PATCH 13/61] fix: Bachelier implied volatility uses every
 coefficient of the approximation, and is defined at the money

---
 .../src/options/option_models.rs                   | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/crates/RustQuant_instruments/src/options/option_models.rs b/crates/RustQuant_instruments/src/options/option_models.rs
index c1344ff..6b0fdf8 100644
--- a/crates/RustQuant_instruments/src/options/option_models.rs
+++ b/crates/RustQuant_instruments/src/options/option_models.rs
@@ -1065,7 +1065,8 @@ mod bachelier {
     #[inline]
     pub(crate) fn call_iv(price: f64, f: f64, k: f64, t: f64) -> f64 {
         let v = (f - k).abs() / (2. * price - (f - k));
-        let eta = v / v.atanh();
+        // v / atanh(v) tends to one at the money.
+        let eta = if v == 0. { 1. } else { v / v.atanh() };
 
         let mut sum1 = 0.0;
         let mut sum2 = 0.0;
@@ -1075,9 +1076,9 @@ mod bachelier {
             sum1 += v * eta.powi(k as i32);
         }
 
-        // for k in 0..B.len() {
+        // for k in 1..=B.len() {
         for (k, v) in B.iter().enumerate() {
-            sum2 += v * eta.powi(k as i32);
+            sum2 += v * eta.powi(k as i32 + 1);
         }
 
         let hn = eta.sqrt() * sum1 / (1. + sum2);
@@ -1088,7 +1089,8 @@ mod bachelier {
     #[inline]
     pub(crate) fn put_iv(price: f64, f: f64, k: f64, t: f64) -> f64 {
         let v = (f - k).abs() / (2. * price + (f - k));
-        let eta = v / v.atanh();
+        // v / atanh(v) tends to one at the money.
+        let eta = if v == 0. { 1. } else { v / v.atanh() };
 
         let mut sum1 = 0.0;
         let mut sum2 = 0.0;
@@ -1099,8 +1101,8 @@ mod bachelier {
         }
 
         // for k in 1..=B.len() {
-        for (k, v) in B.iter().enumerate().skip(1) {
-            sum2 += v * eta.powi(k as i32);
+        for (k, v) in B.iter().enumerate() {
+            sum2 += v * eta.powi(k as i32 + 1);
         }
 
         let hn = eta.sqrt() * sum1 / (1. + sum2);
-- 
2.43.0


From d099842ee110ac64f414a1088abfe26f1beb7831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:33 +0000
Subject: [PATCH 14/61] fix: SABR volatility scales moneyness by the volatility
 of volatility and is defined at the money

---
 .../src/options/option_models.rs              | 26 ++++++++++---------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/crates/RustQuant_instruments/src/options/option_models.rs b/crates/RustQuant_instruments/src/options/option_models.rs
index 6b0fdf8..a7421a3 100644
--- a/crates/RustQuant_instruments/src/options/option_models.rs
+++ b/crates/RustQuant_instruments/src/options/option_models.rs
@@ -1231,12 +1231,19 @@ mod sabr {
         rho: f64,
         nu: f64,
     ) -> f64 {
-        coefficient(f, k, beta, rho, nu) * numerator(f, k, t, alpha, beta, rho, nu)
+        coefficient(f, k, alpha, beta, rho, nu) * numerator(f, k, t, alpha, beta, rho, nu)
             / denominator(f, k, beta, rho, nu)
     }
 
-    fn coefficient(f: f64, k: f64, beta: f64, rho: f64, _nu: f64) -> f64 {
-        z(f, k, beta) / chi(f, k, beta, rho)
+    fn coefficient(f: f64, k: f64, alpha: f64, beta: f64, rho: f64, nu: f64) -> f64 {
+        let z = z(f, k, alpha, beta, nu);
+
+        // z / chi(z) tends to one at the money.
+        if z.abs() < 1e-8 {
+            1.0
+        } else {
+            z / chi(z, rho)
+        }
     }
 
     fn numerator(f: f64, k: f64, t: f64, alpha: f64, beta: f64, rho: f64, nu: f64) -> f64 {
@@ -1253,17 +1260,12 @@ mod sabr {
         term1 * (1.0 + term2 + term3)
     }
 
-    fn z(f: f64, k: f64, beta: f64) -> f64 {
-        (f / k).ln() * fk_power(f, k, beta)
+    fn z(f: f64, k: f64, alpha: f64, beta: f64, nu: f64) -> f64 {
+        nu / alpha * (f / k).ln() * fk_power(f, k, beta)
     }
 
-    fn chi(f: f64, k: f64, beta: f64, rho: f64) -> f64 {
-        let numerator = ((1.0 - 2.0 * rho * z(f, k, beta) + z(f, k, beta).powi(2)).sqrt()
-            + z(f, k, beta)
-            - rho)
-            .ln();
-        let denominator = 1.0 - rho;
-        numerator / denominator
+    fn chi(z: f64, rho: f64) -> f64 {
+        (((1.0 - 2.0 * rho * z + z.powi(2)).sqrt() + z - rho) / (1.0 - rho)).ln()
     }
 
     fn fk_power(f: f64, k: f64, beta: f64) -> f64 {
-- 
2.43.0


From 2c66d826593fd9868159e8992e9b513c37649200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:17 +0000
Subject: [PATCH 15/61] fix: derivative of the cube root of a negative variable
 is not NaN

---
 crates/RustQuant_autodiff/src/overload.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_autodiff/src/overload.rs b/crates/RustQuant_autodiff/src/overload.rs
index 24f36c6..c7e229c 100644
--- a/crates/RustQuant_autodiff/src/overload.rs
+++ b/crates/RustQuant_autodiff/src/overload.rs
@@ -501,7 +501,7 @@ impl<'v> Variable<'v> {
             index: self.graph.push(
                 Arity::Unary,
                 &[self.index],
-                &[((3.0 * self.value.powf(2.0 / 3.0)).recip())],
+                &[((3.0 * self.value.cbrt().powi(2)).recip())],
             ),
         }
     }
-- 
2.43.0


From ffc815a97d5929e6c9f774f899f68201b67ae60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:17 +0000
Subject: [PATCH 16/61] fix: partials of the logarithm of a variable to a
 variable base were swapped

---
 crates/RustQuant_autodiff/src/overload.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_autodiff/src/overload.rs b/crates/RustQuant_autodiff/src/overload.rs
index c7e229c..5b478ad 100644
--- a/crates/RustQuant_autodiff/src/overload.rs
+++ b/crates/RustQuant_autodiff/src/overload.rs
@@ -1031,8 +1031,8 @@ impl<'v> Log<Variable<'v>> for Variable<'v> {
                 Arity::Binary,
                 &[self.index, base.index],
                 &[
-                    -f64::ln(self.value) / (base.value * f64::ln(base.value).powi(2)),
                     1.0 / (self.value * f64::ln(base.value)),
+                    -f64::ln(self.value) / (base.value * f64::ln(base.value).powi(2)),
                 ],
             ),
         }
-- 
2.43.0


From dbed185a9d57386cc240237ca644467068d394ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:17 +0000
Subject: [PATCH 17/61] fix: derivative of a constant raised to a variable is
 that of an exponential

---
 crates/RustQuant_autodiff/src/overload.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/RustQuant_autodiff/src/overload.rs b/crates/RustQuant_autodiff/src/overload.rs
index 5b478ad..cb409a8 100644
--- a/crates/RustQuant_autodiff/src/overload.rs
+++ b/crates/RustQuant_autodiff/src/overload.rs
@@ -1413,7 +1413,7 @@ impl<'v> Powf<Variable<'v>> for f64 {
             index: other.graph.push(
                 Arity::Binary,
                 &[other.index, other.index],
-                &[0.0, other.value * f64::powf(*self, other.value - 1.0)],
+                &[0.0, f64::powf(*self, other.value) * f64::ln(*self)],
             ),
         }
     }
@@ -1481,7 +1481,7 @@ impl<'v> Powi<Variable<'v>> for f64 {
             index: other.graph.push(
                 Arity::Binary,
                 &[other.index, other.index],
-                &[0.0, other.value * f64::powf(*self, other.value - 1.0)],
+                &[0.0, f64::powf(*self, other.value) * f64::ln(*self)],
             ),
         }
     }
-- 
2.43.0


From 15a36567dcac8eac5bc9b5e2eb57c80c925f183a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:17 +0000
Subject: [PATCH 18/61] fix: operations that do not feed the output cannot turn
 its gradient into NaN

---
 crates/RustQuant_autodiff/src/accumulate.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/RustQuant_autodiff/src/accumulate.rs b/crates/RustQuant_autodiff/src/accumulate.rs
index 2cf1a1c..31900f0 100644
--- a/crates/RustQuant_autodiff/src/accumulate.rs
+++ b/crates/RustQuant_autodiff/src/accumulate.rs
@@ -43,6 +43,12 @@ impl Accumulate<Vec<f64>> for Variable<'_> {
         for (index, vertex) in self.graph.vertices.borrow().iter().enumerate().rev() {
             let deriv = adjoints[index];
 
+            // The output does not depend on this vertex: its partials, which
+            // need not be finite, contribute nothing.
+            if deriv == 0.0 {
+                continue;
+            }
+
             adjoints[vertex.parents[0]] += vertex.partials[0] * deriv;
             adjoints[vertex.parents[1]] += vertex.partials[1] * deriv;
         }
-- 
2.43.0


From 13be74519b2d6aa38ee68475025814e970a16e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:17 +0000
Subject: [PATCH 19/61] fix: joining graphs keeps the parents of the second
 graph's vertices

---
 crates/RustQuant_autodiff/src/graph.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/RustQuant_autodiff/src/graph.rs b/crates/RustQuant_autodiff/src/graph.rs
index b161f09..6675672 100644
--- a/crates/RustQuant_autodiff/src/graph.rs
+++ b/crates/RustQuant_autodiff/src/graph.rs
@@ -66,8 +66,15 @@ impl Graph {
     #[inline]
     pub fn join(&self, other: &Self) -> Self {
         let graph = self.clone();
-        let other = other.vertices.borrow_mut().clone();
-        graph.vertices.borrow_mut().extend(other);
+        let offset = self.len();
+        let other = other.vertices.borrow().clone();
+        graph
+            .vertices
+            .borrow_mut()
+            .extend(other.into_iter().map(|vertex| Vertex {
+                partials: vertex.partials,
+                parents: vertex.parents.map(|parent| parent + offset),
+            }));
         graph
     }
 
-- 
2.43.0


From 793ac45692b88d52df0e488297fd630d843bc5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:07 +0000
Subject: [PATCH 20/61] fix: Binomial::sample drew from a distribution with as
 many trials as samples

---
 crates/RustQuant_math/src/distributions/binomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_math/src/distributions/binomial.rs b/crates/RustQuant_math/src/distributions/binomial.rs
index d9f3232..9c0d31d 100644
--- a/crates/RustQuant_math/src/distributions/binomial.rs
+++ b/crates/RustQuant_math/src/distributions/binomial.rs
@@ -287,7 +287,7 @@ impl Distribution for Binomial {
 
         let mut rng = thread_rng();
 
-        let dist = Binomial::new(n as u64, self.p)?;
+        let dist = Binomial::new(self.n as u64, self.p)?;
 
         let mut variates: Vec<f64> = Vec::with_capacity(n);
 
-- 
2.43.0


From 3acfd6b3a2637858e909b8c8ade0d99df9fafb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:07 +0000
Subject: [PATCH 21/61] fix: Binomial::cdf panicked at the number of trials

---
 crates/RustQuant_math/src/distributions/binomial.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/RustQuant_math/src/distributions/binomial.rs b/crates/RustQuant_math/src/distributions/binomial.rs
index 9c0d31d..8454188 100644
--- a/crates/RustQuant_math/src/distributions/binomial.rs
+++ b/crates/RustQuant_math/src/distributions/binomial.rs
@@ -133,6 +133,11 @@ impl Distribution for Binomial {
     /// assert_approx_equal!(binomial.cdf(3.0), 0.9129600, 1e-7);
     /// ```
     fn cdf(&self, k: f64) -> f64 {
+        // The regularised beta function needs both of its shapes to be positive.
+        if k as usize >= self.n {
+            return 1.0;
+        }
+
         statrs::function::beta::beta_reg((self.n - k as usize) as f64, 1_f64 + k, 1_f64 - self.p)
     }
 
-- 
2.43.0


From 55787ec5d1ec6e81f159656bcb0340285ab7abc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:07 +0000
Subject: [PATCH 22/61] fix: Binomial::pmf overflowed for more than 12 trials

---
 crates/RustQuant_math/src/distributions/binomial.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/RustQuant_math/src/distributions/binomial.rs b/crates/RustQuant_math/src/distributions/binomial.rs
index 8454188..b34ceb5 100644
--- a/crates/RustQuant_math/src/distributions/binomial.rs
+++ b/crates/RustQuant_math/src/distributions/binomial.rs
@@ -113,11 +113,14 @@ impl Distribution for Binomial {
         assert!(k as usize <= self.n);
         assert!((0.0..=1.0).contains(&self.p));
 
-        let n_C_k = |n: u32, k: u32| -> u32 {
-            (1..=n).product::<u32>() / ((1..=k).product::<u32>() * (1..=(n - k)).product::<u32>())
+        // Factor by factor: the factorials overflow from 13! on.
+        let n_C_k = |n: usize, k: usize| -> f64 {
+            (1..=k)
+                .map(|j| (n - k + j) as f64 / j as f64)
+                .product::<f64>()
         };
 
-        n_C_k(self.n as u32, k as u32) as f64
+        n_C_k(self.n, k as usize)
             * self.p.powi(k as i32)
             * (1.0 - self.p).powi((self.n - k as usize) as i32)
     }
-- 
2.43.0


From c7d2a7cca454ac3a2d500081725ba4a226cb914c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:07 +0000
Subject: [PATCH 23/61] fix: Gamma::sample truncated its variates to integers

---
 crates/RustQuant_math/src/distributions/gamma.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_math/src/distributions/gamma.rs b/crates/RustQuant_math/src/distributions/gamma.rs
index dabfa41..8a6fec9 100644
--- a/crates/RustQuant_math/src/distributions/gamma.rs
+++ b/crates/RustQuant_math/src/distributions/gamma.rs
@@ -139,7 +139,7 @@ impl Distribution for Gamma {
         let mut variates: Vec<f64> = Vec::with_capacity(n);
 
         for _ in 0..variates.capacity() {
-            variates.push(dist.sample(&mut rng) as usize as f64);
+            variates.push(dist.sample(&mut rng));
         }
 
         Ok(variates)
-- 
2.43.0


From 1c2d4c5fbf56e4416a11ea50e6cbf064e434e1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:07 +0000
Subject: [PATCH 24/61] fix: ChiSquared::sample truncated its variates to
 integers

---
 crates/RustQuant_math/src/distributions/chi_squared.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_math/src/distributions/chi_squared.rs b/crates/RustQuant_math/src/distributions/chi_squared.rs
index 2b89880..3475c81 100644
--- a/crates/RustQuant_math/src/distributions/chi_squared.rs
+++ b/crates/RustQuant_math/src/distributions/chi_squared.rs
@@ -297,7 +297,7 @@ impl Distribution for ChiSquared {
         let mut variates: Vec<f64> = Vec::with_capacity(n);
 
         for _ in 0..variates.capacity() {
-            variates.push(dist.sample(&mut rng) as usize as f64);
+            variates.push(dist.sample(&mut rng));
         }
 
         Ok(variates)
-- 
2.43.0


From c096242f2d77185b4aee6c5400e0eccd9f2217d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:07 +0000
Subject: [PATCH 25/61] fix: variance of the discrete Uniform distribution

---
 crates/RustQuant_math/src/distributions/uniform.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_math/src/distributions/uniform.rs b/crates/RustQuant_math/src/distributions/uniform.rs
index 2f25ddb..563be43 100644
--- a/crates/RustQuant_math/src/distributions/uniform.rs
+++ b/crates/RustQuant_math/src/distributions/uniform.rs
@@ -256,7 +256,7 @@ impl Distribution for Uniform {
     /// ```
     fn variance(&self) -> f64 {
         match self.class {
-            DistributionClass::Discrete => (self.b - self.a + 1.0).powi(2) / 12.0,
+            DistributionClass::Discrete => ((self.b - self.a + 1.0).powi(2) - 1.0) / 12.0,
             DistributionClass::Continuous => (self.b - self.a).powi(2) / 12.0,
         }
     }
-- 
2.43.0


From a6cc5e19f6e733cf3b7e1b0465141296f8d6e23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:07 +0000
Subject: [PATCH 26/61] fix: discrete Uniform::sample never drew its upper end
 nor negative values

---
 crates/RustQuant_math/src/distributions/uniform.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/RustQuant_math/src/distributions/uniform.rs b/crates/RustQuant_math/src/distributions/uniform.rs
index 563be43..1965665 100644
--- a/crates/RustQuant_math/src/distributions/uniform.rs
+++ b/crates/RustQuant_math/src/distributions/uniform.rs
@@ -356,16 +356,18 @@ impl Distribution for Uniform {
 
         let mut rng = thread_rng();
 
-        let dist = Uniform::new(self.a, self.b);
-
         let mut variates: Vec<f64> = Vec::with_capacity(n);
         match self.class {
             DistributionClass::Discrete => {
+                let dist = Uniform::new(self.a, self.b + 1.0);
+
                 for _ in 0..variates.capacity() {
-                    variates.push(dist.sample(&mut rng) as usize as f64);
+                    variates.push(dist.sample(&mut rng).floor());
                 }
             }
             DistributionClass::Continuous => {
+                let dist = Uniform::new(self.a, self.b);
+
                 for _ in 0..variates.capacity() {
                     variates.push(dist.sample(&mut rng));
                 }
-- 
2.43.0


From 5296d81bf6a262828f00295efdb133b343584816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:07 +0000
Subject: [PATCH 27/61] fix: Bernoulli::cdf was positive between -1 and 0

---
 crates/RustQuant_math/src/distributions/bernoulli.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/RustQuant_math/src/distributions/bernoulli.rs b/crates/RustQuant_math/src/distributions/bernoulli.rs
index 6bd40cc..0dc213d 100644
--- a/crates/RustQuant_math/src/distributions/bernoulli.rs
+++ b/crates/RustQuant_math/src/distributions/bernoulli.rs
@@ -117,9 +117,9 @@ impl Distribution for Bernoulli {
     fn cdf(&self, k: f64) -> f64 {
         assert!((0.0..=1.0).contains(&self.p));
 
-        if (k as i32) < 0 {
+        if k < 0.0 {
             0.0
-        } else if (0..1).contains(&(k as i32)) {
+        } else if k < 1.0 {
             1.0 - self.p
         } else {
             1.0
-- 
2.43.0


From 8576cf42711006de835c6a1074ab8908df697916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:07 +0000
Subject: [PATCH 28/61] fix: ChiSquared::inv_cdf could not go beyond one and a
 half times its degrees of freedom

---
 crates/RustQuant_math/src/distributions/chi_squared.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/RustQuant_math/src/distributions/chi_squared.rs b/crates/RustQuant_math/src/distributions/chi_squared.rs
index 3475c81..af4ba83 100644
--- a/crates/RustQuant_math/src/distributions/chi_squared.rs
+++ b/crates/RustQuant_math/src/distributions/chi_squared.rs
@@ -143,8 +143,13 @@ impl Distribution for ChiSquared {
         assert!((0.0..=1.0).contains(&p));
 
         let k = self.k as f64;
-        let mut x = 0.5 * k;
-        let mut delta = 0.5 * k;
+        let mut upper = k;
+        while self.cdf(upper) < p && upper < 1024.0 * k {
+            upper *= 2.0;
+        }
+
+        let mut x = 0.5 * upper;
+        let mut delta = 0.25 * upper;
 
         while delta > 1e-10 {
             let cdf = self.cdf(x);
-- 
2.43.0


From 5095d89ba44b8add00962c0dafeded24c09d5fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:07 +0000
Subject: [PATCH 29/61] fix: Poisson::pmf overflowed for more than 20 events

---
 crates/RustQuant_math/src/distributions/poisson.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/RustQuant_math/src/distributions/poisson.rs b/crates/RustQuant_math/src/distributions/poisson.rs
index 24eed4f..1059282 100644
--- a/crates/RustQuant_math/src/distributions/poisson.rs
+++ b/crates/RustQuant_math/src/distributions/poisson.rs
@@ -93,8 +93,8 @@ impl Distribution for Poisson {
     /// assert_approx_equal!(poisson.pmf(1.0), poisson.pdf(1.0), 1e-7);
     /// ```
     fn pmf(&self, x: f64) -> f64 {
-        (self.lambda).powi(x as i32) * (-(self.lambda)).exp()
-            / ((1..=x as usize).product::<usize>() as f64)
+        // Factor by factor: the factorial overflows from 21! on.
+        (1..=x as usize).fold((-(self.lambda)).exp(), |acc, k| acc * self.lambda / k as f64)
     }
 
     /// Cumulative distribution function of the Poisson distribution.
-- 
2.43.0


From f8b021a8ccbf6fba96a4bb0504d42c56b285c280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:55 +0000
Subject: [PATCH 30/61] fix: fft_real replaced the roots of unity by their norm

---
 crates/RustQuant_math/src/fft.rs | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/crates/RustQuant_math/src/fft.rs b/crates/RustQuant_math/src/fft.rs
index 79bc244..40ebed2 100644
--- a/crates/RustQuant_math/src/fft.rs
+++ b/crates/RustQuant_math/src/fft.rs
@@ -70,25 +70,14 @@ fn check_vec_length<T>(x: &[T]) {
     );
 }
 
-/// Real fourier transform in place
+/// Real fourier transform in place: the magnitudes of the complex transform.
 fn fft_real_calculation(x: &mut [f64]) {
-    let n = x.len();
-    if n == 1 {
-        return;
-    }
+    let mut transform: Vec<Complex<f64>> = x.iter().map(|&v| Complex::new(v, 0.0)).collect();
 
-    let (mut even, mut odd) = split_array(x);
+    fft_complex_calculation(&mut transform);
 
-    fft_real_calculation(&mut even);
-    fft_real_calculation(&mut odd);
-
-    for k in 0..(n / 2) {
-        let t = Complex::new(0.0, -2.0 * PI * (k as f64) / (n as f64))
-            .exp()
-            .norm()
-            * odd[k];
-        x[k] = even[k] + t;
-        x[n / 2 + k] = even[k] - t;
+    for (x_value, z_value) in x.iter_mut().zip(transform) {
+        *x_value = z_value.norm();
     }
 }
 
-- 
2.43.0


From 3b64f856052c86aac41346d0867ae9d32549885f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:07 +0000
Subject: [PATCH 31/61] fix: B-splines vanished at the right end of clamped
 knots

---
 crates/RustQuant_math/src/interpolation/b_splines.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/RustQuant_math/src/interpolation/b_splines.rs b/crates/RustQuant_math/src/interpolation/b_splines.rs
index 7381331..d5f8fb5 100644
--- a/crates/RustQuant_math/src/interpolation/b_splines.rs
+++ b/crates/RustQuant_math/src/interpolation/b_splines.rs
@@ -77,7 +77,13 @@ where
     /// Cox de Boor algorithm to evalute the spline curves.
     fn cox_de_boor(&self, point: IndexType, index: usize, degree: usize) -> ValueType {
         if degree == 0 {
-            return if point.ge(&self.knots[index]) && point.lt(&self.knots[index + 1]) {
+            // Knot spans are half-open, but for the last one, which is closed:
+            // the range of interpolation includes its right end.
+            let (left, right) = (self.knots[index], self.knots[index + 1]);
+            let last = self.knots[self.knots.len() - 1];
+            let at_right_end = point == last && right == last && left < last;
+
+            return if (point.ge(&left) && point.lt(&right)) || at_right_end {
                 ValueType::one()
             } else {
                 ValueType::zero()
-- 
2.43.0


From ab17210df5fadf4641ae063b13b82638803c72a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:07 +0000
Subject: [PATCH 32/61] fix: Bisection returned the previous end when the
 midpoint is a root

---
 crates/RustQuant_math/src/rootfinding/bisection.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/RustQuant_math/src/rootfinding/bisection.rs b/crates/RustQuant_math/src/rootfinding/bisection.rs
index abcad7a..2da013d 100644
--- a/crates/RustQuant_math/src/rootfinding/bisection.rs
+++ b/crates/RustQuant_math/src/rootfinding/bisection.rs
@@ -68,7 +68,10 @@ where
             if f_mid <= 0.0 {
                 self.data.root = x_mid;
             }
-            if dx.abs() < self.data.accuracy || RootfinderData::close(f_mid, 0.0) {
+            if RootfinderData::close(f_mid, 0.0) {
+                return x_mid;
+            }
+            if dx.abs() < self.data.accuracy {
                 return self.data.root;
             }
         }
-- 
2.43.0


From dca7594c84d4e181fd29fb78fc5043939281be73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:42 +0000
Subject: [PATCH 33/61] fix: scale Gaussian noise by the square root of the
 step in every scheme

The Milstein and Strang schemes used standard normal variables as the
increments of Brownian motion, and the Euler-Maruyama scheme scaled
fractional noise, which is scaled already, once more.
---
 crates/RustQuant_stochastics/src/simulation.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/RustQuant_stochastics/src/simulation.rs b/crates/RustQuant_stochastics/src/simulation.rs
index 420b356..0080f8a 100644
--- a/crates/RustQuant_stochastics/src/simulation.rs
+++ b/crates/RustQuant_stochastics/src/simulation.rs
@@ -59,8 +59,8 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
                     path.push(
                         path[t]
                         + stochastic_process.drift(path[t], times_ref[t]) * dt
-                        + stochastic_process.diffusion(path[t], times_ref[t]) * diffusion_scale * match noise_gen {
-                            NoiseGenerator::Dynamic(ref mut rng) => normal_dist.sample(rng),
+                        + stochastic_process.diffusion(path[t], times_ref[t]) * match noise_gen {
+                            NoiseGenerator::Dynamic(ref mut rng) => diffusion_scale * normal_dist.sample(rng),
                             NoiseGenerator::Fractional(_) => fraction_noise[t],
                         } + match !jumps.is_empty() {
                             true => calculate_jump(stochastic_process, path[t], times_ref[t], jumps[t]),
@@ -83,7 +83,7 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
                 let mut dw: f64;
                 for t in 0..config.n_steps {
                     dw = match noise_gen {
-                        NoiseGenerator::Dynamic(ref mut rng) => normal_dist.sample(rng),
+                        NoiseGenerator::Dynamic(ref mut rng) => diffusion_scale * normal_dist.sample(rng),
                         NoiseGenerator::Fractional(_) => fraction_noise[t],
                     };
                     path.push(
@@ -124,7 +124,7 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
                             path[t] + 0.5 * stochastic_process.drift(path[t], times[t]) * dt,
                             times[t] + 0.5 * dt,
                         ) * match noise_gen {
-                            NoiseGenerator::Dynamic(ref mut rng) => normal_dist.sample(rng),
+                            NoiseGenerator::Dynamic(ref mut rng) => diffusion_scale * normal_dist.sample(rng),
                             NoiseGenerator::Fractional(_) => fraction_noise[t],
                         } + 0.5 * stochastic_process.drift(path[t], times_ref[t]) * dt
                         + match !jumps.is_empty() {
-- 
2.43.0


From 8cb6da1c1a2345487bb34f9733e96e87612fe6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:42 +0000
Subject: [PATCH 34/61] fix: divide by the width of the difference in the
 Milstein correction

---
 crates/RustQuant_stochastics/src/simulation.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/RustQuant_stochastics/src/simulation.rs b/crates/RustQuant_stochastics/src/simulation.rs
index 0080f8a..15cbc31 100644
--- a/crates/RustQuant_stochastics/src/simulation.rs
+++ b/crates/RustQuant_stochastics/src/simulation.rs
@@ -94,8 +94,7 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
                         * (stochastic_process.diffusion(path[t], times_ref[t])
                         * ((stochastic_process.diffusion(path[t] + 1e-5, times_ref[t])
                                     - stochastic_process.diffusion(path[t] - 1e-5, times_ref[t]))
-                                    / 2.0
-                                    * 1e-5)
+                                    / (2.0 * 1e-5))
                         * ((dw * dw) - dt))
                         + match !jumps.is_empty() {
                             true => calculate_jump(stochastic_process, path[t], times_ref[t], jumps[t]),
-- 
2.43.0


From 64a6268b9b48995e8972dd9340d6cbebe47d686e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:13 +0000
Subject: [PATCH 35/61] fix: take the second half step of drift from the
 diffused state in Strang splitting

---
 .../RustQuant_stochastics/src/simulation.rs   | 21 ++++++++++++-------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/crates/RustQuant_stochastics/src/simulation.rs b/crates/RustQuant_stochastics/src/simulation.rs
index 15cbc31..2127b88 100644
--- a/crates/RustQuant_stochastics/src/simulation.rs
+++ b/crates/RustQuant_stochastics/src/simulation.rs
@@ -116,16 +116,21 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
                 };
 
                 for t in 0..config.n_steps {
-                    path.push(
-                        path[t]
-                        + 0.5 * stochastic_process.drift(path[t], times_ref[t]) * dt
-                        + stochastic_process.diffusion(
-                            path[t] + 0.5 * stochastic_process.drift(path[t], times[t]) * dt,
-                            times[t] + 0.5 * dt,
-                        ) * match noise_gen {
+                    let half_step = 0.5 * dt;
+                    let mid_time = times_ref[t] + half_step;
+
+                    // Half a step of drift, a step of diffusion, half a step of drift:
+                    // each from where the one before it ended.
+                    let drifted = path[t] + stochastic_process.drift(path[t], times_ref[t]) * half_step;
+                    let diffused = drifted
+                        + stochastic_process.diffusion(drifted, mid_time) * match noise_gen {
                             NoiseGenerator::Dynamic(ref mut rng) => diffusion_scale * normal_dist.sample(rng),
                             NoiseGenerator::Fractional(_) => fraction_noise[t],
-                        } + 0.5 * stochastic_process.drift(path[t], times_ref[t]) * dt
+                        };
+
+                    path.push(
+                        diffused
+                        + stochastic_process.drift(diffused, mid_time) * half_step
                         + match !jumps.is_empty() {
                             true => calculate_jump(stochastic_process, path[t], times_ref[t], jumps[t]),
                             false => 0.0,
-- 
2.43.0


From 45b72ff4c5f9cbb85b19ed67077daa043ec42cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:13 +0000
Subject: [PATCH 36/61] fix: fractional noise of the span simulated, seeded per
 path

The noise was that of a span from zero to the terminal time, every path
of a seeded simulation was the same, and the FFT method ignored the seed.
---
 .../RustQuant_stochastics/src/fractional_process.rs  | 10 ++++++++--
 crates/RustQuant_stochastics/src/simulation.rs       | 12 ++++++------
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/crates/RustQuant_stochastics/src/fractional_process.rs b/crates/RustQuant_stochastics/src/fractional_process.rs
index 3b2e3a0..3f39cee 100644
--- a/crates/RustQuant_stochastics/src/fractional_process.rs
+++ b/crates/RustQuant_stochastics/src/fractional_process.rs
@@ -95,7 +95,7 @@ pub fn fgn_cholesky(hurst: f64, n: usize, t_n: f64, seed: Option<u64>) -> Vec<f6
 }
 
 /// Fractional Gaussian noise via FFT.
-pub fn fgn_fft(hurst: f64, n: usize, t_n: f64, _: Option<u64>) -> Vec<f64> {
+pub fn fgn_fft(hurst: f64, n: usize, t_n: f64, seed: Option<u64>) -> Vec<f64> {
     if !(0.0..=1.0).contains(&hurst) {
         panic!("Hurst parameter must be between 0 and 1");
     }
@@ -125,9 +125,15 @@ pub fn fgn_fft(hurst: f64, n: usize, t_n: f64, _: Option<u64>) -> Vec<f64> {
 
     sqrt_eigenvalues.par_mapv_inplace(|x| Complex::new((x.re / (2.0 * n as f64)).sqrt(), x.im));
 
-    let rnd = Array1::<Complex<f64>>::random(
+    let mut rng = match seed {
+        Some(seed) => StdRng::seed_from_u64(seed),
+        None => StdRng::from_entropy()
+    };
+
+    let rnd = Array1::<Complex<f64>>::random_using(
         2 * n,
         ComplexDistribution::new(StandardNormal, StandardNormal),
+        &mut rng,
     );
     let fgn = &sqrt_eigenvalues * &rnd;
     let fft_handler = FftHandler::new(2 * n);
diff --git a/crates/RustQuant_stochastics/src/simulation.rs b/crates/RustQuant_stochastics/src/simulation.rs
index 2127b88..955c03f 100644
--- a/crates/RustQuant_stochastics/src/simulation.rs
+++ b/crates/RustQuant_stochastics/src/simulation.rs
@@ -16,7 +16,7 @@ use RustQuant_math::{Distribution as LocalDistribution, Poisson};
 
 enum NoiseGenerator {
     Dynamic(StdRng),
-    Fractional((fn(f64, usize, f64, Option<u64>) -> Vec<f64>, f64)),
+    Fractional((fn(f64, usize, f64, Option<u64>) -> Vec<f64>, f64, u64)),
 }
 
 pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
@@ -50,7 +50,7 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
 
                 let fraction_noise: Vec<f64> = match noise_gen {
                     NoiseGenerator::Fractional(fractional_config) => {
-                        fractional_config.0(fractional_config.1, config.n_steps, config.t_n, config.seed)
+                        fractional_config.0(fractional_config.1, config.n_steps, config.t_n - config.t_0, Some(fractional_config.2))
                     },
                     NoiseGenerator::Dynamic(_) => vec![],
                 };
@@ -75,7 +75,7 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
 
                 let fraction_noise: Vec<f64> = match noise_gen {
                     NoiseGenerator::Fractional(fractional_config) => {
-                        fractional_config.0(fractional_config.1, config.n_steps, config.t_n, config.seed)
+                        fractional_config.0(fractional_config.1, config.n_steps, config.t_n - config.t_0, Some(fractional_config.2))
                     },
                     NoiseGenerator::Dynamic(_) => vec![],
                 };
@@ -110,7 +110,7 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
 
                 let fraction_noise: Vec<f64> = match noise_gen {
                     NoiseGenerator::Fractional(fractional_config) => {
-                        fractional_config.0(fractional_config.1, config.n_steps, config.t_n, config.seed)
+                        fractional_config.0(fractional_config.1, config.n_steps, config.t_n - config.t_0, Some(fractional_config.2))
                     },
                     NoiseGenerator::Dynamic(_) => vec![],
                 };
@@ -147,7 +147,7 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
     if config.parallel {
         paths.par_iter_mut().enumerate().for_each(|(i, path)| {
             let noise_gen = match fractional_config {
-                Some(fractional_config) => NoiseGenerator::Fractional(fractional_config),
+                Some((generator, hurst)) => NoiseGenerator::Fractional((generator, hurst, base_seed.wrapping_add(i as u64))),
                 None => NoiseGenerator::Dynamic(StdRng::seed_from_u64(base_seed.wrapping_add(i as u64))),
             };
             scheme(path, noise_gen);
@@ -155,7 +155,7 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
     } else {
         paths.iter_mut().enumerate().for_each(|(i, path)| {
             let noise_gen = match fractional_config {
-                Some(fractional_config) => NoiseGenerator::Fractional(fractional_config),
+                Some((generator, hurst)) => NoiseGenerator::Fractional((generator, hurst, base_seed.wrapping_add(i as u64))),
                 None => NoiseGenerator::Dynamic(StdRng::seed_from_u64(base_seed.wrapping_add(i as u64))),
             };
             scheme(path, noise_gen);
-- 
2.43.0


From 6b02a328b74b0ec0a11a8706f7771bc20e139646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:13 +0000
Subject: [PATCH 37/61] fix: paths of jump diffusions jump independently, as
 often as drawn

All paths shared one sequence of jump times, and a step in which more
than one jump was drawn made only one of them.
---
 .../RustQuant_stochastics/src/simulation.rs   | 45 +++++++++----------
 1 file changed, 20 insertions(+), 25 deletions(-)

diff --git a/crates/RustQuant_stochastics/src/simulation.rs b/crates/RustQuant_stochastics/src/simulation.rs
index 955c03f..98e908c 100644
--- a/crates/RustQuant_stochastics/src/simulation.rs
+++ b/crates/RustQuant_stochastics/src/simulation.rs
@@ -37,16 +37,9 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
     let normal_dist: rand_distr::Normal<f64> = rand_distr::Normal::new(0.0, 1.0).unwrap();
     let diffusion_scale: f64 = dt.sqrt();
 
-    let jumps: &[f64] = match jump_config {
-        Some(lambda) => {
-            &Poisson::new(lambda * dt).sample(config.n_steps).unwrap()
-        }
-        None => &vec![],
-    };
-
     let scheme = match config.scheme {
         StochasticScheme::EulerMaruyama => Box::new({
-            |path: &mut Vec<f64>, mut noise_gen: NoiseGenerator| {
+            |path: &mut Vec<f64>, mut noise_gen: NoiseGenerator, jumps: &[f64]| {
 
                 let fraction_noise: Vec<f64> = match noise_gen {
                     NoiseGenerator::Fractional(fractional_config) => {
@@ -69,9 +62,9 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
                     );
                 }
             }
-        }) as Box<dyn Fn(&mut Vec<f64>, NoiseGenerator) + Send + Sync>,
+        }) as Box<dyn Fn(&mut Vec<f64>, NoiseGenerator, &[f64]) + Send + Sync>,
         StochasticScheme::Milstein => Box::new({
-            |path: &mut Vec<f64>, mut noise_gen: NoiseGenerator| {
+            |path: &mut Vec<f64>, mut noise_gen: NoiseGenerator, jumps: &[f64]| {
 
                 let fraction_noise: Vec<f64> = match noise_gen {
                     NoiseGenerator::Fractional(fractional_config) => {
@@ -103,9 +96,9 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
                     );
                 }
             }
-        }) as Box<dyn Fn(&mut Vec<f64>, NoiseGenerator) + Send + Sync>,
+        }) as Box<dyn Fn(&mut Vec<f64>, NoiseGenerator, &[f64]) + Send + Sync>,
         StochasticScheme::StrangSplitting => Box::new({
-            |path: &mut Vec<f64>, mut noise_gen: NoiseGenerator| {
+            |path: &mut Vec<f64>, mut noise_gen: NoiseGenerator, jumps: &[f64]| {
 
 
                 let fraction_noise: Vec<f64> = match noise_gen {
@@ -138,7 +131,15 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
                     );
                 }
             }
-        }) as Box<dyn Fn(&mut Vec<f64>, NoiseGenerator) + Send + Sync>,
+        }) as Box<dyn Fn(&mut Vec<f64>, NoiseGenerator, &[f64]) + Send + Sync>,
+    };
+
+    // The number of jumps in every step, drawn anew for every path.
+    let sample_jumps = || -> Vec<f64> {
+        match jump_config {
+            Some(lambda) => Poisson::new(lambda * dt).sample(config.n_steps).unwrap(),
+            None => vec![],
+        }
     };
 
     let mut paths: Vec<Vec<f64>> = vec![vec![config.x_0]; config.m_paths];
@@ -150,7 +151,7 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
                 Some((generator, hurst)) => NoiseGenerator::Fractional((generator, hurst, base_seed.wrapping_add(i as u64))),
                 None => NoiseGenerator::Dynamic(StdRng::seed_from_u64(base_seed.wrapping_add(i as u64))),
             };
-            scheme(path, noise_gen);
+            scheme(path, noise_gen, &sample_jumps());
         });
     } else {
         paths.iter_mut().enumerate().for_each(|(i, path)| {
@@ -158,7 +159,7 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
                 Some((generator, hurst)) => NoiseGenerator::Fractional((generator, hurst, base_seed.wrapping_add(i as u64))),
                 None => NoiseGenerator::Dynamic(StdRng::seed_from_u64(base_seed.wrapping_add(i as u64))),
             };
-            scheme(path, noise_gen);
+            scheme(path, noise_gen, &sample_jumps());
         });
     }
 
@@ -174,16 +175,10 @@ fn calculate_jump<T: StochasticProcess>(
     time_ref: f64,
     jump: f64,
 ) -> f64 {
-    match stochastic_process.jump(x, time_ref) {
-        Some(jump_size) => {
-            if jump > 0.0 {
-                jump_size
-            } else {
-                0.0
-            }
-        },
-        None => 0.0,
-    }
+    // Every one of the jumps in the step has a size of its own.
+    (0..jump as usize)
+        .filter_map(|_| stochastic_process.jump(x, time_ref))
+        .sum()
 }
 
 #[cfg(test)]
-- 
2.43.0


From 19752952847df6bc6d743fd431a80d0c5fed2547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:01 +0000
Subject: [PATCH 38/61] fix: boundary values of the finite difference grid are
 carried forward

The grid holds the value carried forward to expiry, discounted once at
the end; its boundary values were those of the discounted value.
---
 .../src/options/finite_difference_pricer.rs                   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/RustQuant_instruments/src/options/finite_difference_pricer.rs b/crates/RustQuant_instruments/src/options/finite_difference_pricer.rs
index fdd6f14..55ec908 100644
--- a/crates/RustQuant_instruments/src/options/finite_difference_pricer.rs
+++ b/crates/RustQuant_instruments/src/options/finite_difference_pricer.rs
@@ -207,11 +207,11 @@ impl FiniteDifferencePricer {
     }
 
     fn call_boundary(&self, tau: f64, x_max: f64) -> f64 {
-        f64::exp(x_max) - self.strike_price * f64::exp(-self.risk_free_rate * tau)
+        f64::exp(x_max + self.risk_free_rate * tau) - self.strike_price
     }
 
     fn put_boundary(&self, tau: f64, x_min: f64) -> f64 {
-        self.strike_price * f64::exp(-self.risk_free_rate * tau) - f64::exp(x_min)
+        self.strike_price - f64::exp(x_min + self.risk_free_rate * tau)
     }
 
     fn year_fraction(&self) -> f64 {
-- 
2.43.0


From b99b38b856f50c8361ef56ad3c6f0613154b684a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:01 +0000
Subject: [PATCH 39/61] fix: discount the first time step in the
 Longstaff-Schwartz pricer

---
 crates/RustQuant_instruments/src/options/longstaff_schwartz.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/RustQuant_instruments/src/options/longstaff_schwartz.rs b/crates/RustQuant_instruments/src/options/longstaff_schwartz.rs
index a09ed89..68a0e9a 100644
--- a/crates/RustQuant_instruments/src/options/longstaff_schwartz.rs
+++ b/crates/RustQuant_instruments/src/options/longstaff_schwartz.rs
@@ -136,7 +136,8 @@ impl LongstaffScwhartzPricer {
                 }
             }
         }
-        payoffs.iter().sum::<f64>() / self.num_simulations as f64
+        // The payoffs are as of the first exercise date.
+        self.discount(delta_t) * payoffs.iter().sum::<f64>() / self.num_simulations as f64
     }
 
     fn create_laguerre_matrix(&self, in_the_money_assets: &[f64]) -> DMatrix<f64> {
-- 
2.43.0


From d72cb5dfc94e50d89b2c8148247be1f347388bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:02 +0000
Subject: [PATCH 40/61] fix: implied volatility of Black-Scholes-Merton takes
 the cost of carry into account

---
 .../src/options/black_scholes_merton.rs                  | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/RustQuant_instruments/src/options/black_scholes_merton.rs b/crates/RustQuant_instruments/src/options/black_scholes_merton.rs
index e42c8ee..933522a 100644
--- a/crates/RustQuant_instruments/src/options/black_scholes_merton.rs
+++ b/crates/RustQuant_instruments/src/options/black_scholes_merton.rs
@@ -141,11 +141,16 @@ impl BlackScholesMerton {
 
     /// Implied volatility.
     pub fn implied_volatility(&self, price: f64) -> f64 {
+        let T = self.year_fraction();
+
+        // The asset less what it yields, which grows at the risk free rate.
+        let S = self.underlying_price * ((self.cost_of_carry - self.risk_free_rate) * T).exp();
+
         crate::options::implied_volatility(
             price,
-            self.underlying_price,
+            S,
             self.strike_price,
-            self.year_fraction(),
+            T,
             self.risk_free_rate,
             self.option_type,
         )
-- 
2.43.0


From c8cc6528a9dbf538a30ed9080584f8b9bb0c0a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:34 +0000
Subject: [PATCH 41/61] fix: New Year's Day is a holiday in Argentina

---
 crates/RustQuant_time/src/countries/argentina.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/RustQuant_time/src/countries/argentina.rs b/crates/RustQuant_time/src/countries/argentina.rs
index 5f15fe9..ac152a5 100644
--- a/crates/RustQuant_time/src/countries/argentina.rs
+++ b/crates/RustQuant_time/src/countries/argentina.rs
@@ -19,7 +19,7 @@ pub(crate) fn is_holiday_impl_argentina(date: Date) -> bool {
 
     if
     // New Year's Day
-    is_christmas_day(date)
+    is_new_years_day(date)
             // Holy Thursday
             || (yd == em-4)
             // Good Friday
@@ -40,6 +40,8 @@ pub(crate) fn is_holiday_impl_argentina(date: Date) -> bool {
             || (d == 8 && m == Month::December)
             // Christmas Eve
             || is_christmas_eve(date)
+            // Christmas Day
+            || is_christmas_day(date)
             // New Year's Eve
             || is_new_years_eve(date)
     {
-- 
2.43.0


From c4aac96f3a2d6dccedb4b33bacb3223f4796f60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:54 +0000
Subject: [PATCH 42/61] fix: Ascension and Whit Monday follow Easter in France

---
 crates/RustQuant_time/src/countries/france.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/RustQuant_time/src/countries/france.rs b/crates/RustQuant_time/src/countries/france.rs
index 7174890..49195d2 100644
--- a/crates/RustQuant_time/src/countries/france.rs
+++ b/crates/RustQuant_time/src/countries/france.rs
@@ -27,9 +27,9 @@ pub(crate) fn is_holiday_impl_france(date: Date) -> bool {
             // Victoire 1945
             || (d == 8 && m == Month::May)
             // Ascension
-            || (d == 10 && m == Month::May)
+            || (yd == em + 38)
             // Pentecote
-            || (d == 21 && m == Month::May)
+            || (yd == em + 49)
             // Fete nationale
             || (d == 14 && m == Month::July)
             // Assomption
-- 
2.43.0


From eac6e42fc6287f5fb6ca90691ff867b143be8940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:55 +0000
Subject: [PATCH 43/61] fix: the 25th is a holiday only in December in
 Singapore

---
 crates/RustQuant_time/src/countries/singapore.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_time/src/countries/singapore.rs b/crates/RustQuant_time/src/countries/singapore.rs
index dceb55d..ea7c9df 100644
--- a/crates/RustQuant_time/src/countries/singapore.rs
+++ b/crates/RustQuant_time/src/countries/singapore.rs
@@ -23,7 +23,7 @@ pub(crate) fn is_holiday_impl_singapore(date: Date) -> bool {
                 // National Day
                 || ((d == 9 || ((d == 10) && wd == Weekday::Monday)) && m == Month::August)
                 // Christmas Day
-                || (d == 25 || ((d == 26) && wd == Weekday::Monday) && m == Month::December)
+                || ((d == 25 || ((d == 26) && wd == Weekday::Monday)) && m == Month::December)
                 // Chinese New Year
                 || is_chinese_new_year(y, m, d)
                 // Hari Raya Haji
-- 
2.43.0


From c11e958f8b779a635deb233cf5c736813e03e368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:55 +0000
Subject: [PATCH 44/61] fix: the lunar new year of 2014 runs from 31 January
 into February

---
 crates/RustQuant_time/src/countries/hong_kong.rs | 3 ++-
 crates/RustQuant_time/src/countries/singapore.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/RustQuant_time/src/countries/hong_kong.rs b/crates/RustQuant_time/src/countries/hong_kong.rs
index d952c00..bdabbc9 100644
--- a/crates/RustQuant_time/src/countries/hong_kong.rs
+++ b/crates/RustQuant_time/src/countries/hong_kong.rs
@@ -67,7 +67,8 @@ fn is_lunar_new_year(year: i32, month: Month, day: u8) -> bool {
             | (2011, 2..=4, February)
             | (2012, 23..=25, January)
             | (2013, 10..=12, February)
-            | (2014, 31 | 1 | 2, January)
+            | (2014, 31, January)
+            | (2014, 1..=3, February)
             | (2015, 19..=21, February)
             | (2016, 8..=10, February)
             | (2017, 28..=30, January)
diff --git a/crates/RustQuant_time/src/countries/singapore.rs b/crates/RustQuant_time/src/countries/singapore.rs
index ea7c9df..613865b 100644
--- a/crates/RustQuant_time/src/countries/singapore.rs
+++ b/crates/RustQuant_time/src/countries/singapore.rs
@@ -57,7 +57,8 @@ fn is_chinese_new_year(year: i32, month: Month, day: u8) -> bool {
             | (2011, 3..=4, February)
             | (2012, 23..=24, January)
             | (2013, 10..=12, February)
-            | (2014, 31 | 1, January)
+            | (2014, 31, January)
+            | (2014, 1, February)
             | (2015, 19..=20, February)
             | (2016, 8..=9, February)
             | (2017, 28..=29, January)
-- 
2.43.0


From 49540c93619dd08ccd2746e1a20611202929048a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:55 +0000
Subject: [PATCH 45/61] fix: the Tuen Ng festival of 2009 was on 28 May

---
 crates/RustQuant_time/src/countries/hong_kong.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_time/src/countries/hong_kong.rs b/crates/RustQuant_time/src/countries/hong_kong.rs
index bdabbc9..f4579db 100644
--- a/crates/RustQuant_time/src/countries/hong_kong.rs
+++ b/crates/RustQuant_time/src/countries/hong_kong.rs
@@ -136,7 +136,7 @@ fn is_tuen_ng_festival(year: i32, month: Month, day: u8) -> bool {
             | (2006, 1, June)
             | (2007, 19, June)
             | (2008, 9, June)
-            | (2009, 28, June)
+            | (2009, 28, May)
             | (2010, 16, June)
             | (2011, 6, June)
             | (2012, 23, June)
-- 
2.43.0


From fc9e11fc848817214834dac4259c1aec28213116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:19 +0000
Subject: [PATCH 46/61] fix: Vesak Day 2005 and Deepavali 2009 fall in their
 own months in Singapore

---
 crates/RustQuant_time/src/countries/singapore.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/RustQuant_time/src/countries/singapore.rs b/crates/RustQuant_time/src/countries/singapore.rs
index 613865b..be2de01 100644
--- a/crates/RustQuant_time/src/countries/singapore.rs
+++ b/crates/RustQuant_time/src/countries/singapore.rs
@@ -139,7 +139,7 @@ fn is_vesak_day(year: i32, month: Month, day: u8) -> bool {
     matches!(
         (year, day, month),
         (2004, 2, June)
-            | (2005, 22..=23, October)
+            | (2005, 22..=23, May)
             | (2006, 12, May)
             | (2007, 31, May)
             | (2008, 19, May)
@@ -173,7 +173,7 @@ fn is_deepavali(year: i32, month: Month, day: u8) -> bool {
             | (2006, 21, October)
             | (2007, 8, November)
             | (2008, 27, October)
-            | (2009, 15..=16, November)
+            | (2009, 17, October)
             | (2010, 5, November)
             | (2011, 26, October)
             | (2012, 13, November)
-- 
2.43.0


From d941e2c5bc9941b0aee59f6d7caf52523972911a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:06 +0000
Subject: [PATCH 47/61] fix: the gaussian activation of a number decays away
 from zero

---
 crates/RustQuant_ml/src/activations.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_ml/src/activations.rs b/crates/RustQuant_ml/src/activations.rs
index 9b3d8da..65aaa24 100644
--- a/crates/RustQuant_ml/src/activations.rs
+++ b/crates/RustQuant_ml/src/activations.rs
@@ -127,7 +127,7 @@ impl ActivationFunction for f64 {
 
     #[inline]
     fn gaussian(&self) -> Self {
-        (f64::powi(-self, 2)).exp()
+        (-f64::powi(*self, 2)).exp()
     }
 }
 
-- 
2.43.0


From 84a62ae7938dad3afcbabaab8d362733046a08e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:06 +0000
Subject: [PATCH 48/61] fix: logistic regression refuses responses other than 0
 and 1

---
 crates/RustQuant_ml/src/logistic_regression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_ml/src/logistic_regression.rs b/crates/RustQuant_ml/src/logistic_regression.rs
index e4ba950..e456f6d 100644
--- a/crates/RustQuant_ml/src/logistic_regression.rs
+++ b/crates/RustQuant_ml/src/logistic_regression.rs
@@ -93,7 +93,7 @@ impl LogisticRegressionInput<f64> {
         if self
             .y
             .iter()
-            .any(|&x| x.abs() < f64::EPSILON && (x - 1.0).abs() < f64::EPSILON)
+            .any(|&x| x.abs() >= f64::EPSILON && (x - 1.0).abs() >= f64::EPSILON)
         {
             return Err("The elements of the response vector should be either 0 or 1.");
         }
-- 
2.43.0


From 3b91007db41883d126ae99c8533cc1ac1059e26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:06 +0000
Subject: [PATCH 49/61] fix: the cross entropy is minus the mean log likelihood

---
 crates/RustQuant_ml/src/logistic_regression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_ml/src/logistic_regression.rs b/crates/RustQuant_ml/src/logistic_regression.rs
index e456f6d..462a687 100644
--- a/crates/RustQuant_ml/src/logistic_regression.rs
+++ b/crates/RustQuant_ml/src/logistic_regression.rs
@@ -278,7 +278,7 @@ impl LogisticRegressionOutput<f64> {
         let log_p_complement = p_complement.map(f64::ln);
 
         // Cross-entropy
-        (y.component_mul(&log_p) + y_complement.component_mul(&log_p_complement)).mean()
+        -(y.component_mul(&log_p) + y_complement.component_mul(&log_p_complement)).mean()
     }
 }
 
-- 
2.43.0


From 4ff1f83c067019bfeebbb26fcce771668bf39f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:06 +0000
Subject: [PATCH 50/61] fix: logistic regression stops early only when every
 response is fitted

---
 crates/RustQuant_ml/src/logistic_regression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_ml/src/logistic_regression.rs b/crates/RustQuant_ml/src/logistic_regression.rs
index 462a687..bbb073d 100644
--- a/crates/RustQuant_ml/src/logistic_regression.rs
+++ b/crates/RustQuant_ml/src/logistic_regression.rs
@@ -201,7 +201,7 @@ impl LogisticRegressionInput<f64> {
                     let diag_entries = &mu.component_mul(&(&ones_samples - &mu));
 
                     // Break if data turns out to be linearly separable.
-                    if (&y - &mu).max() < tolerance {
+                    if (&y - &mu).amax() < tolerance {
                         break;
                     }
 
-- 
2.43.0


From 3870351b0fa1e2ec5f9ae0d532f8129cc25ddfad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:39 +0000
Subject: [PATCH 51/61] fix: logistic regression does not take a zero starting
 guess for a fit

---
 crates/RustQuant_ml/src/logistic_regression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_ml/src/logistic_regression.rs b/crates/RustQuant_ml/src/logistic_regression.rs
index bbb073d..3c57e2a 100644
--- a/crates/RustQuant_ml/src/logistic_regression.rs
+++ b/crates/RustQuant_ml/src/logistic_regression.rs
@@ -173,7 +173,7 @@ impl LogisticRegressionInput<f64> {
         let ones_features = DVector::from_element(n_cols, 1.);
 
         // Vector of coefficients that we update each iteration.
-        let mut coefs = DVector::zeros(n_cols);
+        let mut coefs = DVector::from_element(n_cols, f64::INFINITY);
 
         match method {
             // MAXIMUM LIKELIHOOD ESTIMATION
-- 
2.43.0


From 7da00f6fd2f246fae13cf95debb80f5da3b94537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:34 +0000
Subject: [PATCH 52/61] fix: edits of a curve take part in its interpolation

---
 crates/RustQuant_data/src/curves.rs | 48 +++++++++++++++++++----------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/crates/RustQuant_data/src/curves.rs b/crates/RustQuant_data/src/curves.rs
index bea485b..c5a6805 100644
--- a/crates/RustQuant_data/src/curves.rs
+++ b/crates/RustQuant_data/src/curves.rs
@@ -36,6 +36,7 @@ use pyo3::{pyclass, pymethods, PyResult};
 use std::collections::BTreeMap;
 use std::sync::Arc;
 use time::Date;
+use RustQuant_error::RustQuantError;
 use RustQuant_math::interpolation::{ExponentialInterpolator, Interpolator, LinearInterpolator};
 use RustQuant_stochastics::{CurveModel, NelsonSiegelSvensson};
 
@@ -140,22 +141,7 @@ impl Curve {
         curve_type: CurveType,
         interpolation_method: InterpolationMethod,
     ) -> PyResult<Self> {
-        let interpolator: Arc<dyn Interpolator<Date, f64>> = match interpolation_method {
-            InterpolationMethod::Linear => Arc::new(LinearInterpolator::new(
-                nodes.keys().cloned().collect(),
-                nodes.values().cloned().collect(),
-            )?),
-            InterpolationMethod::Exponential => Arc::new(ExponentialInterpolator::new(
-                nodes.keys().cloned().collect(),
-                nodes.values().cloned().collect(),
-            )?),
-            InterpolationMethod::CubicSpline => {
-                todo!("Implement CubicSplineInterpolator")
-            }
-            InterpolationMethod::Lagrange => {
-                todo!("Implement LagrangeInterpolator")
-            }
-        };
+        let interpolator = Self::interpolator_of(&nodes, interpolation_method)?;
 
         Ok(Self {
             nodes,
@@ -207,6 +193,7 @@ impl Curve {
     /// Set a rate in the curve.
     pub fn set_rate(&mut self, date: Date, rate: f64) {
         self.nodes.insert(date, rate);
+        self.refresh_interpolator();
     }
 
     /// Set multiple rates in the curve.
@@ -279,6 +266,7 @@ impl Curve {
         for value in self.nodes.values_mut() {
             *value += shift;
         }
+        self.refresh_interpolator();
     }
 
     /// Plot the curve.
@@ -340,6 +328,34 @@ impl CostFunction for Curve {
 }
 
 impl Curve {
+    /// Build the interpolator of a set of nodes.
+    fn interpolator_of(
+        nodes: &BTreeMap<Date, f64>,
+        interpolation_method: InterpolationMethod,
+    ) -> Result<Arc<dyn Interpolator<Date, f64>>, RustQuantError> {
+        let dates = nodes.keys().cloned().collect();
+        let rates = nodes.values().cloned().collect();
+
+        Ok(match interpolation_method {
+            InterpolationMethod::Linear => Arc::new(LinearInterpolator::new(dates, rates)?),
+            InterpolationMethod::Exponential => {
+                Arc::new(ExponentialInterpolator::new(dates, rates)?)
+            }
+            InterpolationMethod::CubicSpline => {
+                todo!("Implement CubicSplineInterpolator")
+            }
+            InterpolationMethod::Lagrange => {
+                todo!("Implement LagrangeInterpolator")
+            }
+        })
+    }
+
+    /// Rebuild the interpolator after the nodes have been edited.
+    fn refresh_interpolator(&mut self) {
+        self.interpolator = Self::interpolator_of(&self.nodes, self.interpolation_method)
+            .expect("every node has one date and one rate");
+    }
+
     /// Fit a Nelson-Siegel-Svensson curve to the data.
     fn fit_nss(&mut self) -> Result<(), argmin::core::Error> {
         const CURVE_OPTIM_MAX_ITER: u64 = 69;
-- 
2.43.0


From d596c598ed2df6d145c72929062c031e33d3e348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:45 +0000
Subject: [PATCH 53/61] fix: Singapore's lunar new year moves off a Sunday to
 the third day

---
 crates/RustQuant_time/src/countries/singapore.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/RustQuant_time/src/countries/singapore.rs b/crates/RustQuant_time/src/countries/singapore.rs
index be2de01..7521783 100644
--- a/crates/RustQuant_time/src/countries/singapore.rs
+++ b/crates/RustQuant_time/src/countries/singapore.rs
@@ -49,11 +49,11 @@ fn is_chinese_new_year(year: i32, month: Month, day: u8) -> bool {
         (year, day, month),
         (2004, 22..=23, January)
             | (2005, 9..=10, February)
-            | (2006, 29..=30, January)
-            | (2007, 18..=19, February)
+            | (2006, 29..=31, January)
+            | (2007, 18..=20, February)
             | (2008, 7..=8, February)
             | (2009, 26..=27, January)
-            | (2010, 14..=15, February)
+            | (2010, 14..=16, February)
             | (2011, 3..=4, February)
             | (2012, 23..=24, January)
             | (2013, 10..=12, February)
@@ -61,7 +61,7 @@ fn is_chinese_new_year(year: i32, month: Month, day: u8) -> bool {
             | (2014, 1, February)
             | (2015, 19..=20, February)
             | (2016, 8..=9, February)
-            | (2017, 28..=29, January)
+            | (2017, 28..=30, January)
             | (2018, 16..=17, February)
             | (2019, 5..=6, February)
             | (2020, 25..=27, January)
-- 
2.43.0


From 929165654adc9a753bf53837c23ec9748f49ded0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:45 +0000
Subject: [PATCH 54/61] fix: Hong Kong's lunar festivals of 2004-2020 on their
 gazetted days

---
 .../RustQuant_time/src/countries/hong_kong.rs | 56 +++++++++----------
 1 file changed, 28 insertions(+), 28 deletions(-)

diff --git a/crates/RustQuant_time/src/countries/hong_kong.rs b/crates/RustQuant_time/src/countries/hong_kong.rs
index f4579db..ab26f52 100644
--- a/crates/RustQuant_time/src/countries/hong_kong.rs
+++ b/crates/RustQuant_time/src/countries/hong_kong.rs
@@ -59,27 +59,27 @@ fn is_lunar_new_year(year: i32, month: Month, day: u8) -> bool {
         (year, day, month),
         (2004, 22..=24, January)
             | (2005, 9..=11, February)
-            | (2006, 28..=30, January)
-            | (2007, 17..=19, February)
+            | (2006, 28..=31, January)
+            | (2007, 17..=20, February)
             | (2008, 7..=9, February)
             | (2009, 26..=28, January)
-            | (2010, 13..=15, February)
-            | (2011, 2..=4, February)
+            | (2010, 13..=16, February)
+            | (2011, 3..=5, February)
             | (2012, 23..=25, January)
-            | (2013, 10..=12, February)
+            | (2013, 10..=13, February)
             | (2014, 31, January)
             | (2014, 1..=3, February)
             | (2015, 19..=21, February)
             | (2016, 8..=10, February)
-            | (2017, 28..=30, January)
-            | (2018, 16..=18, February)
+            | (2017, 28..=31, January)
+            | (2018, 16..=19, February)
             | (2019, 5..=7, February)
             | (2020, 25 | 27 | 28, January)
     )
 }
 
 fn is_buddhas_birthday(year: i32, month: Month, day: u8) -> bool {
-    use Month::May;
+    use Month::{April, May};
     matches!(
         (year, day, month),
         (2004, 26, May)
@@ -90,15 +90,15 @@ fn is_buddhas_birthday(year: i32, month: Month, day: u8) -> bool {
             | (2009, 2, May)
             | (2010, 21, May)
             | (2011, 10, May)
-            | (2012, 28, May)
+            | (2012, 28, April)
             | (2013, 17, May)
             | (2014, 6, May)
             | (2015, 25, May)
             | (2016, 14, May)
             | (2017, 3, May)
             | (2018, 22, May)
-            | (2019, 12, May)
-            | (2020, 30, May)
+            | (2019, 13, May)
+            | (2020, 30, April)
     )
 }
 
@@ -112,12 +112,12 @@ fn is_ching_ming_festival(year: i32, month: Month, day: u8) -> bool {
             | (2007, 5, April)
             | (2008, 4, April)
             | (2009, 4, April)
-            | (2010, 5, April)
+            | (2010, 5..=6, April)
             | (2011, 5, April)
             | (2012, 4, April)
             | (2013, 4, April)
             | (2014, 5, April)
-            | (2015, 5, April)
+            | (2015, 5..=7, April)
             | (2016, 4, April)
             | (2017, 4, April)
             | (2018, 5, April)
@@ -133,7 +133,7 @@ fn is_tuen_ng_festival(year: i32, month: Month, day: u8) -> bool {
         (year, day, month),
         (2004, 22, June)
             | (2005, 11, June)
-            | (2006, 1, June)
+            | (2006, 31, May)
             | (2007, 19, June)
             | (2008, 9, June)
             | (2009, 28, May)
@@ -155,23 +155,23 @@ fn is_mid_autumn_festival(year: i32, month: Month, day: u8) -> bool {
     use Month::{October, September};
     matches!(
         (year, day, month),
-        (2004, 28, September)
-            | (2005, 18, September)
+        (2004, 29, September)
+            | (2005, 19, September)
             | (2006, 7, October)
             | (2007, 26, September)
             | (2008, 15, September)
             | (2009, 3, October)
-            | (2010, 22, September)
-            | (2011, 12, September)
-            | (2012, 30, September)
-            | (2013, 19, September)
+            | (2010, 23, September)
+            | (2011, 13, September)
+            | (2012, 2, October)
+            | (2013, 20, September)
             | (2014, 9, September)
-            | (2015, 27, September)
-            | (2016, 15, September)
+            | (2015, 28, September)
+            | (2016, 16, September)
             | (2017, 5, October)
             | (2018, 25, September)
             | (2019, 14, September)
-            | (2020, 1, October)
+            | (2020, 2, October)
     )
 }
 
@@ -179,11 +179,11 @@ fn is_chung_yeung_festival(year: i32, month: Month, day: u8) -> bool {
     use Month::October;
     matches!(
         (year, day, month),
-        (2004, 28, October)
-            | (2005, 18, October)
-            | (2006, 7, October)
-            | (2007, 26, October)
-            | (2008, 16, October)
+        (2004, 22, October)
+            | (2005, 11, October)
+            | (2006, 30, October)
+            | (2007, 19, October)
+            | (2008, 7, October)
             | (2009, 26, October)
             | (2010, 16, October)
             | (2011, 5, October)
-- 
2.43.0


From 62f345e9ff6e045996d1397c50f9b75dd111975f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:45 +0000
Subject: [PATCH 55/61] fix: 27 December is a Hong Kong holiday only when
 Christmas or Boxing Day is a Sunday

---
 crates/RustQuant_time/src/countries/hong_kong.rs | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/crates/RustQuant_time/src/countries/hong_kong.rs b/crates/RustQuant_time/src/countries/hong_kong.rs
index ab26f52..ec28960 100644
--- a/crates/RustQuant_time/src/countries/hong_kong.rs
+++ b/crates/RustQuant_time/src/countries/hong_kong.rs
@@ -205,21 +205,9 @@ fn is_second_day_after_christmas(year: i32, month: Month, day: u8) -> bool {
         (year, day, month),
         (2004, 27, December)
             | (2005, 27, December)
-            | (2006, 27, December)
-            | (2007, 27, December)
-            | (2008, 29, December)
-            | (2009, 28, December)
             | (2010, 27, December)
             | (2011, 27, December)
-            | (2012, 27, December)
-            | (2013, 27, December)
-            | (2014, 29, December)
-            | (2015, 28, December)
             | (2016, 27, December)
-            | (2017, 27, December)
-            | (2018, 27, December)
-            | (2019, 27, December)
-            | (2020, 28, December)
     )
 }
 
-- 
2.43.0


From bb417e152725a43d4583a9b2a8a9e59a4ea838f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:42 +0000
Subject: [PATCH 56/61] fix: Israel's holidays of a Hebrew leap year fall in
 Adar II and not in Adar I

---
 crates/RustQuant_time/src/countries/israel.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/RustQuant_time/src/countries/israel.rs b/crates/RustQuant_time/src/countries/israel.rs
index 1ce3eae..f7c0127 100644
--- a/crates/RustQuant_time/src/countries/israel.rs
+++ b/crates/RustQuant_time/src/countries/israel.rs
@@ -48,8 +48,13 @@ pub(crate) fn is_holiday_impl_israel(date: Date) -> bool {
     let mut hebrew_month = hebrew_date.month().ordinal as u8;
     let hebrew_day = hebrew_date.day_of_month().0 as u8;
 
-    if hebrew_date.is_in_leap_year() && hebrew_month > 7 {
-        hebrew_month -= 1;
+    // In a leap year the sixth month is the extra Adar I, which has no holidays.
+    if hebrew_date.is_in_leap_year() {
+        match hebrew_month {
+            6 => hebrew_month = 0,
+            7.. => hebrew_month -= 1,
+            _ => {}
+        }
     }
 
     // Check if the date is Independence Day or Memorial Day.
-- 
2.43.0


From 62e4aa19686783e88893271f2fe6eec2055c3cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:55 +0000
Subject: [PATCH 57/61] fix: the Heston price keeps to one branch of the
 complex logarithm for long expiries

---
 crates/RustQuant_instruments/src/options/option_models.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/RustQuant_instruments/src/options/option_models.rs b/crates/RustQuant_instruments/src/options/option_models.rs
index a7421a3..d184210 100644
--- a/crates/RustQuant_instruments/src/options/option_models.rs
+++ b/crates/RustQuant_instruments/src/options/option_models.rs
@@ -768,8 +768,10 @@ mod heston {
             }
         };
 
+        // The root with negative real part: the logarithm below is then continuous in `phi`
+        // (with the other one it crosses its branch cut, see Albrecher et al., 2007).
         let d = |j: Switch, phi: f64| -> Complex<f64> {
-            ((rho * sigma * i * phi - b(j)).powi(2)
+            -((rho * sigma * i * phi - b(j)).powi(2)
                 - sigma.powi(2) * (2.0 * u(j) * i * phi - phi.powi(2)))
             .sqrt()
         };
@@ -890,8 +892,10 @@ mod heston {
             }
         };
 
+        // The root with negative real part: the logarithm below is then continuous in `phi`
+        // (with the other one it crosses its branch cut, see Albrecher et al., 2007).
         let d = |j: Switch, phi: f64| -> Complex<f64> {
-            ((rho * sigma * i * phi - b(j)).powi(2)
+            -((rho * sigma * i * phi - b(j)).powi(2)
                 - sigma.powi(2) * (2.0 * u(j) * i * phi - phi.powi(2)))
             .sqrt()
         };
-- 
2.43.0


From 11c61d138dd3200a1bd40282a6f2519abe430a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:55 +0000
Subject: [PATCH 58/61] fix: the median of the binomial distribution is the
 half quantile

---
 crates/RustQuant_math/src/distributions/binomial.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/RustQuant_math/src/distributions/binomial.rs b/crates/RustQuant_math/src/distributions/binomial.rs
index b34ceb5..df062fc 100644
--- a/crates/RustQuant_math/src/distributions/binomial.rs
+++ b/crates/RustQuant_math/src/distributions/binomial.rs
@@ -188,7 +188,8 @@ impl Distribution for Binomial {
     /// assert_eq!(binomial.median(), 2.0);
     ///
     fn median(&self) -> f64 {
-        self.mean().floor()
+        // The mean is within one of it, on either side.
+        self.inv_cdf(0.5)
     }
 
     /// Mode of the Binomial distribution.
-- 
2.43.0


From c12a0973f66bcff5378c7426494fae913889c282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:55 +0000
Subject: [PATCH 59/61] fix: the median of the Poisson distribution is the half
 quantile and never negative

---
 crates/RustQuant_math/src/distributions/poisson.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/RustQuant_math/src/distributions/poisson.rs b/crates/RustQuant_math/src/distributions/poisson.rs
index 1059282..e6ebf78 100644
--- a/crates/RustQuant_math/src/distributions/poisson.rs
+++ b/crates/RustQuant_math/src/distributions/poisson.rs
@@ -165,7 +165,8 @@ impl Distribution for Poisson {
     /// assert_eq!(poisson.median(), 1.0);
     /// ```
     fn median(&self) -> f64 {
-        (self.lambda + 1.0 / 3.0 - 0.02 / self.lambda).floor()
+        // The approximation is negative for small rates.
+        (self.lambda + 1.0 / 3.0 - 0.02 / self.lambda).floor().max(0.0)
     }
 
     /// Returns the mode of the Poisson distribution.
-- 
2.43.0


From 2c0df6f141bab6150eff4fb206a3e25ad344562c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:55 +0000
Subject: [PATCH 60/61] fix: gradient descent reports the value at the
 minimizer it returns

---
 crates/RustQuant_math/src/optimization/gradient_descent.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/RustQuant_math/src/optimization/gradient_descent.rs b/crates/RustQuant_math/src/optimization/gradient_descent.rs
index 6db87ba..6265248 100644
--- a/crates/RustQuant_math/src/optimization/gradient_descent.rs
+++ b/crates/RustQuant_math/src/optimization/gradient_descent.rs
@@ -190,8 +190,6 @@ impl GradientDescent {
                 .zip(&gradient)
                 .for_each(|(xi, gi)| *xi = *xi - self.learning_rate * gi);
 
-            result.minimum = f(&location).value;
-
             if verbose {
                 println!(
                     "Iter: {:?}, Norm: {}, Func: {:.4?}, X: {:.4?}",
@@ -213,6 +211,10 @@ impl GradientDescent {
             // }
         }
 
+        // The value at the point that is returned, not at the one before it.
+        let graph = Graph::new();
+        result.minimum = f(&graph.vars(&result.minimizer)).value;
+
         result.elapsed = start.elapsed();
         result
     }
-- 
2.43.0


From 57b19a6631544c5cf1b7aee8f3ffcb8fe120daef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:55 +0000
Subject: [PATCH 61/61] fix: logistic regression starts from zero coefficients
 so that overlapping classes can be fitted

---
 .../RustQuant_ml/src/logistic_regression.rs   | 31 ++-----------------
 1 file changed, 3 insertions(+), 28 deletions(-)

diff --git a/crates/RustQuant_ml/src/logistic_regression.rs b/crates/RustQuant_ml/src/logistic_regression.rs
index 3c57e2a..752a050 100644
--- a/crates/RustQuant_ml/src/logistic_regression.rs
+++ b/crates/RustQuant_ml/src/logistic_regression.rs
@@ -119,38 +119,13 @@ impl LogisticRegressionInput<f64> {
 
     /// Function to validate and prepare the output data.
     fn prepare_output(&self) -> LogisticRegressionOutput<f64> {
-        // Initial guess for the coefficients.
-        // hyperplane orthogonal to line between  means of class 0 and 1; plane goes through the location of (weighted) mean of both clusters
-
+        // Initial guess for the coefficients: all responses equally likely.
         let (_n_sample, n_feat) = self.x.shape();
-        let ones = DVector::from_element(n_feat, 1.).transpose();
-
-        // Calculate mean of features of samples of class 0
-        let mask0 = &self.y * &ones;
-        let x0_mean = self.x.component_mul(&mask0).row_mean();
-
-        // Calculate mean of features of samples of class 1
-        let mask1 = (-&mask0).add_scalar(1.);
-        let x1_mean = self.x.component_mul(&mask1).row_mean();
-
-        //vector from x0_mean to x1_mean
-        let delta = &x1_mean - &x0_mean;
-
-        //fraction of samples in class 1 , used as weight
-        let y_mean = self.y.mean();
-        let mid = x1_mean * y_mean + x0_mean * (1. - y_mean);
-
-        //compute projection of weighted mean of class on direction delta
-        let scaler = mid.dot(&delta) / delta.magnitude_squared();
-        let dir = delta * scaler;
-
-        // <dir,x>=|dir|^2 is the plane orthogonal to dir with distance |dir| from the origin
-        let bias = -dir.magnitude_squared();
-        let coef = dir.insert_column(0, bias);
+        let coef = DVector::zeros(n_feat + 1);
 
         // Return the output struct, with the initial guess for the coefficients.
         LogisticRegressionOutput {
-            coefficients: coef.transpose(),
+            coefficients: coef,
             iterations: 0,
         }
     }
-- 
2.43.0

