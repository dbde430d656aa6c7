From 0b9222160bc61569976fd23701d390303e603d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:52 +0000
Subject: [PATCH 01/47] fix: Ukraine calendar follows the Orthodox Easter, not
 the Western one

---
 src/time/calendars/ukraine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/time/calendars/ukraine.rs b/src/time/calendars/ukraine.rs
index 789e73a..03745ab 100644
--- a/src/time/calendars/ukraine.rs
+++ b/src/time/calendars/ukraine.rs
@@ -12,7 +12,7 @@ pub struct Ukraine;
 impl Calendar for Ukraine {
     fn is_business_day(&self, date: NaiveDate) -> bool {
         let (d, w, m, y, dd) = self.naive_date_to_dkmy(date);
-        let em = self.easter_monday(y);
+        let em = self.orthodox_easter_monday(y);
         if self.is_weekend(date)
             // New Year's Day (possibly moved to Weekday::Mon)
             || ((d == 1 || ((d == 2 || d == 3) && w == Weekday::Mon))
-- 
2.43.0


From 528cd9337877363d0501009fdd8eedd59a99b3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:52 +0000
Subject: [PATCH 02/47] fix: Israel calendar dates for Rosh Hashanah 2001 and
 Independence Day 2038

---
 src/time/calendars/israel.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/time/calendars/israel.rs b/src/time/calendars/israel.rs
index ba4e307..42ca363 100644
--- a/src/time/calendars/israel.rs
+++ b/src/time/calendars/israel.rs
@@ -263,7 +263,7 @@ pub static INDEPENDENCE_DAY: Lazy<HashSet<(u32, u32, i32)>> = Lazy::new(|| {
         (15, 5, 2035),
         (1, 5, 2036),
         (21, 4, 2037),
-        (10, 5, 2038),
+        (11, 5, 2038),
         (28, 4, 2039),
         (18, 4, 2040),
         (7, 5, 2041),
@@ -394,7 +394,7 @@ pub static FAST_DAY: Lazy<HashSet<(u32, u32, i32)>> = Lazy::new(|| {
 pub static NEW_YEAR: Lazy<HashSet<(u32, u32, i32)>> = Lazy::new(|| {
     HashSet::from([
         (30, 9, 2000),
-        (17, 9, 2001),
+        (18, 9, 2001),
         (7, 9, 2002),
         (27, 9, 2003),
         (16, 9, 2004),
-- 
2.43.0


From 9fc3aa2edb7eb7382742324afd95ba71baeb8467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:52 +0000
Subject: [PATCH 03/47] fix: Russia settlement calendar closes on 10 May 2019

---
 src/time/calendars/russia.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/time/calendars/russia.rs b/src/time/calendars/russia.rs
index 6ac83db..5632d48 100644
--- a/src/time/calendars/russia.rs
+++ b/src/time/calendars/russia.rs
@@ -22,7 +22,7 @@ impl Russia {
         match y {
             2017 => matches!((m, d), (2, 24) | (5, 8) | (11, 6)),
             2018 => matches!((m, d), (3, 9) | (4, 30) | (5, 2) | (6, 11) | (12, 31)),
-            2019 => matches!((m, d), (5, 2) | (5, 3) | (5, 9)),
+            2019 => matches!((m, d), (5, 2) | (5, 3) | (5, 10)),
             2020 => matches!((m, d), (3, 30) | (3, 31) | (4, 1) | (4, 2) | (4, 3)),
             _ => false,
         }
-- 
2.43.0


From 62c41fcaaa9a28c2e35e61daa4ac140a001ba0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:06 +0000
Subject: [PATCH 04/47] fix: NYSE closed on 9 January 2025 (President Carter's
 day of mourning)

---
 src/time/calendars/unitedstates.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/time/calendars/unitedstates.rs b/src/time/calendars/unitedstates.rs
index 79223ee..4f18838 100644
--- a/src/time/calendars/unitedstates.rs
+++ b/src/time/calendars/unitedstates.rs
@@ -154,8 +154,10 @@ impl UnitedStates {
 
         // Special closings
         if
-        // President Bush's Funeral
-        (y == 2018 && m == 12 && d == 5)
+        // President Carter's national day of mourning
+        (y == 2025 && m == 1 && d == 9)
+                // President Bush's Funeral
+                || (y == 2018 && m == 12 && d == 5)
                 // Hurricane Sandy
                 || (y == 2012 && m == 10 && (d == 29 || d == 30))
                 // President Ford's funeral
-- 
2.43.0


From bc653a966e01a80b2aa6e79cd4bfbbafecda83d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:06 +0000
Subject: [PATCH 05/47] fix: the Federal Reserve does not move a Saturday
 Juneteenth to Friday

---
 src/time/calendars/unitedstates.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/time/calendars/unitedstates.rs b/src/time/calendars/unitedstates.rs
index 4f18838..90a683a 100644
--- a/src/time/calendars/unitedstates.rs
+++ b/src/time/calendars/unitedstates.rs
@@ -311,8 +311,8 @@ impl UnitedStates {
             || self.is_washington_birthday(date)
             // Memorial Day (last Monday in May)
             || self.is_memorial_day(date)
-            // Juneteenth (Monday if Sunday or Friday if Saturday)
-            || self.is_juneteenth(date)
+            // Juneteenth (Monday if Sunday)
+            || ((d == 19 || (d == 20 && w == Weekday::Mon)) && m == 6 && y >= 2022)
             // Independence Day (Monday if Sunday)
             || ((d == 4 || (d == 5 && w == Weekday::Mon)) && m == 7)
             // Labor Day (first Monday in September)
-- 
2.43.0


From e337b2183812ee7d8cc8d1f6ca930bcf96daa0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:06 +0000
Subject: [PATCH 06/47] fix: Japan equinox holidays outside the tabulated years
 2014-2028

---
 src/time/calendars/japan.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/time/calendars/japan.rs b/src/time/calendars/japan.rs
index 0e3e8f5..8ba01fe 100644
--- a/src/time/calendars/japan.rs
+++ b/src/time/calendars/japan.rs
@@ -9,17 +9,18 @@ use serde::{Deserialize, Serialize};
 pub struct Japan;
 
 impl Japan {
+    // Approximation published by the National Astronomical Observatory of
+    // Japan: a constant per era, the mean drift of the equinox against the
+    // calendar year, less the leap days inserted since 1980.
+    fn equinox_day(&self, y: i32, constant: f64) -> u32 {
+        let leap_days = (y - 1980).div_euclid(4) - (y.div_euclid(100) - y.div_euclid(400) - 15);
+        ((constant + 0.242194 * (y - 1980) as f64).floor() as i32 - leap_days) as u32
+    }
     fn vernal_equinox_day(&self, y: i32) -> u32 {
-        match y {
-            2014 | 2015 | 2018 | 2019 | 2022 | 2023 | 2027 => 21,
-            _ => 20,
-        }
+        self.equinox_day(y, if y < 1980 { 20.8357 } else { 20.8431 })
     }
     fn autumnal_equinox_day(&self, y: i32) -> u32 {
-        match y {
-            2020 | 2024 | 2028 => 22,
-            _ => 23,
-        }
+        self.equinox_day(y, if y < 1980 { 23.2588 } else { 23.2488 })
     }
 }
 
-- 
2.43.0


From fce63dc382f0296a3afdf6e216f04b2f3a935f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:15 +0000
Subject: [PATCH 07/47] fix: Nearest adjustment returned the holiday instead of
 the business day

---
 src/time/calendars.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/time/calendars.rs b/src/time/calendars.rs
index 9c81ad8..ce0bd3c 100644
--- a/src/time/calendars.rs
+++ b/src/time/calendars.rs
@@ -247,9 +247,9 @@ pub trait Calendar: Debug {
                 d2 -= ONE_DAY;
             }
             return if self.is_holiday(d1) {
-                Some(d1)
-            } else {
                 Some(d2)
+            } else {
+                Some(d1)
             };
         } else {
             return None;
-- 
2.43.0


From b5b4de2ed054adae5707074c23912e5917b7ffed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:15 +0000
Subject: [PATCH 08/47] fix: business_days_between inverted include_first and
 overflowed on equal dates

---
 src/time/calendars.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/time/calendars.rs b/src/time/calendars.rs
index ce0bd3c..9d68b0a 100644
--- a/src/time/calendars.rs
+++ b/src/time/calendars.rs
@@ -323,11 +323,11 @@ pub trait Calendar: Debug {
         let include_last = include_last.unwrap_or(false);
         let mut day_count = 0;
         let day_diff = ((to + Duration::try_days(if include_last { 1 } else { 0 }).unwrap())
-            - (from + Duration::try_days(if include_first { 1 } else { 0 }).unwrap()))
+            - (from + Duration::try_days(if include_first { 0 } else { 1 }).unwrap()))
         .num_days();
-        for date in (from + Duration::try_days(if include_first { 1 } else { 0 }).unwrap())
+        for date in (from + Duration::try_days(if include_first { 0 } else { 1 }).unwrap())
             .iter_days()
-            .take(day_diff as usize)
+            .take(day_diff.max(0) as usize)
         {
             if self.is_business_day(date) {
                 day_count += 1;
-- 
2.43.0


From dd9921c705d3fdf9bacd637b23c51ff64b0a24fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:15 +0000
Subject: [PATCH 09/47] fix: end-of-month advance must stay in the target month

---
 src/time/calendars.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/time/calendars.rs b/src/time/calendars.rs
index 9d68b0a..91303a4 100644
--- a/src/time/calendars.rs
+++ b/src/time/calendars.rs
@@ -270,7 +270,7 @@ pub trait Calendar: Debug {
             Period::Months(_) | Period::Years(_) => {
                 let advance_date = (date + period)?;
                 Ok(if end_of_month {
-                    Some(self.end_of_month(self.adjust(advance_date, bdc).unwrap()))
+                    Some(self.end_of_month(advance_date))
                 } else {
                     self.adjust(advance_date, bdc)
                 })
-- 
2.43.0


From de4a11ab1ba733191ec98c91d6d147fd30171d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:15 +0000
Subject: [PATCH 10/47] fix: Actual/365 (no leap) December month offset

---
 src/time/daycounters/actual365fixed.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/time/daycounters/actual365fixed.rs b/src/time/daycounters/actual365fixed.rs
index 19057c6..e9896e8 100644
--- a/src/time/daycounters/actual365fixed.rs
+++ b/src/time/daycounters/actual365fixed.rs
@@ -21,7 +21,7 @@ impl Actual365Fixed {
     }
 
     fn nl_day_count(&self, d1: NaiveDate, d2: NaiveDate) -> i64 {
-        const MONTH_OFFSET: [i64; 12] = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 344];
+        const MONTH_OFFSET: [i64; 12] = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334];
         let mut s1 =
             d1.day() as i64 + MONTH_OFFSET[d1.month() as usize - 1usize] + (d1.year() as i64 * 365);
         let mut s2 =
-- 
2.43.0


From 1a4145f7c53ac8078d70fd5ef6e0967b48818b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:15 +0000
Subject: [PATCH 11/47] fix: sign of the broken-period terms in Actual/Actual
 year fractions

---
 src/time/daycounters/actualactual.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/time/daycounters/actualactual.rs b/src/time/daycounters/actualactual.rs
index c7ab213..62029d4 100644
--- a/src/time/daycounters/actualactual.rs
+++ b/src/time/daycounters/actualactual.rs
@@ -25,8 +25,8 @@ impl ActualActual {
             let dib1 = if d1.leap_year() { 366f64 } else { 365f64 };
             let dib2 = if d2.leap_year() { 366f64 } else { 365f64 };
             let mut sum: f64 = (y2 - y1) as f64 - 1.0;
-            sum += (d1 - NaiveDate::from_ymd_opt(y1 + 1, 1, 1).unwrap()).num_days() as f64 / dib1;
-            sum += (NaiveDate::from_ymd_opt(y2, 1, 1).unwrap() - d2).num_days() as f64 / dib2;
+            sum += (NaiveDate::from_ymd_opt(y1 + 1, 1, 1).unwrap() - d1).num_days() as f64 / dib1;
+            sum += (d2 - NaiveDate::from_ymd_opt(y2, 1, 1).unwrap()).num_days() as f64 / dib2;
             sum
         }
     }
@@ -60,7 +60,7 @@ impl ActualActual {
                     den += 1.0;
                 }
             }
-            sum + (d1 - new_d2).num_days() as f64 / den
+            sum + (new_d2 - d1).num_days() as f64 / den
         }
     }
 }
@@ -73,6 +73,9 @@ impl DayCounters for ActualActual {
     }
 
     fn year_fraction(&self, d1: NaiveDate, d2: NaiveDate) -> Result<f64> {
+        if d1 > d2 {
+            return Ok(-self.year_fraction(d2, d1)?);
+        }
         Ok(match self.market {
             Some(ActualActualMarket::Isda) | None => self.isda_year_fraction(d1, d2),
             Some(ActualActualMarket::Euro) => self.euro_year_fraction(d1, d2),
-- 
2.43.0


From bd5ef49d06e4e93e3adb08768d24a472c58fb1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:15 +0000
Subject: [PATCH 12/47] fix: Business/252 counted every day after an
 intermediate month several times

---
 src/time/daycounters/business252.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/time/daycounters/business252.rs b/src/time/daycounters/business252.rs
index c6becb3..c42f4c1 100644
--- a/src/time/daycounters/business252.rs
+++ b/src/time/daycounters/business252.rs
@@ -27,8 +27,9 @@ impl DayCounters for Business252 {
             let mut d = (NaiveDate::from_ymd_opt(d1.year(), d1.month(), 1).unwrap() + Months(1))?;
             total += self.calendar.business_days_between(d1, d, None, None);
             while !self.same_month(d, d2) {
-                total += self.calendar.business_days_between(d, d2, None, None);
-                d = (d + Months(1))?;
+                let next = (d + Months(1))?;
+                total += self.calendar.business_days_between(d, next, None, None);
+                d = next;
             }
             total += self.calendar.business_days_between(d, d2, None, None);
             Ok(total)
-- 
2.43.0


From 894c37b20a8568814c9dd93800509bcc94bc7233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:15 +0000
Subject: [PATCH 13/47] fix: next IMM date never advanced to the next IMM month

---
 src/time/imm.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/time/imm.rs b/src/time/imm.rs
index 51a8856..bd344e8 100644
--- a/src/time/imm.rs
+++ b/src/time/imm.rs
@@ -131,8 +131,10 @@ impl IMM {
         let mut skip_months = offset - (date.month() % offset);
         if skip_months != offset || date.day() > 21 {
             skip_months += date.month();
-            if skip_months > 12 {
-                month -= 12;
+            if skip_months <= 12 {
+                month = skip_months;
+            } else {
+                month = skip_months - 12;
                 year += 1;
             }
         }
-- 
2.43.0


From 614f88edad18aa10621823f12d4350e857d8c573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:15 +0000
Subject: [PATCH 14/47] fix: lower-case and non-ASCII IMM codes panicked

---
 src/time/imm.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/time/imm.rs b/src/time/imm.rs
index bd344e8..c1a4510 100644
--- a/src/time/imm.rs
+++ b/src/time/imm.rs
@@ -50,7 +50,7 @@ impl IMM {
 
     /// IMM Codes are constructed by IMMMonth + year.
     pub fn is_imm_code(&self, imm_code: String, main_cycle: bool) -> bool {
-        if imm_code.len() != 2 {
+        if imm_code.len() != 2 || !imm_code.is_ascii() {
             return false;
         }
 
@@ -102,7 +102,7 @@ impl IMM {
             None
         } else {
             let ref_date = ref_date.unwrap_or(chrono::offset::Utc::now().date_naive());
-            let month = imm_code.chars().nth(0).unwrap();
+            let month = imm_code.chars().nth(0).unwrap().to_ascii_uppercase();
             let mut year = imm_code.chars().nth(1).unwrap().to_digit(10).unwrap() as i32;
             let imm_month = IMMMonth::from_str(&month.to_string()).unwrap() as u32;
             if year == 0 && ref_date.year() <= 1909 {
-- 
2.43.0


From 365a84613e5afe32d152269ab64a39472bb6b81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:47 +0000
Subject: [PATCH 15/47] fix: a hidden curve pillar distorted the interpolation
 of its neighbours

---
 src/markets/termstructures/yieldcurve.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/markets/termstructures/yieldcurve.rs b/src/markets/termstructures/yieldcurve.rs
index 4646b6a..4fa6f9b 100644
--- a/src/markets/termstructures/yieldcurve.rs
+++ b/src/markets/termstructures/yieldcurve.rs
@@ -222,7 +222,10 @@ impl YieldTermStructure {
         let mut second = self.stripped_curves.first().unwrap();
         let mut true_first = self.stripped_curves.first().unwrap();
         for strip_curve in &self.stripped_curves {
-            if target_date <= strip_curve.date && !strip_curve.hidden_pillar {
+            if strip_curve.hidden_pillar {
+                continue;
+            }
+            if target_date <= strip_curve.date {
                 second = strip_curve;
                 break;
             }
-- 
2.43.0


From 8127621497ec98c70ec6243956cda0d5bb33799b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:47 +0000
Subject: [PATCH 16/47] fix: zero rates beyond the last curve pillar fell back
 to the first pillar's rate

---
 src/markets/termstructures/yieldcurve.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/markets/termstructures/yieldcurve.rs b/src/markets/termstructures/yieldcurve.rs
index 4fa6f9b..bed6bda 100644
--- a/src/markets/termstructures/yieldcurve.rs
+++ b/src/markets/termstructures/yieldcurve.rs
@@ -225,8 +225,8 @@ impl YieldTermStructure {
             if strip_curve.hidden_pillar {
                 continue;
             }
+            second = strip_curve;
             if target_date <= strip_curve.date {
-                second = strip_curve;
                 break;
             }
             first = strip_curve;
@@ -237,8 +237,9 @@ impl YieldTermStructure {
                 break;
             }
         }
-        if second == true_first {
-            true_first.zero_rate
+        if second == true_first || target_date > second.date {
+            // Flat before the first and beyond the last visible pillar.
+            second.zero_rate
         } else {
             let d1 = (target_date - first.date).num_days() as f64;
             let d2 = (second.date - target_date).num_days() as f64;
-- 
2.43.0


From 20861f9c327213ce61507b686205a702e3bcef68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:47 +0000
Subject: [PATCH 17/47] fix: cash quotes sharing a maturity were each stripped
 twice

---
 src/markets/termstructures/yieldcurve.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/markets/termstructures/yieldcurve.rs b/src/markets/termstructures/yieldcurve.rs
index bed6bda..a064521 100644
--- a/src/markets/termstructures/yieldcurve.rs
+++ b/src/markets/termstructures/yieldcurve.rs
@@ -124,6 +124,7 @@ impl YieldTermMarketData {
             cash_quote_maturity.push(cash.maturity_date(self.valuation_date).unwrap());
         }
         cash_quote_maturity.sort();
+        cash_quote_maturity.dedup();
 
         for maturity in cash_quote_maturity {
             for cash in &self.cash_quote {
-- 
2.43.0


From 3af48739ba3be6e4ff5b77701705c5476fe872a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:47 +0000
Subject: [PATCH 18/47] fix: swap pillars of a bootstrapped curve reported a
 discount factor of zero

---
 src/markets/termstructures/yieldcurve.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/markets/termstructures/yieldcurve.rs b/src/markets/termstructures/yieldcurve.rs
index a064521..cc084d2 100644
--- a/src/markets/termstructures/yieldcurve.rs
+++ b/src/markets/termstructures/yieldcurve.rs
@@ -165,7 +165,11 @@ impl YieldTermMarketData {
                 source: swap.yts_type(),
             });
             let zero_rate = swap.solve_zero_rate(self.valuation_date, outputs.clone());
-            outputs.last_mut().unwrap().zero_rate = zero_rate;
+            let pillar = outputs.last_mut().unwrap();
+            let year_fraction =
+                Actual365Fixed::default().year_fraction(self.valuation_date, pillar.date)?;
+            pillar.zero_rate = zero_rate;
+            pillar.discount = (-zero_rate * year_fraction).exp();
         }
         Ok(outputs)
     }
-- 
2.43.0


From c1f9af82c0a393b48dde0b8e757faf43a250d353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:48 +0000
Subject: [PATCH 19/47] fix: bootstrapping a swap quoted at a negative rate
 panicked

---
 src/derivatives/interestrate/swap.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/derivatives/interestrate/swap.rs b/src/derivatives/interestrate/swap.rs
index e258896..98f2355 100644
--- a/src/derivatives/interestrate/swap.rs
+++ b/src/derivatives/interestrate/swap.rs
@@ -271,7 +271,7 @@ impl InterestRateSwap {
             self.calculate_npv(x, valuation_date, &mut stripped_curves.to_vec())
                 .unwrap()
         };
-        let root = find_root_brent(0f64, 0.5f64, &mut f, &mut convergency);
+        let root = find_root_brent(-0.1f64, 0.5f64, &mut f, &mut convergency);
         root.unwrap()
     }
 
-- 
2.43.0


From 93dcb363dc14dbfd0baee464cf8d3b88c29fd4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:51 +0000
Subject: [PATCH 20/47] fix: AONIA followed the Austrian instead of the
 Australian calendar

---
 src/markets/interestrate/interestrateindex.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/markets/interestrate/interestrateindex.rs b/src/markets/interestrate/interestrateindex.rs
index e0f24be..31da32e 100644
--- a/src/markets/interestrate/interestrateindex.rs
+++ b/src/markets/interestrate/interestrateindex.rs
@@ -1,7 +1,7 @@
 use crate::time::businessdayconvention::BusinessDayConvention;
 use crate::time::calendars::unitedkingdom::UnitedKingdomMarket;
 use crate::time::calendars::unitedstates::UnitedStatesMarket;
-use crate::time::calendars::{Austria, Calendar, Target, UnitedKingdom, UnitedStates};
+use crate::time::calendars::{Australia, Calendar, Target, UnitedKingdom, UnitedStates};
 use crate::time::daycounters::DayCounters;
 use crate::time::daycounters::actual360::Actual360;
 use crate::time::daycounters::actual365fixed::Actual365Fixed;
@@ -41,7 +41,7 @@ impl InterestRateIndex {
                 period: Period::SPOT,
                 settlement_days: 0,
                 currency: AUD,
-                calendar: Box::<Austria>::default(),
+                calendar: Box::<Australia>::default(),
                 convention: BusinessDayConvention::ModifiedFollowing,
                 day_counter: Box::<Actual365Fixed>::default(),
                 end_of_month: false,
-- 
2.43.0


From 74e47a96d0fd0e1262df1765921181b9621ec41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:53 +0000
Subject: [PATCH 21/47] fix: CDOR was described as a US dollar index

---
 src/markets/interestrate/interestrateindex.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/markets/interestrate/interestrateindex.rs b/src/markets/interestrate/interestrateindex.rs
index 31da32e..e8cff72 100644
--- a/src/markets/interestrate/interestrateindex.rs
+++ b/src/markets/interestrate/interestrateindex.rs
@@ -1,13 +1,13 @@
 use crate::time::businessdayconvention::BusinessDayConvention;
 use crate::time::calendars::unitedkingdom::UnitedKingdomMarket;
 use crate::time::calendars::unitedstates::UnitedStatesMarket;
-use crate::time::calendars::{Australia, Calendar, Target, UnitedKingdom, UnitedStates};
+use crate::time::calendars::{Australia, Calendar, Canada, Target, UnitedKingdom, UnitedStates};
 use crate::time::daycounters::DayCounters;
 use crate::time::daycounters::actual360::Actual360;
 use crate::time::daycounters::actual365fixed::Actual365Fixed;
 use crate::time::period::Period;
 use iso_currency::Currency;
-use iso_currency::Currency::{AUD, EUR, GBP, USD};
+use iso_currency::Currency::{AUD, CAD, EUR, GBP, USD};
 use serde::{Deserialize, Serialize};
 
 #[allow(clippy::upper_case_acronyms)]
@@ -49,12 +49,10 @@ impl InterestRateIndex {
             InterestRateIndexEnum::CDOR(period) => Some(InterestRateIndex {
                 period,
                 settlement_days: 0,
-                currency: USD,
-                calendar: Box::new(UnitedStates {
-                    market: Some(UnitedStatesMarket::SOFR),
-                }),
+                currency: CAD,
+                calendar: Box::<Canada>::default(),
                 convention: BusinessDayConvention::ModifiedFollowing,
-                day_counter: Box::new(Actual360),
+                day_counter: Box::<Actual365Fixed>::default(),
                 end_of_month: false,
             }),
             InterestRateIndexEnum::EONIA => Some(InterestRateIndex {
-- 
2.43.0


From 3210bf54d8fa0ad8af7959ec282c18a300fa4ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:50 +0000
Subject: [PATCH 22/47] fix: swap schedules whose tenor and duration use
 different units were truncated

---
 src/derivatives/interestrate/swap.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/derivatives/interestrate/swap.rs b/src/derivatives/interestrate/swap.rs
index 98f2355..11c3a1f 100644
--- a/src/derivatives/interestrate/swap.rs
+++ b/src/derivatives/interestrate/swap.rs
@@ -129,13 +129,17 @@ impl InterestRateSwapLeg {
 
             // TODO: amortisation
             let tenor_num = match self.schedule_detail.tenor {
-                Period::Days(num) | Period::Weeks(num) => num as u32,
-                Period::Months(num) | Period::Years(num) => num,
+                Period::Days(num) => num as u32,
+                Period::Weeks(num) => 7 * num as u32,
+                Period::Months(num) => num,
+                Period::Years(num) => 12 * num,
                 _ => 1,
             };
             let duration_num = match self.schedule_detail.duration {
-                Period::Days(num) | Period::Weeks(num) => num as u32,
-                Period::Months(num) | Period::Years(num) => num,
+                Period::Days(num) => num as u32,
+                Period::Weeks(num) => 7 * num as u32,
+                Period::Months(num) => num,
+                Period::Years(num) => 12 * num,
                 _ => 1,
             };
 
-- 
2.43.0


From 5e554e5ff2a13e24bd9d0c50b4e9b2ec881d7fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:21 +0000
Subject: [PATCH 23/47] fix: futures starting beyond the last pillar were
 chained to the first pillar

---
 src/markets/termstructures/yieldcurve.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/markets/termstructures/yieldcurve.rs b/src/markets/termstructures/yieldcurve.rs
index cc084d2..691b565 100644
--- a/src/markets/termstructures/yieldcurve.rs
+++ b/src/markets/termstructures/yieldcurve.rs
@@ -62,6 +62,10 @@ pub trait InterestRateQuote {
             }
             first = stripped_curve;
         }
+        if target_date > first.date && second == stripped_curves.first().unwrap() {
+            // Beyond the last pillar.
+            return first;
+        }
         if second == stripped_curves.first().unwrap() {
             first = stripped_curves.first().unwrap();
         }
-- 
2.43.0


From 732c6ba73d88b697aca17a6f55f0042fef3ee4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:30 +0000
Subject: [PATCH 24/47] fix: option delta and gamma convert a domestic-currency
 notional at the strike

---
 src/derivatives/forex/option.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/derivatives/forex/option.rs b/src/derivatives/forex/option.rs
index c1f96a5..3acc059 100644
--- a/src/derivatives/forex/option.rs
+++ b/src/derivatives/forex/option.rs
@@ -141,6 +141,16 @@ impl FXVanillaOption {
     fn direction_sign(&self) -> f64 {
         self.basic_info.direction as i8 as f64
     }
+
+    /// Notional in base (foreign) currency; a domestic notional is exchanged
+    /// at the strike.
+    fn base_notional(&self) -> f64 {
+        if self.notional_currency == self.asset.frn_currency() {
+            self.notional_amounts
+        } else {
+            self.notional_amounts / self.strike
+        }
+    }
 }
 
 impl FXDerivatives for FXVanillaOption {
@@ -185,7 +195,7 @@ impl FXDerivatives for FXVanillaOption {
         let ctx = self.bs_context(market)?;
         let omega = self.option_type.omega();
         let fwd_delta_per_unit = omega * cdf(omega * ctx.d1);
-        let delta = self.notional_amounts * self.direction_sign() * fwd_delta_per_unit;
+        let delta = self.base_notional() * self.direction_sign() * fwd_delta_per_unit;
         Ok(CurrencyValue {
             currency: self.asset.frn_currency(),
             value: delta,
@@ -200,7 +210,7 @@ impl FXDerivatives for FXVanillaOption {
             return Ok(0.0);
         }
         let gamma_per_unit = ctx.discount * pdf(ctx.d1) / (ctx.forward * ctx.sqrt_v);
-        Ok(self.notional_amounts * self.direction_sign() * gamma_per_unit)
+        Ok(self.base_notional() * self.direction_sign() * gamma_per_unit)
     }
 
     /// Black-Scholes vega per **1 % change** in volatility, converted to the
-- 
2.43.0


From 8fdbfc1f96493b82137b8c0d746537391f7ce116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:34 +0000
Subject: [PATCH 25/47] fix: at-the-money option with zero volatility has
 finite delta and vega

---
 src/derivatives/forex/option.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/derivatives/forex/option.rs b/src/derivatives/forex/option.rs
index 3acc059..3fce5a9 100644
--- a/src/derivatives/forex/option.rs
+++ b/src/derivatives/forex/option.rs
@@ -122,7 +122,14 @@ impl FXVanillaOption {
             .year_fraction(market.valuation_date, self.basic_info.expiry_date)?;
         let variance = self.volatility * self.volatility * year_fraction;
         let sqrt_v = variance.sqrt();
-        let d1 = ((forward / self.strike).ln() + 0.5 * variance) / sqrt_v;
+        let d1 = if sqrt_v > 0.0 {
+            ((forward / self.strike).ln() + 0.5 * variance) / sqrt_v
+        } else if forward == self.strike {
+            // Limit of vanishing volatility at the money.
+            0.0
+        } else {
+            (forward - self.strike) * f64::INFINITY
+        };
         let discount = market.domestic_curve.discount(
             self.basic_info.expiry_date,
             &InterpolationMethodEnum::StepFunctionForward,
-- 
2.43.0


From 8e510a7b12259b94d1f02ef000a9fcec1d3eee00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:38 +0000
Subject: [PATCH 26/47] fix: FxMarketContext::forward_at returns the outright
 forward, not the raw points

---
 src/markets/forex/market_context.rs | 30 ++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/markets/forex/market_context.rs b/src/markets/forex/market_context.rs
index 6e2f5c2..0fb5f71 100644
--- a/src/markets/forex/market_context.rs
+++ b/src/markets/forex/market_context.rs
@@ -41,6 +41,7 @@
 //!      └─ Simulator::from_market(&ctx)                       ← MC paths
 //! ```
 
+use crate::derivatives::forex::basic::FXUnderlying;
 use crate::error::{Error, Result};
 use crate::markets::forex::quotes::forwardpoints::{FXForwardHelper, FXForwardQuote};
 use crate::markets::forex::quotes::volsurface::{FXDeltaVolPillar, FXVolQuote, FXVolSurface};
@@ -154,16 +155,28 @@ impl FxMarketContext {
     }
 
     /// Outright forward `F(T) = S + forward_points(T)` resolved via
-    /// the underlying [`FXForwardHelper`]. `calendar` is the
-    /// settlement calendar for the pair (typically the joint
-    /// domestic/foreign calendar).
+    /// the underlying [`FXForwardHelper`]; the quoted points are scaled
+    /// by the pair's convention. `calendar` is the settlement calendar
+    /// for the pair (typically the joint domestic/foreign calendar).
     pub fn forward_at(&self, date: NaiveDate, calendar: &dyn Calendar) -> Result<f64> {
-        self.forwards.get_forward(date, calendar)?.ok_or_else(|| {
+        let points = self.forwards.get_forward(date, calendar)?.ok_or_else(|| {
             Error::InvalidData(format!(
                 "FxMarketContext.forward_at({}): outside forward range ({} → ...)",
                 date, self.valuation_date,
             ))
-        })
+        })?;
+        let (domestic, foreign) = self.pair;
+        let scale = match underlying(self.pair) {
+            Some(asset) => asset.forward_points_converter(),
+            None => {
+                return Err(Error::InvalidData(format!(
+                    "FxMarketContext.forward_at: no point convention for {}{}",
+                    foreign.code(),
+                    domestic.code(),
+                )));
+            }
+        };
+        Ok(self.spot + points / scale)
     }
 
     /// Domestic zero rate via step-function-forward interpolation.
@@ -229,6 +242,13 @@ impl FxMarketContext {
     }
 }
 
+/// The pair's market convention, when it is one of the known pairs.
+fn underlying((domestic, foreign): (Currency, Currency)) -> Option<FXUnderlying> {
+    format!("{}{}", foreign.code(), domestic.code())
+        .parse()
+        .ok()
+}
+
 /// One-pillar flat-10%-vol surface — shared helper used by the
 /// `for_linear` constructor and by tests that need a placeholder
 /// surface. Includes a symmetric 25Δ put/call pair so
-- 
2.43.0


From e06bc500645b25e802b2cb246faf2cbd836051b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:15 +0000
Subject: [PATCH 27/47] fix: FX context built from raw quotes dates forward
 points with the pair's spot lag

---
 src/markets/forex/market_context.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/markets/forex/market_context.rs b/src/markets/forex/market_context.rs
index 0fb5f71..dc11c05 100644
--- a/src/markets/forex/market_context.rs
+++ b/src/markets/forex/market_context.rs
@@ -141,7 +141,10 @@ impl FxMarketContext {
             valuation_date,
             foreign_ir.get_stripped_curve()?,
         );
-        let forwards = FXForwardHelper::new(valuation_date, spot, fx_forward_quotes);
+        let forwards = match underlying(pair) {
+            Some(asset) => asset.forward_helper(valuation_date, spot, fx_forward_quotes),
+            None => FXForwardHelper::new(valuation_date, spot, fx_forward_quotes),
+        };
         let vol_surface = FXVolSurface::new(valuation_date, vol_pillars)?;
         Ok(Self::new(
             valuation_date,
-- 
2.43.0


From b7aa035283376b4478fc50a22de9251b0e25460e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:26 +0000
Subject: [PATCH 28/47] fix: small-time E[sqrt variance] applies the full
 second-order correction

---
 src/models/common/cir.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/common/cir.rs b/src/models/common/cir.rs
index ab5b413..bf0c731 100644
--- a/src/models/common/cir.rs
+++ b/src/models/common/cir.rs
@@ -111,7 +111,7 @@ impl CirProcess {
         if eps > 500.0 {
             let m = self.mean(t).max(1.0e-300);
             let v = self.variance(t);
-            return (m * (1.0 - v / (8.0 * m * m))).max(0.0).sqrt();
+            return m.sqrt() * (1.0 - v / (8.0 * m * m)).max(0.0);
         }
 
         // Σ_{k≥0}  (ε/2)^k / k!  · Γ((ℓ+1)/2 + k) / Γ(ℓ/2 + k).
-- 
2.43.0


From b101760df7f36bfa9d9db39463202759968adb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:58 +0000
Subject: [PATCH 29/47] fix: Hull-White factors keep their precision for small
 mean reversion

---
 src/models/interestrate/hull_white.rs | 29 ++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/models/interestrate/hull_white.rs b/src/models/interestrate/hull_white.rs
index 42dcd6d..263ce9c 100644
--- a/src/models/interestrate/hull_white.rs
+++ b/src/models/interestrate/hull_white.rs
@@ -41,7 +41,7 @@ impl HullWhite1F {
         if self.mean_reversion.abs() < 1.0e-12 {
             return -tau;
         }
-        ((-self.mean_reversion * tau).exp() - 1.0) / self.mean_reversion
+        (-self.mean_reversion * tau).exp_m1() / self.mean_reversion
     }
 
     /// Conditional variance of the short rate:
@@ -56,7 +56,7 @@ impl HullWhite1F {
             return self.sigma * self.sigma * tau;
         }
         let a = 2.0 * self.mean_reversion;
-        self.sigma * self.sigma / a * (1.0 - (-a * tau).exp())
+        -self.sigma * self.sigma / a * (-a * tau).exp_m1()
     }
 
     /// Integrated squared bond volatility
@@ -74,16 +74,31 @@ impl HullWhite1F {
         let lambda = self.mean_reversion;
         let tau_fn = |s: f64| -> f64 {
             // antiderivative of [(e^{-λ(T-s)} - 1)/λ]² wrt s
-            //   = (1/λ²)·[ (−1/(2λ))·e^{−2λ(T−s)} + (2/λ)·e^{−λ(T−s)} + s ] + C
+            //   = (1/λ²)·[ (−1/(2λ))·e^{−2λ(T−s)} + (2/λ)·e^{−λ(T−s)} + s ] + C,
+            //   C chosen so that it vanishes at s = T.
             // Apply at (s₁, s₂), take the difference.
             if lambda.abs() < 1.0e-12 {
                 // Ho–Lee limit:  B = -(T − s)  ⇒  ∫ B² ds = (T-s)³ / 3 evaluated
                 //                                     = -((T−s₂)³ − (T−s₁)³)/3
                 return -((big_t - s).powi(3)) / 3.0;
             }
-            let e1 = (-lambda * (big_t - s)).exp();
-            let e2 = (-2.0 * lambda * (big_t - s)).exp();
-            (1.0 / (lambda * lambda)) * (-0.5 / lambda * e2 + 2.0 / lambda * e1 + s)
+            let x = lambda * (big_t - s);
+            if x.abs() < 0.1 {
+                // Same integral as a power series in x = λ(T−s): the closed
+                // form below cancels to noise for small x.
+                //   ∫₀^τ B² = τ³ · Σ_{n≥2} (−1)ⁿ (2ⁿ − 2) xⁿ⁻² / ((n+1)·n!)
+                let mut sum = 0.0;
+                let mut power = 0.5; // (−x)ⁿ⁻² / n!
+                for n in 2..=14 {
+                    sum += (2.0_f64.powi(n) - 2.0) * power / f64::from(n + 1);
+                    power *= -x / f64::from(n + 1);
+                }
+                return -((big_t - s).powi(3)) * sum;
+            }
+            let e1 = (-x).exp();
+            let e2 = (-2.0 * x).exp();
+            (1.0 / (lambda * lambda))
+                * ((-0.5 * e2 + 2.0 * e1 - 1.5) / lambda - (big_t - s))
         };
         eta * eta * (tau_fn(s2) - tau_fn(s1))
     }
@@ -124,7 +139,7 @@ impl HullWhite1F {
         let convexity = if lambda.abs() < 1.0e-12 {
             eta * eta * t * b * b * 0.5
         } else {
-            eta * eta / (4.0 * lambda) * (1.0 - (-2.0 * lambda * t).exp()) * b * b
+            -eta * eta / (4.0 * lambda) * (-2.0 * lambda * t).exp_m1() * b * b
         };
         (p0big_t / p0t) * (-b * f0t - convexity + b * r_t).exp()
     }
-- 
2.43.0


From ae72810f56b2f33d091a98595b74d81a311832c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:40 +0000
Subject: [PATCH 30/47] fix: FX-HHW1 characteristic function pairs C(tau) with
 rates and variance at calendar time T-tau

---
 src/models/forex/fx_hhw1_chf.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/models/forex/fx_hhw1_chf.rs b/src/models/forex/fx_hhw1_chf.rs
index e23d0e2..48ad6d0 100644
--- a/src/models/forex/fx_hhw1_chf.rs
+++ b/src/models/forex/fx_hhw1_chf.rs
@@ -96,10 +96,12 @@ impl SimpsonGrid {
         let eta_f = params.foreign.sigma;
         let rho = &params.correlations;
         for k in 0..=n {
-            let s = k as f64 * h;
-            let p = params.heston.sqrt_mean(s);
-            let bds = params.domestic.b(s, expiry);
-            let bfs = params.foreign.b(s, expiry);
+            // `C` runs in time to maturity `s`; `φ`, `B_d`, `B_f` are those
+            // of the matching calendar time.
+            let t = expiry - k as f64 * h;
+            let p = params.heston.sqrt_mean(t);
+            let bds = params.domestic.b(t, expiry);
+            let bfs = params.foreign.b(t, expiry);
             phi.push(p);
             bd.push(bds);
             bf.push(bfs);
@@ -281,17 +283,19 @@ fn a_of_tau_cached(u: Complex64, params: &FxHhwParams, grid: &SimpsonGrid) -> Co
     acc * (grid.h / 3.0)
 }
 
-/// `A'(s)` integrand. `s` is the running time inside the quadrature,
-/// `big_t` is the fixed expiry used in `B_d(s, T)`, `B_f(s, T)`.
+/// `A'(s)` integrand. `s` is the running time to maturity inside the
+/// quadrature, i.e. calendar time `t = T − s` for `φ(t)`, `B_d(t, T)` and
+/// `B_f(t, T)`; `big_t` is the fixed expiry `T`.
 fn integrand(u: Complex64, s: f64, big_t: f64, params: &FxHhwParams) -> Complex64 {
     let c = c_of_tau(u, s, params);
     let iu = Complex64::new(0.0, 1.0) * u;
     let one_minus_iu = Complex64::new(1.0, 0.0) - iu;
     let u2_plus_iu = u * u + iu;
 
-    let phi = params.heston.sqrt_mean(s);
-    let bd = params.domestic.b(s, big_t);
-    let bf = params.foreign.b(s, big_t);
+    let t = big_t - s;
+    let phi = params.heston.sqrt_mean(t);
+    let bd = params.domestic.b(t, big_t);
+    let bf = params.foreign.b(t, big_t);
     let eta_d = params.domestic.sigma;
     let eta_f = params.foreign.sigma;
     let rho = &params.correlations;
-- 
2.43.0


From 067ca92e67e11a6f59f518067eabe227afe6cd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:30 +0000
Subject: [PATCH 31/47] fix: Hull-White integrated bond variance uses the
 correct antiderivative

---
 src/models/interestrate/hull_white.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/models/interestrate/hull_white.rs b/src/models/interestrate/hull_white.rs
index 263ce9c..f8b6c29 100644
--- a/src/models/interestrate/hull_white.rs
+++ b/src/models/interestrate/hull_white.rs
@@ -74,7 +74,7 @@ impl HullWhite1F {
         let lambda = self.mean_reversion;
         let tau_fn = |s: f64| -> f64 {
             // antiderivative of [(e^{-λ(T-s)} - 1)/λ]² wrt s
-            //   = (1/λ²)·[ (−1/(2λ))·e^{−2λ(T−s)} + (2/λ)·e^{−λ(T−s)} + s ] + C,
+            //   = (1/λ²)·[ (1/(2λ))·e^{−2λ(T−s)} − (2/λ)·e^{−λ(T−s)} + s ] + C,
             //   C chosen so that it vanishes at s = T.
             // Apply at (s₁, s₂), take the difference.
             if lambda.abs() < 1.0e-12 {
@@ -98,7 +98,7 @@ impl HullWhite1F {
             let e1 = (-x).exp();
             let e2 = (-2.0 * x).exp();
             (1.0 / (lambda * lambda))
-                * ((-0.5 * e2 + 2.0 * e1 - 1.5) / lambda - (big_t - s))
+                * ((0.5 * e2 - 2.0 * e1 + 1.5) / lambda - (big_t - s))
         };
         eta * eta * (tau_fn(s2) - tau_fn(s1))
     }
-- 
2.43.0


From 4fd41cfe345ef6266363a57f8f6cb0e05ef7f591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:31 +0000
Subject: [PATCH 32/47] fix: COS pricer keeps the payoff inside the truncation
 range

---
 src/models/common/cos_pricer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/models/common/cos_pricer.rs b/src/models/common/cos_pricer.rs
index 8cdfa92..a36e097 100644
--- a/src/models/common/cos_pricer.rs
+++ b/src/models/common/cos_pricer.rs
@@ -152,7 +152,9 @@ impl<'a, C: ForwardChf> CosPricer<'a, C> {
         assert!(strike > 0.0);
         let (a, b) = self.range;
         let width = b - a;
-        let log_k = strike.ln();
+        // Outside `[a, b]` the payoff is exercised everywhere or nowhere;
+        // the cosine expansion is only valid inside.
+        let log_k = strike.ln().clamp(a, b);
 
         // Payoff cosine coefficients Vk (closed form).
         // For a call:  Vk = (2/(b−a)) · [χk(log K, b) − K · ψk(log K, b)].
-- 
2.43.0


From b39261c7fecc68d97e5799f9eb4b7b1471ed5cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:29 +0000
Subject: [PATCH 33/47] fix: E[sqrt variance] stays accurate for nearly
 deterministic variance

---
 src/models/common/cir.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/models/common/cir.rs b/src/models/common/cir.rs
index bf0c731..c43caa4 100644
--- a/src/models/common/cir.rs
+++ b/src/models/common/cir.rs
@@ -108,7 +108,9 @@ impl CirProcess {
         // `ε ≳ 500` the variance is negligible, so use the second-order
         // Taylor expansion `E[√σ] ≈ √μ · (1 − Var[σ] / (8·μ²))` with
         // `μ = E[σ(t)]`.
-        if eps > 500.0 {
+        // The same expansion takes over when `γ` is so small (`ℓ` so large)
+        // that the log-gamma difference below would cancel to noise.
+        if eps > 500.0 || ell > 1.0e6 {
             let m = self.mean(t).max(1.0e-300);
             let v = self.variance(t);
             return m.sqrt() * (1.0 - v / (8.0 * m * m)).max(0.0);
@@ -147,6 +149,10 @@ impl CirProcess {
         assert!(self.kappa > 0.0, "CIR: κ must be positive");
         assert!(self.gamma > 0.0, "CIR: γ must be positive");
         let ell = 4.0 * self.kappa * self.theta / (self.gamma * self.gamma);
+        if ell > 1.0e6 {
+            // Large-argument ratio; the log-gamma difference cancels here.
+            return self.theta.sqrt() * (1.0 - 1.0 / (4.0 * ell));
+        }
         let gamma_ratio = (ln_gamma(0.5 * (ell + 1.0)) - ln_gamma(0.5 * ell)).exp();
         self.gamma / (2.0 * self.kappa).sqrt() * gamma_ratio
     }
-- 
2.43.0


From 14637efbe2d3cee2413881b2b51b5728d285763f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:19 +0000
Subject: [PATCH 34/47] fix: FX-HLMM/FX-FMM characteristic functions are finite
 at u = -i when gamma*rho exceeds kappa

---
 src/models/forex/fx_fmm1_chf.rs  | 6 +++---
 src/models/forex/fx_hlmm1_chf.rs | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/models/forex/fx_fmm1_chf.rs b/src/models/forex/fx_fmm1_chf.rs
index 900e6fb..282f042 100644
--- a/src/models/forex/fx_fmm1_chf.rs
+++ b/src/models/forex/fx_fmm1_chf.rs
@@ -345,12 +345,12 @@ fn heston_a_closed_form(
     let iu = Complex64::new(0.0, 1.0) * u;
     let x = kappa_c - gamma_c * rho_c * iu;
     let d = (x * x - gamma_c * gamma_c * iu * (iu - Complex64::new(1.0, 0.0))).sqrt();
-    let g = (x - d) / (x + d);
     let e = (-d * tau).exp();
     let kappa_theta = Complex64::new(kappa * theta, 0.0);
+    // `(1 − g·e)/(1 − g)` with `g = (x − d)/(x + d)`, cleared of `x + d`,
+    // which vanishes at `u = −i` when `γρ > κ`.
     kappa_theta / (gamma_c * gamma_c)
-        * ((x - d) * tau
-            - 2.0 * ((Complex64::new(1.0, 0.0) - g * e) / (Complex64::new(1.0, 0.0) - g)).ln())
+        * ((x - d) * tau - 2.0 * (((x + d) - (x - d) * e) / (2.0 * d)).ln())
 }
 
 /// Piecewise-constant Riccati step `D' = A·(B²−B)/2 − λ·D + η²·D²/2`
diff --git a/src/models/forex/fx_hlmm1_chf.rs b/src/models/forex/fx_hlmm1_chf.rs
index 2f75c50..1a6e79d 100644
--- a/src/models/forex/fx_hlmm1_chf.rs
+++ b/src/models/forex/fx_hlmm1_chf.rs
@@ -291,12 +291,12 @@ fn heston_a_closed_form(
     let iu = Complex64::new(0.0, 1.0) * u;
     let x = kappa_c - gamma_c * rho_c * iu;
     let d = (x * x - gamma_c * gamma_c * iu * (iu - Complex64::new(1.0, 0.0))).sqrt();
-    let g = (x - d) / (x + d);
     let e = (-d * tau).exp();
     let kappa_theta = Complex64::new(kappa * theta, 0.0);
+    // `(1 − g·e)/(1 − g)` with `g = (x − d)/(x + d)`, cleared of `x + d`,
+    // which vanishes at `u = −i` when `γρ > κ`.
     kappa_theta / (gamma_c * gamma_c)
-        * ((x - d) * tau
-            - 2.0 * ((Complex64::new(1.0, 0.0) - g * e) / (Complex64::new(1.0, 0.0) - g)).ln())
+        * ((x - d) * tau - 2.0 * (((x + d) - (x - d) * e) / (2.0 * d)).ln())
 }
 
 /// Advance one segment of the Riccati
-- 
2.43.0


From c133bc728a25471cdec5814f9b82e4187c4435cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:59 +0000
Subject: [PATCH 35/47] fix: capture observations whose grid interval has zero
 year-fraction

simulate_at_dates skipped the capture together with the step when two
consecutive grid dates share a year-fraction (Business/252 weekends, the
31st under 30/360), losing that observation and all later ones.
---
 src/models/common/simulation.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/models/common/simulation.rs b/src/models/common/simulation.rs
index 6c831db..5cb2462 100644
--- a/src/models/common/simulation.rs
+++ b/src/models/common/simulation.rs
@@ -156,11 +156,13 @@ pub fn simulate_at_dates<M: SimulationModel>(
         let mut next_obs = 0_usize;
         for i in 1..grid.len() {
             let dt = yf[i] - yf[i - 1];
-            if dt <= 0.0 {
-                continue;
+            // Grid dates can share a year-fraction (weekends under
+            // Business/252, the 31st under 30/360): nothing to evolve, but
+            // an observation there still has to be captured.
+            if dt > 0.0 {
+                let t_mid = 0.5 * (yf[i] + yf[i - 1]);
+                state = model.step(&state, t_mid, dt);
             }
-            let t_mid = 0.5 * (yf[i] + yf[i - 1]);
-            state = model.step(&state, t_mid, dt);
             while next_obs < obs_indices.len() && obs_indices[next_obs] == i {
                 path.push(state.clone());
                 next_obs += 1;
-- 
2.43.0


From 3ce4cb9a987de517315c3296c7c39ebbe8ff6c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:26 +0000
Subject: [PATCH 36/47] fix: effective vol-vol root search for expiries beyond
 29 years

The right-hand side of Lemma 4.1 evaluated inf/inf at the initial bracket
end, so every 30-year pillar panicked. The ratio is a polynomial in e^x.
---
 src/models/forex/sabr_effective.rs | 31 ++++++------------------------
 1 file changed, 6 insertions(+), 25 deletions(-)

diff --git a/src/models/forex/sabr_effective.rs b/src/models/forex/sabr_effective.rs
index a9baf27..a10571f 100644
--- a/src/models/forex/sabr_effective.rs
+++ b/src/models/forex/sabr_effective.rs
@@ -199,32 +199,13 @@ fn lhs_double_integral(deltas: &[f64], gamma: &[f64], omega1: &[f64]) -> f64 {
 /// RHS of Lemma 4.1 at a trial `γ̃`, `= (1/5) · (I / (e^x − 1))² · inner`
 /// with `x = γ̃² Tᵢ` and `inner = e^{6x}/6 − e^x + 5/6`.
 ///
-/// `inner` is catastrophic-cancellation-heavy near `x → 0` (three
-/// O(1)-ish terms must subtract to leave O(x²)). Expanding the Taylor
-/// series:
-///
-/// ```text
-///   inner = Σₙ≥₂ (6ⁿ − 6) / (6·n!) · xⁿ
-///         = (5/2)·x² + (35/6)·x³ + (215/24)·x⁴ + (1295/120)·x⁵ + O(x⁶)
-/// ```
-///
-/// Switch to this closed-form Taylor below `|x| < 1e-3` and use
-/// `expm1`-based direct form above. `expm1` on the denominator keeps the
-/// `(e^x − 1)²` factor accurate everywhere.
+/// With `y = e^x` the numerator factorises,
+/// `y⁶ − 6y + 5 = (y − 1)² · (y⁴ + 2y³ + 3y² + 4y + 5)`, so the ratio is a
+/// polynomial in `y`: no cancellation at `x → 0` (where it equals `I²/2`,
+/// the Jensen floor) and no `∞/∞` at long expiries.
 fn rhs_at_gamma_tilde(gamma_tilde_sq: f64, expiry: f64, i_val: f64) -> f64 {
-    let x = gamma_tilde_sq * expiry;
-    let denom = x.exp_m1();
-    if denom.abs() < 1.0e-300 {
-        // γ̃² → 0 limit equals I² / 2 (Jensen floor).
-        return 0.5 * i_val * i_val;
-    }
-    let inner = if x.abs() < 1.0e-3 {
-        let x2 = x * x;
-        2.5 * x2 + (35.0 / 6.0) * x2 * x + (215.0 / 24.0) * x2 * x2 + (1295.0 / 120.0) * x2 * x2 * x
-    } else {
-        (6.0 * x).exp_m1() / 6.0 - x.exp_m1()
-    };
-    (i_val * i_val) / (5.0 * denom * denom) * inner
+    let y = (gamma_tilde_sq * expiry).exp();
+    (i_val * i_val) / 30.0 * ((((y + 2.0) * y + 3.0) * y + 4.0) * y + 5.0)
 }
 
 /// Lemma 4.1 — effective vol-vol `γ̃` for expiry `Tᵢ`.
-- 
2.43.0


From 9e4cfecc27c96608fefc24a9e702e83dd35c6234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:53 +0000
Subject: [PATCH 37/47] fix: time-dependent SABR simulator applies the alpha
 schedule

The vol schedule was only read at time zero, so every later segment kept
the first segment's level; diffuse the forward with alpha(t)*xi(t).
---
 src/models/forex/sabr_time_dependent.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/models/forex/sabr_time_dependent.rs b/src/models/forex/sabr_time_dependent.rs
index 3d04e83..988682a 100644
--- a/src/models/forex/sabr_time_dependent.rs
+++ b/src/models/forex/sabr_time_dependent.rs
@@ -150,16 +150,17 @@ impl TimeDependentSabrSimulator {
         let f = state.forward.max(0.0);
         let alpha = state.vol.max(0.0);
 
-        // Full-truncation Euler on F.
-        let diffusion_f = alpha * f.powf(p.beta) * dw_f;
+        // Full-truncation Euler on F. The "α" scale inside `p` is the
+        // *schedule-instantaneous* α, which multiplies the forward
+        // diffusion directly; `state.vol` carries `α(0)·ξ(t)`, so it is
+        // rescaled to the level of the active segment (1 when flat).
+        let level = p.alpha / self.params.alpha.at(0.0);
+        let diffusion_f = level * alpha * f.powf(p.beta) * dw_f;
         let new_forward = (f + diffusion_f).max(0.0);
 
-        // Log-Euler on vol. Note: the "α" scale inside `p` is the
-        // *schedule-instantaneous* α, which multiplies the forward
-        // diffusion directly. The stochastic volatility driver itself
-        // has vol-of-vol ν(t) and evolves `α(t)·ξ(t)` where ξ is a
-        // unit-variance lognormal martingale. We track the product
-        // directly in `state.vol` so the scheme reduces cleanly to
+        // Log-Euler on vol. The stochastic volatility driver has
+        // vol-of-vol ν(t) and evolves `α(0)·ξ(t)` where ξ is a unit-mean
+        // lognormal martingale, so the scheme reduces cleanly to
         // constant-param SABR when schedules are flat.
         let log_drift = -0.5 * p.nu * p.nu * dt;
         let log_diffusion = p.nu * dw_a;
-- 
2.43.0


From bfb634d1e05c31e4f5653cab384b7f365a758177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:41 +0000
Subject: [PATCH 38/47] =?UTF-8?q?fix:=20FMM=20simulators=20evolve=20x=5Fk?=
 =?UTF-8?q?=20with=20the=20It=C3=B4=20coefficient?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/models/forex/fx_fmm_simulator.rs | 14 ++++++++------
 src/models/interestrate/fmm.rs       |  8 +++++---
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/models/forex/fx_fmm_simulator.rs b/src/models/forex/fx_fmm_simulator.rs
index 79bc89e..5eb1050 100644
--- a/src/models/forex/fx_fmm_simulator.rs
+++ b/src/models/forex/fx_fmm_simulator.rs
@@ -262,17 +262,19 @@ impl FxFmmSimulator {
             if t > tk_minus_1 && t < tk {
                 let tau_k = tenor.tau(k);
                 let g_k = 1.0 / tau_k; // linear decay
-                let r_d_mid = 0.5 * (state.rates_d[k - 1] + new_rates_d[k - 1]);
-                let sig_d = side_adapted_vol(&p.domestic, k, r_d_mid);
+                // Itô (left-point) coefficients: averaging the rate over the
+                // step would correlate it with dW and bias x_k.
+                let r_d = state.rates_d[k - 1];
+                let sig_d = side_adapted_vol(&p.domestic, k, r_d);
                 let y_k_d = state.y_diag_d[k - 1] - state.y_at_start_d[k - 1];
                 state.x_active_d +=
-                    g_k * y_k_d * dt + sig_d / (r_d_mid + 1.0 / tau_k) * dw_d[k - 1];
+                    g_k * y_k_d * dt + sig_d / (r_d + 1.0 / tau_k) * dw_d[k - 1];
 
-                let r_f_mid = 0.5 * (state.rates_f[k - 1] + new_rates_f[k - 1]);
-                let sig_f = side_adapted_vol(&p.foreign, k, r_f_mid);
+                let r_f = state.rates_f[k - 1];
+                let sig_f = side_adapted_vol(&p.foreign, k, r_f);
                 let y_k_f = state.y_diag_f[k - 1] - state.y_at_start_f[k - 1];
                 state.x_active_f +=
-                    g_k * y_k_f * dt + sig_f / (r_f_mid + 1.0 / tau_k) * dw_f[k - 1];
+                    g_k * y_k_f * dt + sig_f / (r_f + 1.0 / tau_k) * dw_f[k - 1];
             }
         }
 
diff --git a/src/models/interestrate/fmm.rs b/src/models/interestrate/fmm.rs
index 48dd7c8..3314a39 100644
--- a/src/models/interestrate/fmm.rs
+++ b/src/models/interestrate/fmm.rs
@@ -511,13 +511,15 @@ impl FmmSimulator {
             let tk = self.model.tenor.dates[k];
             if t > tk_minus_1 && t < tk {
                 let tau_k = self.model.tenor.tau(k);
-                let r_k_mid = 0.5 * (path.rates[k - 1] + new_rates[k - 1]);
-                let sig_adapt_k = self.model.adapted_vol(k, t_mid, r_k_mid);
+                // Itô (left-point) coefficient: averaging R_k over the step
+                // would correlate it with dW_k and bias x_k.
+                let r_k = path.rates[k - 1];
+                let sig_adapt_k = self.model.adapted_vol(k, t_mid, r_k);
                 // For linear decay γ_k(t) = (T_k − t)/τ_k, g_k = 1/τ_k.
                 let g_k = 1.0 / tau_k;
                 let y_k = path.y_diag[k - 1] - path.y_at_start[k - 1];
                 let drift_x = g_k * y_k;
-                let diffusion_x = sig_adapt_k / (r_k_mid + 1.0 / tau_k) * dw[k - 1];
+                let diffusion_x = sig_adapt_k / (r_k + 1.0 / tau_k) * dw[k - 1];
                 path.x_active += drift_x * dt + diffusion_x;
             }
         }
-- 
2.43.0


From d70d4920fc8a18e704dcf1c281c287a87637bd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:52 +0000
Subject: [PATCH 39/47] fix: FMM simulators evolve x_1 from the first step on

---
 src/models/forex/fx_fmm_simulator.rs | 2 +-
 src/models/interestrate/fmm.rs       | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/models/forex/fx_fmm_simulator.rs b/src/models/forex/fx_fmm_simulator.rs
index 5eb1050..05faf1c 100644
--- a/src/models/forex/fx_fmm_simulator.rs
+++ b/src/models/forex/fx_fmm_simulator.rs
@@ -259,7 +259,7 @@ impl FxFmmSimulator {
             let k = eta_old;
             let tk_minus_1 = tenor.dates[k - 1];
             let tk = tenor.dates[k];
-            if t > tk_minus_1 && t < tk {
+            if t >= tk_minus_1 && t < tk {
                 let tau_k = tenor.tau(k);
                 let g_k = 1.0 / tau_k; // linear decay
                 // Itô (left-point) coefficients: averaging the rate over the
diff --git a/src/models/interestrate/fmm.rs b/src/models/interestrate/fmm.rs
index 3314a39..467860a 100644
--- a/src/models/interestrate/fmm.rs
+++ b/src/models/interestrate/fmm.rs
@@ -502,14 +502,14 @@ impl FmmSimulator {
 
         // Evolve x_k(t) for the currently-active rate k = η_old via
         // paper eq. (33): dx_k = g_k(t) y_k(t) dt + (σ_k·L_k)/(R_k+1/τ_k) dW_k.
-        // Only meaningful inside the period (t_{k-1} < t < T_k). The σ·L
+        // Only meaningful inside the period (T_{k-1} ≤ t < T_k). The σ·L
         // prefactor picks up whatever vol schedule / displacement is set
         // on the model.
         if eta_old >= 1 && eta_old <= m {
             let k = eta_old;
             let tk_minus_1 = self.model.tenor.dates[k - 1];
             let tk = self.model.tenor.dates[k];
-            if t > tk_minus_1 && t < tk {
+            if t >= tk_minus_1 && t < tk {
                 let tau_k = self.model.tenor.tau(k);
                 // Itô (left-point) coefficient: averaging R_k over the step
                 // would correlate it with dW_k and bias x_k.
-- 
2.43.0


From 3086d28c59fcf5989051a30a1939cf5da0eb903d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:35 +0000
Subject: [PATCH 40/47] fix: FX-FMM simulator applies the frozen rate variance
 v_0

---
 src/models/forex/fx_fmm_simulator.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/models/forex/fx_fmm_simulator.rs b/src/models/forex/fx_fmm_simulator.rs
index 05faf1c..8a8d88f 100644
--- a/src/models/forex/fx_fmm_simulator.rs
+++ b/src/models/forex/fx_fmm_simulator.rs
@@ -342,7 +342,8 @@ impl SimulationModel for FxFmmSimulator {
 /// [`FmmSide`] doesn't carry β-displacement parameters. Both hooks can
 /// be added later without changing the simulator's step structure.
 fn side_adapted_vol(side: &FmmSide, j: usize, _r_j: f64) -> f64 {
-    side.sigmas[j - 1]
+    // The side's variance is frozen at v_0, so its rates carry √v_0.
+    side.v_0.sqrt() * side.sigmas[j - 1]
 }
 
 /// Assemble the `(2 + 2M) × (2 + 2M)` joint correlation matrix for
-- 
2.43.0


From 3fda966d52cab8ac17278d2a9e31279f220e1a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:08 +0000
Subject: [PATCH 41/47] fix: HLMM/FMM discount_factor stops at the expiry
 instead of discounting over the whole tenor

---
 src/models/forex/fx_fmm_calibrator.rs  | 7 ++++++-
 src/models/forex/fx_hlmm_calibrator.rs | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/models/forex/fx_fmm_calibrator.rs b/src/models/forex/fx_fmm_calibrator.rs
index 44a6257..fa62c10 100644
--- a/src/models/forex/fx_fmm_calibrator.rs
+++ b/src/models/forex/fx_fmm_calibrator.rs
@@ -124,7 +124,12 @@ pub fn discount_factor(params: &FxFmmParams, expiry: f64) -> f64 {
     let m = tenor.m();
     let mut p = 1.0_f64;
     for k in 1..=m {
-        p /= 1.0 + tenor.tau(k) * tenor.initial_rates[k - 1];
+        let start = tenor.dates[k - 1];
+        if expiry <= start {
+            break;
+        }
+        let accrual = expiry.min(tenor.dates[k]) - start;
+        p /= 1.0 + accrual * tenor.initial_rates[k - 1];
     }
     let tn = tenor.dates[m];
     if expiry > tn + 1e-12 {
diff --git a/src/models/forex/fx_hlmm_calibrator.rs b/src/models/forex/fx_hlmm_calibrator.rs
index a8eb678..e6fe133 100644
--- a/src/models/forex/fx_hlmm_calibrator.rs
+++ b/src/models/forex/fx_hlmm_calibrator.rs
@@ -117,7 +117,12 @@ pub fn discount_factor(params: &FxHlmmParams, expiry: f64) -> f64 {
     let n = tenor.n();
     let mut p = 1.0_f64;
     for k in 1..=n {
-        p /= 1.0 + tenor.tau(k) * tenor.libors[k - 1];
+        let start = tenor.dates[k - 1];
+        if expiry <= start {
+            break;
+        }
+        let accrual = expiry.min(tenor.dates[k]) - start;
+        p /= 1.0 + accrual * tenor.libors[k - 1];
     }
     let tn = tenor.dates[n];
     if expiry > tn + 1e-12 {
-- 
2.43.0


From 5de902aa817ff94b8438ea1e6c9fcfa9ccceaaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:08 +0000
Subject: [PATCH 42/47] fix: time-dependent SABR bootstrap carries the clamped
 correlation forward

---
 src/models/forex/sabr_time_dependent_calibrator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/forex/sabr_time_dependent_calibrator.rs b/src/models/forex/sabr_time_dependent_calibrator.rs
index 3ea25c1..77a763d 100644
--- a/src/models/forex/sabr_time_dependent_calibrator.rs
+++ b/src/models/forex/sabr_time_dependent_calibrator.rs
@@ -237,7 +237,6 @@ pub fn calibrate_time_dependent(
         );
         let rhs = target * gamma_tilde * t / omega_tilde;
         let rho_i = (rhs - tail_sum) / s_i;
-        tail_sum += rho_i * s_i;
 
         // Clamp into `(−1, 1)` — the calibration target is a smile
         // quantity, not a correlation, so a slight boundary violation
@@ -245,6 +244,7 @@ pub fn calibrate_time_dependent(
         // with a logged warning is benign; callers that need strict
         // bounds should add a pillar.
         let rho_i_clamped = rho_i.clamp(-0.999, 0.999);
+        tail_sum += rho_i_clamped * s_i;
         rho_values.push(rho_i_clamped);
     }
     let rho_sched = PiecewiseConstant::new(knots, rho_values);
-- 
2.43.0


From 8e7e932613d17326b775995e2fa74fbe2932c274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:08 +0000
Subject: [PATCH 43/47] fix: FxHhwSimulator::simulate follows the installed
 drift target

---
 src/models/forex/fx_hhw.rs | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/models/forex/fx_hhw.rs b/src/models/forex/fx_hhw.rs
index 6123c45..c37fa7c 100644
--- a/src/models/forex/fx_hhw.rs
+++ b/src/models/forex/fx_hhw.rs
@@ -139,6 +139,9 @@ impl FxHhwState {
     }
 }
 
+/// `(t) → (θ_d(t), θ_f(t))`.
+type ThetaFn = Box<dyn FnMut(f64) -> (f64, f64) + 'static>;
+
 /// Path simulator for the FX-HHW SDE system (Grzelak–Oosterlee
 /// eq. 2.11). Euler–Maruyama on `(log ξ, σ, rd, rf)` with
 /// full-truncation on the CIR variance; seeded ChaCha20 RNG for
@@ -172,9 +175,9 @@ pub struct FxHhwSimulator {
     chol: [[f64; 4]; 4],
     rng: ChaCha20Rng,
     /// HW mean-reversion target provider `(t) → (θ_d(t), θ_f(t))`.
-    /// Defaults to constant `(params.theta_d, params.theta_f)`. Override
+    /// `None` means constant `(params.theta_d, params.theta_f)`. Override
     /// via [`Self::with_theta_fn`] for a Jamshidian-style curve fit.
-    theta_fn: Box<dyn FnMut(f64) -> (f64, f64) + 'static>,
+    theta_fn: Option<ThetaFn>,
 }
 
 impl FxHhwSimulator {
@@ -183,14 +186,11 @@ impl FxHhwSimulator {
             .correlations
             .cholesky()
             .ok_or("correlation matrix is not positive-definite")?;
-        let td = params.theta_d;
-        let tf = params.theta_f;
-        let theta_fn: Box<dyn FnMut(f64) -> (f64, f64) + 'static> = Box::new(move |_t| (td, tf));
         Ok(Self {
             params,
             chol,
             rng: ChaCha20Rng::seed_from_u64(seed),
-            theta_fn,
+            theta_fn: None,
         })
     }
 
@@ -202,10 +202,18 @@ impl FxHhwSimulator {
     where
         F: FnMut(f64) -> (f64, f64) + 'static,
     {
-        self.theta_fn = Box::new(f);
+        self.theta_fn = Some(Box::new(f));
         self
     }
 
+    /// Drift targets in force at `t`.
+    fn theta_at(&mut self, t: f64) -> (f64, f64) {
+        match self.theta_fn.as_mut() {
+            Some(f) => f(t),
+            None => (self.params.theta_d, self.params.theta_f),
+        }
+    }
+
     /// Advance state by `dt` using the `theta_d, theta_f` from
     /// `params`. Consumes four standard-normal draws from the internal
     /// RNG; returns the correlated Brownian increments (scaled by √dt)
@@ -286,8 +294,9 @@ impl FxHhwSimulator {
         let mut terminals = Vec::with_capacity(n_paths);
         for _ in 0..n_paths {
             let mut state = FxHhwState::initial(&self.params);
-            for _ in 0..n_steps {
-                let (next, _) = self.step(&state, dt);
+            for i in 0..n_steps {
+                let (theta_d, theta_f) = self.theta_at((i as f64 + 0.5) * dt);
+                let (next, _) = self.step_at_time(&state, dt, theta_d, theta_f);
                 state = next;
             }
             terminals.push(state);
@@ -304,7 +313,7 @@ impl SimulationModel for FxHhwSimulator {
     }
 
     fn step(&mut self, state: &Self::State, t: f64, dt: f64) -> Self::State {
-        let (theta_d, theta_f) = (self.theta_fn)(t);
+        let (theta_d, theta_f) = self.theta_at(t);
         self.step_at_time(state, dt, theta_d, theta_f).0
     }
 }
-- 
2.43.0


From 38be3127afc108be9f871cd9e611f3017cbb0694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:17 +0000
Subject: [PATCH 44/47] fix: FX-FMM simulator keeps the asymmetric
 cross-currency rate correlation

The joint matrix needs C above and its transpose below the diagonal; C itself
is documented as not necessarily symmetric and the characteristic function
uses it as given.  Averaging it with its transpose simulated another model
and refused valid (positive-definite) correlations.
---
 src/models/forex/fx_fmm_simulator.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/models/forex/fx_fmm_simulator.rs b/src/models/forex/fx_fmm_simulator.rs
index 8a8d88f..5f98a21 100644
--- a/src/models/forex/fx_fmm_simulator.rs
+++ b/src/models/forex/fx_fmm_simulator.rs
@@ -351,8 +351,8 @@ fn side_adapted_vol(side: &FmmSide, j: usize, _r_j: f64) -> f64 {
 /// Heston correlation; FX × rates and σ × rates come from
 /// `FxFmmCorrelations`; intra-currency rate blocks come from each
 /// `FmmSide.rate_corr`; the cross-currency block from
-/// `FxFmmCorrelations.cross_rate_corr` (not required to be symmetric
-/// — we symmetrise as `(C[i][j] + C[j][i]) / 2` when assembling).
+/// `FxFmmCorrelations.cross_rate_corr`, which need not be symmetric: it
+/// fills the upper off-diagonal block and its transpose the lower one.
 fn build_joint_correlation(p: &FxFmmParams) -> Vec<Vec<f64>> {
     let m = p.tenor.m();
     let n = 2 + 2 * m;
@@ -393,13 +393,12 @@ fn build_joint_correlation(p: &FxFmmParams) -> Vec<Vec<f64>> {
             c[2 + m + i][2 + m + j] = p.foreign.rate_corr[i][j];
         }
     }
-    // Cross-currency rate block, symmetrised.
+    // Cross-currency rate block.
     for i in 0..m {
         for j in 0..m {
-            let sym =
-                0.5 * (p.correlations.cross_rate_corr[i][j] + p.correlations.cross_rate_corr[j][i]);
-            c[2 + i][2 + m + j] = sym;
-            c[2 + m + j][2 + i] = sym;
+            let rho = p.correlations.cross_rate_corr[i][j];
+            c[2 + i][2 + m + j] = rho;
+            c[2 + m + j][2 + i] = rho;
         }
     }
 
-- 
2.43.0


From 8809b064f9a06a99c3eab7859b0262b24f480758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:23 +0000
Subject: [PATCH 45/47] fix: FMM front-stub bond accepts a path standing on a
 tenor date beyond 16 years

---
 src/models/interestrate/fmm.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/models/interestrate/fmm.rs b/src/models/interestrate/fmm.rs
index 467860a..a701991 100644
--- a/src/models/interestrate/fmm.rs
+++ b/src/models/interestrate/fmm.rs
@@ -682,13 +682,13 @@ pub fn front_stub_bond(
     let tk_minus_1 = tenor.dates[k - 1];
     let tk = tenor.dates[k];
     assert!(
-        path.t > tk_minus_1 - 1e-15 && path.t < tk + 1e-15,
+        path.t >= tk_minus_1 - 1e-15 && path.t <= tk + 1e-15,
         "front-stub requires t ∈ [T_{{k-1}}, T_k]; got t={} in period k={}",
         path.t,
         k
     );
     assert!(
-        big_t > path.t - 1e-15 && big_t <= tk + 1e-15,
+        big_t >= path.t - 1e-15 && big_t <= tk + 1e-15,
         "front-stub requires t < T ≤ T_k"
     );
 
-- 
2.43.0


From 0fa81cab69f71449b8965f0e0bc7d72d24556d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:51 +0000
Subject: [PATCH 46/47] fix: Ho-Lee equivalent FMM volatility keeps its
 precision for small mean reversion

---
 src/models/interestrate/fmm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/interestrate/fmm.rs b/src/models/interestrate/fmm.rs
index a701991..9d4993a 100644
--- a/src/models/interestrate/fmm.rs
+++ b/src/models/interestrate/fmm.rs
@@ -186,7 +186,7 @@ impl VolSchedule {
                     // Ho–Lee limit: σ_k(t) = vol · τ_k for t ∈ [0, T_k].
                     return vol * (t_k - t_km1);
                 }
-                vol * ((-a * (t_km1 - t)).exp() - (-a * (t_k - t)).exp()) / a
+                -vol * (-a * (t_km1 - t)).exp() * (-a * (t_k - t_km1)).exp_m1() / a
             }
         }
     }
-- 
2.43.0


From adb03f84e4492318112908f1e1d2f0f6ee9952e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:38 +0000
Subject: [PATCH 47/47] fix: caplet stripping could stop 1e-7 of notional away
 from the quote

The root test compared a currency amount against 1e-10, which a quote on a real notional never reaches; the solver then returned its previous iterate once the bracket had collapsed.
---
 src/markets/interestrate/volsurface.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/markets/interestrate/volsurface.rs b/src/markets/interestrate/volsurface.rs
index 5c5f969..0e923da 100644
--- a/src/markets/interestrate/volsurface.rs
+++ b/src/markets/interestrate/volsurface.rs
@@ -314,7 +314,7 @@ fn strip_one_strike(
 
     let mut strip: Vec<StripPoint> = Vec::new();
     let mut convergency = SimpleConvergency {
-        eps: 1e-10_f64,
+        eps: 1e-14_f64,
         max_iter: 200,
     };
 
@@ -330,7 +330,8 @@ fn strip_one_strike(
         let snapshot = strip.clone();
         let mut residual = |trial_sigma: f64| -> f64 {
             match price_cap_with_strip(yts, valuation_date, quote, &snapshot, trial_sigma) {
-                Ok(npv) => npv - quote.market_npv,
+                // Per unit of notional, so that the root test below is attainable.
+                Ok(npv) => (npv - quote.market_npv) / quote.notional,
                 Err(_) => f64::NAN,
             }
         };
-- 
2.43.0

