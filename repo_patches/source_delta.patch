From 6934283c5dec99c4a88a46137ec6f62e488ae468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:20 +0000
Subject: [PATCH 01/41] fix: Nearest convention must return the business day it
 found, not the holiday

---
 src/time/calendars.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/time/calendars.rs b/src/time/calendars.rs
index 9c81ad8..ce0bd3c 100644
--- a/src/time/calendars.rs
+++ b/src/time/calendars.rs
@@ -247,9 +247,9 @@ pub trait Calendar: Debug {
                 d2 -= ONE_DAY;
             }
             return if self.is_holiday(d1) {
-                Some(d1)
-            } else {
                 Some(d2)
+            } else {
+                Some(d1)
             };
         } else {
             return None;
-- 
2.43.0


From 595e44573b663c4694d5d06e71d66b0581e0aa5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:20 +0000
Subject: [PATCH 02/41] fix: business_days_between counted the wrong end and
 never ended on an empty interval

---
 src/time/calendars.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/time/calendars.rs b/src/time/calendars.rs
index ce0bd3c..0ba15b3 100644
--- a/src/time/calendars.rs
+++ b/src/time/calendars.rs
@@ -317,17 +317,22 @@ pub trait Calendar: Debug {
         include_last: Option<bool>,
     ) -> i64 {
         if from > to {
-            return -self.business_days_between(to, from, include_first, include_last);
+            return -self.business_days_between(
+                to,
+                from,
+                Some(include_last.unwrap_or(false)),
+                Some(include_first.unwrap_or(true)),
+            );
         }
         let include_first = include_first.unwrap_or(true);
         let include_last = include_last.unwrap_or(false);
         let mut day_count = 0;
         let day_diff = ((to + Duration::try_days(if include_last { 1 } else { 0 }).unwrap())
-            - (from + Duration::try_days(if include_first { 1 } else { 0 }).unwrap()))
+            - (from + Duration::try_days(if include_first { 0 } else { 1 }).unwrap()))
         .num_days();
-        for date in (from + Duration::try_days(if include_first { 1 } else { 0 }).unwrap())
+        for date in (from + Duration::try_days(if include_first { 0 } else { 1 }).unwrap())
             .iter_days()
-            .take(day_diff as usize)
+            .take(day_diff.max(0) as usize)
         {
             if self.is_business_day(date) {
                 day_count += 1;
-- 
2.43.0


From 2f97410cee018b16f80f09583ec0ee6b2b83983d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:20 +0000
Subject: [PATCH 03/41] fix: Business/252 counted every interior month through
 to the end date

---
 src/time/daycounters/business252.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/time/daycounters/business252.rs b/src/time/daycounters/business252.rs
index c6becb3..c42f4c1 100644
--- a/src/time/daycounters/business252.rs
+++ b/src/time/daycounters/business252.rs
@@ -27,8 +27,9 @@ impl DayCounters for Business252 {
             let mut d = (NaiveDate::from_ymd_opt(d1.year(), d1.month(), 1).unwrap() + Months(1))?;
             total += self.calendar.business_days_between(d1, d, None, None);
             while !self.same_month(d, d2) {
-                total += self.calendar.business_days_between(d, d2, None, None);
-                d = (d + Months(1))?;
+                let next = (d + Months(1))?;
+                total += self.calendar.business_days_between(d, next, None, None);
+                d = next;
             }
             total += self.calendar.business_days_between(d, d2, None, None);
             Ok(total)
-- 
2.43.0


From 58e78bf82e1b3c713257884012bc956460a9eda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:20 +0000
Subject: [PATCH 04/41] fix: Actual/365 (No Leap) December offset

---
 src/time/daycounters/actual365fixed.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/time/daycounters/actual365fixed.rs b/src/time/daycounters/actual365fixed.rs
index 19057c6..e9896e8 100644
--- a/src/time/daycounters/actual365fixed.rs
+++ b/src/time/daycounters/actual365fixed.rs
@@ -21,7 +21,7 @@ impl Actual365Fixed {
     }
 
     fn nl_day_count(&self, d1: NaiveDate, d2: NaiveDate) -> i64 {
-        const MONTH_OFFSET: [i64; 12] = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 344];
+        const MONTH_OFFSET: [i64; 12] = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334];
         let mut s1 =
             d1.day() as i64 + MONTH_OFFSET[d1.month() as usize - 1usize] + (d1.year() as i64 * 365);
         let mut s2 =
-- 
2.43.0


From a267ebcd2a9aa5c129020fcb93e4336ab40c4b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:20 +0000
Subject: [PATCH 05/41] fix: Actual/Actual (ISDA) subtracted the stub periods
 instead of adding them

---
 src/time/daycounters/actualactual.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/time/daycounters/actualactual.rs b/src/time/daycounters/actualactual.rs
index c7ab213..a8534cb 100644
--- a/src/time/daycounters/actualactual.rs
+++ b/src/time/daycounters/actualactual.rs
@@ -19,14 +19,16 @@ impl ActualActual {
     fn isda_year_fraction(&self, d1: NaiveDate, d2: NaiveDate) -> f64 {
         if d1 == d2 {
             0f64
+        } else if d1 > d2 {
+            -self.isda_year_fraction(d2, d1)
         } else {
             let y1 = d1.year();
             let y2 = d2.year();
             let dib1 = if d1.leap_year() { 366f64 } else { 365f64 };
             let dib2 = if d2.leap_year() { 366f64 } else { 365f64 };
             let mut sum: f64 = (y2 - y1) as f64 - 1.0;
-            sum += (d1 - NaiveDate::from_ymd_opt(y1 + 1, 1, 1).unwrap()).num_days() as f64 / dib1;
-            sum += (NaiveDate::from_ymd_opt(y2, 1, 1).unwrap() - d2).num_days() as f64 / dib2;
+            sum += (NaiveDate::from_ymd_opt(y1 + 1, 1, 1).unwrap() - d1).num_days() as f64 / dib1;
+            sum += (d2 - NaiveDate::from_ymd_opt(y2, 1, 1).unwrap()).num_days() as f64 / dib2;
             sum
         }
     }
-- 
2.43.0


From c8440d14fb0ba41e1a919104c0c6132123b5b9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:20 +0000
Subject: [PATCH 06/41] fix: Actual/Actual (Euro/AFB) subtracted the stub
 period instead of adding it

---
 src/time/daycounters/actualactual.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/time/daycounters/actualactual.rs b/src/time/daycounters/actualactual.rs
index a8534cb..139ceb6 100644
--- a/src/time/daycounters/actualactual.rs
+++ b/src/time/daycounters/actualactual.rs
@@ -36,6 +36,8 @@ impl ActualActual {
     fn euro_year_fraction(&self, d1: NaiveDate, d2: NaiveDate) -> f64 {
         if d1 == d2 {
             0f64
+        } else if d1 > d2 {
+            -self.euro_year_fraction(d2, d1)
         } else {
             let mut new_d2 = d2;
             let mut temp = d2;
@@ -62,7 +64,7 @@ impl ActualActual {
                     den += 1.0;
                 }
             }
-            sum + (d1 - new_d2).num_days() as f64 / den
+            sum + (new_d2 - d1).num_days() as f64 / den
         }
     }
 }
-- 
2.43.0


From 7098e890c072f3d1d9c1b59504488484c44d1109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:36 +0000
Subject: [PATCH 07/41] fix: IMM next date did not advance the month after the
 third Wednesday

---
 src/time/imm.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/time/imm.rs b/src/time/imm.rs
index 51a8856..9806df0 100644
--- a/src/time/imm.rs
+++ b/src/time/imm.rs
@@ -132,8 +132,10 @@ impl IMM {
         if skip_months != offset || date.day() > 21 {
             skip_months += date.month();
             if skip_months > 12 {
-                month -= 12;
+                month = skip_months - 12;
                 year += 1;
+            } else {
+                month = skip_months;
             }
         }
         let mut result = self.nth_weekday(3, Weekday::Wed, month, year).unwrap();
-- 
2.43.0


From e6327627bd326911f5344f679ed18ae95d959023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:36 +0000
Subject: [PATCH 08/41] fix: IMM date panicked on lower-case codes that are
 valid IMM codes

---
 src/time/imm.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/time/imm.rs b/src/time/imm.rs
index 9806df0..3119210 100644
--- a/src/time/imm.rs
+++ b/src/time/imm.rs
@@ -104,7 +104,8 @@ impl IMM {
             let ref_date = ref_date.unwrap_or(chrono::offset::Utc::now().date_naive());
             let month = imm_code.chars().nth(0).unwrap();
             let mut year = imm_code.chars().nth(1).unwrap().to_digit(10).unwrap() as i32;
-            let imm_month = IMMMonth::from_str(&month.to_string()).unwrap() as u32;
+            let imm_month =
+                IMMMonth::from_str(&month.to_ascii_uppercase().to_string()).unwrap() as u32;
             if year == 0 && ref_date.year() <= 1909 {
                 year += 10
             }
-- 
2.43.0


From 073890dd89851616abd93d476ef5fb95a5539fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:55 +0000
Subject: [PATCH 09/41] fix: IMM code validation panicked on a two-byte single
 character

---
 src/time/imm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/time/imm.rs b/src/time/imm.rs
index 3119210..1e96bdb 100644
--- a/src/time/imm.rs
+++ b/src/time/imm.rs
@@ -50,7 +50,7 @@ impl IMM {
 
     /// IMM Codes are constructed by IMMMonth + year.
     pub fn is_imm_code(&self, imm_code: String, main_cycle: bool) -> bool {
-        if imm_code.len() != 2 {
+        if imm_code.chars().count() != 2 {
             return false;
         }
 
-- 
2.43.0


From 9c4fdae4f24b838a879084730e981e23f1652df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:17 +0000
Subject: [PATCH 10/41] fix: date plus or minus an out-of-range period panicked
 instead of returning PeriodOutOfBounds

---
 src/time/period.rs | 54 +++++++++++++++++++++++++---------------------
 1 file changed, 30 insertions(+), 24 deletions(-)

diff --git a/src/time/period.rs b/src/time/period.rs
index d2f0fe9..db84865 100644
--- a/src/time/period.rs
+++ b/src/time/period.rs
@@ -155,18 +155,21 @@ impl Add<Period> for NaiveDate {
             Period::TN => self + ONE_DAY,
             Period::SPOT => self,
             Period::SN => self + ONE_DAY,
-            Period::Days(num) => {
-                self + Duration::try_days(num).ok_or_else(|| {
-                    Error::PeriodOutOfBounds(format!("{num} days is out of bounds"))
-                })?
-            }
-            Period::Weeks(num) => {
-                self + Duration::try_days(num * 7).ok_or_else(|| {
-                    Error::PeriodOutOfBounds(format!("{num} weeks is out of bounds"))
-                })?
-            }
-            Period::Months(num) => self + Months::new(num),
-            Period::Years(num) => self + Months::new(num * 12),
+            Period::Days(num) => Duration::try_days(num)
+                .and_then(|days| self.checked_add_signed(days))
+                .ok_or_else(|| Error::PeriodOutOfBounds(format!("{num} days is out of bounds")))?,
+            Period::Weeks(num) => num
+                .checked_mul(7)
+                .and_then(Duration::try_days)
+                .and_then(|days| self.checked_add_signed(days))
+                .ok_or_else(|| Error::PeriodOutOfBounds(format!("{num} weeks is out of bounds")))?,
+            Period::Months(num) => self.checked_add_months(Months::new(num)).ok_or_else(|| {
+                Error::PeriodOutOfBounds(format!("{num} months is out of bounds"))
+            })?,
+            Period::Years(num) => num
+                .checked_mul(12)
+                .and_then(|months| self.checked_add_months(Months::new(months)))
+                .ok_or_else(|| Error::PeriodOutOfBounds(format!("{num} years is out of bounds")))?,
         };
 
         Ok(date)
@@ -182,18 +185,21 @@ impl Sub<Period> for NaiveDate {
             Period::TN => self - ONE_DAY,
             Period::SPOT => self,
             Period::SN => self - ONE_DAY,
-            Period::Days(num) => {
-                self - Duration::try_days(num).ok_or_else(|| {
-                    Error::PeriodOutOfBounds(format!("{num} days is out of bounds"))
-                })?
-            }
-            Period::Weeks(num) => {
-                self - Duration::try_days(num * 7).ok_or_else(|| {
-                    Error::PeriodOutOfBounds(format!("{num} weeks is out of bounds"))
-                })?
-            }
-            Period::Months(num) => self - Months::new(num),
-            Period::Years(num) => self - Months::new(num * 12),
+            Period::Days(num) => Duration::try_days(num)
+                .and_then(|days| self.checked_sub_signed(days))
+                .ok_or_else(|| Error::PeriodOutOfBounds(format!("{num} days is out of bounds")))?,
+            Period::Weeks(num) => num
+                .checked_mul(7)
+                .and_then(Duration::try_days)
+                .and_then(|days| self.checked_sub_signed(days))
+                .ok_or_else(|| Error::PeriodOutOfBounds(format!("{num} weeks is out of bounds")))?,
+            Period::Months(num) => self.checked_sub_months(Months::new(num)).ok_or_else(|| {
+                Error::PeriodOutOfBounds(format!("{num} months is out of bounds"))
+            })?,
+            Period::Years(num) => num
+                .checked_mul(12)
+                .and_then(|months| self.checked_sub_months(Months::new(months)))
+                .ok_or_else(|| Error::PeriodOutOfBounds(format!("{num} years is out of bounds")))?,
         };
 
         Ok(date)
-- 
2.43.0


From f879035afa94091ec939a066f166cf000481219c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:00 +0000
Subject: [PATCH 11/41] fix: end-of-month advance skipped a month when the
 adjusted date crossed the month end

---
 src/time/calendars.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/time/calendars.rs b/src/time/calendars.rs
index 0ba15b3..f0863d7 100644
--- a/src/time/calendars.rs
+++ b/src/time/calendars.rs
@@ -270,7 +270,7 @@ pub trait Calendar: Debug {
             Period::Months(_) | Period::Years(_) => {
                 let advance_date = (date + period)?;
                 Ok(if end_of_month {
-                    Some(self.end_of_month(self.adjust(advance_date, bdc).unwrap()))
+                    Some(self.end_of_month(advance_date))
                 } else {
                     self.adjust(advance_date, bdc)
                 })
-- 
2.43.0


From 7daa5e5455d1ff60ca009a5477dbe1967cf84d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:00 +0000
Subject: [PATCH 12/41] fix: Singapore 2010 Chinese New Year was listed in
 January

---
 src/time/calendars/singapore.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/time/calendars/singapore.rs b/src/time/calendars/singapore.rs
index 0987325..c885a61 100644
--- a/src/time/calendars/singapore.rs
+++ b/src/time/calendars/singapore.rs
@@ -32,7 +32,7 @@ impl Calendar for Singapore {
             || ((d == 19 || d == 20) && m == 2 && y == 2007)
             || ((d == 7 || d == 8) && m == 2 && y == 2008)
             || ((d == 26 || d == 27) && m == 1 && y == 2009)
-            || ((d == 15 || d == 16) && m == 1 && y == 2010)
+            || ((d == 15 || d == 16) && m == 2 && y == 2010)
             || ((d == 23 || d == 24) && m == 1 && y == 2012)
             || ((d == 11 || d == 12) && m == 2 && y == 2013)
             || (d == 31 && m == 1 && y == 2014)
-- 
2.43.0


From 5190284cda29af57ab021270fddd7baf812981d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:00 +0000
Subject: [PATCH 13/41] fix: US Federal Reserve moved a Saturday Juneteenth to
 Friday

---
 src/time/calendars/unitedstates.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/time/calendars/unitedstates.rs b/src/time/calendars/unitedstates.rs
index 79223ee..ad9217b 100644
--- a/src/time/calendars/unitedstates.rs
+++ b/src/time/calendars/unitedstates.rs
@@ -309,8 +309,8 @@ impl UnitedStates {
             || self.is_washington_birthday(date)
             // Memorial Day (last Monday in May)
             || self.is_memorial_day(date)
-            // Juneteenth (Monday if Sunday or Friday if Saturday)
-            || self.is_juneteenth(date)
+            // Juneteenth (Monday if Sunday, but no Saturday to Friday)
+            || (self.is_juneteenth(date) && d != 18)
             // Independence Day (Monday if Sunday)
             || ((d == 4 || (d == 5 && w == Weekday::Mon)) && m == 7)
             // Labor Day (first Monday in September)
-- 
2.43.0


From 09c72a05fc6b8b79d31449799d83546691318e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:00 +0000
Subject: [PATCH 14/41] fix: Japan equinoxes were only right in a few years

---
 src/time/calendars/japan.rs | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/time/calendars/japan.rs b/src/time/calendars/japan.rs
index 0e3e8f5..cb71da4 100644
--- a/src/time/calendars/japan.rs
+++ b/src/time/calendars/japan.rs
@@ -10,16 +10,26 @@ pub struct Japan;
 
 impl Japan {
     fn vernal_equinox_day(&self, y: i32) -> u32 {
-        match y {
-            2014 | 2015 | 2018 | 2019 | 2022 | 2023 | 2027 => 21,
-            _ => 20,
-        }
+        let base = match y {
+            ..1980 => 20.8357,
+            1980..2100 => 20.8431,
+            _ => 21.8510,
+        };
+        self.equinox_day(base, y)
     }
     fn autumnal_equinox_day(&self, y: i32) -> u32 {
-        match y {
-            2020 | 2024 | 2028 => 22,
-            _ => 23,
-        }
+        let base = match y {
+            ..1980 => 23.2588,
+            1980..2100 => 23.2488,
+            _ => 24.2488,
+        };
+        self.equinox_day(base, y)
+    }
+    // The usual approximation of the almanac: the equinox drifts by 0.242194 of a
+    // day a year and is pulled back by a day every leap year.
+    fn equinox_day(&self, base: f64, y: i32) -> u32 {
+        let leap_days = if y < 1980 { (y - 1983) / 4 } else { (y - 1980) / 4 };
+        (base + 0.242194 * f64::from(y - 1980) - f64::from(leap_days)) as u32
     }
 }
 
-- 
2.43.0


From 309475f3bfc178c380646e4d12e8affe0f19441b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:57 +0000
Subject: [PATCH 15/41] fix: Ukraine closed on the Western instead of the
 Orthodox Easter Monday and Trinity

---
 src/time/calendars/ukraine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/time/calendars/ukraine.rs b/src/time/calendars/ukraine.rs
index 789e73a..03745ab 100644
--- a/src/time/calendars/ukraine.rs
+++ b/src/time/calendars/ukraine.rs
@@ -12,7 +12,7 @@ pub struct Ukraine;
 impl Calendar for Ukraine {
     fn is_business_day(&self, date: NaiveDate) -> bool {
         let (d, w, m, y, dd) = self.naive_date_to_dkmy(date);
-        let em = self.easter_monday(y);
+        let em = self.orthodox_easter_monday(y);
         if self.is_weekend(date)
             // New Year's Day (possibly moved to Weekday::Mon)
             || ((d == 1 || ((d == 2 || d == 3) && w == Weekday::Mon))
-- 
2.43.0


From 6bf418ec17402161a56a15dca6b69b273c928a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:57 +0000
Subject: [PATCH 16/41] fix: Israel New Year 2001 and Independence Day 2038
 dates

---
 src/time/calendars/israel.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/time/calendars/israel.rs b/src/time/calendars/israel.rs
index ba4e307..42ca363 100644
--- a/src/time/calendars/israel.rs
+++ b/src/time/calendars/israel.rs
@@ -263,7 +263,7 @@ pub static INDEPENDENCE_DAY: Lazy<HashSet<(u32, u32, i32)>> = Lazy::new(|| {
         (15, 5, 2035),
         (1, 5, 2036),
         (21, 4, 2037),
-        (10, 5, 2038),
+        (11, 5, 2038),
         (28, 4, 2039),
         (18, 4, 2040),
         (7, 5, 2041),
@@ -394,7 +394,7 @@ pub static FAST_DAY: Lazy<HashSet<(u32, u32, i32)>> = Lazy::new(|| {
 pub static NEW_YEAR: Lazy<HashSet<(u32, u32, i32)>> = Lazy::new(|| {
     HashSet::from([
         (30, 9, 2000),
-        (17, 9, 2001),
+        (18, 9, 2001),
         (7, 9, 2002),
         (27, 9, 2003),
         (16, 9, 2004),
-- 
2.43.0


From 71c189a70a359c01776ed8c0fe977fa602e3f4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:23 +0000
Subject: [PATCH 17/41] fix: Taiwan 2010 Lunar New Year and Dragon Boat
 Festival were listed a month early

---
 src/time/calendars/taiwan.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/time/calendars/taiwan.rs b/src/time/calendars/taiwan.rs
index c938ffb..7180847 100644
--- a/src/time/calendars/taiwan.rs
+++ b/src/time/calendars/taiwan.rs
@@ -107,11 +107,11 @@ impl Calendar for Taiwan {
             return false;
         }
         // Year 2010
-        // Lunar New Year 01-13 to 01-21
-        // Dragon Boat Festival 05-16
+        // Lunar New Year 02-13 to 02-21
+        // Dragon Boat Festival 06-16
         // Moon Festival 09-22
         if (y == 2010)
-            && (((13..=21).contains(&d) && m == 1) || (d == 16 && m == 5) || (d == 22 && m == 9))
+            && (((13..=21).contains(&d) && m == 2) || (d == 16 && m == 6) || (d == 22 && m == 9))
         {
             return false;
         }
-- 
2.43.0


From d95cf6e1ebbebafa90733814adfdb12bf95b5c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:30 +0000
Subject: [PATCH 18/41] fix: extrapolate the yield curve flat from its last
 pillar, not from its first

---
 src/markets/termstructures/yieldcurve.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/markets/termstructures/yieldcurve.rs b/src/markets/termstructures/yieldcurve.rs
index 4646b6a..a4943bd 100644
--- a/src/markets/termstructures/yieldcurve.rs
+++ b/src/markets/termstructures/yieldcurve.rs
@@ -234,6 +234,17 @@ impl YieldTermStructure {
                 break;
             }
         }
+        // Beyond the last usable pillar the curve is extrapolated flat.
+        let last_pillar = self
+            .stripped_curves
+            .iter()
+            .filter(|pillar| !pillar.hidden_pillar)
+            .max_by_key(|pillar| pillar.date);
+        if let Some(last) = last_pillar
+            && target_date > last.date
+        {
+            return last.zero_rate;
+        }
         if second == true_first {
             true_first.zero_rate
         } else {
-- 
2.43.0


From 2b275f13d6d182551acc7b7cb71a7222699c4742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:31 +0000
Subject: [PATCH 19/41] fix: AONIA follows the Australian calendar, not the
 Austrian one

---
 src/markets/interestrate/interestrateindex.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/markets/interestrate/interestrateindex.rs b/src/markets/interestrate/interestrateindex.rs
index e0f24be..31da32e 100644
--- a/src/markets/interestrate/interestrateindex.rs
+++ b/src/markets/interestrate/interestrateindex.rs
@@ -1,7 +1,7 @@
 use crate::time::businessdayconvention::BusinessDayConvention;
 use crate::time::calendars::unitedkingdom::UnitedKingdomMarket;
 use crate::time::calendars::unitedstates::UnitedStatesMarket;
-use crate::time::calendars::{Austria, Calendar, Target, UnitedKingdom, UnitedStates};
+use crate::time::calendars::{Australia, Calendar, Target, UnitedKingdom, UnitedStates};
 use crate::time::daycounters::DayCounters;
 use crate::time::daycounters::actual360::Actual360;
 use crate::time::daycounters::actual365fixed::Actual365Fixed;
@@ -41,7 +41,7 @@ impl InterestRateIndex {
                 period: Period::SPOT,
                 settlement_days: 0,
                 currency: AUD,
-                calendar: Box::<Austria>::default(),
+                calendar: Box::<Australia>::default(),
                 convention: BusinessDayConvention::ModifiedFollowing,
                 day_counter: Box::<Actual365Fixed>::default(),
                 end_of_month: false,
-- 
2.43.0


From a7502cedabab63aa383e83ac7ea8ab2d5a05f9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:31 +0000
Subject: [PATCH 20/41] fix: CDOR is a CAD rate on the Canadian calendar

---
 src/markets/interestrate/interestrateindex.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/markets/interestrate/interestrateindex.rs b/src/markets/interestrate/interestrateindex.rs
index 31da32e..e61c909 100644
--- a/src/markets/interestrate/interestrateindex.rs
+++ b/src/markets/interestrate/interestrateindex.rs
@@ -1,13 +1,13 @@
 use crate::time::businessdayconvention::BusinessDayConvention;
 use crate::time::calendars::unitedkingdom::UnitedKingdomMarket;
 use crate::time::calendars::unitedstates::UnitedStatesMarket;
-use crate::time::calendars::{Australia, Calendar, Target, UnitedKingdom, UnitedStates};
+use crate::time::calendars::{Australia, Calendar, Canada, Target, UnitedKingdom, UnitedStates};
 use crate::time::daycounters::DayCounters;
 use crate::time::daycounters::actual360::Actual360;
 use crate::time::daycounters::actual365fixed::Actual365Fixed;
 use crate::time::period::Period;
 use iso_currency::Currency;
-use iso_currency::Currency::{AUD, EUR, GBP, USD};
+use iso_currency::Currency::{AUD, CAD, EUR, GBP, USD};
 use serde::{Deserialize, Serialize};
 
 #[allow(clippy::upper_case_acronyms)]
@@ -49,10 +49,8 @@ impl InterestRateIndex {
             InterestRateIndexEnum::CDOR(period) => Some(InterestRateIndex {
                 period,
                 settlement_days: 0,
-                currency: USD,
-                calendar: Box::new(UnitedStates {
-                    market: Some(UnitedStatesMarket::SOFR),
-                }),
+                currency: CAD,
+                calendar: Box::<Canada>::default(),
                 convention: BusinessDayConvention::ModifiedFollowing,
                 day_counter: Box::new(Actual360),
                 end_of_month: false,
-- 
2.43.0


From e4cdd48e61254f214229268d1e134542a0a31390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:59 +0000
Subject: [PATCH 21/41] fix: swap pillars publish their discount factor instead
 of zero

---
 src/markets/termstructures/yieldcurve.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/markets/termstructures/yieldcurve.rs b/src/markets/termstructures/yieldcurve.rs
index a4943bd..af724d7 100644
--- a/src/markets/termstructures/yieldcurve.rs
+++ b/src/markets/termstructures/yieldcurve.rs
@@ -164,7 +164,11 @@ impl YieldTermMarketData {
                 source: swap.yts_type(),
             });
             let zero_rate = swap.solve_zero_rate(self.valuation_date, outputs.clone());
-            outputs.last_mut().unwrap().zero_rate = zero_rate;
+            let pillar = outputs.last_mut().unwrap();
+            pillar.zero_rate = zero_rate;
+            pillar.discount = (-zero_rate
+                * Actual365Fixed::default().year_fraction(self.valuation_date, pillar.date)?)
+            .exp();
         }
         Ok(outputs)
     }
-- 
2.43.0


From f3aa0c8ab1d42d795ef5b4fc761831c3ecb30fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:06 +0000
Subject: [PATCH 22/41] fix: count swap periods in a common unit when duration
 and tenor units differ

---
 src/derivatives/interestrate/swap.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/derivatives/interestrate/swap.rs b/src/derivatives/interestrate/swap.rs
index e258896..499be86 100644
--- a/src/derivatives/interestrate/swap.rs
+++ b/src/derivatives/interestrate/swap.rs
@@ -128,12 +128,28 @@ impl InterestRateSwapLeg {
             let effective_date = self.effective_date(valuation_date)?.unwrap();
 
             // TODO: amortisation
-            let tenor_num = match self.schedule_detail.tenor {
+            let (duration, tenor) =
+                match (self.schedule_detail.duration, self.schedule_detail.tenor) {
+                    (Period::Years(years), tenor @ Period::Months(_)) => {
+                        (Period::Months(12 * years), tenor)
+                    }
+                    (duration @ Period::Months(_), Period::Years(years)) => {
+                        (duration, Period::Months(12 * years))
+                    }
+                    (Period::Weeks(weeks), tenor @ Period::Days(_)) => {
+                        (Period::Days(7 * weeks), tenor)
+                    }
+                    (duration @ Period::Days(_), Period::Weeks(weeks)) => {
+                        (duration, Period::Days(7 * weeks))
+                    }
+                    same_unit => same_unit,
+                };
+            let tenor_num = match tenor {
                 Period::Days(num) | Period::Weeks(num) => num as u32,
                 Period::Months(num) | Period::Years(num) => num,
                 _ => 1,
             };
-            let duration_num = match self.schedule_detail.duration {
+            let duration_num = match duration {
                 Period::Days(num) | Period::Weeks(num) => num as u32,
                 Period::Months(num) | Period::Years(num) => num,
                 _ => 1,
-- 
2.43.0


From 34cdcff1b674a57274abf1f85e045ddd37e12080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:18 +0000
Subject: [PATCH 23/41] fix: caplet surface reprices every quote of a
 non-rectangular strike grid

---
 src/markets/interestrate/volsurface.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/markets/interestrate/volsurface.rs b/src/markets/interestrate/volsurface.rs
index 5c5f969..3a04586 100644
--- a/src/markets/interestrate/volsurface.rs
+++ b/src/markets/interestrate/volsurface.rs
@@ -134,8 +134,9 @@ pub struct CapletVolPillar {
 /// by strike, run an independent 1-D sequential bootstrap per strike across
 /// the maturities that strike was quoted at, then assemble pillars by taking
 /// the union of all seen maturities. Non-rectangular grids are supported —
-/// at a given expiry, a strike is represented by the most-recent (≤ expiry)
-/// stripped σ on its column.
+/// at a given expiry, a strike is represented by the σ its own column was
+/// stripped with there (the first strip point with expiry ≥ the pillar's,
+/// flat beyond the column's last one).
 #[derive(Debug)]
 pub struct IRNormalVolSurface {
     pub valuation_date: NaiveDate,
@@ -278,9 +279,10 @@ fn strip_caplet_vols(
     all_expiries.sort();
     all_expiries.dedup();
 
-    // 4. Build one pillar per expiry. For each strike column, pick the most
-    //    recent strip point whose expiry ≤ the pillar expiry. Columns with
-    //    no contribution at or before this expiry simply don't participate.
+    // 4. Build one pillar per expiry. Each strike column contributes the σ it
+    //    was stripped with at that expiry: the first strip point whose expiry
+    //    is on or after the pillar, flat beyond the column's last point. Any
+    //    other choice would not reprice the quotes of a non-rectangular grid.
     let mut pillars: Vec<CapletVolPillar> = Vec::with_capacity(all_expiries.len());
     for exp in all_expiries {
         let mut nodes: Vec<(f64, f64)> = columns
@@ -288,7 +290,8 @@ fn strip_caplet_vols(
             .filter_map(|(k, strip)| {
                 strip
                     .iter()
-                    .rfind(|p| p.expiry <= exp)
+                    .find(|p| exp <= p.expiry)
+                    .or(strip.last())
                     .map(|p| (*k, p.sigma))
             })
             .collect();
-- 
2.43.0


From bdee064cc0e8a558353403312fb261d06514b54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:46 +0000
Subject: [PATCH 24/41] fix: a quote starting past the last pillar discounts
 from the last pillar, not the first

---
 src/markets/termstructures/yieldcurve.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/markets/termstructures/yieldcurve.rs b/src/markets/termstructures/yieldcurve.rs
index af724d7..af2f875 100644
--- a/src/markets/termstructures/yieldcurve.rs
+++ b/src/markets/termstructures/yieldcurve.rs
@@ -62,6 +62,12 @@ pub trait InterestRateQuote {
             }
             first = stripped_curve;
         }
+        // Past the last pillar, the last pillar is the closest one.
+        if let Some(last) = stripped_curves.iter().max_by_key(|curve| curve.date)
+            && target_date > last.date
+        {
+            return last;
+        }
         if second == stripped_curves.first().unwrap() {
             first = stripped_curves.first().unwrap();
         }
-- 
2.43.0


From 1419e1227534dc5f336b8d5e1ce74eb71fd42945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:19 +0000
Subject: [PATCH 25/41] fix: hidden pillars no longer bend the curve between
 their neighbours

---
 src/markets/termstructures/yieldcurve.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/markets/termstructures/yieldcurve.rs b/src/markets/termstructures/yieldcurve.rs
index af2f875..62b6e22 100644
--- a/src/markets/termstructures/yieldcurve.rs
+++ b/src/markets/termstructures/yieldcurve.rs
@@ -236,7 +236,9 @@ impl YieldTermStructure {
                 second = strip_curve;
                 break;
             }
-            first = strip_curve;
+            if !strip_curve.hidden_pillar {
+                first = strip_curve;
+            }
         }
         for strip_curve in &self.stripped_curves {
             if !strip_curve.hidden_pillar {
-- 
2.43.0


From e6aaa86d6a06f950e1b57c22961260f1bc7de543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:56 +0000
Subject: [PATCH 26/41] fix: swap stripping finds negative zero rates

---
 src/derivatives/interestrate/swap.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/derivatives/interestrate/swap.rs b/src/derivatives/interestrate/swap.rs
index 499be86..62d5ac8 100644
--- a/src/derivatives/interestrate/swap.rs
+++ b/src/derivatives/interestrate/swap.rs
@@ -287,7 +287,7 @@ impl InterestRateSwap {
             self.calculate_npv(x, valuation_date, &mut stripped_curves.to_vec())
                 .unwrap()
         };
-        let root = find_root_brent(0f64, 0.5f64, &mut f, &mut convergency);
+        let root = find_root_brent(-0.5f64, 0.5f64, &mut f, &mut convergency);
         root.unwrap()
     }
 
-- 
2.43.0


From 98d3c7cab27b21fd05c7ee8cc2064bea43f6c02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:56 +0000
Subject: [PATCH 27/41] fix: a failed caplet strip leaves the surface as it was

---
 src/markets/interestrate/volsurface.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/markets/interestrate/volsurface.rs b/src/markets/interestrate/volsurface.rs
index 3a04586..b220f06 100644
--- a/src/markets/interestrate/volsurface.rs
+++ b/src/markets/interestrate/volsurface.rs
@@ -154,8 +154,8 @@ impl IRNormalVolSurface {
     /// Re-strip the surface from raw cap market quotes. Uses `yts` to compute
     /// forwards and discount factors.
     pub fn rebuild(&mut self, yts: &YieldTermStructure, md: &IRCapMarketData) -> Result<()> {
-        self.valuation_date = md.valuation_date;
         self.pillars = strip_caplet_vols(yts, md)?;
+        self.valuation_date = md.valuation_date;
         Ok(())
     }
 
-- 
2.43.0


From e00989b688931e7d6d24a8b9e4db71a72e81ddab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:04 +0000
Subject: [PATCH 28/41] fix: a first future maturing with the cash strip no
 longer has an infinite zero rate

---
 src/markets/termstructures/yieldcurve/ratehelper.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/markets/termstructures/yieldcurve/ratehelper.rs b/src/markets/termstructures/yieldcurve/ratehelper.rs
index 0cb1238..1a656ad 100644
--- a/src/markets/termstructures/yieldcurve/ratehelper.rs
+++ b/src/markets/termstructures/yieldcurve/ratehelper.rs
@@ -56,7 +56,11 @@ impl FuturesRate {
         }
         let target_discount = self.discount(valuation_date, stripped_curves)?;
         let maturity_date = self.maturity_date(valuation_date)?;
-        let zero_rate = if is_first {
+        // There is a stub to strip only when the contract outlives the earlier pillars.
+        let outlives_pillars = stripped_curves
+            .last()
+            .is_some_and(|last| maturity_date > last.date);
+        let zero_rate = if is_first && outlives_pillars {
             let mut cum_discount = 1f64;
             for i in 0..stripped_curves.len() {
                 let accrual_start_date = if i == 0 {
-- 
2.43.0


From 30514d8c66f3d406de9662d0bccf8b6bd091356b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:14 +0000
Subject: [PATCH 29/41] fix: forward_at returns the outright forward it
 documents, not the raw points

---
 src/markets/forex/market_context.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/markets/forex/market_context.rs b/src/markets/forex/market_context.rs
index 6e2f5c2..4cb4e15 100644
--- a/src/markets/forex/market_context.rs
+++ b/src/markets/forex/market_context.rs
@@ -41,6 +41,7 @@
 //!      └─ Simulator::from_market(&ctx)                       ← MC paths
 //! ```
 
+use crate::derivatives::forex::basic::FXUnderlying;
 use crate::error::{Error, Result};
 use crate::markets::forex::quotes::forwardpoints::{FXForwardHelper, FXForwardQuote};
 use crate::markets::forex::quotes::volsurface::{FXDeltaVolPillar, FXVolQuote, FXVolSurface};
@@ -158,12 +159,15 @@ impl FxMarketContext {
     /// settlement calendar for the pair (typically the joint
     /// domestic/foreign calendar).
     pub fn forward_at(&self, date: NaiveDate, calendar: &dyn Calendar) -> Result<f64> {
-        self.forwards.get_forward(date, calendar)?.ok_or_else(|| {
+        let points = self.forwards.get_forward(date, calendar)?.ok_or_else(|| {
             Error::InvalidData(format!(
                 "FxMarketContext.forward_at({}): outside forward range ({} → ...)",
                 date, self.valuation_date,
             ))
-        })
+        })?;
+        let converter =
+            underlying(self.pair).map_or(10000f64, |asset| asset.forward_points_converter());
+        Ok(self.spot + points / converter)
     }
 
     /// Domestic zero rate via step-function-forward interpolation.
@@ -229,6 +233,13 @@ impl FxMarketContext {
     }
 }
 
+/// The known underlying of a `(domestic, foreign)` pair.
+fn underlying((domestic, foreign): (Currency, Currency)) -> Option<FXUnderlying> {
+    format!("{}{}", foreign.code(), domestic.code())
+        .parse()
+        .ok()
+}
+
 /// One-pillar flat-10%-vol surface — shared helper used by the
 /// `for_linear` constructor and by tests that need a placeholder
 /// surface. Includes a symmetric 25Δ put/call pair so
-- 
2.43.0


From 2e9cf3590ec103d37015d3b300d3ed318468684d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:02 +0000
Subject: [PATCH 30/41] fix: FX contexts built from raw quotes use the pair's
 own spot lag

---
 src/markets/forex/market_context.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/markets/forex/market_context.rs b/src/markets/forex/market_context.rs
index 4cb4e15..c1fcd69 100644
--- a/src/markets/forex/market_context.rs
+++ b/src/markets/forex/market_context.rs
@@ -141,7 +141,10 @@ impl FxMarketContext {
             valuation_date,
             foreign_ir.get_stripped_curve()?,
         );
-        let forwards = FXForwardHelper::new(valuation_date, spot, fx_forward_quotes);
+        let forwards = match underlying(pair) {
+            Some(asset) => asset.forward_helper(valuation_date, spot, fx_forward_quotes),
+            None => FXForwardHelper::new(valuation_date, spot, fx_forward_quotes),
+        };
         let vol_surface = FXVolSurface::new(valuation_date, vol_pillars)?;
         Ok(Self::new(
             valuation_date,
-- 
2.43.0


From 99fc5ce896c9d5d0e4d23306f6d07bb5a16ad2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:10 +0000
Subject: [PATCH 31/41] fix: option delta and gamma convert a domestic notional
 to base currency like vega and mtm

---
 src/derivatives/forex/option.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/derivatives/forex/option.rs b/src/derivatives/forex/option.rs
index c1f96a5..8a6480b 100644
--- a/src/derivatives/forex/option.rs
+++ b/src/derivatives/forex/option.rs
@@ -141,6 +141,15 @@ impl FXVanillaOption {
     fn direction_sign(&self) -> f64 {
         self.basic_info.direction as i8 as f64
     }
+
+    /// Notional in the foreign (base) currency.
+    fn base_notional(&self) -> f64 {
+        if self.notional_currency == self.asset.frn_currency() {
+            self.notional_amounts
+        } else {
+            self.notional_amounts / self.strike
+        }
+    }
 }
 
 impl FXDerivatives for FXVanillaOption {
@@ -185,7 +194,7 @@ impl FXDerivatives for FXVanillaOption {
         let ctx = self.bs_context(market)?;
         let omega = self.option_type.omega();
         let fwd_delta_per_unit = omega * cdf(omega * ctx.d1);
-        let delta = self.notional_amounts * self.direction_sign() * fwd_delta_per_unit;
+        let delta = self.base_notional() * self.direction_sign() * fwd_delta_per_unit;
         Ok(CurrencyValue {
             currency: self.asset.frn_currency(),
             value: delta,
@@ -200,7 +209,7 @@ impl FXDerivatives for FXVanillaOption {
             return Ok(0.0);
         }
         let gamma_per_unit = ctx.discount * pdf(ctx.d1) / (ctx.forward * ctx.sqrt_v);
-        Ok(self.notional_amounts * self.direction_sign() * gamma_per_unit)
+        Ok(self.base_notional() * self.direction_sign() * gamma_per_unit)
     }
 
     /// Black-Scholes vega per **1 % change** in volatility, converted to the
-- 
2.43.0


From 0490b0b9ce76332e0bfc5b67b26bc7668baebb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:44 +0000
Subject: [PATCH 32/41] fix: an observing yield curve takes over the market
 data's valuation date

---
 src/markets/termstructures/yieldcurve.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/markets/termstructures/yieldcurve.rs b/src/markets/termstructures/yieldcurve.rs
index 62b6e22..386354d 100644
--- a/src/markets/termstructures/yieldcurve.rs
+++ b/src/markets/termstructures/yieldcurve.rs
@@ -338,6 +338,7 @@ impl Observer for YieldTermStructure {
         if let Some(concrete_observable) = observable.as_any().downcast_ref::<YieldTermMarketData>()
         {
             self.stripped_curves = concrete_observable.get_stripped_curve()?;
+            self.valuation_date = concrete_observable.valuation_date;
             Ok(())
         } else {
             Ok(())
-- 
2.43.0


From 2123fab64e4f394a3151e86f8c52b61ae86af800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:03 +0000
Subject: [PATCH 33/41] fix: Hull-White integrated bond variance had the wrong
 signs in its antiderivative

---
 src/models/interestrate/hull_white.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/models/interestrate/hull_white.rs b/src/models/interestrate/hull_white.rs
index 42dcd6d..e8abba1 100644
--- a/src/models/interestrate/hull_white.rs
+++ b/src/models/interestrate/hull_white.rs
@@ -74,7 +74,7 @@ impl HullWhite1F {
         let lambda = self.mean_reversion;
         let tau_fn = |s: f64| -> f64 {
             // antiderivative of [(e^{-λ(T-s)} - 1)/λ]² wrt s
-            //   = (1/λ²)·[ (−1/(2λ))·e^{−2λ(T−s)} + (2/λ)·e^{−λ(T−s)} + s ] + C
+            //   = (1/λ²)·[ (1/(2λ))·e^{−2λ(T−s)} − (2/λ)·e^{−λ(T−s)} + s ] + C
             // Apply at (s₁, s₂), take the difference.
             if lambda.abs() < 1.0e-12 {
                 // Ho–Lee limit:  B = -(T − s)  ⇒  ∫ B² ds = (T-s)³ / 3 evaluated
@@ -83,7 +83,7 @@ impl HullWhite1F {
             }
             let e1 = (-lambda * (big_t - s)).exp();
             let e2 = (-2.0 * lambda * (big_t - s)).exp();
-            (1.0 / (lambda * lambda)) * (-0.5 / lambda * e2 + 2.0 / lambda * e1 + s)
+            (1.0 / (lambda * lambda)) * (0.5 / lambda * e2 - 2.0 / lambda * e1 + s)
         };
         eta * eta * (tau_fn(s2) - tau_fn(s1))
     }
-- 
2.43.0


From 6fe6b5e621da10d4ea0178a294fed5f905095715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:22 +0000
Subject: [PATCH 34/41] fix: FX-HHW ChF reads phi and the bond durations at the
 same time as C

---
 src/models/forex/fx_hhw1_chf.rs | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/models/forex/fx_hhw1_chf.rs b/src/models/forex/fx_hhw1_chf.rs
index e23d0e2..d20baae 100644
--- a/src/models/forex/fx_hhw1_chf.rs
+++ b/src/models/forex/fx_hhw1_chf.rs
@@ -67,15 +67,15 @@ pub struct FxHhw1ForwardChf<'a> {
 }
 
 /// Cache of `u`-independent integrand pieces on the Simpson grid for
-/// `s ∈ {0, h, 2h, …, n·h = expiry}`.
+/// times to maturity `s ∈ {0, h, 2h, …, n·h = expiry}`.
 #[derive(Clone, Debug)]
 struct SimpsonGrid {
     h: f64,
-    /// `φ(s_k) = E[√σ(s_k)]`.
+    /// `φ(T − s_k) = E[√σ(T − s_k)]`.
     phi: Vec<f64>,
-    /// `B_d(s_k, expiry)`.
+    /// `B_d(T − s_k, T)`.
     bd: Vec<f64>,
-    /// `B_f(s_k, expiry)`.
+    /// `B_f(T − s_k, T)`.
     bf: Vec<f64>,
     /// `ζ_no_phi(s_k) = ρ_df η_d η_f B_d B_f − ½(η_d² B_d² + η_f² B_f²)`
     /// (the part of `ζ(s)` that doesn't multiply `φ`).
@@ -97,9 +97,10 @@ impl SimpsonGrid {
         let rho = &params.correlations;
         for k in 0..=n {
             let s = k as f64 * h;
-            let p = params.heston.sqrt_mean(s);
-            let bds = params.domestic.b(s, expiry);
-            let bfs = params.foreign.b(s, expiry);
+            let t = expiry - s;
+            let p = params.heston.sqrt_mean(t);
+            let bds = params.domestic.b(t, expiry);
+            let bfs = params.foreign.b(t, expiry);
             phi.push(p);
             bd.push(bds);
             bf.push(bfs);
@@ -145,7 +146,7 @@ impl<'a> FxHhw1ForwardChf<'a> {
         self.params
     }
 
-    /// Components `(A, B, C)(u, τ)` for an arbitrary `u` and elapsed time
+    /// Components `(A, B, C)(u, τ)` for an arbitrary `u` and time to maturity
     /// `tau ∈ [0, expiry]`. Uses the cached Simpson grid only when
     /// `tau == expiry`; otherwise falls back to on-the-fly evaluation.
     pub fn components(&self, u: Complex64, tau: f64) -> ChfComponents {
@@ -281,17 +282,18 @@ fn a_of_tau_cached(u: Complex64, params: &FxHhwParams, grid: &SimpsonGrid) -> Co
     acc * (grid.h / 3.0)
 }
 
-/// `A'(s)` integrand. `s` is the running time inside the quadrature,
-/// `big_t` is the fixed expiry used in `B_d(s, T)`, `B_f(s, T)`.
+/// `A'(s)` integrand. `s` is the time to maturity at which `C(s)` is taken,
+/// so `φ`, `B_d` and `B_f` are read at the calendar time `T − s`.
 fn integrand(u: Complex64, s: f64, big_t: f64, params: &FxHhwParams) -> Complex64 {
     let c = c_of_tau(u, s, params);
     let iu = Complex64::new(0.0, 1.0) * u;
     let one_minus_iu = Complex64::new(1.0, 0.0) - iu;
     let u2_plus_iu = u * u + iu;
 
-    let phi = params.heston.sqrt_mean(s);
-    let bd = params.domestic.b(s, big_t);
-    let bf = params.foreign.b(s, big_t);
+    let t = big_t - s;
+    let phi = params.heston.sqrt_mean(t);
+    let bd = params.domestic.b(t, big_t);
+    let bf = params.foreign.b(t, big_t);
     let eta_d = params.domestic.sigma;
     let eta_f = params.foreign.sigma;
     let rho = &params.correlations;
-- 
2.43.0


From a4d3ae5ee0cbafdc3eb029e577371c73271d6d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:22 +0000
Subject: [PATCH 35/41] fix: simulate_at_dates records observation dates the
 day count gives no time to

---
 src/models/common/simulation.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/models/common/simulation.rs b/src/models/common/simulation.rs
index 6c831db..c72462d 100644
--- a/src/models/common/simulation.rs
+++ b/src/models/common/simulation.rs
@@ -156,11 +156,13 @@ pub fn simulate_at_dates<M: SimulationModel>(
         let mut next_obs = 0_usize;
         for i in 1..grid.len() {
             let dt = yf[i] - yf[i - 1];
-            if dt <= 0.0 {
-                continue;
+            // A day count can give no time to a pair of dates (the 30th and
+            // 31st under 30/360): the state stands still, but a date that was
+            // asked for is still observed.
+            if dt > 0.0 {
+                let t_mid = 0.5 * (yf[i] + yf[i - 1]);
+                state = model.step(&state, t_mid, dt);
             }
-            let t_mid = 0.5 * (yf[i] + yf[i - 1]);
-            state = model.step(&state, t_mid, dt);
             while next_obs < obs_indices.len() && obs_indices[next_obs] == i {
                 path.push(state.clone());
                 next_obs += 1;
-- 
2.43.0


From dbed3dc97f60f482e7f4074eb85cc65604a3cecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:22 +0000
Subject: [PATCH 36/41] fix: CIR small-time expansion of E[sqrt] applies its
 correction outside the root

---
 src/models/common/cir.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/common/cir.rs b/src/models/common/cir.rs
index ab5b413..bf0c731 100644
--- a/src/models/common/cir.rs
+++ b/src/models/common/cir.rs
@@ -111,7 +111,7 @@ impl CirProcess {
         if eps > 500.0 {
             let m = self.mean(t).max(1.0e-300);
             let v = self.variance(t);
-            return (m * (1.0 - v / (8.0 * m * m))).max(0.0).sqrt();
+            return m.sqrt() * (1.0 - v / (8.0 * m * m)).max(0.0);
         }
 
         // Σ_{k≥0}  (ε/2)^k / k!  · Γ((ℓ+1)/2 + k) / Γ(ℓ/2 + k).
-- 
2.43.0


From bce9302509acd9c2ce847c2952945047ad2960eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:22 +0000
Subject: [PATCH 37/41] fix: time-dependent SABR calibration carries the
 clamped correlation to later pillars

---
 src/models/forex/sabr_time_dependent_calibrator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/forex/sabr_time_dependent_calibrator.rs b/src/models/forex/sabr_time_dependent_calibrator.rs
index 3ea25c1..77a763d 100644
--- a/src/models/forex/sabr_time_dependent_calibrator.rs
+++ b/src/models/forex/sabr_time_dependent_calibrator.rs
@@ -237,7 +237,6 @@ pub fn calibrate_time_dependent(
         );
         let rhs = target * gamma_tilde * t / omega_tilde;
         let rho_i = (rhs - tail_sum) / s_i;
-        tail_sum += rho_i * s_i;
 
         // Clamp into `(−1, 1)` — the calibration target is a smile
         // quantity, not a correlation, so a slight boundary violation
@@ -245,6 +244,7 @@ pub fn calibrate_time_dependent(
         // with a logged warning is benign; callers that need strict
         // bounds should add a pillar.
         let rho_i_clamped = rho_i.clamp(-0.999, 0.999);
+        tail_sum += rho_i_clamped * s_i;
         rho_values.push(rho_i_clamped);
     }
     let rho_sched = PiecewiseConstant::new(knots, rho_values);
-- 
2.43.0


From dd3c584b470c321fbe0addf1fb9771fa71b922bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:07 +0000
Subject: [PATCH 38/41] fix: FMM front-stub state takes the shock of the very
 first step

---
 src/models/forex/fx_fmm_simulator.rs | 2 +-
 src/models/interestrate/fmm.rs       | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/models/forex/fx_fmm_simulator.rs b/src/models/forex/fx_fmm_simulator.rs
index 79bc89e..8dfc560 100644
--- a/src/models/forex/fx_fmm_simulator.rs
+++ b/src/models/forex/fx_fmm_simulator.rs
@@ -259,7 +259,7 @@ impl FxFmmSimulator {
             let k = eta_old;
             let tk_minus_1 = tenor.dates[k - 1];
             let tk = tenor.dates[k];
-            if t > tk_minus_1 && t < tk {
+            if t >= tk_minus_1 && t < tk {
                 let tau_k = tenor.tau(k);
                 let g_k = 1.0 / tau_k; // linear decay
                 let r_d_mid = 0.5 * (state.rates_d[k - 1] + new_rates_d[k - 1]);
diff --git a/src/models/interestrate/fmm.rs b/src/models/interestrate/fmm.rs
index 48dd7c8..7a491d0 100644
--- a/src/models/interestrate/fmm.rs
+++ b/src/models/interestrate/fmm.rs
@@ -502,14 +502,14 @@ impl FmmSimulator {
 
         // Evolve x_k(t) for the currently-active rate k = η_old via
         // paper eq. (33): dx_k = g_k(t) y_k(t) dt + (σ_k·L_k)/(R_k+1/τ_k) dW_k.
-        // Only meaningful inside the period (t_{k-1} < t < T_k). The σ·L
+        // Only meaningful inside the period (t_{k-1} ≤ t < T_k). The σ·L
         // prefactor picks up whatever vol schedule / displacement is set
         // on the model.
         if eta_old >= 1 && eta_old <= m {
             let k = eta_old;
             let tk_minus_1 = self.model.tenor.dates[k - 1];
             let tk = self.model.tenor.dates[k];
-            if t > tk_minus_1 && t < tk {
+            if t >= tk_minus_1 && t < tk {
                 let tau_k = self.model.tenor.tau(k);
                 let r_k_mid = 0.5 * (path.rates[k - 1] + new_rates[k - 1]);
                 let sig_adapt_k = self.model.adapted_vol(k, t_mid, r_k_mid);
-- 
2.43.0


From 8f15349af299ecf64c1911d0520252b310b7a7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:33 +0000
Subject: [PATCH 39/41] fix: COS pricer values strikes outside its truncation
 range

---
 src/models/common/cos_pricer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/models/common/cos_pricer.rs b/src/models/common/cos_pricer.rs
index 8cdfa92..795f1fc 100644
--- a/src/models/common/cos_pricer.rs
+++ b/src/models/common/cos_pricer.rs
@@ -152,7 +152,9 @@ impl<'a, C: ForwardChf> CosPricer<'a, C> {
         assert!(strike > 0.0);
         let (a, b) = self.range;
         let width = b - a;
-        let log_k = strike.ln();
+        // A strike outside the range splits nothing off it: the payoff is
+        // then integrated over all of the range or none of it.
+        let log_k = strike.ln().clamp(a, b);
 
         // Payoff cosine coefficients Vk (closed form).
         // For a call:  Vk = (2/(b−a)) · [χk(log K, b) − K · ψk(log K, b)].
-- 
2.43.0


From d753ca086885bff7a1be94287b4101a99c4ed5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:33 +0000
Subject: [PATCH 40/41] fix: time-dependent SABR paths follow the alpha
 schedule

---
 src/models/forex/sabr_time_dependent.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/models/forex/sabr_time_dependent.rs b/src/models/forex/sabr_time_dependent.rs
index 3d04e83..86b074c 100644
--- a/src/models/forex/sabr_time_dependent.rs
+++ b/src/models/forex/sabr_time_dependent.rs
@@ -148,7 +148,12 @@ impl TimeDependentSabrSimulator {
         let dw_a = sqrt_dt * (p.rho * z1 + sqrt_one_minus_rho_sq * z2);
 
         let f = state.forward.max(0.0);
-        let alpha = state.vol.max(0.0);
+        // `state.vol` is the product α(t)·ξ(t) at the start of the step; its
+        // schedule part moves with α(t).
+        let alpha_start = self.alpha_up_to(t_mid - 0.5 * dt);
+        let alpha_end = self.alpha_up_to(t_mid + 0.5 * dt);
+        let vol = state.vol.max(0.0);
+        let alpha = vol * (p.alpha / alpha_start);
 
         // Full-truncation Euler on F.
         let diffusion_f = alpha * f.powf(p.beta) * dw_f;
@@ -163,7 +168,7 @@ impl TimeDependentSabrSimulator {
         // constant-param SABR when schedules are flat.
         let log_drift = -0.5 * p.nu * p.nu * dt;
         let log_diffusion = p.nu * dw_a;
-        let new_vol = alpha * (log_drift + log_diffusion).exp();
+        let new_vol = vol * (alpha_end / alpha_start) * (log_drift + log_diffusion).exp();
 
         (
             SabrState {
@@ -174,6 +179,15 @@ impl TimeDependentSabrSimulator {
         )
     }
 
+    /// Schedule α in force just before a step boundary at `t`. The margin
+    /// keeps the end of one step and the start of the next on the same side
+    /// of a knot when their rounding differs.
+    fn alpha_up_to(&self, t: f64) -> f64 {
+        self.params
+            .alpha
+            .at((t - 1.0e-9).clamp(0.0, self.params.horizon()))
+    }
+
     /// Simulate up to `t_end` on a uniform grid of `n_steps` steps.
     /// The schedule is evaluated at each sub-step midpoint. For
     /// knot-aligned stepping use [`simulate_at_dates`] with observation
-- 
2.43.0


From ce1639ca9446f5ecd9db44c4f5c822aaf9bc15ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:30 +0000
Subject: [PATCH 41/41] fix: cash quotes sharing a maturity give one pillar
 each, not one per pair

---
 src/markets/termstructures/yieldcurve.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/markets/termstructures/yieldcurve.rs b/src/markets/termstructures/yieldcurve.rs
index 386354d..449479f 100644
--- a/src/markets/termstructures/yieldcurve.rs
+++ b/src/markets/termstructures/yieldcurve.rs
@@ -130,6 +130,7 @@ impl YieldTermMarketData {
             cash_quote_maturity.push(cash.maturity_date(self.valuation_date).unwrap());
         }
         cash_quote_maturity.sort();
+        cash_quote_maturity.dedup();
 
         for maturity in cash_quote_maturity {
             for cash in &self.cash_quote {
-- 
2.43.0

