//! C01 market holidays, C02 Easter tables.
use crate::cals;
use crate::fw::Run;
use crate::props::Prop;
use crate::refcal::{self, day, ndays};
use chrono::{Datelike, Weekday};
use serde_json::json;

pub const PROPS: &[Prop] = &[("C01", c01), ("C02", c02)];

/// dumps the non-weekend closures of one calendar that no rule explains
pub fn dump(name: &str) {
    let r = refcal::load();
    for c in cals::all().iter().filter(|c| c.name == name || name == "all") {
        let cal = (c.make)();
        let rc = &r[c.reference];
        let mut n = 0;
        for i in 0..ndays() {
            let d = day(i);
            let (got, want) = (cal.is_business_day(d), rc.business(i));
            if got != want {
                n += 1;
                if name != "all" || n < 6 {
                    println!("{} {} {} code={} ref={}", c.name, d, d.weekday(), got, want);
                }
            }
        }
        if n > 0 {
            println!("## {} {}", c.name, n);
        }
    }
}

fn c01(run: &Run) {
    let refs = refcal::load();
    let defs = cals::all();
    run.dim("calendars", defs.len());
    run.dim("days", json!({"from": "1901-01-01", "to": "2199-12-31", "every_day": true}));
    // one work item per calendar and block of years
    let blocks = 13usize;
    let per = 299usize.div_ceil(blocks);
    run.par(defs.len() * blocks, |k, w| {
        let (c, b) = (&defs[k / blocks], k % blocks);
        let cal = (c.make)();
        let rc = &refs[c.reference];
        let (ya, yb) = (1901 + (b * per) as i32, (1901 + ((b + 1) * per) as i32).min(2200));
        let (ia, ib) = (refcal::idx(refcal::ymd(ya, 1, 1)), refcal::idx(refcal::ymd(yb - 1, 12, 31)));
        for i in ia..=ib {
            let d = day(i);
            w.state(1);
            let want = rc.business(i);
            let Some(got) = w.call(|| format!("{} {d}", c.name), || cal.is_business_day(d)) else { continue };
            if w.check(got == want, || key(c.name, d, got, want),
                || format!("business day = {got}, the market's published holiday rules say {want}")) && i % 40000 == 77 {
                w.sample(json!({"calendar": c.name, "day": d.to_string(), "business": got}));
            }
            w.check(cal.is_holiday(d) == !got, || format!("is_holiday {} {d}", c.name), || "is_holiday is not the complement of is_business_day".into());
            let we = matches!(d.weekday(), Weekday::Sat | Weekday::Sun);
            w.check(cal.is_weekend(d) == we, || format!("is_weekend {} {d}", c.name), || "weekend flag".into());
            // last calendar day / last business day of the month
            if d.day() == 1 {
                let mut j = i;
                while j + 1 < ndays() && day(j + 1).month() == d.month() {
                    j += 1;
                }
                let mut e = j;
                while !rc.business(e) {
                    e -= 1;
                }
                for q in i..=j {
                    let lm = cal.last_day_of_month(day(q));
                    w.check(lm == day(j), || format!("last_day_of_month {} {}", c.name, day(q)), || format!("{lm}"));
                }
                let em = cal.end_of_month(d);
                w.check(em == day(e), || format!("end_of_month {} {d}", c.name), || format!("got {em}, want {}", day(e)));
            }
        }
        w.trace(1);
    });
}

fn key(name: &str, d: chrono::NaiveDate, _got: bool, _want: bool) -> String {
    format!("{name} {d}")
}

fn c02(run: &Run) {
    run.dim("years", json!({"from": 1901, "to": 2199}));
    let defs = cals::all();
    run.dim("calendars", defs.len());
    run.par(defs.len(), |k, w| {
        let cal = (defs[k].make)();
        for y in 1901..=2199 {
            w.state(1);
            let want = refcal::add(refcal::easter_sunday(y), 1).ordinal();
            let wo = refcal::add(refcal::orthodox_sunday(y), 1).ordinal();
            if let Some(g) = w.call(|| format!("easter {y}"), || cal.easter_monday(y)) {
                w.check(g == want, || format!("easter {y}"), || format!("day {g}, computus says {want}"));
            }
            if let Some(g) = w.call(|| format!("orthodox easter {y}"), || cal.orthodox_easter_monday(y)) {
                w.check(g == wo, || format!("orthodox easter {y}"), || format!("day {g}, computus says {wo}"));
            }
            let g = refcal::add(refcal::ymd(y, 1, 1), cal.easter_monday(y).saturating_sub(1) as i64);
            w.check(g.weekday() == Weekday::Mon, || format!("weekday {y}"), || format!("{g} is not a Monday"));
            w.trace(1);
        }
    });
    run.seq(|w| w.sample(json!({"easter_monday_2025": finquant::time::calendars::Calendar::easter_monday(&finquant::time::calendars::Target, 2025)})));
}
