//! C03-C07, C10, C11: date arithmetic relative to a calendar's own business days.
use crate::cals::{self, CalDef};
use crate::fw::{Run, Worker};
use crate::props::Prop;
use crate::refcal::{add, day, first, idx, last, ymd};
use chrono::{Datelike, NaiveDate, Weekday};
use finquant::time::businessdayconvention::BusinessDayConvention as B;
use finquant::time::calendars::{Calendar, JointCalendar};
use finquant::time::frequency::Frequency;
use finquant::time::imm::IMM;
use finquant::time::period::Period as P;
use serde_json::json;

pub const PROPS: &[Prop] = &[
    ("C03", c03),
    ("C04", c04),
    ("C05", c05),
    ("C06", c06),
    ("C07", c07),
    ("C10", c10),
    ("C11", c11),
];

pub const BDC: [B; 7] = [
    B::Following,
    B::ModifiedFollowing,
    B::HalfMonthModifiedFollowing,
    B::Preceding,
    B::ModifiedPreceding,
    B::Unadjusted,
    B::Nearest,
];

/// Business-day bitmap of a calendar over [a, b] with the model of date rolling on it.
pub struct Tab {
    a: NaiveDate,
    bus: Vec<bool>,
}
impl Tab {
    pub fn new(c: &dyn Calendar, a: NaiveDate, b: NaiveDate) -> Tab {
        let n = (b - a).num_days() + 1;
        Tab { a, bus: (0..n).map(|i| c.is_business_day(add(a, i))).collect() }
    }
    pub fn is(&self, d: NaiveDate) -> bool {
        self.bus[(d - self.a).num_days() as usize]
    }
    pub fn next(&self, d: NaiveDate) -> NaiveDate {
        let mut i = (d - self.a).num_days() as usize;
        while !self.bus[i] {
            i += 1;
        }
        add(self.a, i as i64)
    }
    pub fn prev(&self, d: NaiveDate) -> NaiveDate {
        let mut i = (d - self.a).num_days() as usize;
        while !self.bus[i] {
            i -= 1;
        }
        add(self.a, i as i64)
    }
    pub fn adjust(&self, d: NaiveDate, b: B) -> NaiveDate {
        let (f, p) = (self.next(d), self.prev(d));
        let ym = |x: NaiveDate| (x.year(), x.month());
        match b {
            B::Unadjusted => d,
            B::Following => f,
            B::Preceding => p,
            B::ModifiedFollowing => {
                if ym(f) == ym(d) { f } else { p }
            }
            B::HalfMonthModifiedFollowing => {
                if ym(f) != ym(d) || (d.day() <= 15 && f.day() > 15) { p } else { f }
            }
            B::ModifiedPreceding => {
                if ym(p) == ym(d) { p } else { f }
            }
            B::Nearest => {
                if (f - d) <= (d - p) { f } else { p }
            }
        }
    }
    pub fn month_end(&self, d: NaiveDate) -> NaiveDate {
        self.prev(month_last(d))
    }
    /// the n-th business day after (n>0) or before (n<0) d
    pub fn nth(&self, d: NaiveDate, n: i64) -> NaiveDate {
        let mut x = d;
        let s = n.signum();
        for _ in 0..n.abs() {
            x = add(x, s);
            while !self.is(x) {
                x = add(x, s);
            }
        }
        x
    }
    pub fn count(&self, a: NaiveDate, b: NaiveDate) -> i64 {
        // business days in [a, b)
        let (i, j) = ((a - self.a).num_days() as usize, (b - self.a).num_days() as usize);
        if j <= i { 0 } else { self.bus[i..j].iter().filter(|x| **x).count() as i64 }
    }
}
pub fn month_last(d: NaiveDate) -> NaiveDate {
    let (y, m) = (d.year(), d.month());
    let n = match m {
        1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
        2 if (y % 4 == 0 && y % 100 != 0) || y % 400 == 0 => 29,
        2 => 28,
        _ => 30,
    };
    ymd(y, m, n)
}
pub fn add_months(d: NaiveDate, n: i64) -> NaiveDate {
    let t = d.year() as i64 * 12 + d.month0() as i64 + n;
    let (y, m) = (t.div_euclid(12) as i32, t.rem_euclid(12) as u32 + 1);
    let l = month_last(ymd(y, m, 1)).day();
    ymd(y, m, d.day().min(l))
}
pub fn plus(d: NaiveDate, p: P, s: i64) -> NaiveDate {
    match p {
        P::ON | P::TN | P::SN => add(d, s),
        P::SPOT => d,
        P::Days(n) => add(d, s * n),
        P::Weeks(n) => add(d, 7 * s * n),
        P::Months(n) => add_months(d, s * n as i64),
        P::Years(n) => add_months(d, s * 12 * n as i64),
    }
}
/// Calendars with distinct rules (aliases of a default market left out).
pub fn distinct() -> Vec<CalDef> {
    cals::all().into_iter().filter(|c| !c.name.contains("default")).collect()
}

fn c03(run: &Run) {
    let defs = distinct();
    let (ya, yb) = (1902, 2198);
    run.dim("calendars", defs.len());
    run.dim("conventions", 7);
    run.dim("days", json!({"from": format!("{ya}-01-01"), "to": format!("{yb}-12-31")}));
    let blocks = 11;
    let per = (yb - ya + 1) / blocks + 1;
    run.par(defs.len() * blocks as usize, |k, w| {
        let def = &defs[k / blocks as usize];
        let b0 = ya + (k as i32 % blocks) * per;
        let b1 = (b0 + per - 1).min(yb);
        if b0 > b1 {
            return;
        }
        let cal = (def.make)();
        let t = Tab::new(&*cal, ymd(b0 - 1, 11, 1), ymd(b1 + 1, 2, 15));
        let mut d = ymd(b0, 1, 1);
        while d.year() <= b1 {
            w.state(1);
            for b in BDC {
                let want = t.adjust(d, b);
                let key = || format!("{} {d} {b:?}", def.name);
                let Some(got) = w.call(key, || cal.adjust(d, b)) else { continue };
                w.check(got == Some(want), key, || format!("adjusted to {got:?}, the convention defines {want}"));
            }
            w.trace(1);
            d = add(d, 1);
        }
    });
    run.seq(|w| {
        let c = finquant::time::calendars::Target;
        w.sample(json!({"Target 2025-04-18": BDC.iter().map(|b| format!("{b:?} -> {:?}", c.adjust(ymd(2025,4,18), *b).unwrap())).collect::<Vec<_>>()}));
    });
}

fn tenors(run: &Run) -> Vec<P> {
    let mut v = vec![P::ON, P::TN, P::SPOT, P::SN];
    let n = run.by(7, 30);
    v.extend((-n..=n).map(P::Days));
    v.extend((-2..=run.by(3, 8)).map(P::Weeks));
    v.extend((0..=run.by(13, 40)).map(P::Months));
    v.extend((0..=run.by(3, 12)).map(P::Years));
    v
}

pub fn advance_model(t: &Tab, d: NaiveDate, p: P, bd: B, eom: bool) -> NaiveDate {
    match p {
        P::Days(0) => t.adjust(d, bd),
        P::Days(n) => t.nth(d, n),
        P::Months(_) | P::Years(_) if eom => t.month_end(plus(d, p, 1)),
        _ => t.adjust(plus(d, p, 1), bd),
    }
}

fn c04(run: &Run) {
    let defs = distinct();
    let (a, b) = run.by((ymd(2022, 11, 20), ymd(2026, 1, 10)), (ymd(2000, 1, 1), ymd(2040, 12, 31)));
    let ts = tenors(run);
    run.dim("calendars", defs.len());
    run.dim("start_days", json!({"from": a.to_string(), "to": b.to_string()}));
    run.dim("tenors", ts.len());
    run.dim("conventions_x_end_of_month", 21);
    run.par(defs.len(), |k, w| {
        let cal = (defs[k].make)();
        let t = Tab::new(&*cal, ymd(a.year() - 1, 1, 1), ymd(b.year() + 14, 1, 1));
        let mut d = a;
        while d <= b {
            w.beat(format!("{} {d}", defs[k].name));
            w.state(1);
            for &p in &ts {
                for bd in BDC {
                    for eom in [None, Some(false), Some(true)] {
                        let want = advance_model(&t, d, p, bd, eom == Some(true));
                        let key = || format!("{} {d} {p:?} {bd:?} eom={eom:?}", defs[k].name);
                        let Some(got) = w.call(key, || cal.advance(d, p, bd, eom)) else { continue };
                        let got = got.ok().flatten();
                        w.check(got == Some(want), key, || format!("advanced to {got:?}, expected {want}"));
                    }
                }
            }
            w.trace(1);
            d = add(d, 1);
        }
    });
    // long tenors from sparse starts over the calendars' whole range
    let far = [P::Days(30), P::Days(-64), P::Days(252), P::Days(-260), P::Days(1000), P::Weeks(13), P::Weeks(52), P::Weeks(-26), P::Weeks(260), P::Months(18), P::Months(24), P::Months(36), P::Months(60), P::Months(119), P::Months(240), P::Months(361), P::Years(5), P::Years(7), P::Years(10), P::Years(15), P::Years(20), P::Years(30), P::Years(50)];
    // only from starts that leave room
    let farthest = [P::Days(5300), P::Days(-5300), P::Weeks(1500), P::Weeks(-1500), P::Months(600), P::Months(719), P::Years(60)];
    let step = run.by(389, 29);
    run.dim("long_tenors", json!({"tenors": far.len() + farthest.len(), "start_days": format!("every {step}th day 1906-2140")}));
    run.par(defs.len(), |k, w| {
        let cal = (defs[k].make)();
        let t = Tab::new(&*cal, ymd(1901, 1, 1), ymd(2199, 12, 31));
        let mut d = ymd(1906, 1, 1 + k as u32 % 28);
        while d < ymd(2140, 1, 1) {
            w.beat(format!("{} {d}", defs[k].name));
            w.state(1);
            let room = (1930..2130).contains(&d.year());
            for p in far.into_iter().chain(if room { farthest.to_vec() } else { vec![] }) {
                for bd in BDC {
                    for eom in [None, Some(true)] {
                        let want = advance_model(&t, d, p, bd, eom == Some(true));
                        let key = || format!("{} {d} {p:?} {bd:?} eom={eom:?}", defs[k].name);
                        let Some(got) = w.call(key, || cal.advance(d, p, bd, eom)) else { continue };
                        let got = got.ok().flatten();
                        w.check(got == Some(want), key, || format!("advanced to {got:?}, expected {want}"));
                    }
                }
            }
            w.trace(1);
            d = add(d, step);
        }
    });
    run.seq(|w| w.sample(json!({"tenors": ts.iter().map(|t| format!("{t:?}")).collect::<Vec<_>>() })));
}

fn c05(run: &Run) {
    let defs = distinct();
    let (a, n) = (ymd(2023, 12, 1), run.by(400i64, 1500));
    let wide = run.by(50, 350);
    let span = run.by(45i64, 400);
    run.dim("calendars", defs.len());
    run.dim("from_days", n + 1);
    run.dim("interval_lengths", json!({"from": -span, "to": span, "also": [-3653, -366, 366, 3653], "sparse starts over 1932-2165": [-10000, -1827, -63, -7, 7, 63, 1827, 10000]}));
    run.dim("inclusion_flags", 9);
    run.par(defs.len(), |k, w| {
        let cal = (defs[k].make)();
        let t = Tab::new(&*cal, ymd(1901, 1, 1), ymd(2199, 12, 31));
        let fl = [None, Some(false), Some(true)];
        for i in 0..=n + wide {
            let from = if i <= n { add(a, i) } else { add(ymd(1932, 1, 1), (i - n) * 241 + k as i64) };
            w.beat(format!("{} {from}", defs[k].name));
            let mut lens: Vec<i64> = (-span..=span).collect();
            if i % 30 == 0 {
                lens.extend([-3653, -366, 366, 3653]);
            }
            if i > n {
                lens = vec![-10000, -1827, -63, -7, 7, 63, 1827, 10000];
                if i % 10 == 0 {
                    // over most of the calendar's range
                    lens.extend([-60000i64, -25000, 25000, 60000, 85000].iter().filter(|l| (ymd(1901, 1, 3)..ymd(2199, 12, 29)).contains(&add(from, **l))));
                }
            }
            for l in lens {
                let to = add(from, l);
                w.state(1);
                for f in fl {
                    for g in fl {
                        let (fi, la) = (f.unwrap_or(true), g.unwrap_or(false));
                        // one-day interval counts once, and only when both ends are included
                        let want = if l == 0 {
                            (fi && la && t.is(from)) as i64
                        } else {
                            let (lo, hi, ilo, ihi) = if l > 0 { (from, to, fi, la) } else { (to, from, la, fi) };
                            let c = t.count(add(lo, 1), hi) + (ilo && t.is(lo)) as i64 + (ihi && t.is(hi)) as i64;
                            if l > 0 { c } else { -c }
                        };
                        let key = || format!("{} {from}..{to} first={f:?} last={g:?}", defs[k].name);
                        let Some(got) = w.call(key, || cal.business_days_between(from, to, f, g)) else { continue };
                        // the sign of zero days is immaterial
                        w.check(got == want, key, || format!("counted {got}, enumeration gives {want}"));
                    }
                }
            }
            w.trace(1);
        }
    });
    run.seq(|w| w.sample(json!({"target 2024-03-25..2024-04-05": cals::all()[23].make.clone()().business_days_between(ymd(2024,3,25), ymd(2024,4,5), None, None)})));
}

fn c06(run: &Run) {
    let defs = distinct();
    let n = defs.len();
    let (ya, yb) = run.by((2010, 2030), (1902, 2198));
    run.dim("pairs", n * n);
    run.dim("days", json!({"from": format!("{ya}-01-01"), "to": format!("{yb}-12-31")}));
    run.dim("triples", "consecutive calendars");
    run.par(n * n, |k, w| {
        let (i, j) = (k / n, k % n);
        let mk = |ix: &[usize]| JointCalendar::new(ix.iter().map(|q| (defs[*q].make)()).collect());
        let members: Vec<usize> = if i == j { vec![i, (i + 1) % n, (i + 2) % n] } else { vec![i, j] };
        let joint = mk(&members);
        let nested = JointCalendar::new(vec![Box::new(mk(&members[..1])), Box::new(mk(&members[1..]))]);
        let ms: Vec<_> = members.iter().map(|q| (defs[*q].make)()).collect();
        let (a, b) = (ymd(ya, 1, 1), ymd(yb, 12, 31));
        let mut d = a;
        let mut eom: Option<NaiveDate> = None;
        while d <= b {
            w.state(1);
            let want = ms.iter().all(|m| m.is_business_day(d));
            let key = || format!("joint {:?} {d}", members.iter().map(|q| defs[*q].name).collect::<Vec<_>>());
            w.check(joint.is_business_day(d) == want, key, || format!("joint business day should be {want}"));
            w.check(nested.is_business_day(d) == want, key, || "nested joint calendar differs from the flat one".into());
            w.check(joint.is_holiday(d) != want, key, || "is_holiday".into());
            // business month end of the joint calendar
            if want {
                eom = Some(d);
            }
            if d == month_last(d) && d.month() % 3 == 0 {
                let got = joint.end_of_month(d);
                w.check(Some(got) == eom, key, || format!("end of month {got}, expected {eom:?}"));
                let f = (0..).map(|q| add(d, q)).find(|x| ms.iter().all(|m| m.is_business_day(*x))).unwrap();
                let got = joint.adjust(d, B::Following);
                w.check(got == Some(f), key, || format!("following {got:?}, expected {f}"));
            }
            d = add(d, 1);
        }
        w.trace(1);
    });
    // every size: rings of consecutive members, forwards, backwards, doubled, and nested to full depth
    let (za, zb) = run.by((2014, 2026), (1960, 2100));
    let (a, b) = (ymd(za, 1, 1), ymd(zb, 12, 31));
    let days = (b - a).num_days() + 1;
    let open: Vec<Vec<bool>> = defs
        .iter()
        .map(|x| {
            let c = (x.make)();
            (0..days).map(|k| c.is_business_day(add(a, k))).collect()
        })
        .collect();
    let sizes: Vec<usize> = (1..=n).filter(|s| *s <= 12 || [16, 17, 24, 32, 33, 48].contains(s) || *s == n).collect();
    run.dim("sizes", json!({"members": sizes, "starts": n, "shapes": "forward, backward, every member twice, nested left and right", "from": za, "to": zb}));
    run.par(n * sizes.len(), |k, w| {
        let (i, s) = (k / sizes.len(), sizes[k % sizes.len()]);
        let ix: Vec<usize> = (0..s).map(|q| (i + q) % n).collect();
        let cal = |q: usize| (defs[q].make)();
        let mut rev = ix.clone();
        rev.reverse();
        let twice: Vec<usize> = ix.iter().flat_map(|q| [*q, *q]).collect();
        let flat = |v: &[usize]| JointCalendar::new(v.iter().map(|q| cal(*q)).collect());
        let mut right = JointCalendar::new(vec![]);
        let mut left = JointCalendar::new(vec![]);
        for q in &ix {
            right = JointCalendar::new(vec![cal(*q), Box::new(right)]);
            left = JointCalendar::new(vec![Box::new(left), cal(*q)]);
        }
        let js = [("flat", flat(&ix)), ("reversed", flat(&rev)), ("doubled", flat(&twice)), ("right-nested", right), ("left-nested", left)];
        for t in 0..days {
            let want = ix.iter().all(|q| open[*q][t as usize]);
            w.state(1);
            for (nm, j) in &js {
                w.check(j.is_business_day(add(a, t)) == want, || format!("{nm} {s} members from {} {}", defs[i].name, add(a, t)), || format!("should be {want}"));
            }
        }
        w.trace(js.len() as u64);
    });
    run.seq(|w| {
        let e = JointCalendar::new(vec![]);
        w.check(e.is_business_day(ymd(2024, 1, 1)), || "empty joint".into(), || "no calendar, no closure".into());
        w.sample(json!("joint(UnitedStates/Settlement, Target)"));
    });
}

pub fn settle_model(t: &Tab, v: NaiveDate, p: P, lag: i64) -> NaiveDate {
    let base = match p {
        P::ON => v,
        P::TN => add(v, 1),
        _ => add(v, lag),
    };
    let raw = plus(base, p, 1);
    let me = t.month_end(raw);
    let capped = if raw >= me { me } else { raw };
    t.next(capped)
}

fn c07(run: &Run) {
    // a) date +/- period against month arithmetic, over every day of a window
    let (a, b) = (ymd(1900, 1, 1), ymd(2131, 12, 31));
    let nd = (b - a).num_days() as usize + 1;
    let mut ps = vec![P::ON, P::TN, P::SPOT, P::SN];
    ps.extend((-40..=40).map(P::Days));
    ps.extend((-9..=60).map(P::Weeks));
    ps.extend((0..=130).map(P::Months));
    ps.extend((0..=60).map(P::Years));
    ps.extend([P::Days(90), P::Days(-91), P::Days(365), P::Days(-3652), P::Weeks(104), P::Weeks(520), P::Months(240), P::Months(600), P::Years(40), P::Years(50), P::Years(99)]);
    ps.extend([P::Years(100), P::Years(104), P::Years(121), P::Years(200), P::Years(400), P::Years(1000), P::Months(1200), P::Months(1201), P::Months(2407), P::Months(4800), P::Days(36525), P::Days(-36525), P::Days(100_000), P::Days(-146_097), P::Weeks(5219), P::Weeks(-5219), P::Weeks(14000)]);
    run.dim("days", json!({"from": a.to_string(), "to": b.to_string()}));
    run.dim("periods", ps.len());
    run.par(nd, |i, w| {
        let d = add(a, i as i64);
        for &p in &ps {
            w.state(1);
            for s in [1i64, -1] {
                let want = plus(d, p, s);
                let key = || format!("{d} {} {p:?}", if s > 0 { '+' } else { '-' });
                let Some(got) = w.call(key, || if s > 0 { d + p } else { d - p }) else { continue };
                w.check(matches!(&got, Ok(x) if *x == want), key, || format!("got {got:?}, expected {want}"));
            }
        }
        w.trace(1);
    });
    // b) scaling a tenor
    run.seq(|w| {
        for k in (0..=600u32).chain([1000, 1001, 9999, 40_000]) {
            for &p in &ps {
                let got = k * p;
                let want = match p {
                    P::Days(n) => P::Days(n * k as i64),
                    P::Weeks(n) => P::Weeks(n * k as i64),
                    P::Months(n) => P::Months(n * k),
                    P::Years(n) => P::Years(n * k),
                    x => x,
                };
                w.check(got == want, || format!("{k} * {p:?}"), || format!("got {got:?}, expected {want:?}"));
            }
        }
        // c) out-of-range tenors are reported, not crashed on
        for d in [ymd(2024, 2, 29), NaiveDate::MAX, NaiveDate::MIN, ymd(1, 1, 1)] {
            for p in [
                P::Days(i64::MAX), P::Days(i64::MIN), P::Weeks(i64::MAX), P::Weeks(i64::MIN), P::Weeks(i64::MAX / 7),
                P::Months(u32::MAX), P::Years(u32::MAX), P::Years(400_000_000), P::Days(200_000_000), P::Days(-200_000_000),
            ] {
                for s in [1, -1] {
                    let key = || format!("out of range {d} {s} {p:?}");
                    if let Some(r) = w.call(key, || if s > 0 { d + p } else { d - p }) {
                        w.check(r.is_err(), key, || format!("got {r:?}"));
                    }
                }
            }
        }
    });
    // d) far and near settlement dates
    let defs = distinct();
    let (va, vb) = run.by((ymd(2018, 11, 1), ymd(2028, 3, 31)), (ymd(1990, 1, 1), ymd(2060, 12, 31)));
    let mut ts = vec![P::ON, P::TN, P::SPOT, P::SN];
    ts.extend((0..=10).map(P::Days));
    ts.extend((0..=run.by(4, 8)).map(P::Weeks));
    ts.extend((0..=run.by(13, 36)).map(P::Months));
    ts.extend((0..=run.by(3, 12)).map(P::Years));
    ts.extend([P::Days(45), P::Days(100), P::Weeks(26), P::Weeks(60), P::Months(18), P::Months(60), P::Months(121), P::Years(5), P::Years(7), P::Years(10), P::Years(15), P::Years(20), P::Years(30), P::Years(50)]);
    run.dim("settlement_calendars", defs.len());
    run.dim("settlement_days", json!({"from": va.to_string(), "to": vb.to_string()}));
    run.dim("settlement_tenors", ts.len());
    run.par(defs.len(), |k, w| {
        let cal = (defs[k].make)();
        let t = Tab::new(&*cal, ymd(va.year() - 1, 12, 1), ymd(vb.year() + 52, 1, 1));
        let mut v = va;
        while v <= vb {
            w.beat(format!("{} {v}", defs[k].name));
            for &p in &ts {
                w.state(1);
                let want = settle_model(&t, v, p, 2);
                let key = || format!("settlement {} {v} {p:?}", defs[k].name);
                if let Some(got) = w.call(key, || p.settlement_date(v, &*cal)) {
                    w.check(matches!(&got, Ok(x) if *x == want), key, || format!("got {got:?}, documented rule gives {want}"));
                }
                let wn = match p {
                    P::ON => Some(t.next(v)),
                    P::TN => Some(t.next(add(v, 1))),
                    P::SN => Some(t.next(add(v, 2))),
                    _ => None,
                };
                let key = || format!("near {} {v} {p:?}", defs[k].name);
                if let Some(got) = w.call(key, || p.near_date(v, &*cal)) {
                    w.check(matches!(&got, Ok(x) if *x == wn), key, || format!("got {got:?}, documented rule gives {wn:?}"));
                }
            }
            w.trace(1);
            v = add(v, 1);
        }
    });
    run.seq(|w| w.sample(json!({"1M from 2024-01-29 on Target": format!("{:?}", P::Months(1).settlement_date(ymd(2024,1,29), &finquant::time::calendars::Target))})));
}

const MONTH_CODES: &str = "FGHJKMNQUVXZ";

pub fn third_wed(y: i32, m: u32) -> NaiveDate {
    (15..=21).map(|d| ymd(y, m, d)).find(|d| d.weekday() == Weekday::Wed).unwrap()
}

fn c10(run: &Run) {
    let (ya, yb) = (1905, 2195);
    run.dim("days", json!({"from": format!("{ya}-01-01"), "to": format!("{yb}-12-31")}));
    let ny = (yb - ya + 1) as usize;
    // every day: IMM test, code, next date
    run.par(ny, |i, w| {
        let y = ya + i as i32;
        let mut d = ymd(y, 1, 1);
        while d.year() == y {
            w.state(1);
            let t = third_wed(d.year(), d.month());
            for main in [false, true] {
                let key = || format!("{d} main={main}");
                let is = d == t && (!main || d.month() % 3 == 0);
                let got = IMM.is_imm_date(d, main);
                w.check(got == is, key, || format!("is_imm_date {got}"));
                let mut want = None;
                for k in 0..5 {
                    let m0 = add_months(ymd(d.year(), d.month(), 1), k);
                    let c = third_wed(m0.year(), m0.month());
                    if c > d && (!main || c.month() % 3 == 0) {
                        want = Some(c);
                        break;
                    }
                }
                let want = want.unwrap();
                if let Some(got) = w.call(key, || IMM.next_date(d, main)) {
                    w.check(got == want, key, || format!("next IMM date {got}, expected {want}"));
                }
            }
            let wc = (d == t).then(|| {
                format!("{}{}", MONTH_CODES.chars().nth(d.month0() as usize).unwrap(), d.year() % 10)
            });
            let got = IMM.code(d);
            w.check(got == wc, || format!("code {d}"), || format!("{got:?} expected {wc:?}"));
            d = add(d, 1);
        }
        w.trace(1);
    });
    // every code x reference day: first IMM date of that code on or after the reference
    let (ra, rb) = (ymd(1911, 1, 1), ymd(2180, 12, 31));
    let step = 1;
    let nref = ((rb - ra).num_days() / step) as usize + 1;
    run.dim("code_reference_days", nref);
    run.par(nref, |i, w| {
        let r = add(ra, i as i64 * step);
        w.state(1);
        for (m, c) in MONTH_CODES.chars().enumerate() {
            for y in 0..10 {
                let mut yy = r.year() - r.year().rem_euclid(10) + y;
                while third_wed(yy, m as u32 + 1) < r {
                    yy += 10;
                }
                let want = third_wed(yy, m as u32 + 1);
                for lower in [false, true] {
                    let code = format!("{}{y}", if lower { c.to_ascii_lowercase() } else { c });
                    let key = || format!("date({code}, {r})");
                    if let Some(got) = w.call(key, || IMM.date(code.clone(), Some(r))) {
                        w.check(got == Some(want), key, || format!("got {got:?}, expected {want}"));
                    }
                }
            }
        }
        w.trace(1);
    });
    // every string of up to 2 characters over an alphabet with every class, plus some longer ones
    run.seq(|w| {
        let mut alpha: Vec<char> = (32u8..127).map(|b| b as char).collect();
        alpha.extend(['é', '٣', '日', '😀']);
        let mut codes: Vec<String> = vec![String::new()];
        for a in &alpha {
            codes.push(a.to_string());
            for b in &alpha {
                codes.push(format!("{a}{b}"));
                if "HZh09".contains(*a) {
                    for c in "09HZ ".chars() {
                        codes.push(format!("{a}{b}{c}"));
                    }
                }
            }
        }
        for c in &codes {
            w.state(1);
            let ch: Vec<char> = c.chars().collect();
            for main in [false, true] {
                let want = ch.len() == 2
                    && (if main { "HMZU" } else { MONTH_CODES }).contains(ch[0].to_ascii_uppercase())
                    && ch[1].is_ascii_digit();
                let key = || format!("is_imm_code({c:?}, {main})");
                if let Some(got) = w.call(key, || IMM.is_imm_code(c.clone(), main)) {
                    w.check(got == want, key, || format!("{got}"));
                }
                if !main {
                    let key = || format!("date({c:?})");
                    if let Some(got) = w.call(key, || IMM.date(c.clone(), Some(ymd(2024, 5, 17)))) {
                        w.check(got.is_some() == want, key, || format!("{got:?}"));
                    }
                }
            }
        }
        w.trace(codes.len() as u64);
        w.sample(json!({"next after 2024-03-20": IMM.next_date(ymd(2024,3,20), true).to_string()}));
    });
}

fn freqs() -> Vec<(Frequency, &'static str, Option<P>, f64)> {
    use Frequency::*;
    vec![
        (NoFrequency, "No-Frequency", Some(P::ON), f64::NAN),
        (Once, "Once", None, f64::NAN),
        (Annual, "Annual", Some(P::Years(1)), 1.0),
        (Semiannual, "Semiannual", Some(P::Months(6)), 2.0),
        (EveryFourthMonth, "Every-Fourth-Month", Some(P::Months(4)), 3.0),
        (Quarterly, "Quarterly", Some(P::Months(3)), 4.0),
        (Bimonthly, "Bimonthly", Some(P::Months(2)), 6.0),
        (Monthly, "Monthly", Some(P::Months(1)), 12.0),
        (EveryFourthWeek, "Every-Fourth-Week", Some(P::Weeks(4)), 13.0),
        (Biweekly, "Biweekly", Some(P::Weeks(2)), 26.0),
        (Weekly, "Weekly", Some(P::Weeks(1)), 52.0),
        (Daily, "Daily", Some(P::Days(1)), 365.0),
        (OtherFrequency, "Unknown Frequency", None, f64::NAN),
    ]
}

fn c11(run: &Run) {
    run.dim("frequencies", freqs().len());
    run.dim("start_days", json!({"from": "2023-01-01", "to": "2025-12-31"}));
    let fs = freqs();
    let (a, n) = (ymd(2023, 1, 1), 1096usize);
    let horizon = 12;
    run.seq(|w: &mut Worker| {
        for (f, name, per, per_year) in &fs {
            w.state(1);
            w.check(f.name() == *name, || format!("name {f}"), || f.name().to_string());
            let got = f.period();
            w.check(got == *per, || format!("period of {f}"), || format!("{got:?} expected {per:?}"));
            // codes never select a different frequency
            for code in [name.to_string(), format!("{f}"), format!("{f:?}")] {
                let got = Frequency::from_code(&code);
                let must = per_year.is_finite();
                w.check(got.as_ref() == Some(f) || (!must && got.is_none()), || format!("from_code {code}"), || format!("{got:?}"));
            }
            let js = serde_json::to_string(f).unwrap();
            let back: Frequency = serde_json::from_str(&js).unwrap();
            w.check(back == *f, || format!("serde {f}"), || js.clone());
            let back: Result<Frequency, _> = f.to_string().parse();
            w.check(back.as_ref().ok() == Some(f), || format!("display/parse {f}"), || f.to_string());
        }
        for b in BDC {
            for code in [b.name().to_string(), format!("{b:?}")] {
                let got = B::from_code(&code);
                w.check(got == Some(b), || format!("convention from_code {code}"), || format!("{got:?}"));
            }
            let back: B = serde_json::from_str(&serde_json::to_string(&b).unwrap()).unwrap();
            w.check(back == b, || format!("convention serde {b:?}"), || format!("{back:?}"));
        }
        for bad in ["", "annual", "YEARLY", "Never", "Following "] {
            w.check(Frequency::from_code(bad).is_none(), || format!("from_code {bad:?}"), || "accepted".into());
            w.check(B::from_code(bad).is_none(), || format!("bdc from_code {bad:?}"), || "accepted".into());
        }
        w.sample(json!({"frequencies": fs.iter().map(|f| f.0.to_string()).collect::<Vec<_>>() }));
    });
    // stepping a frequency through a year makes as many steps as its name says
    run.par(n, |i, w| {
        let d = add(a, i as i64);
        for (f, _, per, per_year) in &fs {
            let Some(p) = per else { continue };
            if per_year.is_nan() {
                continue;
            }
            for y in 1..=horizon {
                w.state(1);
                let steps = (*per_year as u32) * y;
                let got = (d + steps * f.period().unwrap_or(*p)).unwrap();
                let want = plus(d, P::Years(y), 1);
                let tol = match f {
                    Frequency::Daily => 1 + y as i64 / 2,
                    Frequency::Weekly | Frequency::Biweekly | Frequency::EveryFourthWeek => 2 * y as i64 + 1,
                    _ => 0,
                };
                w.check((got - want).num_days().abs() <= tol, || format!("{f} x{steps} from {d}"), || format!("{got} vs {want}"));
            }
        }
        w.trace(1);
    });
    let _ = (day(0), idx(first()), last());
}
