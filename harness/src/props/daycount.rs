//! C08 day counters against the conventions' definitions, C09 day-count algebra.
use crate::cals;
use crate::fw::Run;
use crate::props::Prop;
use crate::props::dates::{Tab, add_months};
use crate::refcal::{add, ymd};
use chrono::{Datelike, NaiveDate};
use finquant::time::calendars::Calendar;
use finquant::time::daycounters::DayCounters;
use finquant::time::daycounters::actual360::Actual360;
use finquant::time::daycounters::actual364::Actual364;
use finquant::time::daycounters::actual365fixed::Actual365Fixed;
use finquant::time::daycounters::actual366::Actual366;
use finquant::time::daycounters::actualactual::{ActualActual, ActualActualMarket};
use finquant::time::daycounters::thirty360::{Thirty360, Thirty360Market as T};
use finquant::time::daycounters::thirty365::Thirty365;
use serde_json::json;

pub const PROPS: &[Prop] = &[("C08", c08), ("C09", c09)];

fn leap(y: i32) -> bool {
    (y % 4 == 0 && y % 100 != 0) || y % 400 == 0
}
fn last_feb(d: NaiveDate) -> bool {
    d.month() == 2 && d.day() == if leap(d.year()) { 29 } else { 28 }
}
fn json_dc(s: &str) -> Box<dyn DayCounters> {
    serde_json::from_str(s).unwrap()
}

/// The model's own calendar facts: prefix counts over [a, b].
struct Ctx {
    a: NaiveDate,
    leap_days_in_leap_years: Vec<i64>,
    feb29: Vec<i64>,
    tabs: Vec<(String, Vec<i64>)>,
}
impl Ctx {
    fn new(a: NaiveDate, b: NaiveDate, cs: &[&str]) -> Ctx {
        let n = (b - a).num_days() as usize + 1;
        let (mut l, mut f) = (vec![0], vec![0]);
        for i in 0..n {
            let d = add(a, i as i64);
            l.push(l[i] + leap(d.year()) as i64);
            f.push(f[i] + (d.month() == 2 && d.day() == 29) as i64);
        }
        let defs = cals::all();
        let tabs = cs
            .iter()
            .map(|c| {
                let cal = (defs.iter().find(|d| d.name == *c).unwrap().make)();
                let t = Tab::new(&*cal, a, b);
                let mut v = vec![0];
                for i in 0..n {
                    v.push(v[i] + t.is(add(a, i as i64)) as i64);
                }
                (c.to_string(), v)
            })
            .collect();
        Ctx { a, leap_days_in_leap_years: l, feb29: f, tabs }
    }
    fn i(&self, d: NaiveDate) -> usize {
        (d - self.a).num_days() as usize
    }
    /// number of marked days in [d1, d2), negative when reversed
    fn between(v: &[i64], i: usize, j: usize) -> i64 {
        v[j] - v[i]
    }
}

#[derive(Clone)]
pub enum K {
    Act(f64),
    NoLeap,
    Isda,
    Afb,
    Bus(usize),
    Us,
    Isma,
    Eu,
    It,
    IsdaT(NaiveDate),
    Nasd,
    T365,
}

fn model_days(k: &K, c: &Ctx, d1: NaiveDate, d2: NaiveDate) -> i64 {
    let act = (d2 - d1).num_days();
    let f = |a: i64, b: i64, m2: i64| {
        360 * (d2.year() - d1.year()) as i64 + 30 * (d2.month() as i64 + m2 - d1.month() as i64) + b - a
    };
    let (a, b) = (d1.day() as i64, d2.day() as i64);
    match k {
        K::Act(_) | K::Isda | K::Afb => act,
        // every 29 February in (d1, d2] is skipped
        K::NoLeap => act - Ctx::between(&c.feb29, c.i(d1) + 1, c.i(d2) + 1),
        K::Bus(t) => {
            let v = &c.tabs[*t].1;
            // from included, to excluded
            if d1 <= d2 { Ctx::between(v, c.i(d1), c.i(d2)) } else { -Ctx::between(v, c.i(d2) + 1, c.i(d1) + 1) }
        }
        K::Us => {
            let a2 = if last_feb(d1) { 30 } else { a };
            let b2 = if last_feb(d1) && last_feb(d2) { 30 } else { b };
            let b3 = if b2 == 31 && a2 >= 30 { 30 } else { b2 };
            f(a2.min(30), b3, 0)
        }
        K::Isma => f(a.min(30), if b == 31 && a >= 30 { 30 } else { b }, 0),
        K::Eu => f(a.min(30), b.min(30), 0),
        K::It => {
            let g = |d: NaiveDate| if d.month() == 2 && d.day() > 27 { 30 } else { (d.day() as i64).min(30) };
            f(g(d1), g(d2), 0)
        }
        K::IsdaT(t) => {
            let x = if last_feb(d1) { 30 } else { a.min(30) };
            let y = if last_feb(d2) && d2 != *t { 30 } else { b.min(30) };
            f(x, y, 0)
        }
        K::Nasd => {
            if b == 31 && a < 30 {
                f(a, 1, 1)
            } else {
                f(a.min(30), if b == 31 { 30 } else { b }, 0)
            }
        }
        K::T365 => f(a, b, 0),
    }
}

fn model_yf(k: &K, c: &Ctx, d1: NaiveDate, d2: NaiveDate) -> f64 {
    let n = model_days(k, c, d1, d2) as f64;
    match k {
        K::Act(x) => n / x,
        K::NoLeap | K::T365 => n / 365.0,
        K::Bus(_) => n / 252.0,
        K::Isda => {
            let l = Ctx::between(&c.leap_days_in_leap_years, c.i(d1), c.i(d2)) as f64;
            l / 366.0 + (n - l) / 365.0
        }
        K::Afb => {
            if d1 > d2 {
                return -model_yf(k, c, d2, d1);
            }
            // whole years counted back from the end, 28 February becoming 29 in a leap year
            let back = |y: i64| {
                let x = add_months(d2, -12 * y);
                if y > 0 && x.month() == 2 && x.day() == 28 && leap(x.year()) { add(x, 1) } else { x }
            };
            let mut y = 0;
            while back(y + 1) >= d1 {
                y += 1;
            }
            let e = back(y);
            let has = Ctx::between(&c.feb29, c.i(d1), c.i(e)) > 0;
            y as f64 + (e - d1).num_days() as f64 / if has { 366.0 } else { 365.0 }
        }
        _ => n / 360.0,
    }
}

pub type Counter = (String, K, Box<dyn Fn() -> Box<dyn DayCounters> + Sync>);
const BUSCALS: [&str; 4] = ["Brazil/Settlement", "Target", "WeekendsOnly", "UnitedStates/NYSE"];

pub fn counters(term: NaiveDate) -> Vec<Counter> {
    let mut v: Vec<Counter> = vec![
        ("Actual360".into(), K::Act(360.0), Box::new(|| Box::new(Actual360))),
        ("Actual364".into(), K::Act(364.0), Box::new(|| Box::new(Actual364))),
        ("Actual366".into(), K::Act(366.0), Box::new(|| Box::new(Actual366))),
        ("Actual365Fixed".into(), K::Act(365.0), Box::new(|| Box::new(Actual365Fixed::default()))),
        ("Actual365Fixed/Standard".into(), K::Act(365.0), Box::new(|| json_dc(r#"{"type":"Actual365Fixed","market":"Standard"}"#))),
        ("Actual365Fixed/NoLeap".into(), K::NoLeap, Box::new(|| json_dc(r#"{"type":"Actual365Fixed","market":"NoLeap"}"#))),
        ("ActualActual".into(), K::Isda, Box::new(|| Box::new(ActualActual::default()))),
        ("ActualActual/Isda".into(), K::Isda, Box::new(|| Box::new(ActualActual { market: Some(ActualActualMarket::Isda) }))),
        ("ActualActual/Euro".into(), K::Afb, Box::new(|| Box::new(ActualActual { market: Some(ActualActualMarket::Euro) }))),
        ("Thirty360".into(), K::Us, Box::new(|| Box::new(Thirty360::default()))),
        ("Thirty360/USA".into(), K::Us, Box::new(|| Box::new(Thirty360::new(T::USA)))),
        ("Thirty360/European".into(), K::Eu, Box::new(|| Box::new(Thirty360::new(T::European)))),
        ("Thirty360/Italian".into(), K::It, Box::new(|| Box::new(Thirty360::new(T::Italian)))),
        ("Thirty360/ISMA".into(), K::Isma, Box::new(|| Box::new(Thirty360::new(T::ISMA)))),
        ("Thirty360/ISDA".into(), K::IsdaT(term), Box::new(move || Box::new(Thirty360::new(T::ISDA(term))))),
        ("Thirty360/German".into(), K::IsdaT(term), Box::new(move || Box::new(Thirty360::new(T::German(term))))),
        ("Thirty360/NASD".into(), K::Nasd, Box::new(|| Box::new(Thirty360::new(T::NASD)))),
        ("Thirty365".into(), K::T365, Box::new(|| Box::new(Thirty365))),
    ];
    for (i, c) in BUSCALS.iter().enumerate() {
        v.push((format!("Business252/{c}"), K::Bus(i), Box::new(move || {
            let cal: Box<dyn Calendar> = (cals::all().into_iter().find(|d| d.name == *c).unwrap().make)();
            json_dc(&format!(r#"{{"type":"Business252","calendar":{}}}"#, serde_json::to_string(&cal).unwrap()))
        })));
    }
    v
}

fn c08(run: &Run) {
    // 2000 is a leap century, 2100 is not: both kinds of leap cycle are walked through
    let wins = [(ymd(2019, 1, 1), ymd(2024, 12, 31)), (ymd(1999, 1, 1), ymd(2001, 12, 31)), (ymd(2098, 6, 1), ymd(2101, 12, 31))];
    let span = run.by(760i64, 3000);
    let step = 1i64;
    let bstep = run.by(2usize, 1);
    run.dim("counters", counters(ymd(2024, 2, 29)).len());
    run.dim("start_windows", json!(wins.iter().map(|w| format!("{}..{}", w.0, w.1)).collect::<Vec<_>>()));
    run.dim("day_offsets", json!({"from": -span, "to": span, "plus": "long spans -21800..21800 step 109"}));
    for (wa, wb) in wins {
        let term = ymd(wb.year() - 1, 2, 28 + leap(wb.year() - 1) as u32);
        let cx = Ctx::new(add(wa, -21900), add(wb, 21900), &BUSCALS);
        let cs = counters(term);
        let n = ((wb - wa).num_days() / step) as usize + 1;
        run.par(n, |i, w| {
            let d1 = add(wa, i as i64 * step);
            let dcs: Vec<_> = cs.iter().map(|c| (c.2)()).collect();
            let mut offs: Vec<i64> = (-span..=span).collect();
            offs.extend((-200..=200).map(|k| k * 109));
            for o in offs {
                let d2 = add(d1, o);
                w.state(1);
                for ((name, k, _), dc) in cs.iter().zip(&dcs) {
                    if matches!(k, K::Bus(_)) && (i % bstep != 0 || o.abs() > 150 || o % 3 == 1) && (o % 109 != 0 || i % 97 != 0) {
                        continue;
                    }
                    let (wd, wf) = (model_days(k, &cx, d1, d2), model_yf(k, &cx, d1, d2));
                    let key = || format!("{name} {d1}..{d2}");
                    if let Some(g) = w.call(key, || dc.day_count(d1, d2)) {
                        w.check(matches!(g, Ok(x) if x == wd), key, || format!("day count {g:?}, convention gives {wd}"));
                    }
                    if let Some(g) = w.call(key, || dc.year_fraction(d1, d2)) {
                        let g = g.unwrap_or(f64::NAN);
                        w.close(g, wf, 1e-12, 1e-12, || format!("year fraction {name} {d1}..{d2}"));
                    }
                }
            }
            w.trace(1);
        });
    }
    run.seq(|w| w.sample(json!({"ActAct ISDA 2023-11-01..2025-02-01": ActualActual::default().year_fraction(ymd(2023,11,1), ymd(2025,2,1)).unwrap()})));
}

fn c09(run: &Run) {
    let (a, n) = (ymd(2022, 10, 1), run.by(900i64, 1800));
    let cs = counters(ymd(2024, 2, 29));
    run.dim("start_days", n);
    run.dim("triples", "d1 < d2 < d3, offsets from a fixed ladder of month-end-crossing lengths");
    let ladder: Vec<i64> = run.by(
        vec![0, 1, 2, 27, 28, 29, 30, 31, 58, 59, 60, 61, 89, 90, 91, 92, 181, 182, 183, 365, 366, 367, 730, 731, 1096, 1461, 3652],
        (0..=70).chain([89, 90, 91, 92, 120, 151, 181, 182, 183, 273, 364, 365, 366, 367, 400, 730, 731, 1095, 1096, 1461, 1826, 3652, 7305]).collect(),
    );
    run.dim("ladder", ladder.len());
    run.par(n as usize, |i, w| {
        let d1 = add(a, i as i64);
        let dcs: Vec<_> = cs.iter().map(|c| (c.2)()).collect();
        for ((name, k, _), dc) in cs.iter().zip(&dcs) {
            let yf = |x: NaiveDate, y: NaiveDate| dc.year_fraction(x, y).unwrap();
            let dn = |x: NaiveDate, y: NaiveDate| dc.day_count(x, y).unwrap();
            w.beat(format!("{name} {d1}"));
            let quirk = matches!(k, K::IsdaT(t) if *t == d1); // the termination date is itself a February end
            w.check(quirk || dn(d1, d1) == 0 && yf(d1, d1) == 0.0, || format!("{name} {d1} zero"), || "empty interval is not zero".into());
            if matches!(k, K::Bus(_)) && i % 7 != 0 {
                continue;
            }
            let additive = matches!(k, K::Act(_) | K::NoLeap | K::Isda | K::Bus(_) | K::Eu | K::It | K::T365);
            let odd = matches!(k, K::Act(_) | K::NoLeap | K::Isda | K::Afb | K::Eu | K::It | K::T365);
            for &o in &ladder {
                let d2 = add(d1, o);
                w.state(1);
                let (x, nx) = (yf(d1, d2), dn(d1, d2));
                if odd {
                    w.check(dn(d2, d1) == -nx, || format!("{name} {d1} {d2} antisymmetry"), || "days".into());
                    w.close(yf(d2, d1), -x, 1e-13, 1e-13, || format!("{name} {d1} {d2} antisymmetry yf"));
                }
                let mut prev = x;
                let mut prevn = nx;
                for &q in &ladder {
                    if matches!(k, K::Bus(_)) && q > 200 {
                        continue;
                    }
                    let d3 = add(d2, q);
                    let (y3, n3) = (yf(d1, d3), dn(d1, d3));
                    if additive {
                        w.check(n3 == nx + dn(d2, d3), || format!("{name} {d1} {d2} {d3} additive"), || format!("{n3} days"));
                        w.close(y3, x + yf(d2, d3), 1e-12, 1e-12, || format!("{name} {d1} {d2} {d3} additive yf"));
                    }
                    // longer intervals never count less (30/360 variants may lose up to 3 days of a February end)
                    let slack = match k {
                        K::Us | K::Isma | K::It | K::IsdaT(_) | K::Nasd => 3,
                        K::T365 => 3,
                        _ => 0,
                    };
                    w.check(n3 + slack >= prevn, || format!("{name} {d1} {d3} monotone"), || format!("{n3} after {prevn}"));
                    w.check(y3 + slack as f64 / 360.0 + 3.0 * f64::EPSILON * y3.abs() + if matches!(k, K::Afb) { 1.0 / 365.0 } else { 0.0 } >= prev, || format!("{name} {d1} {d3} monotone yf"), || format!("{y3} after {prev}"));
                    prev = prev.max(y3);
                    prevn = prevn.max(n3);
                }
                // the date a year fraction leads back to
                let limit = match k {
                    K::Act(365.0) => 0,
                    K::Act(_) => 2 + o / 3600,
                    K::NoLeap | K::Isda | K::Afb => 3,
                    K::Bus(_) => continue,
                    _ => 4 + o / 1800,
                };
                if o <= 3652 {
                    let key = || format!("{name} year_fraction_to_date {d1} {d2}");
                    if let Some(back) = w.call(key, || dc.year_fraction_to_date(d1, x)) {
                        let off = back.map(|b| (b - d2).num_days().abs()).unwrap_or(99999);
                        w.check(off <= limit, key, || format!("{off} days away from {d2}"));
                    }
                }
            }
        }
        w.trace(1);
    });
    run.seq(|w| w.sample(json!({"ladder": ladder})));
}
