//! Foreign exchange: pair conventions, forward points, forwards, options, vol surfaces, contexts.
use super::rates::{Crv, curve_of, ncdf, npdf, shapes, yf365, yts};
use crate::cals;
use crate::fw::{Run, Worker};
use crate::props::Prop;
use crate::props::dates::{Tab, plus, settle_model};
use crate::refcal::{add, ymd};
use chrono::{Datelike, NaiveDate, NaiveTime};
use finquant::derivatives::basic::{BasicInfo, Direction, Style};
use finquant::derivatives::forex::basic::{FXDerivatives, FXUnderlying};
use finquant::derivatives::forex::forward::FXForward;
use finquant::derivatives::forex::option::{FXVanillaOption, OptionType, black_scholes};
use finquant::derivatives::interestrate::swap::InterestRateSwap;
use finquant::error::Error;
use finquant::markets::forex::market_context::FxMarketContext;
use finquant::markets::forex::quotes::forwardpoints::{FXForwardHelper, FXForwardQuote};
use finquant::markets::forex::quotes::volsurface::{FXDeltaVolPillar, FXVolQuote as VQ, FXVolSurface};
use finquant::markets::interestrate::interestrateindex::{InterestRateIndex, InterestRateIndexEnum as IE};
use finquant::markets::termstructures::yieldcurve::{YieldTermMarketData, oisratehelper::OISRate};
use finquant::time::calendars::{Calendar, JointCalendar, Target};
use finquant::time::daycounters::DayCounters;
use finquant::time::daycounters::actual365fixed::Actual365Fixed;
use finquant::time::period::Period as P;
use iso_currency::Currency;
use serde_json::json;

pub const PROPS: &[Prop] = &[("F01", f01), ("F02", f02), ("F03", f03), ("F04", f04), ("F05", f05), ("F06", f06)];

const NAMES: &str = "EURGBP EURUSD EURCAD EURJPY EURCHF EURNOK EURSEK EURAUD EURNZD EURDKK EURPLN EURHUF EURCZK EURRON \
GBPUSD GBPCAD GBPJPY GBPAUD GBPNZD GBPCHF GBPNOK GBPSEK \
AUDUSD NZDUSD USDCHF USDNOK USDSEK USDJPY USDSGD USDHKD USDCNY USDPLN USDHUF USDCZK USDZAR USDKRW USDINR USDBRL USDDKK USDIDR USDTWD USDTHB USDILS USDRON \
USDCAD USDMXN USDTRY USDRUB AUDNZD AUDCAD AUDCHF AUDJPY AUDSGD NZDCAD NZDCHF NZDJPY NZDSGD CADJPY CHFJPY CADCHF";

pub fn names() -> Vec<&'static str> {
    NAMES.split(' ').filter(|s| !s.is_empty()).collect()
}
pub fn pair(n: &str) -> FXUnderlying {
    n.parse().unwrap()
}
/// the market whose calendar a currency settles on
fn market(c: &str) -> Box<dyn Calendar> {
    let name = match c {
        "EUR" => "Target",
        "GBP" => "UnitedKingdom/Settlement",
        "USD" => "UnitedStates/Settlement",
        "JPY" => "Japan",
        "CAD" => "Canada/Settlement",
        "AUD" => "Australia/Settlement",
        "NZD" => "NewZealand/Wellington",
        "CHF" => "Switzerland",
        "NOK" => "Norway",
        "SEK" => "Sweden",
        "MXN" => "Mexico",
        "TRY" => "Turkey",
        "RUB" => "Russia/Settlement",
        "SGD" => "Singapore",
        "HKD" => "HongKong",
        "CNY" => "China",
        "PLN" => "Poland/Settlement",
        "HUF" => "Hungary",
        "CZK" => "CzechRepublic",
        "ZAR" => "SouthAfrica",
        "KRW" => "SouthKorea",
        "INR" => "India",
        "BRL" => "Brazil/Settlement",
        "DKK" => "Denmark",
        "IDR" => "Indonesia",
        "TWD" => "Taiwan",
        "THB" => "Thailand",
        "ILS" => "Israel/Shir",
        "RON" => "Romania",
        _ => panic!("{c}"),
    };
    (cals::all().into_iter().find(|d| d.name == name).unwrap_or_else(|| panic!("{name}")).make)()
}
pub fn lag(n: &str) -> i64 {
    if ["USDCAD", "USDMXN", "USDTRY", "USDRUB"].contains(&n) { 1 } else { 2 }
}
pub fn conv(n: &str) -> f64 {
    if n.ends_with("JPY") { 100.0 } else { 10000.0 }
}
pub fn joint(n: &str) -> JointCalendar {
    JointCalendar::new(vec![market(&n[..3]), market(&n[3..])])
}
pub fn ccy(c: &str) -> Currency {
    Currency::from_code(c).unwrap()
}

const TENORS: [P; 12] = [
    P::ON,
    P::TN,
    P::SPOT,
    P::SN,
    P::Weeks(1),
    P::Weeks(2),
    P::Months(1),
    P::Months(2),
    P::Months(3),
    P::Months(6),
    P::Years(1),
    P::Years(2),
];
fn pts(i: usize) -> f64 {
    [-2.1, -0.3, 0.0, 1.7, 8.9, 15.2, 41.5, 80.25, 118.0, -35.5, 460.0, 951.0][i]
}
/// All forward-point values a target date may take (several when quotes share a date); None outside.
fn points(dated: &[(NaiveDate, f64)], val: NaiveDate, d: NaiveDate) -> Option<Vec<f64>> {
    if d <= val || dated.len() < 2 {
        return None;
    }
    let at = |x: NaiveDate| dated.iter().filter(|p| p.0 == x).map(|p| p.1).collect::<Vec<_>>();
    let e = at(d);
    if !e.is_empty() {
        return Some(e);
    }
    let lo = dated.iter().map(|p| p.0).filter(|x| *x < d).max()?;
    let hi = dated.iter().map(|p| p.0).filter(|x| *x > d).min()?;
    let f = (d - lo).num_days() as f64 / (hi - lo).num_days() as f64;
    let mut out = vec![];
    for a in at(lo) {
        for b in at(hi) {
            out.push(a + f * (b - a));
        }
    }
    Some(out)
}
fn hit(w: &mut Worker, got: f64, want: &[f64], tol: f64, key: impl Fn() -> String) {
    w.check(want.iter().any(|x| (got - x).abs() <= tol * (1.0 + x.abs())), &key, || format!("got {got}, expected one of {want:?}"));
}

// ------------------------------------------------------------ F01

fn fx_vals(run: &Run) -> Vec<NaiveDate> {
    let (n, step) = run.by((12, 61), (60, 13));
    (0..n).map(|i| add(ymd(2023, 3, 28), i * step)).collect()
}

fn f01(run: &Run) {
    let vals = fx_vals(run);
    let prs = ["EURUSD", "USDCAD", "USDJPY", "USDBRL", "GBPCHF", "USDTRY"];
    let maxk = run.by(4usize, 12);
    run.dim("valuation_dates", vals.len());
    run.dim("pairs", json!(prs));
    run.dim("quoted_tenors", format!("every subset of {TENORS:?} of size up to {maxk} and of size at least 10 (12: every subset)"));
    run.dim("target_dates", "every day from 2 before the valuation date to 5 past the last quote (every 3rd past two months in the quick tier)");
    run.dim("quote_orders", 2);
    let items = vals.len() * prs.len();
    run.par(items, |it, w| {
        let val = vals[it / prs.len()];
        let pn = prs[it % prs.len()];
        let cal = joint(pn);
        let t = Tab::new(&cal, add(val, -40), add(val, 1200));
        let set: Vec<NaiveDate> = TENORS.iter().map(|&p| settle_model(&t, val, p, lag(pn))).collect();
        let u = pair(pn);
        for mask in 0u32..1 << TENORS.len() {
            let k = mask.count_ones() as usize;
            if k > maxk && k < 10 {
                continue;
            }
            w.beat(format!("{val} {pn} {mask:b}"));
            // every third strip quotes the same points everywhere
            let pv = |i: usize| if (mask as usize + it) % 3 == 2 { 25.0 } else { pts(i) };
            let mut q: Vec<FXForwardQuote> = (0..TENORS.len()).filter(|i| mask >> i & 1 == 1).map(|i| FXForwardQuote { tenor: TENORS[i], value: pv(i) }).collect();
            let dated: Vec<(NaiveDate, f64)> = (0..TENORS.len()).filter(|i| mask >> i & 1 == 1).map(|i| (set[i], pv(i))).collect();
            if mask % 2 == 1 {
                q.reverse();
            }
            let spot = 1.1;
            let helpers = if lag(pn) == 2 {
                vec![u.forward_helper(val, spot, q.clone()), FXForwardHelper::new(val, spot, q.clone())]
            } else {
                vec![u.forward_helper(val, spot, q.clone())]
            };
            w.state(1);
            let end = dated.iter().map(|x| x.0).max().unwrap_or(val);
            for h in &helpers {
                let mut d = add(val, -2);
                while d <= add(end, 5) {
                    let key = || format!("{val} {pn} quotes={mask:012b} {d}");
                    let want = points(&dated, val, d);
                    if let Some(got) = w.call(key, || h.get_forward(d, &cal)) {
                        match (got, want) {
                            (Ok(Some(g)), Some(x)) => hit(w, g, &x, 1e-12, key),
                            (Ok(None), None) => w.trans(1),
                            (g, x) => {
                                w.check(false, key, || format!("got {g:?}, expected {x:?}"));
                            }
                        }
                    }
                    let step = if (d - val).num_days() < 70 || dated.iter().any(|x| (x.0 - d).num_days().abs() < 4) {
                        1
                    } else {
                        run.by(3, 1)
                    };
                    d = add(d, step);
                }
            }
            w.trace(1);
        }
    });
    // a long strip, whole and with every one or two quotes missing
    let strip: Vec<P> = [P::ON, P::TN, P::SPOT, P::SN].into_iter().chain([P::Days(3), P::Days(10)]).chain([1, 2, 3].map(P::Weeks)).chain([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 15, 18, 21].map(P::Months)).chain([1, 2, 3, 4, 5, 7, 10, 15, 20, 30].map(P::Years)).collect();
    let n = strip.len();
    run.dim("long_strip", json!({"tenors": n, "missing": "none, every one, every two", "target_dates": "around every quote and midway"}));
    run.par(vals.len() * prs.len(), |it, w| {
        let val = vals[it / prs.len()];
        let pn = prs[it % prs.len()];
        let cal = joint(pn);
        let t = Tab::new(&cal, add(val, -40), add(val, 11200));
        let set: Vec<NaiveDate> = strip.iter().map(|&p| settle_model(&t, val, p, lag(pn))).collect();
        let u = pair(pn);
        for i in 0..=n {
            for j in i..=n {
                let keep: Vec<usize> = (0..n).filter(|x| *x != i && *x != j).collect();
                if j > i && j < n && !run.thorough() && (i + j) % 4 != 0 {
                    continue;
                }
                let f = |x: usize| pts(x % 12) * (1.0 + x as f64);
                let mut q: Vec<FXForwardQuote> = keep.iter().map(|&x| FXForwardQuote { tenor: strip[x], value: f(x) }).collect();
                let by = (i * 7 + j) % q.len();
                q.rotate_left(by);
                let dated: Vec<(NaiveDate, f64)> = keep.iter().map(|&x| (set[x], f(x))).collect();
                let h = u.forward_helper(val, 1.1, q);
                w.state(1);
                let mut ds: Vec<NaiveDate> = dated.iter().flat_map(|x| [add(x.0, -1), x.0, add(x.0, 1)]).collect();
                ds.sort();
                ds.dedup();
                let mids: Vec<NaiveDate> = ds.windows(2).map(|x| add(x[0], (x[1] - x[0]).num_days() / 2)).collect();
                for d in ds.into_iter().chain(mids) {
                    let key = || format!("{val} {pn} long strip without {i},{j} {d}");
                    if let Some(got) = w.call(key, || h.get_forward(d, &cal)) {
                        match (got, points(&dated, val, d)) {
                            (Ok(Some(g)), Some(x)) => hit(w, g, &x, 1e-10, key),
                            (Ok(None), None) => w.trans(1),
                            (g, x) => {
                                w.check(false, key, || format!("got {g:?}, expected {x:?}"));
                            }
                        }
                    }
                }
                w.trace(1);
            }
        }
    });
}

// ------------------------------------------------------------ F02

fn f02(run: &Run) {
    let ns = names();
    let (a, b) = run.by((ymd(1999, 1, 1), ymd(2040, 1, 1)), (ymd(1920, 1, 1), ymd(2180, 1, 1)));
    run.dim("pairs", ns.len());
    run.dim("dates", json!({"calendar": "every day 1901-2199", "settlement_from": a.to_string(), "settlement_to": b.to_string()}));
    let mut ten: Vec<P> = vec![P::ON, P::TN, P::SPOT, P::SN];
    ten.extend([1, 2, 3, 5].map(P::Days));
    ten.extend((1..=3).map(P::Weeks));
    ten.extend([1u32, 2, 3, 6, 9, 12, 18].map(P::Months));
    ten.extend([1u32, 2, 5, 10].map(P::Years));
    run.dim("tenors", ten.len());
    run.seq(|w| {
        w.check(ns.len() == 60, || "pair list".into(), || format!("{}", ns.len()));
    });
    run.par(ns.len(), |i, w| {
        let n = ns[i];
        w.beat(n);
        let key = || n.to_string();
        let Some(Ok(u)) = w.call(key, || n.parse::<FXUnderlying>()) else {
            w.fail(key(), "does not parse");
            return;
        };
        w.state(1);
        w.check(u.to_string() == n && format!("{u:?}") == n, key, || format!("prints as {u}"));
        let s = serde_json::to_string(&u).unwrap_or_default();
        w.check(s == format!("\"{n}\"") && serde_json::from_str::<FXUnderlying>(&s).map(|x| x.to_string()).ok().as_deref() == Some(n), || format!("{n} serialized"), || s.clone());
        w.check(u.frn_currency() == ccy(&n[..3]) && u.dom_currency() == ccy(&n[3..]), || format!("{n} currencies"), || format!("{:?}/{:?}", u.frn_currency(), u.dom_currency()));
        w.check(u.settles() as i64 == lag(n), || format!("{n} spot lag"), || format!("{}", u.settles()));
        w.check(u.forward_points_converter() == conv(n), || format!("{n} points converter"), || format!("{}", u.forward_points_converter()));
        let want_cut = match n {
            "USDCAD" | "USDMXN" => (17, 0),
            "USDTRY" => (9, 0),
            "USDRUB" => (9, 30),
            _ => (22, 0),
        };
        let cut = NaiveTime::from_hms_opt(want_cut.0, want_cut.1, 0).unwrap();
        w.check(u.cutoff_utc() == cut, || format!("{n} cut-off"), || format!("{}", u.cutoff_utc()));
        let base = if n == "EURUSD" || n == "USDJPY" { 360.0 } else { 365.0 };
        for (x, y) in [(ymd(2023, 1, 31), ymd(2024, 3, 1)), (ymd(2024, 2, 29), ymd(2024, 3, 1)), (ymd(2024, 3, 1), ymd(2020, 3, 1))] {
            w.close(u.day_count().year_fraction(x, y).unwrap_or(f64::NAN), (y - x).num_days() as f64 / base, 1e-15, 1e-13, || format!("{n} day count"));
        }
        // calendar: closed exactly when one of the two markets is
        let (m1, m2) = (market(&n[..3]), market(&n[3..]));
        let c = u.calendar();
        let mut d = ymd(1901, 1, 1);
        let end = ymd(2199, 12, 31);
        let step = 1;
        while d <= end {
            let want = m1.is_business_day(d) && m2.is_business_day(d);
            w.check(c.is_business_day(d) == want, || format!("{n} calendar {d}"), || format!("open {want} expected"));
            d = add(d, step);
        }
        // dates
        let joint = joint(n);
        let t = Tab::new(&joint, add(a, -400), add(b, 4200));
        let mut d = a;
        let times: Vec<NaiveTime> = {
            let s = want_cut.0 * 3600 + want_cut.1 * 60;
            let mut v: Vec<u32> = vec![0, s - 1, s, s + 1, 86399, 9 * 3600 - 1, 9 * 3600, 9 * 3600 + 1800, 17 * 3600, 22 * 3600, 22 * 3600 - 1];
            v.sort();
            v.dedup();
            let mut v: Vec<(u32, u32)> = v.into_iter().map(|x| (x, 0)).collect();
            v.extend([(s - 1, 999_999_999), (s - 1, 999_000_000), (s - 1, 500_000_000), (s, 1), (s, 999_999_999), (s - 60, 0), (s + 59, 0), (86399, 999_999_999)]);
            v.into_iter().map(|(x, n)| NaiveTime::from_num_seconds_from_midnight_opt(x, n).unwrap()).collect()
        };
        let l = lag(n);
        while d <= b {
            w.state(1);
            for &p in &ten {
                let want = settle_model(&t, d, p, l);
                let k = || format!("{n} {d} {p:?}");
                if let Some(got) = w.call(k, || u.settlement_date(p, d)) {
                    w.check(got.as_ref().ok() == Some(&want), || format!("{} settles", k()), || format!("{got:?}, expected {want}"));
                }
                let near = match p {
                    P::ON => Some(t.next(d)),
                    P::TN => Some(t.next(add(d, 1))),
                    P::SN => Some(t.next(add(d, l))),
                    _ => None,
                };
                if let Some(got) = w.call(k, || u.near_date(p, d)) {
                    w.check(got.as_ref().ok() == Some(&near), || format!("{} near", k()), || format!("{got:?}, expected {near:?}"));
                }
            }
            for &tm in &times {
                let want = if tm >= cut { t.next(add(d, 1)) } else { d };
                let k = || format!("{n} {d} {tm} effective");
                if let Some(got) = w.call(k, || u.effective_valuation_date(d, tm)) {
                    w.check(got == want, k, || format!("{got}, expected {want}"));
                }
            }
            w.trace(1);
            d = add(d, 1);
        }
    });
}

// ------------------------------------------------------------ F03, F04

pub struct Mkt {
    pub val: NaiveDate,
    pub spot: f64,
    pub dated: Vec<(NaiveDate, f64)>,
    pub dom: Crv,
}
fn scale(n: &str) -> f64 {
    match &n[3..] {
        "JPY" => 150.0,
        "IDR" => 15500.0,
        "KRW" => 1330.0,
        "HUF" => 360.0,
        _ => 1.25,
    }
}
pub fn flat_surface(val: NaiveDate) -> FXVolSurface {
    FXVolSurface::new(
        val,
        vec![FXDeltaVolPillar { expiry: add(val, 365), forward: 1.0, quotes: vec![VQ::Atm(0.1), VQ::Put { delta: 0.25, vol: 0.1 }, VQ::Call { delta: 0.25, vol: 0.1 }] }],
    )
    .unwrap()
}
/// Three pillars with a smile each.
pub fn smile_surface(val: NaiveDate, f: f64) -> FXVolSurface {
    let p = |d: i64, a: f64| FXDeltaVolPillar { expiry: add(val, d), forward: f, quotes: vec![VQ::Atm(a), VQ::Put { delta: 0.25, vol: a + 0.006 }, VQ::Call { delta: 0.25, vol: a + 0.002 }, VQ::Put { delta: 0.1, vol: a + 0.016 }, VQ::Call { delta: 0.1, vol: a + 0.009 }] };
    FXVolSurface::new(val, vec![p(30, 0.09), p(182, 0.1), p(730, 0.12)]).unwrap()
}
/// A context for `n` and its reference data; tenor points scaled to the pair.
pub fn mkt(n: &str, val: NaiveDate, f: fn(f64) -> f64, tick: f64) -> (FxMarketContext, Mkt) {
    let spot = scale(n);
    let u = pair(n);
    let cal = joint(n);
    let t = Tab::new(&cal, add(val, -40), add(val, 1200));
    let idx = [0usize, 4, 6, 8, 9, 10, 11];
    let k = tick * spot * conv(n) / 12500.0;
    let q: Vec<FXForwardQuote> = idx.iter().map(|&i| FXForwardQuote { tenor: TENORS[i], value: pts(i) * k }).collect();
    let dated = idx.iter().map(|&i| (settle_model(&t, val, TENORS[i], lag(n)), pts(i) * k)).collect();
    let s = curve_of(val, f);
    let fs = curve_of(val, |t| 0.01 + 0.001 * t);
    let dom = Crv::of(val, &s);
    let cx = FxMarketContext::new(
        val,
        spot,
        (u.dom_currency(), u.frn_currency()),
        yts(val, s),
        yts(val, fs),
        u.forward_helper(val, spot, q),
        flat_surface(val),
    );
    (cx, Mkt { val, spot, dated, dom })
}
fn info(dir: Direction, style: Style, val: NaiveDate, exp: NaiveDate) -> BasicInfo {
    BasicInfo { trade_date: add(val, -3), style, direction: dir, expiry_date: exp, delivery_date: add(exp, 2) }
}
fn expiries(run: &Run, m: &Mkt) -> Vec<NaiveDate> {
    let end = m.dated.iter().map(|x| x.0).max().unwrap();
    let mut v: Vec<NaiveDate> = (-2..run.by(12, 40)).map(|i| add(m.val, i)).collect();
    let mut d = add(m.val, 14);
    while d < add(end, 3) {
        v.push(d);
        d = add(d, run.by(37, 11));
    }
    for x in &m.dated {
        v.extend((-1..=1).map(|i| add(x.0, i)));
    }
    v.push(add(end, 1));
    v.sort();
    v.dedup();
    v
}

fn f03(run: &Run) {
    let ns = names();
    let vals: Vec<NaiveDate> = fx_vals(run).into_iter().step_by(run.by(3, 3)).collect();
    let shp = shapes();
    run.dim("pairs", ns.len());
    run.dim("valuation_dates", vals.len());
    run.dim("curve_shapes", shp.len());
    run.dim("strikes_relative_to_spot", json!([0.5, 0.97, 1.0, 1.02, 2.0]));
    run.dim("notional_currency_direction", "2 x 2");
    run.dim("notionals", json!([3e6, -7e5, 1.0]));
    run.par(ns.len() * vals.len(), |it, w| {
        let n = ns[it % ns.len()];
        let val = vals[it / ns.len()];
        let u = || pair(n);
        for (sn, f) in &shp {
            for tick in [1.0, -0.6] {
                let (cx, m) = mkt(n, val, *f, tick);
                for e in expiries(run, &m) {
                    w.beat(format!("{n} {val} {sn} {e}"));
                    w.state(1);
                    let want = points(&m.dated, val, e);
                    for ks in [0.5, 0.97, 1.0, 1.02, 2.0] {
                        let k = m.spot * ks;
                        for frn in [true, false] {
                            for (dir, sg, nn) in [(Direction::Buy, 1.0, 3e6), (Direction::Sell, -1.0, 3e6), (Direction::Buy, 1.0, -7e5), (Direction::Sell, -1.0, -7e5), (Direction::Sell, -1.0, 1.0f64)] {
                                let t = FXForward {
                                    basic_info: info(dir, Style::FXForward, val, e),
                                    asset: u(),
                                    notional_currency: if frn { ccy(&n[..3]) } else { ccy(&n[3..]) },
                                    notional_amounts: nn,
                                    strike: k,
                                };
                                let key = || format!("{n} {val} {sn} tick={tick} expiry {e} K={k} foreign={frn} {dir:?} {nn}");
                                let eff = if frn { nn } else { -nn / k } * sg;
                                let Some(got) = w.call(key, || t.mtm(&cx)) else { continue };
                                match (&got, &want) {
                                    (Ok(v), Some(p)) => {
                                        let x: Vec<f64> = p.iter().map(|p| eff * (m.spot + p / conv(n) - k) * m.dom.df(e)).collect();
                                        let tol = 1e-11 * nn.abs() * m.spot.max(1.0);
                                        w.check(x.iter().any(|y| (y - v.value).abs() <= tol), || format!("{} mtm", key()), || format!("got {}, expected one of {x:?}", v.value));
                                        w.check(v.currency == ccy(&n[3..]), || format!("{} mtm currency", key()), || format!("{:?}", v.currency));
                                    }
                                    (Err(Error::TradeExpired(_)), None) => w.trans(1),
                                    _ => {
                                        w.check(false, || format!("{} mtm", key()), || format!("got {got:?}, expected {want:?}"));
                                    }
                                }
                                let d = t.delta(&cx);
                                let ok = matches!(&d, Ok(v) if v.currency == ccy(&n[..3]) && (v.value - eff).abs() <= 1e-9 * eff.abs());
                                w.check(ok, || format!("{} delta", key()), || format!("got {d:?}, expected {eff}"));
                                w.check(t.gamma(&cx).ok() == Some(0.0) && t.vega(&cx).ok() == Some(0.0), || format!("{} gamma vega", key()), || "a forward has neither".into());
                                w.trace(1);
                            }
                        }
                    }
                }
            }
        }
    });
}

/// Forward-form Black-Scholes with this crate's own normal distribution.
pub fn bs(f: f64, k: f64, v: f64, df: f64, om: f64) -> f64 {
    if v <= 0.0 {
        return df * (om * (f - k)).max(0.0);
    }
    let s = v.sqrt();
    let d1 = (f / k).ln() / s + 0.5 * s;
    df * om * (f * ncdf(om * d1) - k * ncdf(om * (d1 - s)))
}

fn f04(run: &Run) {
    let ns = names();
    let vals: Vec<NaiveDate> = fx_vals(run).into_iter().step_by(run.by(5, 25)).collect();
    let shp = shapes();
    let vols: &[f64] = run.by(&[0.0, 0.001, 0.08, 0.6, 4.0][..], &[0.0, 1e-4, 0.001, 0.03, 0.08, 0.2, 1.5, 4.0, 9.0][..]);
    let ks: &[f64] = run.by(&[0.6, 0.97, 1.013, 1.6][..], &[0.3, 0.6, 0.97, 0.995, 1.013, 1.2, 3.0][..]);
    run.dim("pairs", ns.len());
    run.dim("valuation_dates", vals.len());
    run.dim("curve_shapes", shp.len());
    run.dim("vols", json!(vols));
    run.dim("strikes_relative_to_spot", json!(ks));
    run.par(ns.len() * vals.len(), |it, w| {
        let n = ns[it % ns.len()];
        let val = vals[it / ns.len()];
        for (si, (sn, f)) in shp.iter().enumerate() {
            if !run.thorough() && (si + it) % 2 == 1 {
                continue;
            }
            let (cx, m) = mkt(n, val, *f, 1.0);
            for e in expiries(run, &m) {
                w.beat(format!("{n} {val} {sn} {e}"));
                w.state(1);
                let want = points(&m.dated, val, e);
                // ON/TN dates that coincide with other quotes are settled in F01
                if want.as_ref().is_some_and(|x| x.len() > 1) {
                    continue;
                }
                // the last strike is the forward itself
                for k in ks.iter().map(|k| k * m.spot).chain(want.as_ref().map(|p| m.spot + p[0] / conv(n))) {
                    for &vol in vols {
                        // which side of the money the forward is decides, and here it is neither
                        if k == want.as_ref().map_or(0.0, |p| m.spot + p[0] / conv(n)) && (vol == 0.0 || e <= val) {
                            continue;
                        }
                        for (ot, om) in [(OptionType::Call, 1.0), (OptionType::Put, -1.0)] {
                            for frn in [true, false] {
                                for (dir, sg) in [(Direction::Buy, 1.0), (Direction::Sell, -1.0)] {
                                    let nn = 2e6;
                                    let o = FXVanillaOption {
                                        basic_info: info(dir, if om > 0.0 { Style::FXCall } else { Style::FXPut }, val, e),
                                        asset: pair(n),
                                        option_type: ot,
                                        notional_currency: if frn { ccy(&n[..3]) } else { ccy(&n[3..]) },
                                        notional_amounts: nn,
                                        strike: k,
                                        volatility: vol,
                                    };
                                    let key = || format!("{n} {val} {sn} expiry {e} K={k} vol={vol} {ot:?} foreign={frn} {dir:?}");
                                    let Some(got) = w.call(key, || (o.mtm(&cx), o.delta(&cx), o.gamma(&cx), o.vega(&cx))) else { continue };
                                    w.trace(1);
                                    let Some(p) = &want else {
                                        let ok = matches!(got.0, Err(Error::TradeExpired(_))) && matches!(got.1, Err(Error::TradeExpired(_))) && matches!(got.2, Err(Error::TradeExpired(_))) && matches!(got.3, Err(Error::TradeExpired(_)));
                                        w.check(ok, key, || format!("outside the forward range but {got:?}"));
                                        continue;
                                    };
                                    let (Ok(mt), Ok(de), Ok(ga), Ok(ve)) = got else {
                                        w.fail(key(), format!("{got:?}"));
                                        continue;
                                    };
                                    let fw = m.spot + p[0] / conv(n);
                                    let t = yf365(val, e);
                                    let v = vol * vol * t;
                                    let df = m.dom.df(e);
                                    let sc = if frn { nn / m.spot } else { nn / k };
                                    let bn = if frn { nn } else { nn / k };
                                    let tol = 1e-10 * nn * if frn { 1.0 } else { m.spot / k };
                                    w.close(mt.value, -sg * sc * bs(fw, k, v, df, om), tol, 0.0, || format!("{} premium", key()));
                                    w.check(mt.currency == if frn { ccy(&n[..3]) } else { ccy(&n[3..]) }, || format!("{} premium currency", key()), || format!("{:?}", mt.currency));
                                    let s = v.sqrt();
                                    let d1 = if s > 0.0 { (fw / k).ln() / s + 0.5 * s } else { f64::INFINITY * (fw - k) };
                                    w.close(de.value, sg * bn * om * ncdf(om * d1), 1e-9 * bn, 0.0, || format!("{} delta", key()));
                                    w.check(de.currency == ccy(&n[..3]), || format!("{} delta currency", key()), || format!("{:?}", de.currency));
                                    let ph = if s > 0.0 { npdf(d1) } else { 0.0 };
                                    let g = if s > 0.0 { df * ph / (fw * s) } else { 0.0 };
                                    w.close(ga, sg * bn * g, 1e-9 * bn / m.spot, 1e-9, || format!("{} gamma", key()));
                                    w.close(ve, sg * sc * df * fw * ph * t.sqrt() / 100.0, 1e-10 * nn.max(nn * m.spot / k), 1e-9, || format!("{} vega", key()));
                                }
                            }
                        }
                    }
                }
            }
        }
    });
    // the formula itself: parity, bounds, monotone in strike, variance and forward
    let fs = [0.01, 0.7, 1.0, 1.3, 150.0];
    let vs = [0.0, 1e-12, 1e-8, 1e-6, 1e-4, 0.01, 0.04, 0.3, 1.0, 4.0, 9.5, 25.0, 49.5, 64.5, 150.0, 400.0];
    run.seq(|w| {
        for &f in &fs {
            for i in 0..=120 {
                let k = f * (0.2f64 + i as f64 * 0.02);
                let mut last = [0.0; 2];
                for &v in &vs {
                    for df in [1.0, 0.9, 1.02] {
                        let key = || format!("black_scholes F={f} K={k} V={v} DF={df}");
                        w.state(1);
                        let (c, p) = (black_scholes(f, k, v, df, OptionType::Call), black_scholes(f, k, v, df, OptionType::Put));
                        w.close(c, bs(f, k, v, df, 1.0), 1e-10 * f, 1e-9, || format!("{} call", key()));
                        w.close(p, bs(f, k, v, df, -1.0), 1e-10 * f, 1e-9, || format!("{} put", key()));
                        w.close(c - p, df * (f - k), 1e-12 * (f + k), 0.0, || format!("{} parity", key()));
                        w.check(c >= df * (f - k).max(0.0) - 1e-12 * f && c <= df * f + 1e-12 * f, || format!("{} bounds", key()), || format!("{c}"));
                        if df == 1.0 {
                            w.check(c >= last[0] - 1e-12 * f && p >= last[1] - 1e-12 * f, || format!("{} grows with variance", key()), || format!("{c} {p} after {last:?}"));
                            last = [c, p];
                        }
                    }
                }
                w.trace(1);
            }
        }
    });
}

// ------------------------------------------------------------ F05

/// inverse of the normal CDF by bisection
pub fn ninv(p: f64) -> f64 {
    let (mut a, mut b) = (-40.0, 40.0);
    for _ in 0..200 {
        let m = 0.5 * (a + b);
        if ncdf(m) < p { a = m } else { b = m }
    }
    0.5 * (a + b)
}

#[derive(Clone, Debug)]
struct Sm {
    exp: NaiveDate,
    t: f64,
    f: f64,
    atm: f64,
    /// (strike, vol), ascending
    kv: Vec<(f64, f64)>,
}
impl Sm {
    /// deltas ascending with (delta, call vol, put vol)
    fn new(val: NaiveDate, exp: NaiveDate, f: f64, atm: f64, ds: &[(f64, f64, f64)]) -> Sm {
        let t = yf365(val, exp);
        let r = t.sqrt();
        let mut kv = vec![];
        let mut ds = ds.to_vec();
        ds.sort_by(|a, b| a.0.total_cmp(&b.0));
        for d in &ds {
            let d1 = -ninv(d.0); // N(-d1) = delta
            kv.push((f * (0.5 * d.2 * d.2 * t - d1 * d.2 * r).exp(), d.2));
        }
        kv.push((f * (0.5 * atm * atm * t).exp(), atm));
        for d in ds.iter().rev() {
            let d1 = ninv(d.0);
            kv.push((f * (0.5 * d.1 * d.1 * t - d1 * d.1 * r).exp(), d.1));
        }
        Sm { exp, t, f, atm, kv }
    }
    fn ordered(&self) -> bool {
        self.kv.windows(2).all(|x| x[0].0 < x[1].0)
    }
    fn near_tie(&self) -> bool {
        self.kv.windows(2).any(|x| (x[1].0 / x[0].0 - 1.0).abs() < 1e-9)
    }
    fn x(&self, k: f64) -> f64 {
        ncdf((self.f / k).ln() / (1.5 * self.atm * self.t.sqrt()))
    }
    fn quad(&self, k: f64) -> f64 {
        let m = self.kv.len() / 2;
        let a: Vec<(f64, f64)> = [0, m, self.kv.len() - 1].iter().map(|&i| (self.x(self.kv[i].0), self.kv[i].1)).collect();
        let x = self.x(k);
        // Newton form through the three anchors
        let d01 = (a[1].1 - a[0].1) / (a[1].0 - a[0].0);
        let d12 = (a[2].1 - a[1].1) / (a[2].0 - a[1].0);
        let d012 = (d12 - d01) / (a[2].0 - a[0].0);
        a[0].1 + d01 * (x - a[0].0) + d012 * (x - a[0].0) * (x - a[1].0)
    }
    fn vol(&self, k: f64) -> f64 {
        let n = self.kv.len();
        let l = k.ln();
        let mut r = 0.0;
        for i in 0..n - 1 {
            let (a, b) = (self.kv[i], self.kv[i + 1]);
            if k >= a.0 && k <= b.0 {
                let (ra, rb) = (a.1 - self.quad(a.0), b.1 - self.quad(b.0));
                let f = (l - a.0.ln()) / (b.0.ln() - a.0.ln());
                r = ra + f * (rb - ra);
                break;
            }
        }
        self.quad(k) + r
    }
}

fn f05(run: &Run) {
    let val = ymd(2024, 2, 27);
    // every subset of the usual four, then dense smiles reaching far into the wings
    let usual = [0.05, 0.1, 0.25, 0.35];
    let mut sets: Vec<Vec<f64>> = (1usize..16).map(|m| (0..4).filter(|i| m >> i & 1 == 1).map(|i| usual[i]).collect()).collect();
    let dense = [0.001, 0.004, 0.01, 0.02, 0.05, 0.08, 0.1, 0.15, 0.2, 0.25, 0.255, 0.3, 0.35, 0.4, 0.45];
    sets.push(dense.to_vec());
    sets.push(dense.iter().copied().step_by(2).collect());
    sets.push(dense[..6].to_vec());
    sets.push(dense[9..].to_vec());
    let many: Vec<i64> = (1..=26).map(|i| 2 + 7 * i * i).collect();
    let atms: &[f64] = run.by(&[0.02, 0.05, 0.11, 0.4][..], &[0.02, 0.05, 0.08, 0.11, 0.25, 0.4, 0.8][..]);
    let rrs: &[f64] = run.by(&[-0.3, -0.05, 0.0, 0.15][..], &[-0.3, -0.2, -0.05, 0.0, 0.08, 0.15, 0.3][..]);
    let bfs: &[f64] = run.by(&[-0.02, 0.0, 0.04][..], &[-0.02, 0.0, 0.02, 0.04, 0.1][..]);
    let few: &[i64] = &[1, 7, 30, 91, 366, 1830, 9000];
    let fwds = [1.0842, 151.7, 0.0065];
    run.dim("delta_subsets", format!("every non-empty subset of 5, 10, 25, 35 delta, and subsets of {dense:?}"));
    run.dim("atm_vols", json!(atms));
    run.dim("risk_reversals_relative_to_atm", json!(rrs));
    run.dim("butterflies_relative_to_atm", json!(bfs));
    run.dim("expiry_days", json!(few));
    run.dim("expiry_days_of_dense_smiles", json!(many));
    run.dim("quote_styles", "direct, RR+BF, alternating per delta, both (direct wins), reversed order");
    let items = sets.len() * atms.len() * rrs.len();
    run.par(items, |it, w| {
        let ns = sets.len();
        let deltas = &sets[ns - 1 - it % ns];
        let nd = deltas.len();
        let exps: &[i64] = if it % ns < 4 { &many } else { few };
        let atm = atms[it / ns % atms.len()];
        let rr = rrs[it / ns / atms.len()];
        for &bf in bfs {
            let mut sms: Vec<Sm> = vec![];
            for (ei, &e) in exps.iter().enumerate() {
                for &f in &fwds {
                    let exp = add(val, e);
                    let ds: Vec<(f64, f64, f64)> = (0..nd)
                        .map(|i| {
                            let far = (0.5 - deltas[i]) / 0.4;
                            let (r, b) = (rr * atm * far, bf * atm * far + 0.002 * atm * ((i * 7 + ei) % 3) as f64);
                            (deltas[i], atm + b + 0.5 * r, atm + b - 0.5 * r)
                        })
                        .collect();
                    let sm = Sm::new(val, exp, f, atm, &ds);
                    let key = || format!("atm={atm} rr={rr} bf={bf} deltas={deltas:?} expiry={e}d F={f}");
                    if ds.iter().any(|d| d.1 <= 0.0 || d.2 <= 0.0) || sm.near_tie() {
                        continue;
                    }
                    let mut base: Option<Vec<f64>> = None;
                    for style in 0..5 {
                        w.state(1);
                        let mut q = vec![];
                        for (i, &(d, c, p)) in ds.iter().enumerate() {
                            let direct = matches!(style, 0 | 3 | 4) || (style == 2 && i % 2 == 0);
                            if direct {
                                q.push(VQ::Call { delta: d, vol: c });
                                q.push(VQ::Put { delta: d, vol: p });
                            } else {
                                q.push(VQ::RiskReversal { delta: d, vol: c - p });
                                q.push(VQ::Butterfly { delta: d, vol: 0.5 * (c + p) - atm });
                            }
                            if style == 3 {
                                q.push(VQ::Butterfly { delta: d, vol: 0.3 });
                                q.push(VQ::RiskReversal { delta: d, vol: -0.1 });
                            }
                        }
                        q.push(VQ::Atm(atm));
                        if style == 4 {
                            q.reverse();
                        }
                        let Some(got) = w.call(key, || FXVolSurface::new(val, vec![FXDeltaVolPillar { expiry: exp, forward: f, quotes: q.clone() }])) else { continue };
                        w.trace(1);
                        if !w.check(got.is_ok() == sm.ordered(), || format!("{} style {style}", key()), || format!("strikes in order: {}, built: {}", sm.ordered(), got.is_ok())) {
                            continue;
                        }
                        let Ok(s) = got else { continue };
                        // every quoted strike gets its own vol back
                        for &(k, v) in &sm.kv {
                            w.close(s.volatility(exp, k).unwrap_or(f64::NAN), v, 1e-8, 0.0, || format!("{} style {style} pillar strike {k}", key()));
                        }
                        let (lo, hi) = (sm.kv[0].0, sm.kv.last().unwrap().0);
                        let mut vs = vec![];
                        for j in -14..=54 {
                            let k = match j {
                                -14 => lo / 50.0,
                                -13 => lo / 3.0,
                                53 => hi * 3.0,
                                54 => hi * 50.0,
                                _ => lo * (hi / lo).powf(j as f64 / 40.0 + 0.0037),
                            };
                            let v = s.volatility(exp, k).unwrap_or(f64::NAN);
                            w.close(v, sm.vol(k), 1e-7, 1e-7, || format!("{} style {style} strike {k}", key()));
                            for other in [add(exp, 1), add(exp, 1000), add(val, 1)] {
                                w.close(s.volatility(other, k).unwrap_or(f64::NAN), v, 1e-12, 1e-12, || format!("{} style {style} strike {k} at {other} (one pillar: flat in expiry)", key()));
                            }
                            vs.push(v);
                        }
                        match &base {
                            None => base = Some(vs),
                            Some(b) => {
                                w.check(b.iter().zip(&vs).all(|(a, b)| (a - b).abs() < 1e-9), || format!("{} style {style} same smile", key()), || "differs from direct quotes".into());
                            }
                        }
                    }
                    if f == fwds[0] && sm.ordered() {
                        sms.push(sm);
                    }
                }
            }
            // several pillars: total variance linear in time between them
            for take in [vec![0usize, 1], vec![1, 3], vec![0, 2, 4], (0..sms.len()).collect::<Vec<_>>()] {
              // the level steady, jumping up and down, and falling with the expiry
              for lv in 0..3 {
                let use_: Vec<Sm> = take
                    .iter()
                    .filter_map(|&i| {
                        let m = sms.get(i)?;
                        let g = [1.0, [1.0, 2.5, 0.6, 1.7, 0.45][i % 5], 3.0 / (1.0 + i as f64)][lv];
                        let h = m.kv.len() / 2;
                        Some(Sm::new(val, m.exp, m.f, m.atm * g, &(0..nd).map(|j| (deltas[j], m.kv[2 * h - j].1 * g, m.kv[j].1 * g)).collect::<Vec<_>>()))
                    })
                    .filter(|m| m.ordered() && !m.near_tie())
                    .collect();
                if use_.len() < 2 {
                    continue;
                }
                for rev in [false, true] {
                    let mut ps: Vec<FXDeltaVolPillar> = use_
                        .iter()
                        .map(|m| {
                            let h = m.kv.len() / 2;
                            let mut q = vec![VQ::Atm(m.atm)];
                            for (i, d) in deltas.iter().enumerate() {
                                q.push(VQ::Put { delta: *d, vol: m.kv[i].1 });
                                q.push(VQ::Call { delta: *d, vol: m.kv[2 * h - i].1 });
                            }
                            FXDeltaVolPillar { expiry: m.exp, forward: m.f, quotes: q }
                        })
                        .collect();
                    if rev {
                        ps.reverse();
                    }
                    let key = || format!("atm={atm} rr={rr} bf={bf} deltas={deltas:?} pillars {:?} level {lv} rev={rev}", use_.iter().map(|m| m.exp.to_string()).collect::<Vec<_>>());
                    w.state(1);
                    w.beat(key());
                    let Some(Ok(s)) = w.call(key, || FXVolSurface::new(val, ps)) else {
                        w.fail(key(), "not built");
                        continue;
                    };
                    w.trace(1);
                    let mut d = add(val, -2);
                    let end = add(use_.last().unwrap().exp, 40);
                    while d <= end {
                        for ks in [0.3, 0.8, 0.97, 1.0, 1.02, 1.2, 4.0] {
                            let k = fwds[0] * ks;
                            let kk = || format!("{} {d} K={k}", key());
                            let got = s.volatility(d, k);
                            if d <= val {
                                w.check(got.is_err(), kk, || "must be refused".into());
                                continue;
                            }
                            let want = if d <= use_[0].exp {
                                use_[0].vol(k)
                            } else if d >= use_.last().unwrap().exp {
                                use_.last().unwrap().vol(k)
                            } else {
                                let i = use_.iter().position(|m| m.exp >= d).unwrap();
                                let (a, b) = (&use_[i - 1], &use_[i]);
                                // an extreme smile's parabola can cross zero beyond its quotes
                                if a.vol(k) <= 0.0 || b.vol(k) <= 0.0 {
                                    continue;
                                }
                                let (va, vb) = (a.vol(k).powi(2) * a.t, b.vol(k).powi(2) * b.t);
                                let t = yf365(val, d);
                                let f = (t - a.t) / (b.t - a.t);
                                let v = (va + f * (vb - va)) / t;
                                v.sqrt()
                            };
                            w.close(got.unwrap_or(f64::NAN), want, 1e-7, 1e-7, kk);
                        }
                        let n = (d - val).num_days();
                        let edge = use_.iter().any(|m| (m.exp - d).num_days().abs() < 3);
                        d = add(d, if n < 12 || edge { 1 } else { run.by(13, 5) });
                    }
                }
              }
            }
        }
    });
    // inputs that must be refused
    run.seq(|w| {
        let ok = || vec![VQ::Atm(0.1), VQ::Put { delta: 0.25, vol: 0.11 }, VQ::Call { delta: 0.25, vol: 0.1 }];
        let p = |e: NaiveDate, f: f64, q: Vec<VQ>| vec![FXDeltaVolPillar { expiry: e, forward: f, quotes: q }];
        let e = add(val, 90);
        let mut bad: Vec<(String, Vec<FXDeltaVolPillar>)> = vec![
            ("no pillars".into(), vec![]),
            ("expiry on valuation".into(), p(val, 1.0, ok())),
            ("expiry before valuation".into(), p(add(val, -1), 1.0, ok())),
            ("zero forward".into(), p(e, 0.0, ok())),
            ("negative forward".into(), p(e, -1.0, ok())),
            ("no ATM".into(), p(e, 1.0, ok()[1..].to_vec())),
            ("only ATM".into(), p(e, 1.0, vec![VQ::Atm(0.1)])),
            ("two ATM".into(), p(e, 1.0, [ok(), vec![VQ::Atm(0.1)]].concat())),
            ("call without put".into(), p(e, 1.0, vec![VQ::Atm(0.1), VQ::Call { delta: 0.25, vol: 0.1 }])),
            ("put without call".into(), p(e, 1.0, vec![VQ::Atm(0.1), VQ::Put { delta: 0.25, vol: 0.1 }])),
            ("risk reversal without butterfly".into(), p(e, 1.0, vec![VQ::Atm(0.1), VQ::RiskReversal { delta: 0.25, vol: 0.1 }])),
            ("butterfly without risk reversal".into(), p(e, 1.0, vec![VQ::Atm(0.1), VQ::Butterfly { delta: 0.25, vol: 0.1 }])),
            ("call with butterfly".into(), p(e, 1.0, vec![VQ::Atm(0.1), VQ::Call { delta: 0.25, vol: 0.1 }, VQ::Butterfly { delta: 0.25, vol: 0.0 }])),
            ("pair split over deltas".into(), p(e, 1.0, vec![VQ::Atm(0.1), VQ::Call { delta: 0.25, vol: 0.1 }, VQ::Put { delta: 0.1, vol: 0.1 }])),
            ("one bad pillar of two".into(), [p(e, 1.0, ok()), p(add(e, 5), 1.0, vec![VQ::Atm(0.1)])].concat()),
        ];
        for d in [0.0, 0.5, -0.25, 0.75, 1.0] {
            bad.push((format!("delta {d}"), p(e, 1.0, vec![VQ::Atm(0.1), VQ::Put { delta: d, vol: 0.11 }, VQ::Call { delta: d, vol: 0.1 }])));
            bad.push((format!("risk reversal at delta {d}"), p(e, 1.0, [ok(), vec![VQ::RiskReversal { delta: d, vol: 0.01 }, VQ::Butterfly { delta: d, vol: 0.01 }]].concat())));
        }
        for (n, b) in bad {
            w.state(1);
            let got = w.call(|| n.clone(), || FXVolSurface::new(val, b).is_err());
            w.check(got == Some(true), || n.clone(), || "must be refused".into());
            w.trace(1);
        }
        let s = FXVolSurface::new(val, p(e, 1.0, ok())).unwrap();
        for k in [0.0, -1.0, -1e-300] {
            w.check(s.volatility(e, k).is_err(), || format!("strike {k}"), || "must be refused".into());
        }
        // quotes whose strikes come out of order are refused, all others are not
        let g = [0.03, 0.1, 0.25, 0.7];
        let (z25, z10) = (0.6744897501960817, 1.2815515655446004);
        for ix in 0..1024usize {
            let v: Vec<f64> = (0..5).map(|i| g[ix >> (2 * i) & 3]).collect();
            for t in [3i64, 91, 1000] {
                w.state(1);
                let y = t as f64 / 365.0;
                let lk = |z: f64, s: f64| 0.5 * s * s * y - z * s * y.sqrt();
                let ks = [lk(z10, v[0]), lk(z25, v[1]), lk(0.0, v[2]), lk(-z25, v[3]), lk(-z10, v[4])];
                if ks.windows(2).any(|x| (x[1] - x[0]).abs() < 1e-9) {
                    continue;
                }
                let sorted = ks.windows(2).all(|x| x[0] < x[1]);
                let key = || format!("vols {v:?} over {t} days");
                let q = vec![VQ::Atm(v[2]), VQ::Put { delta: 0.1, vol: v[0] }, VQ::Call { delta: 0.1, vol: v[4] }, VQ::Put { delta: 0.25, vol: v[1] }, VQ::Call { delta: 0.25, vol: v[3] }];
                let got = w.call(key, || FXVolSurface::new(val, p(add(val, t), 1.0, q)).is_ok());
                w.check(got == Some(sorted), key, || format!("accepted: {got:?}"));
            }
        }
        // deltas that differ only by rounding belong together
        let r = FXVolSurface::new(val, p(e, 1.0, vec![VQ::Atm(0.1), VQ::Call { delta: 0.25, vol: 0.1 }, VQ::Put { delta: 0.25 + 1e-11, vol: 0.1 }]));
        w.check(r.is_ok(), || "rounded delta".into(), || "refused".into());
    });
}

// ------------------------------------------------------------ F06

fn f06(run: &Run) {
    let ns = names();
    let vals: Vec<NaiveDate> = fx_vals(run).into_iter().step_by(run.by(1, 2)).collect();
    let odd = [("CHF", "EUR"), ("JPY", "KRW"), ("SEK", "JPY"), ("JPY", "USD"), ("USD", "EUR"), ("NOK", "SEK"), ("MXN", "JPY"), ("HUF", "PLN")];
    run.dim("pairs", ns.len() + odd.len());
    run.dim("valuation_dates", vals.len());
    run.dim("builders", json!(["new", "for_linear", "from_raw_quotes"]));
    let cash = [P::Weeks(1), P::Months(1), P::Months(3), P::Months(6), P::Months(12)];
    let ir = |val: NaiveDate, base: f64, n: usize| {
        YieldTermMarketData::new(
            val,
            cash[..n].iter().enumerate().map(|(i, &p)| OISRate { value: base + 0.001 * i as f64, interest_rate_index: InterestRateIndex::from_enum(IE::EUIBOR(p)).unwrap() }).collect(),
            vec![],
            Vec::<InterestRateSwap>::new(),
        )
    };
    run.par((ns.len() + odd.len()) * vals.len(), |it, w| {
        let i = it % (ns.len() + odd.len());
        // the last are pairs without a listed underlying
        let (f, d, n) = if i < ns.len() { (&ns[i][..3], &ns[i][3..], ns[i]) } else { (odd[i - ns.len()].0, odd[i - ns.len()].1, "") };
        let val = vals[it / (ns.len() + odd.len())];
        let pr = (ccy(d), ccy(f));
        let (lg, cv) = if n.is_empty() { (2, 10000.0) } else { (lag(n), conv(n)) };
        let spot = 1.17;
        let cal = JointCalendar::new(vec![market(f), market(d)]);
        let t = Tab::new(&cal, add(val, -40), add(val, 1200));
        let idx = [0usize, 4, 6, 8, 9, 10];
        let q: Vec<FXForwardQuote> = idx.iter().map(|&i| FXForwardQuote { tenor: TENORS[i], value: pts(i) }).collect();
        let dated: Vec<(NaiveDate, f64)> = idx.iter().map(|&i| (settle_model(&t, val, TENORS[i], lg), pts(i))).collect();
        let pil = |bump: f64| {
            [40i64, 200, 500].iter().map(|&e| FXDeltaVolPillar { expiry: add(val, e), forward: 1.18 + e as f64 * 1e-4, quotes: vec![VQ::Atm(0.08 + bump), VQ::RiskReversal { delta: 0.25, vol: -0.006 }, VQ::Butterfly { delta: 0.25, vol: 0.003 }] }).collect::<Vec<_>>()
        };
        let key = || format!("{f}{d} {val}");
        w.beat(key());
        w.state(1);
        let (da, fa) = (ir(val, 0.03, 5), ir(val, 0.015, 4));
        let (ds, fs) = (da.get_stripped_curve().unwrap(), fa.get_stripped_curve().unwrap());
        let (dc, fc) = (Crv::of(val, &ds), Crv::of(val, &fs));
        let surf = FXVolSurface::new(val, pil(0.0)).unwrap();
        let helper = || if n.is_empty() { FXForwardHelper::new(val, spot, q.clone()) } else { pair(n).forward_helper(val, spot, q.clone()) };
        let dcf = || Box::<Actual365Fixed>::default() as Box<dyn DayCounters>;
        let raw = w.call(key, || FxMarketContext::from_raw_quotes(val, spot, pr, ir(val, 0.03, 5), ir(val, 0.015, 4), q.clone(), pil(0.0), Box::new(Target), Box::new(Target), dcf(), dcf()));
        let Some(Ok(raw)) = raw else {
            w.fail(key(), "from_raw_quotes failed");
            return;
        };
        let new = FxMarketContext::new(val, spot, pr, yts(val, ds.clone()), yts(val, fs.clone()), helper(), FXVolSurface::new(val, pil(0.0)).unwrap());
        let Some(Ok(lin)) = w.call(key, || FxMarketContext::for_linear(val, spot, pr, yts(val, ds.clone()), yts(val, fs.clone()), helper())) else {
            w.fail(key(), "for_linear failed");
            return;
        };
        for (bn, cx, flat) in [("from_raw_quotes", &raw, false), ("new", &new, false), ("for_linear", &lin, true)] {
            w.check(cx.valuation_date == val && cx.spot == spot && cx.pair == pr && cx.forwards.valuation_date == val && cx.forwards.spot_ref == spot && cx.forwards.quotes.len() == q.len(), || format!("{} {bn}", key()), || "parts".into());
            w.check(cx.domestic_curve.valuation_date == val && cx.foreign_curve.valuation_date == val && cx.domestic_curve.stripped_curves == ds && cx.foreign_curve.stripped_curves == fs, || format!("{} {bn} curves", key()), || "parts".into());
            for j in -3..run.by(150, 1400) {
                let e = if j < 15 { add(val, j) } else { add(val, 15 + (j - 15) * run.by(9, 1)) };
                let k = || format!("{} {bn} {e}", key());
                let want = points(&dated, val, e);
                match (cx.forward_at(e, &cal), want) {
                    (Ok(g), Some(x)) => hit(w, g, &x.iter().map(|x| spot + x / cv).collect::<Vec<_>>(), 1e-13, || format!("{} forward", k())),
                    (Err(_), None) => w.trans(1),
                    (g, x) => {
                        w.check(false, || format!("{} forward", k()), || format!("got {g:?}, expected {x:?}"));
                    }
                }
                w.close(cx.rate_d(e).unwrap_or(f64::NAN), dc.zero(e), 1e-15, 1e-12, || format!("{} domestic rate", k()));
                w.close(cx.rate_f(e).unwrap_or(f64::NAN), fc.zero(e), 1e-15, 1e-12, || format!("{} foreign rate", k()));
                w.close(cx.discount_d(e).unwrap_or(f64::NAN), dc.df(e), 1e-15, 1e-12, || format!("{} domestic discount", k()));
                w.close(cx.discount_f(e).unwrap_or(f64::NAN), fc.df(e), 1e-15, 1e-12, || format!("{} foreign discount", k()));
                for ks in [0.9, 1.17, 1.4, 0.0] {
                    let got = cx.implied_vol(e, ks);
                    let want = if flat { if e > val && ks > 0.0 { Some(0.1) } else { None } } else { surf.volatility(e, ks).ok() };
                    w.check(
                        match (&got, want) {
                            (Ok(a), Some(b)) => (a - b).abs() < 1e-12,
                            (Err(_), None) => true,
                            _ => false,
                        },
                        || format!("{} implied vol {ks}", k()),
                        || format!("got {got:?}, expected {want:?}"),
                    );
                }
            }
            w.trace(1);
        }
        // quotes struck on other days and strips of any length still make a context of today
        for (back, ahead, nq) in [(0, 0, 1), (1, 0, 2), (0, 4, 3), (-6, 7, 6)] {
            let (da, fa) = (ir(add(val, -back), 0.03, 5), ir(add(val, -ahead), 0.015, 4));
            let (ds, fs) = (da.get_stripped_curve().unwrap(), fa.get_stripped_curve().unwrap());
            let k = || format!("{} rates {back} and {ahead} days old, {nq} forwards", key());
            let Some(Ok(cx)) = w.call(k, || FxMarketContext::from_raw_quotes(val, spot, pr, da, fa, q[..nq].to_vec(), pil(0.0), Box::new(Target), Box::new(Target), dcf(), dcf())) else {
                w.fail(k(), "from_raw_quotes failed");
                continue;
            };
            w.state(1);
            w.check(cx.valuation_date == val && cx.forwards.valuation_date == val && cx.domestic_curve.valuation_date == val && cx.foreign_curve.valuation_date == val, || format!("{} dated today", k()), || format!("{} {}", cx.domestic_curve.valuation_date, cx.foreign_curve.valuation_date));
            w.check(cx.forwards.spot_ref == spot && cx.forwards.quotes.len() == nq && cx.spot == spot, || format!("{} spot", k()), || format!("{}", cx.forwards.spot_ref));
            w.check(cx.domestic_curve.stripped_curves == ds && cx.foreign_curve.stripped_curves == fs, || format!("{} curves", k()), || "differ".into());
            for x in &dated[..nq] {
                let want = points(&dated[..nq], val, x.0);
                match (cx.forward_at(x.0, &cal), want) {
                    (Ok(g), Some(p)) => hit(w, g, &p.iter().map(|p| spot + p / cv).collect::<Vec<_>>(), 1e-13, || format!("{} forward {}", k(), x.0)),
                    (Err(_), None) => w.trans(1),
                    (g, p) => {
                        w.check(false, || format!("{} forward {}", k(), x.0), || format!("got {g:?}, expected {p:?}"));
                    }
                }
            }
        }
        // a bad component is reported, not swallowed
        let bad = FxMarketContext::from_raw_quotes(val, spot, pr, ir(val, 0.03, 5), ir(val, 0.015, 4), q.clone(), vec![], Box::new(Target), Box::new(Target), dcf(), dcf());
        w.check(bad.is_err(), || format!("{} no vol pillars", key()), || "must be refused".into());
    });
    let _ = plus(ymd(2024, 1, 1), P::ON, 1).year();
}
