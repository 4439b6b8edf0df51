//! Serialized objects come back meaning the same thing.
use super::daycount::counters;
use super::forex::{ccy, mkt, names, pair};
use super::rates::{cap_sched, ctx, curve_of, leg_name, leg_space, mkcap, shapes, surf, yts};
use crate::cals;
use crate::fw::{Run, Worker};
use crate::props::Prop;
use crate::props::dates::Tab;
use crate::refcal::{add, ymd};
use finquant::derivatives::basic::{BasicInfo, Direction, Style};
use finquant::derivatives::forex::basic::{CurrencyValue, FXDerivatives};
use finquant::derivatives::forex::forward::FXForward;
use finquant::derivatives::forex::option::{FXVanillaOption, OptionType};
use finquant::derivatives::interestrate::basic::{CapFloorKind, CapStyle, IRDerivatives, RateShiftMode};
use finquant::derivatives::interestrate::cap::CapFloor;
use finquant::derivatives::interestrate::swap::{InterestRateCashflow, InterestRateSwap};
use finquant::markets::forex::quotes::forwardpoints::FXForwardQuote;
use finquant::markets::interestrate::futures::InterestRateFutures;
use finquant::markets::interestrate::interestrateindex::{InterestRateIndex, InterestRateIndexEnum as IE};
use finquant::markets::interestrate::market_context::IrMarketContext;
use finquant::markets::termstructures::yieldcurve::oisratehelper::OISRate;
use finquant::markets::termstructures::yieldcurve::ratehelper::FuturesRate;
use finquant::markets::termstructures::yieldcurve::{InterestRateQuoteEnum, InterpolationMethodEnum as M, StrippedCurve, YieldTermStructure};
use finquant::time::businessdayconvention::BusinessDayConvention as B;
use finquant::time::calendars::{Calendar, JointCalendar, Target};
use finquant::time::frequency::Frequency as F;
use finquant::time::period::Period as P;
use iso_currency::Currency;
use serde::{Serialize, de::DeserializeOwned};
use serde_json::{Value, json};

pub const PROPS: &[Prop] = &[("S01", s01)];

/// there and back; the second text must equal the first
fn rt<T: Serialize + DeserializeOwned>(w: &mut Worker, x: &T, key: &dyn Fn() -> String) -> Option<T> {
    leaves(w, x, key);
    rt0(w, x, key)
}
fn rt0<T: Serialize + DeserializeOwned>(w: &mut Worker, x: &T, key: &dyn Fn() -> String) -> Option<T> {
    w.state(1);
    let s = match serde_json::to_string(x) {
        Ok(s) => s,
        Err(e) => {
            w.fail(key(), format!("does not serialize: {e}"));
            return None;
        }
    };
    let y: T = match serde_json::from_str(&s) {
        Ok(y) => y,
        Err(e) => {
            w.fail(key(), format!("does not come back from {s}: {e}"));
            return None;
        }
    };
    let s2 = serde_json::to_string(&y).unwrap_or_default();
    w.check(s == s2, key, || format!("{s} came back as {s2}"));
    // through an untyped value too (fields in another order)
    let v: Value = serde_json::from_str(&s).unwrap();
    let s3 = serde_json::from_value::<T>(v).ok().and_then(|z| serde_json::to_string(&z).ok());
    w.check(s3.as_deref() == Some(&s), key, || format!("{s} came back through a value as {s3:?}"));
    w.trace(1);
    Some(y)
}

fn paths(v: &Value, at: &mut Vec<String>, out: &mut Vec<String>) {
    out.push(at.concat());
    match v {
        Value::Object(m) => {
            for (k, x) in m {
                at.push(format!("/{k}"));
                paths(x, at, out);
                at.pop();
            }
        }
        Value::Array(a) => {
            // first two elements and the last: the others are of the same kind
            for (i, x) in a.iter().enumerate().filter(|(i, _)| *i < 2 || i + 1 == a.len()) {
                at.push(format!("/{i}"));
                paths(x, at, out);
                at.pop();
            }
        }
        _ => {}
    }
}
/// Every single leaf of the object's own text replaced by every value of a pool: what is read must
/// be what was written. Only integers may be refused (unsigned fields).
fn leaves<T: Serialize + DeserializeOwned>(w: &mut Worker, x: &T, key: &dyn Fn() -> String) {
    let Ok(v) = serde_json::to_value(x) else { return };
    let mut ps = vec![];
    paths(&v, &mut vec![], &mut ps);
    for p in ps {
        let pool: Vec<Value> = match v.pointer(&p).unwrap() {
            Value::Number(n) if n.is_f64() => [0.0, 0.25, -0.25, 0.0001, 1.0, -1.0, 99.995, 100.5, 1e7, -2.5e9, 1e-9, 1e15].iter().map(|x| json!(x)).collect(),
            Value::Number(_) => [0i64, 1, 2, -1, -2, 3, 7, 12, 45, 1000, 40000].iter().map(|x| json!(x)).collect(),
            Value::Bool(b) => vec![json!(!b)],
            Value::String(s) if s.parse::<chrono::NaiveDate>().is_ok() => ["1901-01-01", "1970-01-01", "2000-02-29", "2024-12-31", "2199-12-31"].iter().map(|x| json!(x)).collect(),
            Value::Array(a) if !a.is_empty() && a.iter().all(|x| x.is_object()) => {
                let mut d = a.clone();
                d.extend(a.clone());
                vec![json!([]), Value::Array(d), Value::Array(a[..a.len() - 1].to_vec())]
            }
            _ => vec![],
        };
        for q in pool {
            let mut m = v.clone();
            *m.pointer_mut(&p).unwrap() = q.clone();
            w.state(1);
            let kk = || format!("{} with {p} = {q}", key());
            match serde_json::from_str::<T>(&m.to_string()) {
                Ok(y) => {
                    let b = serde_json::to_value(&y).unwrap_or_default();
                    w.check(b == m, kk, || format!("written back as {b}"));
                }
                Err(e) => {
                    w.check(q.as_i64().is_some_and(|n| n < 0), kk, || format!("refused: {e}"));
                }
            }
        }
    }
}

fn s01(run: &Run) {
    let cs = cals::all();
    let (a, b) = (1901, 2199);
    run.dim("calendars", cs.len());
    run.dim("calendar_years", json!([a, b]));
    run.par(cs.len(), |i, w| {
        let c = (cs[i].make)();
        let key = || format!("calendar {}", cs[i].name);
        w.beat(key());
        let Some(d) = rt(w, &c, &key) else { return };
        let j = JointCalendar::new(vec![(cs[i].make)(), (cs[(i + 1) % cs.len()].make)()]);
        let nested: Box<dyn Calendar> = Box::new(JointCalendar::new(vec![Box::new(j), Box::new(Target)]));
        let nd = rt(w, &nested, &|| format!("joint {}", key()));
        let mut x = ymd(a, 1, 1);
        while x <= ymd(b, 12, 31) {
            w.check(c.is_business_day(x) == d.is_business_day(x), || format!("{} {x}", key()), || "differs after the round trip".into());
            if let Some(n) = &nd {
                w.check(nested.is_business_day(x) == n.is_business_day(x), || format!("joint {} {x}", key()), || "differs after the round trip".into());
            }
            x = add(x, 1);
        }
    });
    run.seq(|w| {
        let mut seen: Vec<(String, String)> = vec![];
        for c in &cs {
            let s = serde_json::to_string(&(c.make)()).unwrap();
            for (s2, r) in &seen {
                w.check(*s2 != s || r == c.reference, || format!("text of {}", c.name), || format!("same text {s} as {r}"));
            }
            seen.push((s, c.reference.to_string()));
        }
    });
    // day counters
    let ds = counters(ymd(2024, 2, 29));
    run.dim("day_counters", ds.len());
    run.par(ds.len(), |i, w| {
        let c = (ds[i].2)();
        let key = || format!("day counter {}", ds[i].0);
        let Some(d) = rt(w, &c, &key) else { return };
        for k in 0..1500 {
            let x = add(ymd(2023, 1, 1), k);
            for n in [-400i64, -31, -1, 0, 1, 29, 30, 31, 59, 90, 181, 365, 366, 800] {
                let y = add(x, n);
                w.check(c.day_count(x, y).ok() == d.day_count(x, y).ok() && c.year_fraction(x, y).ok() == d.year_fraction(x, y).ok(), || format!("{} {x} {y}", key()), || "differs after the round trip".into());
            }
        }
    });
    let val0 = ymd(2024, 4, 26);
    // small value types
    run.seq(|w| {
        let mut ps = vec![P::ON, P::TN, P::SPOT, P::SN];
        for n in [-400i64, -1, 0, 1, 30, i64::MAX, i64::MIN] {
            ps.push(P::Days(n));
            ps.push(P::Weeks(n));
        }
        for n in [0u32, 1, 12, u32::MAX] {
            ps.push(P::Months(n));
            ps.push(P::Years(n));
        }
        for p in ps {
            let k = || format!("{p:?}");
            let q = rt(w, &p, &k);
            w.check(q == Some(p), k, || format!("{q:?}"));
            let fq = FXForwardQuote { tenor: p, value: -1.25 };
            let r = rt(w, &fq, &k);
            w.check(r.is_some_and(|r| r.tenor == p && r.value == -1.25), k, || "quote".into());
        }
        for b in [B::Following, B::ModifiedFollowing, B::Preceding, B::ModifiedPreceding, B::Unadjusted, B::HalfMonthModifiedFollowing, B::Nearest] {
            let r = rt(w, &b, &|| format!("{b:?}"));
            w.check(r == Some(b), || format!("{b:?}"), || format!("{r:?}"));
        }
        for f in [F::NoFrequency, F::Once, F::Annual, F::Semiannual, F::EveryFourthMonth, F::Quarterly, F::Bimonthly, F::Monthly, F::EveryFourthWeek, F::Biweekly, F::Weekly, F::Daily, F::OtherFrequency] {
            let k = format!("{f:?}");
            let r = rt(w, &f, &|| k.clone());
            w.check(r.map(|r| format!("{r:?}")) == Some(k.clone()), || k.clone(), || "differs".into());
        }
        for n in names() {
            let r = rt(w, &pair(n), &|| n.into());
            w.check(r.map(|r| r.to_string()).as_deref() == Some(n), || n.into(), || "differs".into());
        }
        for (c, v) in [("EUR", 1.5), ("JPY", -2e9), ("USD", 0.0)] {
            let x = CurrencyValue { currency: ccy(c), value: v };
            let r = rt(w, &x, &|| c.into());
            w.check(r == Some(x), || format!("value in {c}"), || "differs".into());
        }
        for (n, e) in [
            ("AONIA", IE::AONIA),
            ("CDOR", IE::CDOR(P::Months(1))),
            ("EONIA", IE::EONIA),
            ("ESTR", IE::ESTR),
            ("EUIBOR", IE::EUIBOR(P::Months(6))),
            ("SONIA", IE::SONIA),
            ("SOFR", IE::SOFR),
        ] {
            let r = rt(w, &e, &|| n.into());
            w.check(r.as_ref() == Some(&e), || n.into(), || "differs".into());
            let mut stubs = vec![e];
            if n == "CDOR" {
                stubs.push(IE::CDOR(P::Months(3)));
            }
            for e in stubs {
                let Some(ix) = InterestRateIndex::from_enum(e) else { continue };
                let r = rt(w, &ix, &|| format!("index {n}"));
                w.check(r.is_some_and(|r| format!("{r:?}") == format!("{ix:?}")), || format!("index {n}"), || "differs".into());
                let fr = FuturesRate { value: 96.25, imm_code: "Z5".into(), convexity_adjustment: -0.125, futures_spec: InterestRateFutures::new(P::Months(3)), interest_rate_index: ix };
                let r = rt(w, &fr, &|| format!("future on {n}"));
                w.check(r.is_some_and(|r| format!("{r:?}") == format!("{fr:?}")), || format!("future on {n}"), || "differs".into());
            }
        }
        for m in [RateShiftMode::Zeros, RateShiftMode::Instruments, RateShiftMode::Forwards, RateShiftMode::Swaps] {
            let r = rt(w, &m, &|| format!("{m:?}"));
            w.check(r == Some(m), || format!("{m:?}"), || "differs".into());
        }
        for q in [InterestRateQuoteEnum::OIS, InterestRateQuoteEnum::Futures, InterestRateQuoteEnum::Swap] {
            for hidden in [true, false] {
                let p = StrippedCurve { first_settle_date: val0, date: add(val0, 91), market_rate: -0.0125, zero_rate: 0.015, discount: 0.99, source: match q { InterestRateQuoteEnum::OIS => InterestRateQuoteEnum::OIS, InterestRateQuoteEnum::Futures => InterestRateQuoteEnum::Futures, _ => InterestRateQuoteEnum::Swap }, hidden_pillar: hidden };
                let r = rt(w, &p, &|| "pillar".into());
                w.check(r.as_ref() == Some(&p), || "pillar".into(), || format!("{r:?}"));
            }
        }
        for st in [Style::FXForward, Style::FXCall, Style::FXPut, Style::IRSwap] {
            for d in [Direction::Buy, Direction::Sell] {
                let b = BasicInfo { trade_date: val0, style: serde_json::from_value(json!(format!("{st:?}"))).unwrap(), direction: d, expiry_date: add(val0, 30), delivery_date: add(val0, 32) };
                let r = rt(w, &b, &|| format!("trade data {st:?} {d:?}"));
                w.check(r.map(|r| format!("{r:?}")) == Some(format!("{b:?}")), || format!("trade data {st:?} {d:?}"), || "differs".into());
            }
        }
        for cf in [InterestRateCashflow::default(), InterestRateCashflow { day_counts: Some(-3), notional: Some(1e6), principal: Some(0.0), reset_rate: Some(-0.01), payment: Some(-2.5), discount: Some(1.0), present_value: Some(0.125) }] {
            let r = rt(w, &cf, &|| "cash flow".into());
            w.check(r.as_ref() == Some(&cf), || "cash flow".into(), || format!("{r:?}"));
        }
        let o = OISRate { value: 0.03, interest_rate_index: InterestRateIndex::from_enum(IE::EUIBOR(P::Months(6))).unwrap() };
        let r = rt(w, &o, &|| "deposit".into());
        w.check(r.is_some_and(|r| format!("{r:?}") == format!("{o:?}")), || "deposit".into(), || "differs".into());
    });
    // swaps: same dates and value after the round trip
    let legs = leg_space(run);
    let step = run.by(3, 1);
    let val = ymd(2024, 4, 26);
    let shp = shapes();
    run.dim("swaps", legs.len() / step);
    run.par(legs.len() / step, |i, w| {
        let l = &legs[i * step];
        let m = &legs[(i * step + 11) % legs.len()];
        let key = || format!("swap {}", leg_name(l));
        let mut first = l.leg(vec![]);
        if i % 2 == 0 {
            first.schedule = first.generate_schedule(val).unwrap();
        }
        let s = InterestRateSwap::new(vec![first, m.leg(vec![])]);
        if i % 6 < 2 {
            leaves(w, &s, &key);
        }
        let Some(t) = rt0(w, &s, &key) else { return };
        w.check(format!("{s:?}") == format!("{t:?}"), key, || "differs".into());
        let cx = ctx(val, &curve_of(val, shp[i % shp.len()].1), Currency::EUR);
        let (x, y) = (s.mtm(&cx), t.mtm(&cx));
        w.check(x.as_ref().ok().map(|v| v.value) == y.as_ref().ok().map(|v| v.value) && x.is_ok(), || format!("{} value", key()), || format!("{x:?} {y:?}"));
    });
    // curves
    run.par(shp.len(), |i, w| {
        let key = || format!("curve {}", shp[i].0);
        let s = curve_of(val, |_| 0.0)
            .into_iter()
            .enumerate()
            .map(|(j, mut p)| {
                p.zero_rate = (shp[i].1(j as f64) * 1e5).round() / 1e5;
                p.discount = 0.5 + j as f64 / 64.0;
                p.hidden_pillar = j == i;
                p
            })
            .collect::<Vec<_>>();
        let c = yts(val, s);
        let Some(d): Option<YieldTermStructure> = rt(w, &c, &key) else { return };
        w.check(c.stripped_curves == d.stripped_curves && c.valuation_date == d.valuation_date, key, || "differs".into());
        for k in 0..8000 {
            let q = add(val, k);
            w.check(c.discount(q, &M::StepFunctionForward).ok() == d.discount(q, &M::StepFunctionForward).ok(), || format!("{} {q}", key()), || "differs".into());
        }
    });
    // trades
    let ns = names();
    run.par(ns.len(), |i, w| {
        let n = ns[i];
        w.beat(n);
        let (cx, _) = mkt(n, val, shp[i % shp.len()].1, 1.0);
        for (dir, st) in [(Direction::Buy, 0), (Direction::Sell, 1)] {
            for frn in [true, false] {
                for e in [20i64, 200] {
                    for ot in [OptionType::Call, OptionType::Put] {
                        let info = || BasicInfo { trade_date: add(val, -2), style: if st == 0 { Style::FXCall } else { Style::FXPut }, direction: dir, expiry_date: add(val, e), delivery_date: add(val, e + 2) };
                        let key = || format!("{n} {dir:?} foreign={frn} {e} {ot:?}");
                        let nc = if frn { ccy(&n[..3]) } else { ccy(&n[3..]) };
                        let f = FXForward { basic_info: info(), asset: pair(n), notional_currency: nc, notional_amounts: 1e6, strike: 1.25 };
                        let o = FXVanillaOption { basic_info: info(), asset: pair(n), option_type: ot, notional_currency: nc, notional_amounts: 1e6, strike: 1.25, volatility: 0.125 };
                        if let Some(g) = rt(w, &f, &key) {
                            w.check(format!("{f:?}") == format!("{g:?}") && f.mtm(&cx).ok() == g.mtm(&cx).ok() && f.mtm(&cx).is_ok(), || format!("forward {}", key()), || "differs".into());
                        }
                        if let Some(p) = rt(w, &o, &key) {
                            w.check(format!("{o:?}") == format!("{p:?}") && o.mtm(&cx).ok() == p.mtm(&cx).ok() && o.mtm(&cx).is_ok(), || format!("option {}", key()), || "differs".into());
                        }
                    }
                }
            }
        }
    });
    let t = Tab::new(&Target, ymd(2021, 1, 1), ymd(2036, 1, 1));
    run.seq(|w| {
        let cx = IrMarketContext::new(val, Currency::USD, yts(val, curve_of(val, shp[1].1)), Some(surf(val, 1, 0.0)));
        for kind in [CapFloorKind::Cap, CapFloorKind::Floor] {
            for style in [CapStyle::ForwardLooking, CapStyle::BackwardCompounded] {
                for dc in 0..3 {
                    for st in [2i64, -40] {
                        let c = mkcap(val, &cap_sched(val, st, 5, 3, &t), 0.03, kind, style, dc, Direction::Sell, 1e6);
                        let key = || format!("{kind:?} {style:?} {dc} {st}");
                        if let Some(d) = rt::<CapFloor>(w, &c, &key) {
                            let (x, y) = (c.mtm(&cx), d.mtm(&cx));
                            w.check(format!("{c:?}") == format!("{d:?}") && x.is_ok() && x.as_ref().ok().map(|v| v.value) == y.as_ref().ok().map(|v| v.value), key, || format!("{x:?} {y:?}"));
                        }
                    }
                }
            }
        }
    });
}
