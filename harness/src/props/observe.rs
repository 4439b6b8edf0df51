//! Operation sequences on market data and the objects that observe it.
use super::rates::{Crv, pillar, yts};
use crate::fw::{Run, Worker};
use crate::props::Prop;
use crate::refcal::{add, ymd};
use chrono::NaiveDate;
use finquant::error::{Error, Result};
use finquant::markets::forex::quotes::forwardpoints::{FXForwardHelper, FXForwardQuote};
use finquant::markets::interestrate::interestrateindex::{InterestRateIndex, InterestRateIndexEnum as IE};
use finquant::markets::interestrate::volsurface::{IRCapMarketData, IRNormalVolSurface};
use finquant::markets::termstructures::yieldcurve::oisratehelper::OISRate;
use finquant::markets::termstructures::yieldcurve::{InterpolationMethodEnum as M, YieldTermMarketData, YieldTermStructure};
use finquant::patterns::observer::{Observable, Observer};
use finquant::time::calendars::Target;
use finquant::time::period::Period as P;
use serde_json::json;
use std::any::Any;
use std::cell::RefCell;
use std::rc::Rc;

pub const PROPS: &[Prop] = &[("O01", o01), ("O02", o02)];

/// Counts its updates into a shared log.
#[derive(Debug)]
struct Spy {
    id: usize,
    fail: Rc<RefCell<bool>>,
    log: Rc<RefCell<Vec<(usize, f64)>>>,
    /// the last owner of another observer, let go during the update
    drops: Rc<RefCell<Option<Rc<RefCell<Spy>>>>>,
}
fn stamp(o: &dyn Observable) -> f64 {
    if let Some(m) = o.as_any().downcast_ref::<YieldTermMarketData>() {
        m.cash_quote[0].value
    } else if let Some(m) = o.as_any().downcast_ref::<FXForwardHelper>() {
        m.spot_ref
    } else if let Some(m) = o.as_any().downcast_ref::<IRCapMarketData>() {
        (m.valuation_date - ymd(2024, 1, 1)).num_days() as f64 / 1000.0
    } else {
        f64::NAN
    }
}
impl Observer for Spy {
    fn update(&mut self, o: &dyn Observable) -> Result<()> {
        if *self.fail.borrow() {
            return Err(Error::InvalidData("observer refuses".into()));
        }
        self.log.borrow_mut().push((self.id, stamp(o)));
        let gone = self.drops.borrow_mut().take();
        drop(gone);
        Ok(())
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
}

enum Src {
    Ir(YieldTermMarketData),
    Fx(FXForwardHelper),
    Cap(IRCapMarketData),
}
impl Src {
    fn new(kind: usize) -> Src {
        let val = ymd(2024, 2, 27);
        match kind {
            0 => Src::Ir(YieldTermMarketData::new(val, vec![cash(P::Months(3), 0.0)], vec![], vec![])),
            1 => Src::Fx(FXForwardHelper::new(val, 0.0, vec![FXForwardQuote { tenor: P::SPOT, value: 0.0 }])),
            _ => Src::Cap(IRCapMarketData::new(ymd(2024, 1, 1), vec![])),
        }
    }
    fn set(&mut self, version: u32) {
        match self {
            Src::Ir(m) => m.cash_quote[0].value = version as f64 / 1000.0,
            Src::Fx(m) => m.spot_ref = version as f64 / 1000.0,
            Src::Cap(m) => m.valuation_date = add(ymd(2024, 1, 1), version as i64),
        }
    }
    fn ob(&mut self) -> &mut dyn Observable {
        match self {
            Src::Ir(m) => m,
            Src::Fx(m) => m,
            Src::Cap(m) => m,
        }
    }
}

fn cash(p: P, v: f64) -> OISRate {
    OISRate { value: v, interest_rate_index: InterestRateIndex::from_enum(IE::EUIBOR(p)).unwrap() }
}

/// attach i, drop i (then a fresh observer takes the place), change the data, notify, notify with one failing
fn o01(run: &Run) {
    let nobs = 3usize;
    explore(run, nobs, run.by(8usize, 9), 3);
    // two observers, one of which may let go of the other while it is being told
    explore(run, 2, run.by(8usize, 9), 4);
    run.dim("second_pass", "2 observers, the operations above and: notify while observer 0 drops observer 1");
    let crowd = run.by(24usize, 48);
    run.dim("third_pass", format!("1..={crowd} observers, every run of them dropped, newcomers attached, with and without notifications in between, each refusing in turn"));
    run.par(3 * crowd, |it, w| {
        let (kind, n) = (it % 3, it / 3 + 1);
        for i in 0..=n {
            for j in i..=n {
                for newcomers in [0usize, 1, n] {
                    for between in [false, true] {
                        crowd_play(w, kind, n, i..j, newcomers, between);
                    }
                }
            }
        }
    });
}

/// n observers attached, those of `gone` let go, `newcomers` attached, data changed, all notified.
fn crowd_play(w: &mut Worker, kind: usize, n: usize, gone: std::ops::Range<usize>, newcomers: usize, between: bool) {
    let key = || format!("observable {kind}: {n} observers, {gone:?} dropped, {newcomers} newcomers, notified in between: {between}");
    let log = Rc::new(RefCell::new(vec![]));
    let mut src = Src::new(kind);
    src.set(0);
    w.state(1);
    let fails: Vec<Rc<RefCell<bool>>> = (0..n + newcomers).map(|_| Rc::default()).collect();
    let mk = |id: usize| Rc::new(RefCell::new(Spy { id, fail: fails[id].clone(), log: log.clone(), drops: Rc::default() }));
    let mut obs: Vec<Option<Rc<RefCell<Spy>>>> = (0..n).map(|i| Some(mk(i))).collect();
    for o in &obs {
        src.ob().attach(o.clone().unwrap());
    }
    let mut version = 0u32;
    let mut tell = |w: &mut Worker, src: &mut Src, obs: &[Option<Rc<RefCell<Spy>>>], refuse: Option<usize>, step: &str| {
        version += 1;
        src.set(version);
        log.borrow_mut().clear();
        let r = src.ob().notify_observers();
        w.trans(1);
        let mut got: Vec<usize> = log.borrow().iter().map(|x: &(usize, f64)| x.0).collect();
        let fresh = log.borrow().iter().all(|x| x.1 == version as f64 / 1000.0);
        got.sort();
        let want: Vec<usize> = (0..obs.len()).filter(|&i| obs[i].is_some()).collect();
        let blocked = refuse.is_some_and(|i| obs[i].is_some());
        let ok = if blocked {
            let k = got.len();
            got.dedup();
            k == got.len() && got.iter().all(|i| want.contains(i) && Some(*i) != refuse)
        } else {
            got == want
        };
        w.check(ok && fresh && r.is_err() == blocked, || format!("{} {step}", key()), || format!("{r:?} told {got:?}, attached {want:?}"));
    };
    if between {
        tell(w, &mut src, &obs, None, "all");
    }
    for i in gone.clone() {
        obs[i] = None;
    }
    if between {
        tell(w, &mut src, &obs, None, "after the drop");
    }
    for i in 0..newcomers {
        let o = mk(n + i);
        src.ob().attach(o.clone());
        obs.push(Some(o));
    }
    tell(w, &mut src, &obs, None, "after the newcomers");
    tell(w, &mut src, &obs, None, "once more");
    if newcomers == 1 {
        for i in 0..obs.len() {
            *fails[i].borrow_mut() = true;
            tell(w, &mut src, &obs, Some(i), "one refusing");
            *fails[i].borrow_mut() = false;
        }
    }
    w.trace(1);
}
fn explore(run: &Run, nobs: usize, depth: usize, extra: usize) {
    let nops = 2 * nobs + extra;
    if extra == 3 {
    run.dim("observables", json!(["YieldTermMarketData", "FXForwardHelper", "IRCapMarketData"]));
    run.dim("observers", nobs);
    run.dim("operations", json!(["attach i (at most once per life)", "drop i and replace", "change data", "notify", "notify while observer 0 refuses"]));
    run.dim("sequence_length", depth);
    }
    let total = nops.pow(2);
    run.par(3 * total, |it, w| {
        let kind = it / total;
        let pre = it % total;
        let mut seq = vec![pre % nops, pre / nops];
        seq.resize(depth, 0);
        loop {
            play(w, kind, &seq, nobs);
            let mut i = depth - 1;
            loop {
                seq[i] += 1;
                if seq[i] < nops {
                    break;
                }
                seq[i] = 0;
                i -= 1;
                if i < 2 {
                    break;
                }
            }
            if i < 2 {
                break;
            }
        }
    });
}

fn play(w: &mut Worker, kind: usize, seq: &[usize], nobs: usize) {
    // sequences that change nothing at their end or repeat a disabled step are covered by others
    let mut attached = vec![false; nobs];
    for &op in seq {
        if op < nobs {
            if attached[op] {
                return;
            }
            attached[op] = true;
        } else if op < 2 * nobs {
            if !attached[op - nobs] {
                return;
            }
            attached[op - nobs] = false;
        }
    }
    let last = *seq.last().unwrap();
    if last <= 2 * nobs {
        return;
    }
    let mut src = Src::new(kind);
    let log = Rc::new(RefCell::new(vec![]));
    let fail = Rc::new(RefCell::new(false));
    let never = Rc::new(RefCell::new(false));
    let peer: Rc<RefCell<Option<Rc<RefCell<Spy>>>>> = Rc::default();
    let mut ids = 0usize;
    let mut mk = |slot: usize| {
        ids += 1;
        let s = Rc::new(RefCell::new(Spy { id: ids, fail: if slot == 0 { fail.clone() } else { never.clone() }, log: log.clone(), drops: if slot == 0 { peer.clone() } else { Rc::default() } }));
        (ids, s)
    };
    let mut obs: Vec<(usize, Rc<RefCell<Spy>>)> = (0..nobs).map(&mut mk).collect();
    let mut order: Vec<(usize, usize)> = vec![]; // (slot, id) in attach order
    let mut version = 0u32;
    src.set(0);
    let key = || format!("observable {kind} operations {seq:?}");
    w.state(1);
    for (step, &op) in seq.iter().enumerate() {
        w.trans(1);
        if op < nobs {
            src.ob().attach(obs[op].1.clone());
            order.push((op, obs[op].0));
        } else if op < 2 * nobs {
            let s = op - nobs;
            order.retain(|x| x.0 != s);
            obs[s] = mk(s);
        } else if op == 2 * nobs {
            version += 1;
            src.set(version);
        } else {
            let refuse = op == 2 * nobs + 2;
            let parting = op == 2 * nobs + 3;
            if parting {
                let id = obs[1].0;
                let fresh = mk(1);
                let (_, old) = std::mem::replace(&mut obs[1], fresh);
                *peer.borrow_mut() = Some(old);
                log.borrow_mut().clear();
                let r = src.ob().notify_observers();
                let told = log.borrow().clone();
                let acts = order.iter().any(|x| x.0 == 0);
                let count = |i: usize| told.iter().filter(|x| x.0 == i).count();
                // whoever stays is told once; the one let go meanwhile once or not at all
                let ok = order.iter().all(|x| count(x.1) == 1 || (acts && x.1 == id && count(x.1) == 0)) && told.iter().all(|t| order.iter().any(|x| x.1 == t.0));
                w.check(r.is_ok() && ok && told.iter().all(|x| x.1 == version as f64 / 1000.0), || format!("{} step {step} parting", key()), || format!("{r:?} told {told:?}, attached {order:?}"));
                w.check(peer.borrow().is_none() == acts, || format!("{} step {step} observer told", key()), || "it was not".into());
                match peer.borrow_mut().take() {
                    Some(o) => obs[1] = (id, o),
                    None => order.retain(|x| x.1 != id),
                }
                continue;
            }
            *fail.borrow_mut() = refuse;
            log.borrow_mut().clear();
            let r = src.ob().notify_observers();
            *fail.borrow_mut() = false;
            let got = log.borrow().clone();
            let blocked = refuse && order.iter().any(|x| x.0 == 0);
            w.check(r.is_err() == blocked, || format!("{} step {step} result", key()), || format!("{r:?}"));
            let mut ids: Vec<usize> = got.iter().map(|x| x.0).collect();
            ids.sort();
            let mut want: Vec<usize> = order.iter().map(|x| x.1).collect();
            want.sort();
            if blocked {
                // the refusing one is never recorded, nobody is told twice and no stranger is told
                let n = ids.len();
                ids.dedup();
                w.check(n == ids.len() && ids.iter().all(|i| want.contains(i)), || format!("{} step {step}", key()), || format!("told {got:?}, attached {order:?}"));
            } else {
                w.check(ids == want, || format!("{} step {step}", key()), || format!("told {got:?}, attached {order:?}"));
            }
            w.check(got.iter().all(|x| x.1 == version as f64 / 1000.0), || format!("{} step {step} sees current data", key()), || format!("{got:?} version {version}"));
        }
    }
    w.trace(1);
}

/// Curves attached to market data: what they answer after every step of every operation sequence.
fn o02(run: &Run) {
    let depth = run.by(8usize, 9);
    let ops = ["attach A", "attach B", "drop A", "add 6M quote", "remove last quote", "raise quotes", "next day", "clear quotes", "notify", "notify FX helper", "back five days"];
    run.dim("operations", json!(ops));
    run.dim("sequence_length", depth);
    run.dim("curves", 2);
    let n = ops.len();
    let val0 = ymd(2024, 2, 27);
    run.par(n * n, |it, w| {
        let mut seq = vec![it % n, it / n];
        seq.resize(depth, 0);
        loop {
            curve_play(w, val0, &seq);
            let mut i = depth - 1;
            loop {
                seq[i] += 1;
                if seq[i] < n {
                    break;
                }
                seq[i] = 0;
                i -= 1;
                if i < 2 {
                    break;
                }
            }
            if i < 2 {
                break;
            }
        }
    });
    // a cap surface without a curve of its own keeps what it was stripped to
    run.seq(|w| {
        let val = val0;
        let mut md = IRCapMarketData::new(val, vec![]);
        let s = Rc::new(RefCell::new(IRNormalVolSurface::new(val)));
        md.attach(s.clone());
        let before = format!("{:?}", s.borrow());
        md.valuation_date = add(val, 1);
        w.check(md.notify_observers().is_ok() && format!("{:?}", s.borrow()) == before, || "cap surface notified".into(), || "changed".into());
        w.trace(1);
    });
}

fn curve_play(w: &mut Worker, val0: NaiveDate, seq: &[usize]) {
    // end in a notification; no double attach, no empty drop
    if seq[seq.len() - 1] != 8 {
        return;
    }
    let mut at = [false, false];
    for &op in seq {
        match op {
            0 | 1 => {
                if at[op] {
                    return;
                }
                at[op] = true;
            }
            2 => {
                if !at[0] {
                    return;
                }
                at[0] = false;
            }
            _ => {}
        }
    }
    let quotes = |n: usize, up: f64| (0..n).map(|i| cash([P::Months(1), P::Months(3), P::Months(6), P::Months(12)][i], 0.03 + 0.002 * i as f64 + up)).collect::<Vec<_>>();
    let (mut n, mut up, mut val) = (2usize, 0.0, val0);
    let mut md = YieldTermMarketData::new(val, quotes(n, up), vec![], vec![]);
    let start = || {
        let s: Vec<_> = vec![pillar(val0, add(val0, 90), 0.5, false)];
        s
    };
    let mk = || Rc::new(RefCell::new(yts(val0, start())));
    let mut c: [Rc<RefCell<YieldTermStructure>>; 2] = [mk(), mk()];
    let mut att = [false, false];
    // model: the valuation date and pillars each curve should hold
    let mut model = [(val0, start()), (val0, start())];
    let fx = {
        let mut f = FXForwardHelper::new(val, 1.0, vec![]);
        f.attach(c[1].clone());
        f
    };
    let key = || format!("operations {seq:?}");
    w.state(1);
    for (step, &op) in seq.iter().enumerate() {
        match op {
            0 | 1 => {
                md.attach(c[op].clone());
                att[op] = true;
            }
            2 => {
                c[0] = mk();
                att[0] = false;
                model[0] = (val0, start());
            }
            3 => n = (n + 1).min(4),
            4 => n = n.saturating_sub(1),
            5 => up += 0.01,
            6 => val = Target_next(val),
            7 => n = 0,
            8 => {
                let fresh = YieldTermMarketData::new(val, quotes(n, up), vec![], vec![]).get_stripped_curve();
                let r = md.notify_observers();
                let any = att[0] || att[1];
                match fresh {
                    Ok(s) => {
                        w.check(r.is_ok(), || format!("{} step {step}", key()), || format!("{r:?}"));
                        for i in 0..2 {
                            if att[i] {
                                model[i] = (val, s.clone());
                            }
                        }
                    }
                    Err(_) => {
                        w.check(r.is_err() == any, || format!("{} step {step}", key()), || format!("{r:?}"));
                    }
                }
            }
            10 => val = add(val, -5),
            _ => {
                w.check(fx.notify_observers().is_ok(), || format!("{} step {step} FX", key()), || "failed".into());
            }
        }
        if (3..=7).contains(&op) || op == 10 {
            md.cash_quote = quotes(n, up);
            md.valuation_date = val;
        }
        // every curve answers from exactly the data of its last notification
        for i in 0..2 {
            let b = c[i].borrow();
            let k = || format!("{} step {step} curve {i}", key());
            w.check(b.stripped_curves == model[i].1, || format!("{} pillars", k()), || format!("{:?}, expected {:?}", b.stripped_curves.len(), model[i].1.len()));
            w.check(b.valuation_date == model[i].0, || format!("{} valuation date", k()), || format!("{}, expected {}", b.valuation_date, model[i].0));
            if !model[i].1.is_empty() && b.stripped_curves == model[i].1 {
                let m = Crv::of(model[i].0, &model[i].1);
                if !m.p.is_empty() {
                    for d in [30i64, 100, 400] {
                        let q = add(val0, d);
                        w.close(b.discount(q, &M::StepFunctionForward).unwrap_or(f64::NAN), m.df(q), 1e-14, 1e-12, || format!("{} discount {q}", k()));
                    }
                }
            }
        }
    }
    w.trace(1);
}

#[allow(non_snake_case)]
fn Target_next(d: NaiveDate) -> NaiveDate {
    use finquant::time::calendars::Calendar;
    let mut x = add(d, 1);
    while !Target.is_business_day(x) {
        x = add(x, 1);
    }
    x
}
