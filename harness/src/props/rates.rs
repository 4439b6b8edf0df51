//! R01-R08: yield curve bootstrap and queries, swaps, caps, cap vol stripping, futures, indices.
use crate::cals;
use crate::fw::{Run, Worker, close};
use crate::props::Prop;
use crate::props::dates::{BDC, Tab, advance_model};
use crate::refcal::{add, ymd};
use chrono::{Datelike, NaiveDate};
use finquant::derivatives::basic::{BasicInfo, Direction, Style};
use finquant::derivatives::interestrate::basic::{CapFloorKind, CapStyle, IRDerivatives, RateShiftMode, caplet_total_variance};
use finquant::derivatives::interestrate::cap::CapFloor;
use finquant::derivatives::interestrate::swap::{
    InterestRateSchedulePeriod, InterestRateSwap, InterestRateSwapLeg, InterestRateSwapLegType, ScheduleDetail,
};
use finquant::markets::interestrate::futures::InterestRateFutures;
use finquant::markets::interestrate::interestrateindex::{InterestRateIndex, InterestRateIndexEnum as IE};
use finquant::markets::interestrate::market_context::IrMarketContext;
use finquant::markets::interestrate::volsurface::{CapQuote, CapletVolPillar, IRCapMarketData, IRNormalVolSurface};
use finquant::markets::termstructures::yieldcurve::oisratehelper::OISRate;
use finquant::markets::termstructures::yieldcurve::ratehelper::FuturesRate;
use finquant::markets::termstructures::yieldcurve::{
    InterestRateQuote, InterestRateQuoteEnum as Q, InterpolationMethodEnum as M, StrippedCurve, YieldTermMarketData,
    YieldTermStructure,
};
use finquant::time::businessdayconvention::BusinessDayConvention as B;
use finquant::time::calendars::{Calendar, Japan, Target, UnitedKingdom};
use finquant::time::daycounters::DayCounters;
use finquant::time::daycounters::actual360::Actual360;
use finquant::time::daycounters::actual365fixed::Actual365Fixed;
use finquant::time::daycounters::thirty360::Thirty360;
use finquant::time::frequency::Frequency;
use finquant::time::imm::IMM;
use finquant::time::period::Period as P;
use iso_currency::Currency;
use serde_json::json;

pub const PROPS: &[Prop] = &[
    ("R01", r01),
    ("R02", r02),
    ("R03", r03),
    ("R04", r04),
    ("R05", r05),
    ("R06", r06),
    ("R07", r07),
    ("R08", r08),
];

pub fn yf365(a: NaiveDate, b: NaiveDate) -> f64 {
    (b - a).num_days() as f64 / 365.0
}

// ------------------------------------------------------------ curve model

/// Reference curve: the zero rate of a date is read at the following day, linear in calendar
/// days between the visible pillars and flat outside them.
#[derive(Clone)]
pub struct Crv {
    pub val: NaiveDate,
    pub p: Vec<(NaiveDate, f64)>,
}
impl Crv {
    pub fn of(val: NaiveDate, s: &[StrippedCurve]) -> Crv {
        Crv { val, p: s.iter().filter(|x| !x.hidden_pillar).map(|x| (x.date, x.zero_rate)).collect() }
    }
    pub fn zero(&self, d: NaiveDate) -> f64 {
        let t = add(d, 1);
        let p = &self.p;
        if t <= p[0].0 {
            return p[0].1;
        }
        for i in 1..p.len() {
            if t <= p[i].0 {
                let f = (t - p[i - 1].0).num_days() as f64 / (p[i].0 - p[i - 1].0).num_days() as f64;
                return p[i - 1].1 + f * (p[i].1 - p[i - 1].1);
            }
        }
        p[p.len() - 1].1
    }
    pub fn df(&self, d: NaiveDate) -> f64 {
        (-self.zero(d) * yf365(self.val, d)).exp()
    }
    pub fn shift(&self, bp: f64) -> Crv {
        Crv { val: self.val, p: self.p.iter().map(|x| (x.0, x.1 + bp * 1e-4)).collect() }
    }
}

pub fn pillar(val: NaiveDate, date: NaiveDate, z: f64, hidden: bool) -> StrippedCurve {
    StrippedCurve {
        first_settle_date: val,
        date,
        market_rate: z,
        zero_rate: z,
        discount: (-z * yf365(val, date)).exp(),
        source: Q::OIS,
        hidden_pillar: hidden,
    }
}

pub fn yts(val: NaiveDate, s: Vec<StrippedCurve>) -> YieldTermStructure {
    YieldTermStructure::new(Box::new(Target), Box::<Actual365Fixed>::default(), val, s)
}

/// Test curves: (name, zero at pillar years).
pub fn shapes() -> Vec<(&'static str, fn(f64) -> f64)> {
    vec![
        ("flat", |_| 0.03),
        ("steep", |t| 0.005 + 0.045 * t / (t + 2.0)),
        ("inverted", |t| 0.055 - 0.02 * t / (t + 3.0)),
        ("negative", |t| -0.008 + 0.002 * t / (t + 5.0)),
        ("humped", |t| 0.02 + 0.03 * t * (-t / 2.0).exp()),
        ("hyper", |t| 0.26 + 0.09 / (1.0 + t)),
        ("deep", |t| -0.12 + 0.04 * t / (t + 4.0)),
    ]
}
pub fn curve_of(val: NaiveDate, f: fn(f64) -> f64) -> Vec<StrippedCurve> {
    [7i64, 31, 92, 183, 275, 366, 731, 1096, 1827, 2558, 3653, 7305]
        .iter()
        .map(|&n| pillar(val, add(val, n), f(n as f64 / 365.0), n == 7))
        .collect()
}

// ------------------------------------------------------------ swap model

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum LT {
    Fix(f64),
    Flt(f64),
}
#[derive(Clone, Copy)]
pub struct LegDef {
    pub lt: LT,
    pub buy: bool,
    pub notional: f64,
    pub freq: fn() -> Frequency,
    pub tenor: P,
    pub dur: P,
    pub dc: usize,
    pub cal: fn() -> Box<dyn Calendar>,
    pub conv: B,
    pub eom: bool,
    pub settle: i64,
    pub delay: i64,
    pub before: i64,
    pub ccy: Currency,
}
fn dcs(i: usize) -> Box<dyn DayCounters> {
    match i {
        0 => Box::new(Actual360),
        1 => Box::<Actual365Fixed>::default(),
        _ => Box::<Thirty360>::default(),
    }
}
impl LegDef {
    pub fn std(lt: LT, buy: bool, freq: fn() -> Frequency, tenor: P, dur: P) -> LegDef {
        LegDef {
            lt,
            buy,
            notional: 1.0,
            freq,
            tenor,
            dur,
            dc: 0,
            cal: || Box::new(Target),
            conv: B::ModifiedFollowing,
            eom: false,
            settle: 2,
            delay: 0,
            before: 2,
            ccy: Currency::EUR,
        }
    }
    pub fn index(&self) -> InterestRateIndex {
        InterestRateIndex {
            period: self.tenor,
            settlement_days: self.settle,
            currency: self.ccy,
            calendar: (self.cal)(),
            convention: self.conv,
            day_counter: dcs(self.dc),
            end_of_month: self.eom,
        }
    }
    pub fn leg(&self, schedule: Vec<InterestRateSchedulePeriod>) -> InterestRateSwapLeg {
        InterestRateSwapLeg::new(
            match self.lt {
                LT::Fix(c) => InterestRateSwapLegType::Fixed { coupon: c },
                LT::Flt(s) => InterestRateSwapLegType::Float { spread: s },
            },
            if self.buy { Direction::Buy } else { Direction::Sell },
            self.index(),
            self.notional,
            ScheduleDetail::new((self.freq)(), self.tenor, self.dur, dcs(self.dc), (self.cal)(), self.conv, self.settle, self.delay, self.before),
            schedule,
        )
    }
    fn count(&self) -> i64 {
        let u = |p: P| match p {
            P::Days(n) => (0, n),
            P::Weeks(n) => (0, 7 * n),
            P::Months(n) => (1, n as i64),
            P::Years(n) => (1, 12 * n as i64),
            _ => (2, 1),
        };
        let (a, b) = (u(self.dur), u(self.tenor));
        assert!(a.0 == b.0);
        a.1 / b.1
    }
    /// accrual start, accrual end, pay date, reset date
    pub fn schedule(&self, val: NaiveDate, t: &Tab) -> Vec<(NaiveDate, NaiveDate, NaiveDate, NaiveDate)> {
        let eff = advance_model(t, val, P::Days(self.settle), self.conv, self.eom);
        let mut v = vec![];
        let mut s = eff;
        for n in 1..=self.count() {
            let step = match (self.freq)().period().unwrap() {
                P::Days(k) => P::Days(k * n),
                P::Weeks(k) => P::Weeks(k * n),
                P::Months(k) => P::Months(k * n as u32),
                P::Years(k) => P::Years(k * n as u32),
                p => p,
            };
            let e = advance_model(t, eff, step, self.conv, self.eom);
            let pay = advance_model(t, e, P::Days(self.delay), self.conv, false);
            let reset = advance_model(t, s, P::Days(-self.before), self.conv, false);
            v.push((s, e, pay, reset));
            s = e;
        }
        v
    }
    pub fn pv(&self, sched: &[(NaiveDate, NaiveDate, NaiveDate, NaiveDate)], c: &Crv) -> f64 {
        let dc = dcs(self.dc);
        let mut pv = 0.0;
        for &(s, e, pay, _) in sched {
            let yf = dc.year_fraction(s, e).unwrap();
            let amount = match self.lt {
                LT::Fix(k) => k * yf,
                LT::Flt(sp) => c.df(s) / c.df(e) - 1.0 + sp * yf,
            };
            pv += amount * c.df(pay);
        }
        if let Some(l) = sched.last() {
            pv += c.df(l.2);
        }
        pv * self.notional * if self.buy { 1.0 } else { -1.0 }
    }
}

// ------------------------------------------------------------ R01

const IMM_CODES: [&str; 12] = ["F", "G", "H", "J", "K", "M", "N", "Q", "U", "V", "X", "Z"];

fn r01(run: &Run) {
    let vals: Vec<NaiveDate> = {
        let mut v = vec![];
        let step = run.by(7, 1);
        let mut d = ymd(2023, 1, 2);
        while d <= ymd(2024, 12, 31) {
            v.push(d);
            d = add(d, step);
        }
        v
    };
    let cash = [P::Weeks(1), P::Months(1), P::Months(3), P::Months(6), P::Months(12)];
    let shp = shapes();
    let swapsets: Vec<Vec<u32>> = vec![vec![], vec![2], vec![1, 2], vec![2, 5, 10], vec![1, 2, 3, 4, 5, 7, 10], vec![1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 20, 25, 30, 40, 50], vec![30]];
    let delays = [0i64, 2];
    run.dim("valuation_dates", vals.len());
    run.dim("cash_subsets", 31);
    run.dim("futures_counts", json!([0, 1, 2, 4, 8]));
    run.dim("swap_sets", json!(swapsets));
    run.dim("curve_shapes", shp.len());
    run.dim("quote_orders", 2);
    let tab = Tab::new(&Target, ymd(2022, 1, 1), ymd(2080, 1, 1));
    run.par(vals.len(), |vi, w| {
        let val = vals[vi];
        for (sn, f) in &shp {
            for mask in 1u32..32 {
                // every subset with futures 0; futures and swaps with a thinner set
                for nf in [0usize, 1, 2, 4, 8] {
                    for (si, sw) in swapsets.iter().enumerate() {
                        let heavy = si > 0;
                        if heavy && mask % 3 != 1 && !run.thorough() {
                            continue;
                        }
                        if heavy && nf == 2 {
                            continue;
                        }
                        // at rates this high the first future's published zero rate (a known
                        // finding) leaves the swap solver's bracket
                        if heavy && nf > 0 && *sn == "hyper" {
                            continue;
                        }
                        // the longest strips: with all and with the first cash quotes
                        if (si > 4 || nf == 8) && mask != 31 && mask != 3 {
                            continue;
                        }
                        if si > 4 && !run.thorough() && vi % 6 != 0 {
                            continue;
                        }
                        for &delay in if heavy { &delays[..] } else { &delays[..1] } {
                            for rev in [false, true] {
                                if rev && mask != 31 {
                                    continue;
                                }
                                boot(w, val, sn, *f, mask, &cash, nf, sw, delay, rev, &tab);
                            }
                        }
                    }
                }
            }
        }
    });

    // dense money-market strips: tenors that can fall on one another's maturity
    let dense = [P::Days(5), P::Weeks(1), P::Weeks(2), P::Weeks(3), P::Weeks(4), P::Months(1), P::Months(2), P::Weeks(13), P::Months(3), P::Months(12)];
    let step = run.by(5, 1);
    run.dim("dense_cash_tenors", dense.len());
    run.par(vals.len(), |vi, w| {
        let f: fn(f64) -> f64 = shp[vi % shp.len()].1;
        for mask in 1u32..1 << dense.len() {
            if (mask as usize + vi) % step == 0 || mask.count_ones() as usize == dense.len() {
                for rev in [false, true] {
                    boot(w, vals[vi], shp[vi % shp.len()].0, f, mask, &dense, 0, &[], 0, rev, &tab);
                }
            }
        }
    });

    deposits(run, &vals);
}

/// Single deposits on custom indices: every settlement lag, convention, day count and end-of-month
/// flag, against the schedule model and the deposit's own definition of its discount factor.
fn deposits(run: &Run, vals: &[NaiveDate]) {
    let periods = [P::Days(1), P::Days(5), P::Weeks(1), P::Weeks(2), P::Months(1), P::Months(2), P::Months(3), P::Months(6), P::Months(9), P::Months(12), P::Months(18), P::Years(2)];
    let rates = [-0.05, -1e-4, 0.0, 1e-9, 0.031, 0.2];
    let makes: [fn() -> Box<dyn Calendar>; 3] = [|| Box::new(Target), || Box::<UnitedKingdom>::default(), || Box::new(Japan)];
    run.dim("deposit_periods", periods.len());
    run.dim("deposit_settlement_days", json!([0, 1, 2, 3]));
    run.dim("deposit_conventions", BDC.len());
    run.dim("deposit_calendars", makes.len());
    run.dim("deposit_rates", json!(rates));
    // every day around the turns of months as well
    let mut days = vals.to_vec();
    let mut d = ymd(2023, 12, 20);
    while d < ymd(2024, 4, 5) {
        days.push(d);
        d = add(d, 1);
    }
    days.sort();
    days.dedup();
    run.par(makes.len() * days.len(), |n, w| {
        let (mi, di) = (n / days.len(), n % days.len());
        let val = days[di];
        let tab = Tab::new(&*makes[mi](), ymd(2022, 1, 1), ymd(2028, 1, 1));
        for p in periods {
            for lag in 0..4i64 {
                for (bi, conv) in BDC.into_iter().enumerate() {
                    for eom in [false, true] {
                        for dc in 0..3 {
                            let value = rates[(di + bi + dc + lag as usize) % rates.len()];
                            let key = || format!("deposit cal={mi} {val} {p:?} lag={lag} {conv:?} eom={eom} dc={dc} rate={value}");
                            let index = InterestRateIndex { period: p, settlement_days: lag, currency: Currency::EUR, calendar: makes[mi](), convention: conv, day_counter: dcs(dc), end_of_month: eom };
                            let q = OISRate { value, interest_rate_index: index };
                            let settle = advance_model(&tab, val, P::Days(lag), conv, eom);
                            let mat = advance_model(&tab, settle, p, conv, eom);
                            if mat <= settle || mat <= val {
                                continue;
                            }
                            w.state(1);
                            let Some(Ok(got)) = w.call(key, || Ok::<_, finquant::error::Error>((q.settle_date(val)?, q.maturity_date(val)?, q.zero_rate(val)?, q.discount(val)?))) else {
                                w.fail(format!("{} answered with an error", key()), String::new());
                                continue;
                            };
                            w.check((got.0, got.1) == (settle, mat), key, || format!("got {} {}, want {settle} {mat}", got.0, got.1));
                            let yi = dcs(dc).year_fraction(settle, mat).unwrap_or(f64::NAN);
                            let z = (1.0 + yi * value).ln() / yf365(settle, mat);
                            w.close(got.2, z, 1e-13, 1e-12, || format!("{} zero rate", key()));
                            w.close(got.3, (-z * yf365(val, mat)).exp(), 1e-13, 1e-12, || format!("{} discount", key()));
                            // the same deposit, stripped as a one-instrument market
                            let md = YieldTermMarketData::new(val, vec![q], vec![], vec![]);
                            let Some(Ok(sc)) = w.call(|| format!("{} stripped", key()), || md.get_stripped_curve()) else {
                                w.fail(format!("{} stripping answered with an error", key()), String::new());
                                continue;
                            };
                            w.check(sc.len() == 1 && sc[0].date == mat && sc[0].first_settle_date == settle, || format!("{} pillar", key()), || format!("{:?}", sc.iter().map(|s| (s.first_settle_date, s.date)).collect::<Vec<_>>()));
                            if let Some(s) = sc.first() {
                                w.close(s.zero_rate, z, 1e-13, 1e-12, || format!("{} pillar zero rate", key()));
                                w.close(s.discount, (-z * yf365(val, mat)).exp(), 1e-13, 1e-12, || format!("{} pillar discount", key()));
                                w.check(s.market_rate == value, || format!("{} pillar quote", key()), || format!("got {}", s.market_rate));
                            }
                        }
                    }
                }
            }
        }
    });
}

#[allow(clippy::too_many_arguments)]
fn boot(w: &mut Worker, val: NaiveDate, sn: &str, f: fn(f64) -> f64, mask: u32, cash: &[P], nf: usize, sw: &[u32], delay: i64, rev: bool, tab: &Tab) {
    let key = || format!("{val} {sn} cash={mask:05b} futures={nf} swaps={sw:?} delay={delay} rev={rev}");
    let euribor = |p: P| InterestRateIndex::from_enum(IE::EUIBOR(p)).unwrap();
    let mut cq = vec![];
    let mut want: Vec<(NaiveDate, NaiveDate, f64, P)> = vec![];
    for (i, &p) in cash.iter().enumerate() {
        if mask >> i & 1 == 1 {
            let settle = tab.nth(val, 2);
            let conv = if matches!(p, P::Weeks(_)) { B::Following } else { B::ModifiedFollowing };
            let mat = advance_model(tab, settle, p, conv, false);
            let v = f(yf365(val, mat)) + 0.0003 * i as f64;
            cq.push(OISRate { value: v, interest_rate_index: euribor(p) });
            want.push((settle, mat, v, p));
        }
    }
    if rev {
        cq.reverse();
        want.reverse();
    }
    // quarterly futures from the next IMM month
    let mut fq = vec![];
    let mut fwant = vec![];
    let mut k = 0;
    let mut ym = (val.year(), val.month());
    while k < nf {
        ym = if ym.1 == 12 { (ym.0 + 1, 1) } else { (ym.0, ym.1 + 1) };
        if ym.1 % 3 != 0 {
            continue;
        }
        let code = format!("{}{}", IMM_CODES[ym.1 as usize - 1], ym.0 % 10);
        let settle = crate::props::dates::third_wed(ym.0, ym.1);
        let q = f(yf365(val, settle) + 0.25);
        let price = 100.0 * (1.0 - q);
        fq.push(FuturesRate {
            value: price,
            imm_code: code,
            convexity_adjustment: -0.02 * (k as f64 + 1.0),
            futures_spec: InterestRateFutures::new(P::Months(3)),
            interest_rate_index: euribor(P::Months(3)),
        });
        fwant.push((settle, price, -0.02 * (k as f64 + 1.0)));
        k += 1;
    }
    // strips are quoted in maturity order: swaps start beyond the last future
    let fut_end = fwant.last().map(|x| add(x.0, 110)).unwrap_or(val);
    let sw: Vec<u32> = sw.iter().copied().filter(|&n| add(val, 365 * n as i64) > fut_end.max(want.iter().map(|x| add(x.1, 7)).max().unwrap_or(val)) || (n == 1 && nf == 0 && mask < 16)).collect();
    let sw = &sw[..];
    let mut sq = vec![];
    let mut sdefs = vec![];
    for &n in sw {
        let mut fixed = LegDef::std(LT::Fix(f(n as f64) + 0.001), true, || Frequency::Annual, P::Years(1), P::Years(n));
        fixed.dc = 2;
        fixed.delay = delay;
        let mut flt = LegDef::std(LT::Flt(0.0), false, || Frequency::Semiannual, P::Months(6), P::Months(12 * n));
        flt.delay = delay;
        sq.push(InterestRateSwap::new(vec![fixed.leg(vec![]), flt.leg(vec![])]));
        sdefs.push((fixed, flt));
    }
    w.state(1);
    let md = YieldTermMarketData::new(val, cq, fq, sq);
    let Some(got) = w.call(key, || md.get_stripped_curve()) else { return };
    let Ok(got) = got else {
        w.fail(key(), "stripping failed");
        return;
    };
    w.trace(1);
    if !w.check(got.len() == want.len() + nf + sw.len(), key, || format!("{} pillars", got.len())) {
        return;
    }
    let a360 = |a: NaiveDate, b: NaiveDate| (b - a).num_days() as f64 / 360.0;
    want.sort_by_key(|x| x.1);
    for (g, x) in got.iter().zip(&want) {
        let k = || format!("{} cash {:?}", key(), x.3);
        w.check(
            g.first_settle_date == x.0 && g.date == x.1 && g.market_rate == x.2 && g.source == Q::OIS && g.hidden_pillar == (x.3 == P::Weeks(1)),
            k,
            || format!("{g:?}"),
        );
        w.close((g.zero_rate * yf365(x.0, x.1)).exp(), 1.0 + a360(x.0, x.1) * x.2, 1e-13, 1e-12, || format!("{} accrual", k()));
        w.close(g.discount, (-g.zero_rate * yf365(val, x.1)).exp(), 1e-14, 1e-13, || format!("{} discount", k()));
    }
    // futures
    let nc = want.len();
    for j in 0..nf {
        let (settle, price, adj) = fwant[j];
        let g = &got[nc + j];
        let k = || format!("{} future {j}", key());
        let adv = advance_model(tab, settle, P::Months(3), B::ModifiedFollowing, false);
        let mat = {
            let tw = crate::props::dates::third_wed(adv.year(), adv.month());
            let first = ymd(adv.year(), adv.month(), 1);
            if tw > first { tw } else { add(tw, 28) }
        };
        w.check(
            g.first_settle_date == settle && g.date == mat && g.market_rate == price && g.source == Q::Futures && !g.hidden_pillar,
            k,
            || format!("{g:?}, expected settle {settle} maturity {mat}"),
        );
        let q = 1.0 - price / 100.0 + adj / 100.0;
        // closest earlier pillar to the futures start date
        let prev = &got[..nc + j];
        let i = prev.iter().position(|p| p.first_settle_date < settle && p.date >= settle);
        let maxd = prev.iter().max_by_key(|p| p.date).unwrap();
        let rel = match i {
            _ if settle > maxd.date => maxd,
            None | Some(0) => &prev[0],
            Some(i) => {
                if (prev[i].date - settle) <= (settle - prev[i - 1].date) { &prev[i] } else { &prev[i - 1] }
            }
        };
        let disc = (-rel.zero_rate * yf365(val, settle)).exp() / (1.0 + a360(settle, mat) * q);
        w.close(g.discount, disc, 1e-14, 1e-13, || format!("{} discount", k()));
        if j == 0 {
            // forward over the stub beyond the cash strip
            let mut cum = 0.0;
            let mut s = val;
            for p in prev {
                cum += p.zero_rate * yf365(s, p.date);
                s = p.date;
            }
            if mat <= s {
                w.close(g.zero_rate, -disc.ln() / yf365(val, mat), 1e-12, 1e-10, || format!("{} zero", k()));
                continue;
            }
            let z = (-(disc.ln()) - cum) / yf365(s, mat);
            w.close(g.zero_rate, z, 1e-12, 1e-10, || format!("{} stub rate", k()));
            w.check(
                close(g.discount, (-g.zero_rate * yf365(val, mat)).exp(), 1e-9, 1e-9),
                || "first futures pillar: zero rate against its discount".into(),
                || format!("{}: zero {} gives {} but the pillar publishes {}", key(), g.zero_rate, (-g.zero_rate * yf365(val, mat)).exp(), g.discount),
            );
        } else {
            w.close((-g.zero_rate * yf365(val, mat)).exp(), disc, 1e-13, 1e-12, || format!("{} zero", k()));
        }
    }
    // swaps: each one is worth nothing on the curve that ends at its own pillar
    for (j, (fx, fl)) in sdefs.iter().enumerate() {
        let at = nc + nf + j;
        let g = &got[at];
        let k = || format!("{} swap {}Y", key(), sw[j]);
        let (s1, s2) = (fx.schedule(val, tab), fl.schedule(val, tab));
        let mat = s1.last().unwrap().1.max(s2.last().unwrap().1);
        let coupon = if let LT::Fix(c) = fx.lt { c } else { 0.0 };
        w.check(
            g.date == mat && g.first_settle_date == tab.nth(val, 2) && g.market_rate == coupon && g.source == Q::Swap && !g.hidden_pillar,
            k,
            || format!("{g:?}"),
        );
        w.close(g.discount, (-g.zero_rate * yf365(val, mat)).exp(), 1e-14, 1e-13, || format!("{} discount", k()));
        // only meaningful when the pillars so far are in date order
        let sub = &got[..=at];
        if sub.windows(2).all(|x| x[0].date < x[1].date) {
            let c = Crv::of(val, sub);
            let pv = fx.pv(&s1, &c) + fl.pv(&s2, &c);
            w.close(pv, 0.0, 1e-11, 0.0, || format!("{} reprices (reference)", k()));
            let mut y = yts(val, sub.to_vec());
            let real = md.swap_quote[j].npv(val, &mut y).unwrap_or(f64::NAN);
            w.close(real, 0.0, 1e-11, 0.0, || format!("{} reprices", k()));
        }
    }
    if mask == 31 && nf == 4 && sw.len() == 3 && delay == 0 && !rev {
        w.sample(json!({"market": key(), "pillars": got.iter().map(|g| json!([g.date.to_string(), g.zero_rate, g.discount])).collect::<Vec<_>>() }));
    }
}

// ------------------------------------------------------------ R02

fn r02(run: &Run) {
    let gaps: &[i64] = run.by(&[1, 2, 7, 30, 91][..], &[1, 2, 3, 7, 30, 91, 365][..]);
    let zs = [-0.01, 0.0, 0.03];
    let maxn = run.by(3usize, 4);
    let vals = [ymd(2024, 2, 27), ymd(2023, 12, 30)];
    run.dim("pillar_counts", json!((1..=maxn).collect::<Vec<_>>()));
    run.dim("gaps_between_pillars_days", json!(gaps));
    run.dim("zero_rate_alphabet", json!(zs));
    run.dim("hidden_masks", "every mask with at least one visible pillar");
    run.dim("query_dates", "every day from 3 days before the valuation date to 12 past the last pillar (sparser inside long gaps)");
    let mut items: Vec<(usize, Vec<i64>)> = vec![];
    fn rec(gaps: &[i64], n: usize, cur: &mut Vec<i64>, out: &mut Vec<Vec<i64>>) {
        if cur.len() == n {
            out.push(cur.clone());
            return;
        }
        for &g in gaps {
            cur.push(g);
            rec(gaps, n, cur, out);
            cur.pop();
        }
    }
    for v in 0..vals.len() {
        for n in 1..=maxn {
            let mut o = vec![];
            rec(gaps, n, &mut vec![], &mut o);
            items.extend(o.into_iter().map(|g| (v, g)));
        }
    }
    run.par(items.len(), |ii, w| {
        let (v, g) = &items[ii];
        let val = vals[*v];
        let n = g.len();
        let mut dates = vec![];
        let mut d = val;
        for x in g {
            d = add(d, *x);
            dates.push(d);
        }
        let mut qs: Vec<NaiveDate> = (-3..=10).map(|i| add(val, i)).collect();
        for x in &dates {
            qs.extend((-4..=12).map(|i| add(*x, i)));
        }
        for a in [17, 45, 66, 120, 200, 301] {
            qs.extend(dates.iter().map(|x| add(*x, a)));
        }
        qs.push(add(d, 4000));
        qs.sort();
        qs.dedup();
        for hid in 0u32..(1 << n) - 1 {
            for zc in 0..zs.len().pow(n as u32) {
                let z: Vec<f64> = (0..n).map(|i| zs[zc / zs.len().pow(i as u32) % zs.len()]).collect();
                let s: Vec<StrippedCurve> = (0..n).map(|i| pillar(val, dates[i], z[i], hid >> i & 1 == 1)).collect();
                let key = || format!("{val} gaps={g:?} z={z:?} hidden={hid:b}");
                read_curve(w, val, &s, &qs, 25.0, &key);
                w.trace(1);
            }
        }
    });

    // longer curves: every single pillar, every neighbouring pair, every head and tail hidden
    let sizes: &[usize] = run.by(&[5, 6, 7, 8, 9, 12, 16, 17, 24, 33, 48, 64][..], &[5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 100, 128, 129, 200][..]);
    run.dim("long_curves", json!({"pillars": sizes, "hidden": "none, each, each neighbouring pair, every second, each head and tail", "shifts_bp": [0.01, 25.0, -300.0, 1000.0]}));
    run.par(sizes.len() * 4 * 2, |ii, w| {
        let (n, pat, val) = (sizes[ii / 8], ii / 2 % 4, vals[ii % 2]);
        let mut dates = vec![];
        let mut d = val;
        for i in 0..n {
            d = add(d, match pat { 0 => 1, 1 => 30 + (i as i64 * 7) % 3, 2 => 365, _ => [1, 6, 91, 28, 730][i % 5] });
            dates.push(d);
        }
        let mut qs: Vec<NaiveDate> = (-2..=2).map(|i| add(val, i)).collect();
        for x in &dates {
            qs.extend([-1, 0, 1, 2, 17].map(|i| add(*x, i)));
        }
        qs.extend([add(d, 30), add(d, 5000)]);
        qs.sort();
        qs.dedup();
        let mut hs: Vec<Vec<usize>> = vec![vec![], (0..n).filter(|i| i % 2 == 0).collect(), (0..n).filter(|i| i % 2 == 1).collect()];
        for i in 0..n {
            hs.extend([vec![i], vec![i, (i + 1) % n]]);
            if i > 0 {
                hs.extend([(0..i).collect(), (i..n).collect()]);
            }
        }
        for (hi, h) in hs.iter().enumerate() {
            let z: Vec<f64> = (0..n).map(|i| [0.031, -0.004, 0.0, 0.052, 0.018, 0.12, -0.02][(i * 3 + hi) % 7]).collect();
            let s: Vec<StrippedCurve> = (0..n).map(|i| pillar(val, dates[i], z[i], h.contains(&i))).collect();
            let key = || format!("{val} {n} pillars pattern {pat} hidden={h:?}");
            read_curve(w, val, &s, &qs, [0.01, 25.0, -300.0, 1000.0][hi % 4], &key);
            w.trace(1);
        }
    });
}

/// every way of reading a curve against the reference
fn read_curve(w: &mut Worker, val: NaiveDate, s: &[StrippedCurve], qs: &[NaiveDate], bp: f64, key: &dyn Fn() -> String) {
    let y = yts(val, s.to_vec());
    let c = Crv::of(val, s);
    let up = c.shift(bp);
    w.state(1);
    for &q in qs {
        let k = || format!("{} {q}", key());
        let Some(got) = w.call(k, || {
            (
                y.zero_rate(q, &M::StepFunctionForward).unwrap(),
                y.discount(q, &M::StepFunctionForward).unwrap(),
                y.shifted_discount(q, &M::StepFunctionForward, bp).unwrap(),
            )
        }) else {
            continue;
        };
        w.close(got.0, c.zero(q), 1e-15, 1e-12, || format!("{} zero", k()));
        w.close(got.1, c.df(q), 1e-14, 1e-12, || format!("{} discount", k()));
        w.close(got.2, up.df(q), 1e-14, 1e-12, || format!("{} shifted discount", k()));
    }
    // forward rates agree with the discount factors
    for q in [val, add(val, 1)].into_iter().chain(qs.iter().copied().step_by(5)) {
        for t in [P::Months(1), P::Days(1), P::Days(2), P::Years(1), P::Weeks(2), P::Weeks(1), P::Months(18)] {
            let e = crate::props::dates::plus(q, t, 1);
            let k = || format!("{} forward {q} {t:?}", key());
            let Some(Ok(r)) = w.call(k, || y.forward_rate(q, t, &M::StepFunctionForward)) else { continue };
            w.close((r * yf365(q, e)).exp(), c.df(q) / c.df(e), 1e-12, 1e-10, k);
        }
    }
    // a pillar's own date gives the pillar's own rate
    for x in s {
        if !x.hidden_pillar {
            let r = y.zero_rate(x.date, &M::StepFunctionForward).unwrap();
            w.check(close(r, x.zero_rate, 1e-12, 0.0), || "zero rate at a pillar's own date".into(), || format!("{} pillar {}: {r} instead of {}", key(), x.date, x.zero_rate));
        }
    }
}

// ------------------------------------------------------------ R03 / R04

pub fn leg_space(run: &Run) -> Vec<LegDef> {
    let durs: Vec<(fn() -> Frequency, P, P)> = vec![
        (|| Frequency::Annual, P::Years(1), P::Years(1)),
        (|| Frequency::Annual, P::Years(1), P::Years(5)),
        (|| Frequency::Semiannual, P::Months(6), P::Years(2)),
        (|| Frequency::Quarterly, P::Months(3), P::Years(3)),
        (|| Frequency::Quarterly, P::Months(3), P::Months(12)),
        (|| Frequency::EveryFourthMonth, P::Months(4), P::Months(16)),
        (|| Frequency::Bimonthly, P::Months(2), P::Months(10)),
        (|| Frequency::Monthly, P::Months(1), P::Months(7)),
        (|| Frequency::Weekly, P::Weeks(1), P::Weeks(9)),
        (|| Frequency::Biweekly, P::Weeks(2), P::Weeks(12)),
        (|| Frequency::EveryFourthWeek, P::Weeks(4), P::Weeks(16)),
        (|| Frequency::Daily, P::Days(1), P::Weeks(2)),
        (|| Frequency::Annual, P::Months(12), P::Years(3)),
        (|| Frequency::Annual, P::Years(1), P::Months(24)),
        (|| Frequency::Annual, P::Years(1), P::Years(30)),
        (|| Frequency::Semiannual, P::Months(6), P::Months(120)),
        (|| Frequency::Quarterly, P::Months(3), P::Years(20)),
        (|| Frequency::Monthly, P::Months(1), P::Years(4)),
        (|| Frequency::Weekly, P::Weeks(1), P::Days(63)),
        (|| Frequency::Daily, P::Days(1), P::Days(10)),
    ];
    let cals: [fn() -> Box<dyn Calendar>; 3] = [
        || Box::new(Target),
        || Box::<finquant::time::calendars::UnitedStates>::default(),
        || Box::<finquant::time::calendars::UnitedKingdom>::default(),
    ];
    let mut v = vec![];
    for &(freq, tenor, dur) in &durs {
        for (ci, &cal) in cals.iter().enumerate() {
            for &conv in run.by(&[B::ModifiedFollowing, B::Preceding, B::Unadjusted][..], &BDC[..]) {
                for eom in [false, true] {
                    for (settle, delay, before) in [(2, 0, 0), (0, 2, 1), (3, 9, 14)] {
                        for dc in 0..3 {
                            // a 30/360 day count gives some one-day periods no length
                            if dc == 2 && tenor == P::Days(1) {
                                continue;
                            }
                            for lt in [LT::Fix(0.0325), LT::Flt(0.0), LT::Flt(-0.0015), LT::Fix(-0.002)] {
                                for (buy, notional) in [(true, 1e6), (false, 2.5e6)] {
                                    v.push(LegDef {
                                        lt,
                                        buy,
                                        notional,
                                        freq,
                                        tenor,
                                        dur,
                                        dc,
                                        cal,
                                        conv,
                                        eom,
                                        settle,
                                        delay,
                                        before,
                                        ccy: [Currency::EUR, Currency::USD, Currency::GBP][ci],
                                    });
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    v
}
pub fn leg_name(l: &LegDef) -> String {
    format!(
        "{:?} {} {:?} tenor={:?} dur={:?} dc={} {} {:?} eom={} settle={} delay={} before={}",
        l.lt,
        if l.buy { "buy" } else { "sell" },
        (l.freq)(),
        l.tenor,
        l.dur,
        l.dc,
        l.ccy.code(),
        l.conv,
        l.eom,
        l.settle,
        l.delay,
        l.before
    )
}
fn val_days(run: &Run) -> Vec<NaiveDate> {
    let mut v = vec![ymd(2024, 2, 28), ymd(2023, 10, 27), ymd(2024, 12, 30), ymd(2024, 4, 26)];
    if run.thorough() {
        v.extend([ymd(2024, 2, 29), ymd(2023, 1, 31), ymd(2025, 5, 30), ymd(2024, 8, 29), ymd(2023, 12, 22), ymd(2024, 3, 28), ymd(2025, 6, 15), ymd(2024, 1, 1)]);
    }
    v
}
pub fn ctx(val: NaiveDate, s: &[StrippedCurve], ccy: Currency) -> IrMarketContext {
    IrMarketContext::new(val, ccy, yts(val, s.to_vec()), None)
}

fn r03(run: &Run) {
    let legs = leg_space(run);
    let vals = val_days(run);
    let shp = shapes();
    run.dim("legs", legs.len());
    run.dim("valuation_dates", json!(vals.iter().map(|d| d.to_string()).collect::<Vec<_>>()));
    run.dim("curve_shapes", shp.len());
    run.dim("operations", "generate_schedule, npv, mtm, maturity_date, settle_date, currency; single legs, opposite pairs, mixed pairs, explicit amortising schedules");
    let tabs: Vec<Tab> = [0usize, 1, 2]
        .iter()
        .map(|i| {
            let c: Box<dyn Calendar> = match i {
                0 => Box::new(Target),
                1 => Box::<finquant::time::calendars::UnitedStates>::default(),
                _ => Box::<finquant::time::calendars::UnitedKingdom>::default(),
            };
            Tab::new(&*c, ymd(2022, 1, 1), ymd(2062, 1, 1))
        })
        .collect();
    let tab = |l: &LegDef| match l.ccy {
        Currency::EUR => &tabs[0],
        Currency::USD => &tabs[1],
        _ => &tabs[2],
    };
    run.par(legs.len(), |li, w| {
        let l = &legs[li];
        for &val in &vals {
            let key = || format!("{val} {}", leg_name(l));
            w.state(1);
            let want = l.schedule(val, tab(l));
            let leg = l.leg(vec![]);
            let Some(Ok(got)) = w.call(key, || leg.generate_schedule(val)) else {
                w.fail(key(), "no schedule");
                continue;
            };
            let gs: Vec<_> = got.iter().map(|p| (p.accrual_start_date, p.accrual_end_date, p.pay_date, p.reset_date)).collect();
            w.check(gs == want, key, || format!("schedule {gs:?}, expected {want:?}"));
            w.check(got.iter().all(|p| p.balance == l.notional), || format!("{} balance", key()), || "balance is not the notional".into());
            w.trace(1);
            if gs != want {
                continue;
            }
            let swap = InterestRateSwap::new(vec![l.leg(vec![])]);
            w.check(swap.maturity_date(val).ok() == Some(want.last().unwrap().1), || format!("{} maturity", key()), || format!("{:?}", swap.maturity_date(val)));
            w.check(swap.settle_date(val).ok() == Some(want[0].0), || format!("{} settle", key()), || format!("{:?}", swap.settle_date(val)));
            w.check(swap.currency().ok() == Some(l.ccy), || format!("{} currency", key()), || "wrong".into());
            let leg = &swap.legs[0];
            w.check(leg.effective_date(val).ok().flatten() == Some(want[0].0), || format!("{} effective date", key()), || format!("{:?}", leg.effective_date(val)));
            w.check(leg.is_fixe_leg() == matches!(leg.swap_type, InterestRateSwapLegType::Fixed { .. }), || format!("{} fixed leg", key()), || "wrong".into());
            w.check(matches!(swap.yts_type(), finquant::markets::termstructures::yieldcurve::InterestRateQuoteEnum::Swap), || format!("{} quote type", key()), || "wrong".into());
            // partner leg: the next one in the space, so every neighbouring pair is priced too
            let m = &legs[(li + 7) % legs.len()];
            let ms = m.schedule(val, tab(m));
            let mut opp = *l;
            opp.buy = !l.buy;
            // amortising explicit schedule
            let am: Vec<InterestRateSchedulePeriod> = want
                .iter()
                .enumerate()
                .map(|(i, p)| {
                    let mut s = InterestRateSchedulePeriod::new(p.0, p.1, p.2, p.3, 1.0, 1.0);
                    s.balance = l.notional / (i as f64 + 1.0);
                    s
                })
                .collect();
            for (sn, f) in &shp {
                let s = curve_of(val, *f);
                let c = Crv::of(val, &s);
                let k = || format!("{} {sn}", key());
                let base = l.pv(&want, &c);
                let tol = 1e-9 * l.notional.max(m.notional);
                let mut y = yts(val, s.clone());
                w.close(swap.npv(val, &mut y).unwrap_or(f64::NAN), base, tol, 0.0, || format!("{} npv", k()));
                let cx = ctx(val, &s, l.ccy);
                let mtm = swap.mtm(&cx).unwrap();
                w.close(mtm.value, base, tol, 0.0, || format!("{} mtm", k()));
                w.check(mtm.currency == l.ccy, || format!("{} mtm currency", k()), || format!("{:?}", mtm.currency));
                let both = InterestRateSwap::new(vec![l.leg(vec![]), m.leg(vec![])]);
                w.close(both.mtm(&cx).unwrap().value, base + m.pv(&ms, &c), tol, 0.0, || format!("{} pair mtm with {}", k(), leg_name(m)));
                w.close(both.npv(val, &mut y).unwrap(), base + m.pv(&ms, &c), tol, 0.0, || format!("{} pair npv", k()));
                let net = InterestRateSwap::new(vec![l.leg(vec![]), opp.leg(vec![])]);
                w.close(net.mtm(&cx).unwrap().value, 0.0, tol, 0.0, || format!("{} opposite legs net", k()));
                // amortising balances
                let dc = dcs(l.dc);
                let sg = if l.buy { 1.0 } else { -1.0 };
                let mut pv = 0.0;
                for p in &am {
                    let yf = dc.year_fraction(p.accrual_start_date, p.accrual_end_date).unwrap();
                    let amt = match l.lt {
                        LT::Fix(k) => k * yf,
                        LT::Flt(x) => c.df(p.accrual_start_date) / c.df(p.accrual_end_date) - 1.0 + x * yf,
                    };
                    pv += sg * amt * p.balance * c.df(p.pay_date);
                }
                let last = am.last().unwrap();
                pv += sg * last.balance * c.df(last.pay_date);
                let ams = InterestRateSwap::new(vec![l.leg(am.clone())]);
                w.close(ams.mtm(&cx).unwrap().value, pv, tol, 0.0, || format!("{} amortising mtm", k()));
                w.close(ams.npv(val, &mut y).unwrap(), pv, tol, 0.0, || format!("{} amortising npv", k()));
                // several legs, the first and last of which end earlier than one between them
                let few = want.len().div_ceil(2);
                let shortened = l.leg(am[..few].to_vec());
                let opened = m.leg(vec![]);
                let many = InterestRateSwap::new(vec![shortened, l.leg(vec![]), opened, opp.leg(am.clone()), l.leg(am[..1].to_vec())]);
                let part = |a: &[InterestRateSchedulePeriod]| -> f64 {
                    let flows: f64 = a
                        .iter()
                        .map(|p| {
                            let yf = dc.year_fraction(p.accrual_start_date, p.accrual_end_date).unwrap();
                            let amt = match l.lt {
                                LT::Fix(k) => k * yf,
                                LT::Flt(x) => c.df(p.accrual_start_date) / c.df(p.accrual_end_date) - 1.0 + x * yf,
                            };
                            sg * amt * p.balance * c.df(p.pay_date)
                        })
                        .sum();
                    let e = a.last().unwrap();
                    flows + sg * e.balance * c.df(e.pay_date)
                };
                let all = part(&am[..few]) + base + m.pv(&ms, &c) - pv + part(&am[..1]);
                w.close(many.mtm(&cx).unwrap().value, all, 3.0 * tol, 1e-12, || format!("{} five legs mtm", k()));
                w.close(many.npv(val, &mut y).unwrap(), all, 3.0 * tol, 1e-12, || format!("{} five legs npv", k()));
                let end = want.last().unwrap().1.max(ms.last().unwrap().1);
                w.check(many.maturity_date(val).ok() == Some(end), || format!("{} five legs maturity", k()), || format!("{:?}, expected {end}", many.maturity_date(val)));
                let mixed = InterestRateSwap::new(vec![l.leg(vec![]), LegDef { ccy: if l.ccy == Currency::JPY { Currency::EUR } else { Currency::JPY }, ..*l }.leg(vec![])]);
                w.check(mixed.currency().ok() == Some(l.ccy) && mixed.mtm(&cx).unwrap().currency == l.ccy, || format!("{} currency of the first leg", k()), || format!("{:?}", mixed.currency()));
                // balances that run down to nothing, or change sign
                let mut gone = am.clone();
                let n = gone.len();
                gone[n - 1].balance = 0.0;
                if n > 2 {
                    gone[1].balance *= -1.0;
                }
                let g = InterestRateSwap::new(vec![l.leg(gone.clone())]);
                w.close(g.mtm(&cx).unwrap().value, part(&gone), tol, 0.0, || format!("{} redeemed mtm", k()));
                w.close(g.npv(val, &mut y).unwrap(), part(&gone), tol, 0.0, || format!("{} redeemed npv", k()));
                // a period that began before the valuation date
                let mut old = am.clone();
                old[0].accrual_start_date = old[0].accrual_start_date.min(add(val, -25));
                let o = InterestRateSwap::new(vec![l.leg(old.clone())]);
                w.close(o.mtm(&cx).unwrap().value, part(&old), tol, 0.0, || format!("{} seasoned mtm", k()));
                w.close(o.npv(val, &mut y).unwrap(), part(&old), tol, 0.0, || format!("{} seasoned npv", k()));
                // a float leg without delay or spread is worth par at its start
                if l.lt == LT::Flt(0.0) && l.delay == 0 {
                    w.close(base * sg, l.notional * c.df(want[0].0), tol, 0.0, || format!("{} par float (reference)", k()));
                }
            }
        }
    });
    run.seq(|w| {
        let e = InterestRateSwap::new(vec![]);
        w.check(e.currency().is_err(), || "no legs: currency".into(), || "must be an error".into());
        let s = curve_of(ymd(2024, 1, 3), |_| 0.02);
        let cx = ctx(ymd(2024, 1, 3), &s, Currency::EUR);
        w.check(e.mtm(&cx).is_err(), || "no legs: mtm".into(), || "must be an error".into());
    });
}

fn r04(run: &Run) {
    let legs: Vec<LegDef> = leg_space(run).into_iter().filter(|l| l.dc == 0 || l.conv == B::ModifiedFollowing).collect();
    let vals = val_days(run);
    let shp = shapes();
    let shifts = [1.0, 10.0, 400.0, 0.5, -10.0];
    run.dim("legs", legs.len());
    run.dim("valuation_dates", vals.len());
    run.dim("curve_shapes", shp.len());
    run.dim("shift_bp", json!(shifts));
    run.par(legs.len(), |li, w| {
        let l = &legs[li];
        for &val in &vals {
            let swap = InterestRateSwap::new(vec![l.leg(vec![]), legs[(li + 5) % legs.len()].leg(vec![])]);
            let nil = InterestRateSwap::new(vec![LegDef { notional: 0.0, ..l.clone() }.leg(vec![])]);
            for (sn, f) in &shp {
                let key = || format!("{val} {sn} {}", leg_name(l));
                w.state(1);
                let pv = |bp: f64| {
                    let s: Vec<StrippedCurve> = curve_of(val, *f)
                        .into_iter()
                        .map(|mut p| {
                            p.zero_rate += bp * 1e-4;
                            p
                        })
                        .collect();
                    swap.mtm(&ctx(val, &s, l.ccy)).unwrap().value
                };
                let base = pv(0.0);
                let cx = ctx(val, &curve_of(val, *f), l.ccy);
                let tol = 1e-8 * 2.5e6 * 1e-3;
                w.close(swap.dv01(&cx).unwrap(), pv(1.0) - base, tol, 0.0, || format!("{} dv01", key()));
                for sw in [&swap, &nil] {
                    let m = sw.mtm(&cx).unwrap().value;
                    let e = if m.abs() < 1e-12 { 0.0 } else { -sw.dv01(&cx).unwrap() * 1e4 / m };
                    w.close(sw.modified_duration(&cx).unwrap(), e, 1e-12, 1e-9, || format!("{} modified duration", key()));
                }
                for h in shifts {
                    w.close(swap.gamma(&cx, h, RateShiftMode::Zeros).unwrap(), pv(h) + pv(-h) - 2.0 * base, tol, 0.0, || format!("{} gamma {h}", key()));
                    w.check(swap.vega(&cx, h).ok() == Some(0.0), || format!("{} vega {h}", key()), || "a swap has no vega".into());
                }
                for m in [RateShiftMode::Instruments, RateShiftMode::Forwards, RateShiftMode::Swaps] {
                    w.check(swap.gamma(&cx, 10.0, m).is_err(), || format!("{} gamma {m:?}", key()), || "unimplemented mode must be refused".into());
                }
                w.trace(1);
            }
        }
    });
}

// ------------------------------------------------------------ caps

/// Normal CDF by composite Gauss-Legendre-free series/continued fraction (independent of the crate).
pub fn ncdf(x: f64) -> f64 {
    if x < 0.0 {
        return 1.0 - ncdf(-x);
    }
    if x > 39.0 {
        return 1.0;
    }
    let phi = (-0.5 * x * x).exp() / (2.0 * std::f64::consts::PI).sqrt();
    if x < 4.0 {
        // series: 1/2 + phi * sum x^(2k+1)/(1*3*5*...)
        let (mut t, mut s, mut k) = (x, x, 1.0);
        while t > 1e-18 * s && k < 400.0 {
            t *= x * x / (2.0 * k + 1.0);
            s += t;
            k += 1.0;
        }
        0.5 + phi * s
    } else {
        1.0 - upper(x)
    }
}
/// Upper normal tail for x >= 0, accurate in relative terms for x >= 4.
pub fn upper(x: f64) -> f64 {
    let phi = (-0.5 * x * x).exp() / (2.0 * std::f64::consts::PI).sqrt();
    if x < 4.0 {
        return 1.0 - ncdf(x);
    }
    let mut f = 0.0;
    for k in (1..=200).rev() {
        f = k as f64 / (x + f);
    }
    phi / (x + f)
}
pub fn npdf(x: f64) -> f64 {
    (-0.5 * x * x).exp() / (2.0 * std::f64::consts::PI).sqrt()
}
/// Undiscounted normal-model option price.
pub fn bach(f: f64, k: f64, v: f64, call: bool) -> f64 {
    let s = if call { 1.0 } else { -1.0 };
    if v <= 0.0 {
        return (s * (f - k)).max(0.0);
    }
    let sd = v.sqrt();
    let d = s * (f - k) / sd;
    sd * npdf(d) + s * (f - k) * ncdf(d)
}

pub type Per = (NaiveDate, NaiveDate, NaiveDate);

fn cap_var(style: CapStyle, sig: f64, val: NaiveDate, p: &Per) -> f64 {
    let (a, b) = (yf365(val, p.0), yf365(val, p.1));
    if b <= 0.0 {
        return 0.0;
    }
    match style {
        CapStyle::ForwardLooking => sig * sig * a.max(0.0),
        CapStyle::BackwardCompounded if a >= 0.0 => sig * sig * (a + (b - a) / 3.0),
        // integral of ((T_e - u)/(T_e - T_s))^2 from t to T_e
        CapStyle::BackwardCompounded => sig * sig * b * b * b / (3.0 * (b - a) * (b - a)),
    }
}

#[allow(clippy::too_many_arguments)]
fn cap_pv(c: &Crv, val: NaiveDate, sched: &[Per], k: f64, kind: CapFloorKind, style: CapStyle, dc: usize, sig: &dyn Fn(NaiveDate) -> f64) -> f64 {
    let d = dcs(dc);
    sched
        .iter()
        .map(|p| {
            let tau = d.year_fraction(p.0, p.1).unwrap();
            let fwd = (c.df(p.0) / c.df(p.1) - 1.0) / tau;
            tau * c.df(p.2) * bach(fwd, k, cap_var(style, sig(p.0), val, p), kind == CapFloorKind::Cap)
        })
        .sum()
}
pub fn cap_sched(val: NaiveDate, start: i64, n: usize, months: u32, t: &Tab) -> Vec<Per> {
    let eff = t.next(add(val, start));
    (0..n)
        .map(|i| {
            let a = advance_model(t, eff, P::Months(months * i as u32), B::ModifiedFollowing, false);
            let b = advance_model(t, eff, P::Months(months * (i as u32 + 1)), B::ModifiedFollowing, false);
            (a, b, t.nth(b, 2))
        })
        .collect()
}
pub fn real_sched(s: &[Per], n: f64) -> Vec<InterestRateSchedulePeriod> {
    s.iter().map(|p| InterestRateSchedulePeriod::new(p.0, p.1, p.2, p.0, n, n)).collect()
}
pub fn mkcap(val: NaiveDate, s: &[Per], k: f64, kind: CapFloorKind, style: CapStyle, dc: usize, dir: Direction, n: f64) -> CapFloor {
    CapFloor {
        basic_info: BasicInfo { trade_date: val, style: Style::IRSwap, direction: dir, expiry_date: s.last().map(|x| x.0).unwrap_or(val), delivery_date: s.last().map(|x| x.2).unwrap_or(val) },
        kind,
        style,
        currency: Currency::USD,
        notional: n,
        strike: k,
        valuation_date: val,
        schedule: real_sched(s, n),
        accrual_day_counter: dcs(dc),
    }
}
/// A surface with a term structure and a smile, and its reference lookup.
pub fn surf(val: NaiveDate, which: usize, bump: f64) -> IRNormalVolSurface {
    let mut v = IRNormalVolSurface::new(val);
    let node = |e: i64, base: f64| CapletVolPillar {
        expiry: add(val, e),
        nodes: match which {
            0 => vec![(0.03, base + bump)],
            1 => vec![(0.01, base + 0.003 + bump), (0.03, base + bump), (0.06, base + 0.002 + bump)],
            _ => vec![(-0.01, base - 0.001 + bump), (0.035, base + bump)],
        },
    };
    v.pillars = match which {
        0 => vec![node(400, 0.008)],
        1 => vec![node(180, 0.007), node(370, 0.009), node(1500, 0.0085)],
        _ => vec![node(30, 0.02), node(200, 0.0004), node(800, 0.011)],
    };
    v
}
fn surf_at(s: &IRNormalVolSurface, e: NaiveDate, k: f64) -> f64 {
    let p = s.pillars.iter().find(|p| e <= p.expiry).unwrap_or(s.pillars.last().unwrap());
    let n = &p.nodes;
    if k <= n[0].0 {
        return n[0].1;
    }
    for i in 1..n.len() {
        if k <= n[i].0 {
            return n[i - 1].1 + (n[i].1 - n[i - 1].1) * (k - n[i - 1].0) / (n[i].0 - n[i - 1].0);
        }
    }
    n[n.len() - 1].1
}

fn r05(run: &Run) {
    let vals = val_days(run);
    let shp = shapes();
    let strikes: &[f64] = run.by(&[-0.04, -0.01, 0.0, 0.01, 0.02, 0.03, 0.035, 0.06, 0.09][..], &[-0.08, -0.03, -0.01, -0.005, 0.0, 0.005, 0.01, 0.015, 0.02, 0.025, 0.03, 0.035, 0.04, 0.05, 0.06, 0.09, 0.2][..]);
    let starts = [0i64, 2, 95, 1100, -40, -400, -800];
    let ns = [1usize, 2, 5, 20, 60, 130, 400];
    run.dim("valuation_dates", vals.len());
    run.dim("curve_shapes", shp.len());
    run.dim("strikes", json!(strikes));
    run.dim("schedule_start_offsets_days", json!(starts));
    run.dim("caplets", json!(ns));
    run.dim("surfaces", 3);
    let t = Tab::new(&Target, ymd(2020, 1, 1), ymd(2064, 1, 1));
    // the variance each style accrues, as a function of both times
    let days: Vec<i64> = (-900..=900).step_by(run.by(30, 6)).chain([-1, 1, 3650, 14600]).collect();
    run.dim("variance_grid_days", days.len());
    run.par(days.len(), |i, w| {
        for &e in &days {
            if e <= days[i] {
                continue;
            }
            for sg in [0.0, 1e-4, 0.008, 0.05, 1.0] {
                let (a, b) = (days[i] as f64 / 365.0, e as f64 / 365.0);
                w.state(1);
                // integral of the squared remaining-average weight from today to the end
                let (f, r) = if b <= 0.0 {
                    (0.0, 0.0)
                } else {
                    let lo = 0f64.max(a);
                    (lo, lo + ((b - lo) / (b - a)).powi(2) * (b - lo) / 3.0)
                };
                let k = |n: &str| format!("variance {n} {} {e} {sg}", days[i]);
                w.close(caplet_total_variance(CapStyle::ForwardLooking, sg, a, b), sg * sg * f, 1e-15, 1e-12, || k("forward-looking"));
                w.close(caplet_total_variance(CapStyle::BackwardCompounded, sg, a, b), sg * sg * r, 1e-15, 1e-12, || k("backward"));
            }
        }
    });
    run.par(vals.len() * shp.len(), |it, w| {
        let val = vals[it / shp.len()];
        let (sn, f) = shp[it % shp.len()];
        let s = curve_of(val, f);
        let c = Crv::of(val, &s);
        for si in 0..3 {
            let mk = |bump: f64| surf(val, si, bump);
            let sf = mk(0.0);
            let cx = IrMarketContext::new(val, Currency::USD, yts(val, s.clone()), Some(mk(0.0)));
            let none = ctx(val, &s, Currency::USD);
            for &st in &starts {
                for &n in &ns {
                    for months in [1u32, 3, 6, 24] {
                        if months == 24 && n > 5 || months == 6 && n > 60 || months == 3 && n > 130 || (months == 1) != (n > 130) || n > 60 && st != 2 {
                            continue;
                        }
                        let sc = cap_sched(val, st, n, months, &t);
                        for &k in strikes {
                            for style in [CapStyle::ForwardLooking, CapStyle::BackwardCompounded] {
                                w.state(1);
                                w.beat(format!("{val} {sn}"));
                                let dc = n % 3;
                                let nn = 1e6;
                                let key = || format!("{val} {sn} surface{si} start={st} n={n}x{months}M k={k} {style:?}");
                                let mut two = [0.0; 2];
                                for (ki, kind) in [CapFloorKind::Cap, CapFloorKind::Floor].into_iter().enumerate() {
                                    let kk = || format!("{} {kind:?}", key());
                                    let sig = |e: NaiveDate| surf_at(&sf, e, k);
                                    let pv = |cr: &Crv, b: f64| nn * cap_pv(cr, val, &sc, k, kind, style, dc, &|e| sig(e) + b * 1e-4);
                                    let base = pv(&c, 0.0);
                                    two[ki] = base;
                                    let cap = mkcap(val, &sc, k, kind, style, dc, Direction::Buy, nn);
                                    let tol = 2e-9 * nn;
                                    let Some(Ok(m)) = w.call(kk, || cap.mtm(&cx)) else {
                                        w.fail(kk(), "no price");
                                        continue;
                                    };
                                    w.close(m.value, base, tol, 1e-9, || format!("{} mtm", kk()));
                                    w.check(m.currency == Currency::USD, || format!("{} currency", kk()), || "wrong".into());
                                    let sell = mkcap(val, &sc, k, kind, style, dc, Direction::Sell, nn);
                                    w.close(sell.mtm(&cx).unwrap().value, -m.value, 1e-9, 0.0, || format!("{} direction", kk()));
                                    w.close(cap.dv01(&cx).unwrap(), pv(&c.shift(1.0), 0.0) - base, tol, 1e-9, || format!("{} dv01", kk()));
                                    let e = if m.value.abs() < 1e-12 { 0.0 } else { -cap.dv01(&cx).unwrap() * 1e4 / m.value };
                                    w.close(cap.modified_duration(&cx).unwrap(), e, 1e-9, 1e-9, || format!("{} modified duration", kk()));
                                    // -3bp keeps every volatility of these surfaces positive
                                    let long = n > 5;
                                    for h in [10.0, 1.0, -3.0, 150.0] {
                                        if long && h != -3.0 {
                                            continue;
                                        }
                                        w.close(
                                            cap.gamma(&cx, h, RateShiftMode::Zeros).unwrap(),
                                            pv(&c.shift(h), 0.0) + pv(&c.shift(-h), 0.0) - 2.0 * base,
                                            tol,
                                            1e-9,
                                            || format!("{} gamma {h}", kk()),
                                        );
                                        w.close(cap.vega(&cx, h).unwrap(), pv(&c, h) - base, tol, 1e-9, || format!("{} vega {h}", kk()));
                                    }
                                    w.check(cap.mtm(&none).is_err() && cap.dv01(&none).is_err() && cap.vega(&none, 1.0).is_err(), || format!("{} no surface", kk()), || "must be refused".into());
                                    w.check(cap.gamma(&cx, 1.0, RateShiftMode::Swaps).is_err(), || format!("{} mode", kk()), || "must be refused".into());
                                }
                                // parity: cap - floor = strip of swaplets
                                let d = dcs(dc);
                                let sl: f64 = sc
                                    .iter()
                                    .map(|p| {
                                        let tau = d.year_fraction(p.0, p.1).unwrap();
                                        nn * tau * c.df(p.2) * ((c.df(p.0) / c.df(p.1) - 1.0) / tau - k)
                                    })
                                    .sum();
                                w.close(two[0] - two[1], sl, 1e-9 * nn, 0.0, || format!("{} parity", key()));
                                w.trace(2);
                            }
                        }
                    }
                }
            }
        }
    });
}

fn r06(run: &Run) {
    let t = Tab::new(&Target, ymd(2023, 1, 1), ymd(2060, 1, 1));
    let shp = shapes();
    let small = run.by(vec![4usize, 8, 12], vec![2usize, 4, 8, 12]);
    // valuation date, accrual day count, months per period, strikes, maturities in periods
    let vars: Vec<(NaiveDate, usize, u32, Vec<f64>, Vec<usize>)> = vec![
        (ymd(2024, 4, 22), 0, 3, vec![0.02, 0.03, 0.045], small.clone()),
        (ymd(2024, 2, 28), 1, 6, vec![0.02, 0.03, 0.045], small.clone()),
        (ymd(2023, 12, 29), 2, 3, vec![-0.005, 0.03, 0.03005], small),
        (ymd(2024, 4, 22), 0, 6, vec![-0.01, 0.0, 0.01, 0.02, 0.03, 0.04, 0.05, 0.07], vec![2, 4, 6, 8, 10, 14, 20, 40]),
        (ymd(2024, 4, 22), 2, 3, (0..21).map(|k| -0.01 + 0.005 * k as f64).collect(), vec![3, 7, 12]),
    ];
    run.dim("curve_shapes", shp.len());
    run.dim("quote_grids", "21 strikes x 3 maturities whole and without each cell; every non-empty subset of 3 strikes x 3 (thorough 4) maturities in three settings; 8 strikes x 8 maturities whole, without each cell, each row, each column, and as checkerboards");
    run.dim("quote_orders", 2);
    run.dim("volatility_levels", json!([0.2, 1.0, 8.0]));
    run.dim("styles_kinds", "2 styles x cap/floor/mixed");
    let mut items: Vec<(usize, u64)> = vec![];
    for (v, x) in vars.iter().enumerate() {
        let cells = x.3.len() * x.4.len();
        if cells <= 12 {
            items.extend((1u64..1 << cells).map(|m| (v, m)));
        } else if cells < 64 {
            let full = (1u64 << cells) - 1;
            items.push((v, full));
            items.extend((0..cells).map(|c| (v, full & !(1 << c))));
        } else {
            let full = u64::MAX;
            items.push((v, full));
            items.extend((0..64).map(|c| (v, full & !(1 << c))));
            items.extend((0..8).map(|c| (v, full & !(0xffu64 << (8 * c)))));
            items.extend((0..8).map(|c| (v, full & !(0x0101010101010101u64 << c))));
            items.extend([(v, 0xaa55aa55aa55aa55), (v, 0x55aa55aa55aa55aa), (v, 0x8040201008040201), (v, 0xff818181818181ff)]);
        }
    }
    run.par(items.len(), |mi, w| {
        let (vi, mask) = items[mi];
        let (val, dc, months, strikes, mats) = &vars[vi];
        let (val, dc, months) = (*val, *dc, *months);
        let cells = strikes.len() * mats.len();
        for (fi, (sn, f)) in shp.iter().enumerate() {
            if (!run.thorough() || vi >= 3) && (mask as usize % 1009 + fi + mi) % shp.len() != 0 && mask.count_ones() as usize != cells {
                continue;
            }
            let s = curve_of(val, *f);
            let c = Crv::of(val, &s);
            // quiet, ordinary and wild markets
            let scale = [1.0, 8.0, 0.2, 1.0][(mi + fi) % 4];
            for style in [CapStyle::ForwardLooking, CapStyle::BackwardCompounded] {
                for kinds in 0..3usize {
                    for rev in [false, true] {
                        let key = || format!("setting {vi} {sn} {style:?} kinds={kinds} grid={mask:0cells$b} rev={rev}");
                        w.state(1);
                        w.beat(key());
                        // true vol per strike column, constant between that column's own maturities
                        let mut cols: Vec<(f64, Vec<(NaiveDate, f64)>)> = vec![];
                        let mut quotes = vec![];
                        let mut blind: Vec<f64> = vec![];
                        for (ki, &k) in strikes.iter().enumerate() {
                            let mut col = vec![];
                            for (m, &n) in mats.iter().enumerate() {
                                if mask >> (ki * mats.len() + m) & 1 == 0 {
                                    continue;
                                }
                                let sc = cap_sched(val, 2, n, months, &t);
                                let sig = ((0.007 + 0.0012 * m as f64 - 0.0009 * (ki % 6) as f64 + 0.0004 * ((m * 2 + ki) % 3) as f64) * scale).min(0.096);
                                col.push((sc.last().unwrap().0, sig));
                                let kind = match kinds {
                                    0 => CapFloorKind::Cap,
                                    1 => CapFloorKind::Floor,
                                    _ if (m + ki) % 2 == 0 => CapFloorKind::Cap,
                                    _ => CapFloorKind::Floor,
                                };
                                let cc = col.clone();
                                let look = move |e: NaiveDate| cc.iter().find(|x| e <= x.0).unwrap_or(cc.last().unwrap()).1;
                                let nn = [1e6, 5e5, 2e6, -7e5][(m + 2 * ki + mi) % 4];
                                let dir = if (m + ki) % 2 == 1 { Direction::Sell } else { Direction::Buy };
                                let sgn = if (m + ki) % 2 == 1 { -1.0 } else { 1.0 };
                                let pv = sgn * nn * cap_pv(&c, val, &sc, k, kind, style, dc, &look);
                                let up = nn * cap_pv(&c, val, &sc[sc.len() - 1..].to_vec(), k, kind, style, dc, &|e| look(e) + 1e-4);
                                let dn = nn * cap_pv(&c, val, &sc[sc.len() - 1..].to_vec(), k, kind, style, dc, &look);
                                if (up - dn) / nn < 0.5e-6 {
                                    blind.push(k);
                                }
                                quotes.push((sc, k, kind, dir, pv, nn));
                            }
                            if !col.is_empty() {
                                cols.push((k, col));
                            }
                        }
                        let good = quotes.len();
                        // the same cap quoted twice, from the other side
                        if (mi + fi) % 5 == 2 {
                            let (sc, k, kind, dir, pv, nn) = &quotes[quotes.len() / 2];
                            let other = if matches!(dir, Direction::Buy) { Direction::Sell } else { Direction::Buy };
                            let dup = (sc.clone(), *k, if matches!(kind, CapFloorKind::Cap) { CapFloorKind::Cap } else { CapFloorKind::Floor }, other, -pv / 2.0, nn / 2.0);
                            quotes.push(dup);
                        }
                        if rev {
                            quotes.reverse();
                        }
                        let md = IRCapMarketData::new(
                            val,
                            quotes
                                .iter()
                                .map(|q| CapQuote {
                                    strike: q.1,
                                    notional: q.5,
                                    direction: q.3,
                                    kind: q.2,
                                    style,
                                    currency: Currency::USD,
                                    schedule: real_sched(&q.0, q.5),
                                    accrual_day_counter: dcs(dc),
                                    market_npv: q.4,
                                })
                                .collect(),
                        );
                        let y = yts(val, s.clone());
                        let mut v = IRNormalVolSurface::new(add(val, -1));
                        let Some(r) = w.call(key, || v.rebuild(&y, &md)) else { continue };
                        if r.is_err() && !blind.is_empty() {
                            continue; // a premium without time value cannot be stripped
                        }
                        if !w.check(r.is_ok(), key, || format!("stripping failed: {r:?}")) {
                            continue;
                        }
                        w.trace(1);
                        w.check(v.valuation_date == val, || format!("{} valuation date", key()), || "not updated".into());
                        // surface recovers every column everywhere on its own strikes
                        for (k, col) in &cols {
                            // a premium that hardly moves with the vol does not pin it down
                            if blind.contains(k) {
                                continue;
                            }
                            for e in 0..12i64 {
                                let d = add(val, 2 + 91 * e);
                                let want = col.iter().find(|x| d <= x.0).unwrap_or(col.last().unwrap()).1;
                                let got = v.caplet_volatility(d, *k).unwrap_or(f64::NAN);
                                w.close(got, want, 2e-8, 0.0, || format!("{} vol at {d} strike {k}", key()));
                            }
                        }
                        // every quote reprices through a cap on the surface
                        let cx = IrMarketContext::new(val, Currency::USD, yts(val, s.clone()), Some(v));
                        for q in &quotes {
                            let cap = mkcap(val, &q.0, q.1, q.2, style, dc, q.3, q.5);
                            let got = cap.mtm(&cx).map(|x| x.value).unwrap_or(f64::NAN);
                            w.close(got, q.4, 0.02, 1e-9, || format!("{} reprice strike {} n={}", key(), q.1, q.0.len()));
                        }
                        // an impossible premium is refused and leaves the surface as it was
                        if !rev && kinds == 0 {
                            let mut v = surf(val, 1, 0.0);
                            let before = format!("{v:?}");
                            // alone, and last or first among the good quotes
                            for (place, keep) in [(0, 0), (1, good), (0, good)] {
                                let mut bad = IRCapMarketData::new(add(val, 1), vec![]);
                                let at = |i: usize| (i + 1 == keep.max(1) && place == 1) || (i == 0 && place == 0);
                                for (i, q) in quotes.iter().enumerate().take(keep.max(1)) {
                                    bad.cap_quotes.push(CapQuote {
                                        strike: q.1,
                                        notional: q.5,
                                        direction: q.3,
                                        kind: q.2,
                                        style,
                                        currency: Currency::USD,
                                        schedule: real_sched(&q.0, q.5),
                                        accrual_day_counter: dcs(dc),
                                        market_npv: if at(i) { -1e7 * q.5.signum() * if matches!(q.3, Direction::Buy) { 1.0 } else { -1.0 } } else { q.4 },
                                    });
                                }
                                let r = v.rebuild(&y, &bad);
                                w.check(r.is_err() && format!("{v:?}") == before, || format!("{} impossible premium {place} of {keep}", key()), || format!("{r:?}, surface {v:?}"));
                            }
                        }
                    }
                }
            }
        }
    });
    // lookup: piecewise flat in expiry, linear in strike, flat outside
    let val = ymd(2024, 4, 22);
    run.par(3, |si, w| {
        let v = surf(val, si, 0.0);
        for e in -5i64..1700 {
            for k in -20i64..=80 {
                let (d, k) = (add(val, e), k as f64 * 0.00125);
                w.state(1);
                w.close(v.caplet_volatility(d, k).unwrap_or(f64::NAN), surf_at(&v, d, k), 1e-15, 1e-12, || format!("surface{si} {d} {k}"));
            }
        }
        w.trace(1);
        let e = IRNormalVolSurface::new(val);
        w.check(e.caplet_volatility(val, 0.03).is_err(), || "unstripped surface".into(), || "must be an error".into());
        let mut e = surf(val, si, 0.0);
        for p in &mut e.pillars {
            p.nodes.clear();
        }
        for x in [-400, 0, 100, 5000] {
            w.check(w_err(&e, add(val, x)), || "pillar without nodes".into(), || "must be an error".into());
        }
        // a quote without caplets is refused, alone or among good ones
        let s = curve_of(val, |_| 0.03);
        let t = Tab::new(&Target, ymd(2023, 1, 1), ymd(2060, 1, 1));
        let sc = cap_sched(val, 2, 6, 3, &t);
        let q = |sch: Vec<InterestRateSchedulePeriod>| CapQuote { strike: 0.03, notional: 1e6, direction: Direction::Buy, kind: CapFloorKind::Cap, style: CapStyle::ForwardLooking, currency: Currency::USD, schedule: sch, accrual_day_counter: dcs(0), market_npv: 5000.0 };
        let y = yts(val, s);
        for empty_at in 0..3 {
            let md = IRCapMarketData::new(val, (0..=empty_at).map(|i| q(if i == empty_at { vec![] } else { real_sched(&sc, 1e6) })).collect());
            let mut v = surf(val, si, 0.0);
            let before = format!("{v:?}");
            let r = v.rebuild(&y, &md);
            w.check(r.is_err() && format!("{v:?}") == before, || format!("quote {empty_at} without caplets"), || format!("{r:?}"));
        }
    });
}

fn w_err(v: &IRNormalVolSurface, d: NaiveDate) -> bool {
    v.caplet_volatility(d, 0.03).is_err()
}

// ------------------------------------------------------------ R07

fn r07(run: &Run) {
    let mut periods: Vec<P> = (1..=10).map(P::Days).collect();
    periods.extend((1..=8).map(P::Weeks));
    periods.extend((1..=24).map(P::Months));
    periods.extend((1..=5).map(P::Years));
    periods.extend([P::ON, P::TN, P::SN, P::SPOT]);
    type Row = (String, IE, P, i64, Currency, &'static str, B, bool);
    let mut rows: Vec<Row> = vec![];
    for (n, e, c, cal, a365) in [
        ("AONIA", IE::AONIA, Currency::AUD, "Australia/Settlement", true),
        ("EONIA", IE::EONIA, Currency::EUR, "Target", false),
        ("ESTR", IE::ESTR, Currency::EUR, "Target", false),
        ("SONIA", IE::SONIA, Currency::GBP, "UnitedKingdom/Exchange", true),
        ("SOFR", IE::SOFR, Currency::USD, "UnitedStates/SOFR", false),
    ] {
        rows.push((n.into(), e, P::SPOT, 0, c, cal, B::ModifiedFollowing, a365));
    }
    for &p in &periods {
        rows.push((format!("CDOR {p:?}"), IE::CDOR(p), p, 0, Currency::CAD, "Canada/Settlement", B::ModifiedFollowing, false));
        let short = matches!(p, P::Days(_) | P::Weeks(_));
        rows.push((format!("EURIBOR {p:?}"), IE::EUIBOR(p), p, 2, Currency::EUR, "Target", if short { B::Following } else { B::ModifiedFollowing }, false));
    }
    run.dim("indices", rows.len());
    let defs = cals::all();
    let (a, b) = (ymd(1950, 1, 1), ymd(2150, 12, 31));
    run.dim("calendar_days_compared", json!({"from": a.to_string(), "to": b.to_string()}));
    let rows = std::sync::Mutex::new(rows.into_iter().map(Some).collect::<Vec<_>>());
    let n = rows.lock().unwrap().len();
    run.par(n, |i, w| {
        let (name, e, p, sd, ccy, cal, conv, a365) = rows.lock().unwrap()[i].take().unwrap();
        w.state(1);
        let Some(ix) = InterestRateIndex::from_enum(e) else {
            w.fail(name, "no index");
            return;
        };
        w.check(
            ix.period == p && ix.settlement_days == sd && ix.currency == ccy && format!("{:?}", ix.convention) == format!("{conv:?}") && !ix.end_of_month,
            || name.clone(),
            || format!("{:?} {} {:?} {:?} {}", ix.period, ix.settlement_days, ix.currency, ix.convention, ix.end_of_month),
        );
        let c = (defs.iter().find(|d| d.name == cal).unwrap_or_else(|| panic!("no calendar {cal}")).make)();
        let mut d = a;
        while d <= b {
            w.check(ix.calendar.is_business_day(d) == c.is_business_day(d), || format!("{name} calendar {d}"), || format!("not the {cal} calendar"));
            d = add(d, 1);
        }
        for k in 1..400 {
            let (x, y) = (ymd(2024, 1, 1), add(ymd(2024, 1, 1), k));
            w.close(ix.day_counter.year_fraction(x, y).unwrap(), k as f64 / if a365 { 365.0 } else { 360.0 }, 1e-14, 1e-13, || format!("{name} day counter {k}"));
        }
        w.trace(1);
    });
    // market context built from raw quotes behaves as its parts
    let vals = val_days(run);
    run.par(vals.len(), |vi, w| {
        let val = vals[vi];
        let t = Tab::new(&Target, ymd(2022, 1, 1), ymd(2036, 1, 1));
        for (sn, f) in shapes() {
            let mk = || {
                let cash = [P::Months(1), P::Months(6)].iter().map(|&p| OISRate { value: f(0.3), interest_rate_index: InterestRateIndex::from_enum(IE::EUIBOR(p)).unwrap() }).collect();
                let sw = [2u32, 5]
                    .iter()
                    .map(|&n| {
                        let a = LegDef::std(LT::Fix(f(n as f64)), true, || Frequency::Annual, P::Years(1), P::Years(n));
                        let b = LegDef::std(LT::Flt(0.0), false, || Frequency::Semiannual, P::Months(6), P::Years(n));
                        InterestRateSwap::new(vec![a.leg(vec![]), b.leg(vec![])])
                    })
                    .collect();
                YieldTermMarketData::new(val, cash, vec![], sw)
            };
            let sc = cap_sched(val, 2, 8, 3, &t);
            let strip = mk().get_stripped_curve().unwrap();
            let c = Crv::of(val, &strip);
            // near the money on every curve, where the premium pins the volatility
            let strike = f(1.0);
            let npv = 1e6 * cap_pv(&c, val, &sc, strike, CapFloorKind::Cap, CapStyle::ForwardLooking, 0, &|_| 0.0085);
            let cm = || {
                IRCapMarketData::new(
                    val,
                    vec![CapQuote { strike, notional: 1e6, direction: Direction::Buy, kind: CapFloorKind::Cap, style: CapStyle::ForwardLooking, currency: Currency::EUR, schedule: real_sched(&sc, 1e6), accrual_day_counter: dcs(0), market_npv: npv }],
                )
            };
            for with in [true, false] {
                let key = || format!("{val} {sn} caps={with}");
                w.state(1);
                let Some(Ok(cx)) = w.call(key, || IrMarketContext::from_raw_quotes(val, Currency::EUR, mk(), with.then(cm), Box::new(Target), Box::<Actual365Fixed>::default())) else {
                    w.fail(key(), "no context");
                    continue;
                };
                w.check(cx.valuation_date == val && cx.currency == Currency::EUR && cx.curve.valuation_date == val && cx.curve.stripped_curves == strip && cx.cap_surface.is_some() == with, key, || "context parts".into());
                for n in 0..500i64 {
                    let d = add(val, n * 8);
                    w.close(cx.rate(d).unwrap(), c.zero(d), 1e-15, 1e-12, || format!("{} rate {d}", key()));
                    w.close(cx.discount(d).unwrap(), c.df(d), 1e-15, 1e-12, || format!("{} discount {d}", key()));
                    let v = cx.caplet_vol(d, strike);
                    if with {
                        w.close(v.unwrap_or(f64::NAN), 0.0085, 1e-7, 0.0, || format!("{} vol {d}", key()));
                    } else {
                        w.check(v.is_err(), || format!("{} vol {d}", key()), || "no surface: must be refused".into());
                    }
                }
                w.trace(1);
            }
        }
    });
}

// ------------------------------------------------------------ R08

fn r08(run: &Run) {
    let (a, b) = (1990, 2090);
    run.dim("start_days", json!({"from": a, "to": b}));
    let periods = [P::Months(1), P::Months(3), P::Months(6), P::Weeks(13), P::Days(64)];
    run.dim("periods", periods.len());
    let t = Tab::new(&Target, ymd(a - 1, 1, 1), ymd(b + 3, 1, 1));
    run.par((b - a) as usize, |yi, w| {
        let y = a + yi as i32;
        let mut d = ymd(y, 1, 1);
        while d.year() == y {
            w.state(1);
            for p in periods {
                let adv = advance_model(&t, d, p, B::ModifiedFollowing, false);
                // next third Wednesday of any month, strictly after the first of the month reached
                let want = crate::props::dates::third_wed(adv.year(), adv.month());
                let key = || format!("{d} {p:?}");
                let Some(got) = w.call(key, || InterestRateFutures::new(p).maturity_date(d)) else { continue };
                w.check(got.as_ref().ok() == Some(&want), key, || format!("matures {got:?}, expected {want}"));
            }
            w.trace(1);
            d = add(d, 1);
        }
    });
    // prices, adjustments and codes
    let refs: Vec<NaiveDate> = (0..400).map(|i| add(ymd(2019, 1, 1), i * 37)).collect();
    run.dim("reference_dates", refs.len());
    run.par(refs.len(), |i, w| {
        let val = refs[i];
        for m in 1..=12u32 {
            for digit in 0..10 {
                let code = format!("{}{digit}", IMM_CODES[m as usize - 1]);
                let key = || format!("{val} {code}");
                w.state(1);
                // the year in the decade whose IMM date is not before the valuation date
                let mut y = val.year() / 10 * 10 + digit;
                if crate::props::dates::third_wed(y, m) < val {
                    y += 10;
                }
                let want = crate::props::dates::third_wed(y, m);
                for (price, adj) in [(96.5, 0.0), (100.25, -0.1), (94.0, 0.25), (100.0, 0.0)] {
                    let fr = FuturesRate { value: price, imm_code: code.clone(), convexity_adjustment: adj, futures_spec: InterestRateFutures::new(P::Months(3)), interest_rate_index: InterestRateIndex::from_enum(IE::EUIBOR(P::Months(3))).unwrap() };
                    w.close(fr.implied_quote(), (100.0 - price + adj) / 100.0, 1e-15, 1e-12, || format!("{} quote", key()));
                    let Some(s) = w.call(key, || fr.settle_date(val)) else { continue };
                    w.check(s.ok() == Some(want), key, || format!("settles elsewhere than {want}"));
                    let adv = crate::props::dates::add_months(want, 3);
                    let mat = crate::props::dates::third_wed(adv.year(), adv.month());
                    w.check(fr.maturity_date(val).ok() == Some(mat), || format!("{} maturity", key()), || format!("{:?} expected {mat}", fr.maturity_date(val)));
                }
                w.trace(1);
            }
        }
        let _ = IMM;
    });
}
