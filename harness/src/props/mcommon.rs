//! Shared pricing and simulation machinery: closed-form prices, normal law, optimiser,
//! date-driven simulation, COS pricing, square-root process, Hull-White.
use super::daycount::counters;
use super::forex::{bs, ninv};
use super::rates::{bach, ncdf, npdf, upper};
use crate::fw::{Run, Worker, close};
use crate::props::Prop;
use crate::refcal::{add, ymd};
use chrono::NaiveDate;
use finquant::math::normal;
use finquant::math::optimize::{NelderMeadOptions, nelder_mead};
use finquant::models::common::bachelier::{bachelier_call, bachelier_put, bachelier_vega_variance};
use finquant::models::common::black_scholes::{bs_call_forward, bs_implied_vol, bs_implied_vol_tol, bs_put_forward};
use finquant::models::common::cir::{CirProcess, CirSimulator};
use finquant::models::common::cos_pricer::{CosPricer, ForwardChf};
use finquant::models::common::simulation::{BrownianMotion, GeometricBrownianMotion, SimulationModel, simulate_at_dates};
use finquant::models::interestrate::hull_white::{HullWhite1F, HullWhiteSimulator};
use finquant::time::daycounters::DayCounters;
use finquant::time::daycounters::actual365fixed::Actual365Fixed;
use num_complex::Complex64 as C64;
use serde_json::json;
use std::cell::RefCell;

pub const PROPS: &[Prop] = &[("M01", m01), ("M02", m02), ("M03", m03), ("M04", m04), ("M05", m05), ("M06", m06), ("M07", m07)];

// ------------------------------------------------------------ numerical helpers

/// composite Simpson with n (even) panels
pub fn simpson(f: impl Fn(f64) -> f64, a: f64, b: f64, n: usize) -> f64 {
    if a == b {
        return 0.0;
    }
    let n = n + n % 2;
    let h = (b - a) / n as f64;
    let mut s = f(a) + f(b);
    for i in 1..n {
        s += f(a + h * i as f64) * if i % 2 == 1 { 4.0 } else { 2.0 };
    }
    s * h / 3.0
}
/// classical RK4 for a complex vector ODE y' = g(t, y)
pub fn rk4<const N: usize>(mut y: [C64; N], a: f64, b: f64, n: usize, g: impl Fn(f64, &[C64; N]) -> [C64; N]) -> [C64; N] {
    let h = (b - a) / n as f64;
    let ax = |y: &[C64; N], k: &[C64; N], c: f64| {
        let mut o = *y;
        for i in 0..N {
            o[i] += k[i] * c;
        }
        o
    };
    for s in 0..n {
        let t = a + h * s as f64;
        let k1 = g(t, &y);
        let k2 = g(t + 0.5 * h, &ax(&y, &k1, 0.5 * h));
        let k3 = g(t + 0.5 * h, &ax(&y, &k2, 0.5 * h));
        let k4 = g(t + h, &ax(&y, &k3, h));
        for i in 0..N {
            y[i] += (k1[i] + 2.0 * k2[i] + 2.0 * k3[i] + k4[i]) * (h / 6.0);
        }
    }
    y
}

// ------------------------------------------------------------ M01

fn m01(run: &Run) {
    let fs: &[f64] = &[0.00715, 0.5, 1.0, 1.1, 151.3, 25000.0, 1e6];
    let mut ks = vec![1.0, 0.9999, 1.0001, 0.01, 0.05, 0.12, 8.0, 20.0, 100.0];
    let n = run.by(24, 160);
    for i in 0..=n {
        ks.push((0.25f64.ln() + (4.0f64 / 0.25).ln() * i as f64 / n as f64).exp());
    }
    let sg: &[f64] = &[0.0, 1e-4, 0.001, 0.01, 0.03, 0.08, 0.13, 0.2, 0.35, 0.6, 1.0, 1.5, 2.5, 3.5, 4.0, 4.9];
    let ts: &[f64] = run.by(&[0.0, 1.0 / 365.0, 7.0 / 365.0, 0.1, 0.25, 1.0, 2.7, 10.0, 30.0, 60.0][..], &[0.0, 0.1 / 365.0, 1.0 / 365.0, 2.0 / 365.0, 7.0 / 365.0, 0.05, 0.1, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0, 2.7, 5.0, 7.0, 10.0, 15.0, 20.0, 30.0, 50.0, 60.0][..]);
    let ds: &[f64] = &[1.0, 0.97, 0.4, 1.02];
    let tols: &[f64] = &[1e-6, 1e-8, 1e-11];
    run.dim("forwards", json!(fs));
    run.dim("strike_ratios", ks.len());
    run.dim("vols", json!(sg));
    run.dim("times", json!(ts));
    run.dim("discounts", json!(ds));
    run.dim("tolerances", json!(tols));
    run.par(fs.len() * ks.len(), |i, w| {
        let (f, k) = (fs[i / ks.len()], fs[i / ks.len()] * ks[i % ks.len()]);
        let sc = f.max(k);
        for &t in ts {
            for &d in ds {
                let mut prev = (f64::NEG_INFINITY, f64::NEG_INFINITY);
                for &s in sg {
                    w.state(1);
                    let key = |what: &str| format!("{what}: F={f} K={k} t={t} D={d} sigma={s}");
                    let Some((c, p)) = w.call(|| key("price"), || (bs_call_forward(f, k, s, t, d), bs_put_forward(f, k, s, t, d))) else { continue };
                    let v = if t > 0.0 { s * s * t } else { 0.0 };
                    w.close(c, bs(f, k, v, d, 1.0), 5e-11 * sc, 1e-9, || key("call against the reference price"));
                    w.close(p, bs(f, k, v, d, -1.0), 5e-11 * sc, 1e-9, || key("put against the reference price"));
                    w.close(c - p, d * (f - k), 1e-12 * sc, 0.0, || key("put-call parity"));
                    let e = 1e-12 * sc;
                    w.check(c >= d * (f - k).max(0.0) - e && c <= d * f + e, || key("call bounds"), || format!("{c}"));
                    w.check(p >= d * (k - f).max(0.0) - e && p <= d * k + e, || key("put bounds"), || format!("{p}"));
                    w.check(c >= prev.0 - e && p >= prev.1 - e, || key("increasing in volatility"), || format!("{c} {p} after {prev:?}"));
                    prev = (c, p);
                    // normal model: volatility in absolute terms
                    let nv = v * f * f;
                    let (bc, bp) = (bachelier_call(f, k, nv), bachelier_put(f, k, nv));
                    w.close(bc, bach(f, k, nv, true), 5e-11 * sc, 1e-9, || key("normal-model call"));
                    w.close(bp, bach(f, k, nv, false), 5e-11 * sc, 1e-9, || key("normal-model put"));
                    // rates can be negative: the normal model is translation invariant
                    for sh in [-1.5 * f, -f] {
                        w.close(bachelier_call(f + sh, k + sh, nv), bach(f, k, nv, true), 5e-11 * sc, 1e-9, || key("normal-model call, shifted"));
                        w.close(bachelier_put(f + sh, k + sh, nv), bach(f, k, nv, false), 5e-11 * sc, 1e-9, || key("normal-model put, shifted"));
                    }
                    let vg = if nv > 0.0 { npdf((f - k) / nv.sqrt()) / (2.0 * nv.sqrt()) } else { 0.0 };
                    w.close(bachelier_vega_variance(f, k, nv), vg, 1e-300, 1e-9, || key("normal-model sensitivity to variance"));
                    w.trace(3);
                    // implied volatility
                    if t > 0.0 {
                        for call in [true, false] {
                            let om = if call { 1.0 } else { -1.0 };
                            let target = if call { c } else { p };
                            let (lo, hi) = (bs(f, k, 1e-16 * t, d, om), bs(f, k, 25.0 * t, d, om));
                            for (ti, &tol) in tols.iter().enumerate() {
                                for miss in [0.0, -0.3 * sc, 1.3 * sc] {
                                    let tg = target + miss;
                                    let kk = |w: &str| format!("{w}: F={f} K={k} t={t} D={d} target={tg} call={call} tol={tol}");
                                    let r = w.call(|| kk("implied volatility"), || bs_implied_vol_tol(tg, f, k, t, d, call, tol));
                                    if ti == 1 {
                                        let q = w.call(|| kk("implied volatility"), || bs_implied_vol(tg, f, k, t, d, call));
                                        w.check(q.map(|v| v.is_some()) == r.map(|v| v.is_some()), || kk("implied volatility with the default tolerance"), || format!("{q:?} against {r:?}"));
                                        if let Some(Some(v)) = q {
                                            w.close(bs(f, k, v * v * t, d, om), tg, tol + 1e-10 * sc, 0.0, || kk("default-tolerance volatility reprices the premium"));
                                        }
                                    }
                                    match r {
                                        Some(Some(v)) => {
                                            w.check((0.0..=5.0 + 1e-9).contains(&v), || kk("implied volatility range"), || format!("{v}"));
                                            w.check(tg >= lo - tol - 1e-11 * sc && tg <= hi + tol + 1e-11 * sc, || kk("premium no volatility reaches"), || format!("{v}"));
                                            w.close(bs(f, k, v * v * t, d, om), tg, tol + 1e-10 * sc, 0.0, || kk("implied volatility reprices the premium"));
                                        }
                                        Some(None) => {
                                            w.check(tg < lo + 1e-11 * sc || tg > hi - 1e-11 * sc, || kk("a reachable premium has a volatility"), || format!("none, range {lo}..{hi}"));
                                        }
                                        None => {}
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    });
}

// ------------------------------------------------------------ M02

fn m02(run: &Run) {
    let n = run.by(1_000_000i64, 20_000_000);
    run.dim("arguments", 2 * n + 1);
    run.dim("range", "[-37, 37] for the density and distribution; probabilities 1e-300 .. 1 - 1e-14");
    let blk = 1000;
    run.par((2 * n / blk) as usize + 1, |b, w| {
        let mut prev = -1.0;
        for j in 0..=blk {
            let i = b as i64 * blk + j - n;
            if i > n {
                break;
            }
            let x = 37.0 * i as f64 / n as f64;
            w.state(1);
            let c = normal::cdf(x);
            let e = if x < 0.0 { upper(-x) } else { ncdf(x) };
            w.close(c, e, if x < -4.0 { 0.0 } else { 1e-13 }, 1e-9, || format!("distribution at {x}"));
            w.close(c + normal::cdf(-x), 1.0, 1e-13, 0.0, || format!("symmetry at {x}"));
            w.close(normal::pdf(x), npdf(x), 0.0, 1e-10, || format!("density at {x}"));
            w.check(c >= prev - 1e-15, || format!("monotone at {x}"), || format!("{prev} then {c}"));
            prev = c;
            if c > 1e-300 && c < 1.0 - 1e-14 {
                let Some(q) = w.call(|| format!("quantile of {c}"), || normal::inverse_cdf(c)) else { continue };
                // near 1 the probability itself only resolves the tail to its rounding
                let slack = if x < -4.0 { 0.0 } else { 4.0 * f64::EPSILON / npdf(x) };
                w.close(q, x, 1e-8 + slack, 0.0, || format!("quantile of the distribution at {x}"));
                w.trace(1);
            }
        }
    });
    // probabilities, decades from both ends, against bisection on the reference distribution
    run.par(301 * 18, |i, w| {
        let p = (1 + i % 18) as f64 * 0.05 * 10f64.powi(-((i / 18) as i32));
        for q in [p, 1.0 - p] {
            if q <= 0.0 || q >= 1.0 || 1.0 - q < 1e-9 {
                continue;
            }
            w.state(1);
            let x = if q < 1e-4 {
                // the reference keeps its relative accuracy in the upper tail only
                let (mut a, mut b) = (0.0, 40.0);
                for _ in 0..200 {
                    let m = 0.5 * (a + b);
                    if upper(m) > q { a = m } else { b = m }
                }
                -0.5 * (a + b)
            } else {
                ninv(q)
            };
            if let Some(g) = w.call(|| format!("quantile of {q}"), || normal::inverse_cdf(q)) {
                w.close(g, x, 1e-8 + if q < 1e-4 { 0.0 } else { 4.0 * f64::EPSILON / npdf(x) }, 0.0, || format!("quantile of {q}"));
                w.trace(1);
            }
        }
    });
    run.seq(|w| {
        for p in [0.0, 1.0, -0.1, 1.1, f64::NAN] {
            w.state(1);
            w.check(crate::fw::guard(|| normal::inverse_cdf(p)).is_err(), || format!("probability {p} refused"), || "accepted".into());
        }
    });
}

// ------------------------------------------------------------ M03

/// Reference downhill simplex; `f` returns None when a point was never asked of the real code.
struct RefMin {
    x: Vec<f64>,
    f: f64,
    it: usize,
    conv: bool,
    seen: Vec<Vec<f64>>,
}
fn ref_nm(mut f: impl FnMut(&[f64]) -> Option<f64>, x0: &[f64], o: &NelderMeadOptions) -> Option<RefMin> {
    let n = x0.len();
    let mut seen: Vec<Vec<f64>> = vec![];
    let mut ev = |x: &[f64]| {
        seen.push(x.to_vec());
        f(x)
    };
    let mut s: Vec<(Vec<f64>, f64)> = vec![];
    s.push((x0.to_vec(), ev(x0)?));
    for i in 0..n {
        let mut v = x0.to_vec();
        v[i] += if v[i].abs() > 1e-12 { o.step_frac * v[i].abs() } else { o.step_frac.max(1e-4) };
        let y = ev(&v)?;
        s.push((v, y));
    }
    let (mut it, mut conv) = (0, false);
    while it < o.max_iter {
        it += 1;
        s.sort_by(|a, b| a.1.partial_cmp(&b.1).unwrap());
        let fs = s[n].1 - s[0].1;
        let xs = (0..n)
            .map(|i| s.iter().map(|v| v.0[i]).fold(f64::MIN, f64::max) - s.iter().map(|v| v.0[i]).fold(f64::MAX, f64::min))
            .fold(0.0, f64::max);
        if fs < o.ftol && xs < o.xtol {
            conv = true;
            break;
        }
        let m: Vec<f64> = (0..n).map(|i| s[..n].iter().map(|v| v.0[i]).sum::<f64>() / n as f64).collect();
        let at = |c: f64, s: &Vec<(Vec<f64>, f64)>| -> Vec<f64> { (0..n).map(|i| m[i] + c * (s[n].0[i] - m[i])).collect() };
        let r = at(-1.0, &s);
        let fr = ev(&r)?;
        if fr < s[0].1 {
            let e = at(-2.0, &s);
            let fe = ev(&e)?;
            s[n] = if fe < fr { (e, fe) } else { (r, fr) };
        } else if fr < s[n - 1].1 {
            s[n] = (r, fr);
        } else {
            let c = at(0.5, &s);
            let fc = ev(&c)?;
            if fc < s[n].1 {
                s[n] = (c, fc);
            } else {
                for j in 1..=n {
                    let v: Vec<f64> = (0..n).map(|i| 0.5 * (s[0].0[i] + s[j].0[i])).collect();
                    let y = ev(&v)?;
                    s[j] = (v, y);
                }
            }
        }
    }
    let b = s.iter().min_by(|a, b| a.1.partial_cmp(&b.1).unwrap())?.clone();
    Some(RefMin { x: b.0, f: b.1, it, conv, seen })
}
fn near(a: &[f64], b: &[f64]) -> bool {
    a.iter().zip(b).all(|(x, y)| (x - y).abs() <= 1e-9 * (1.0 + x.abs()))
}

/// Runs the real optimiser against an objective whose answers are chosen move by move: the k-th new
/// point's value takes rank `hist[k]` among the values given so far, later points are ever worse.
fn adversary(hist: &[usize], x0: &[f64], o: NelderMeadOptions) -> Result<(finquant::math::optimize::Minimum, Vec<(Vec<f64>, f64)>), String> {
    let table: RefCell<Vec<(Vec<f64>, f64)>> = RefCell::new(vec![]);
    let m = crate::fw::guard(|| {
        nelder_mead(
            |x: &[f64]| {
                let mut t = table.borrow_mut();
                if let Some(e) = t.iter().find(|e| near(&e.0, x)) {
                    return e.1;
                }
                let k = t.len();
                let mut v: Vec<f64> = t.iter().map(|e| e.1).collect();
                v.sort_by(|a, b| a.partial_cmp(b).unwrap());
                let r = hist.get(k).copied().unwrap_or(k);
                let y = match (r.checked_sub(1).map(|j| v[j]), v.get(r)) {
                    (None, None) => 0.0,
                    (None, Some(h)) => h - 1.0,
                    (Some(l), None) => l + 1.0,
                    (Some(l), Some(h)) => 0.5 * (l + h),
                };
                t.push((x.to_vec(), y));
                y
            },
            x0,
            o,
        )
    })?;
    Ok((m, table.into_inner()))
}

fn m03(run: &Run) {
    let depth = run.by(8usize, 10);
    let starts: Vec<Vec<f64>> = vec![vec![1.0], vec![0.0], vec![1.0, -3.0], vec![0.0, 0.7], vec![2.0, -0.5, 0.01], vec![0.02, 0.3, 4.0, -1.0]];
    // (max_iter, ftol, xtol, step)
    let opts: Vec<NelderMeadOptions> = vec![
        NelderMeadOptions { max_iter: 5, ftol: 0.0, xtol: 0.0, step_frac: 0.05 },
        NelderMeadOptions { max_iter: 2, ftol: 0.0, xtol: 0.0, step_frac: 0.3 },
        NelderMeadOptions { max_iter: 6, ftol: 1.3, xtol: 0.04, step_frac: 0.05 },
        NelderMeadOptions { max_iter: 6, ftol: 0.9, xtol: 10.0, step_frac: 0.05 },
        NelderMeadOptions { max_iter: 6, ftol: 100.0, xtol: 0.02, step_frac: 0.05 },
        NelderMeadOptions { max_iter: 0, ftol: 1e-8, xtol: 1e-8, step_frac: 0.05 },
    ];
    run.dim("answer_history_depth", depth);
    run.dim("dimensions", "1..4");
    run.dim("start_points", starts.len());
    run.dim("option_sets", opts.len());
    run.dim("histories", "every ordering of the first `depth` distinct objective values, no ties; later values ever worse");
    let total: usize = (1..=depth).product();
    let chunk = 720.min(total);
    run.par(total / chunk, |ci, w| {
        for code in ci * chunk..(ci + 1) * chunk {
            let mut c = code;
            let hist: Vec<usize> = (1..=depth).map(|b| { let r = c % b; c /= b; r }).collect();
            for (si, x0) in starts.iter().enumerate() {
                for (oi, o) in opts.iter().enumerate() {
                    w.state(1);
                    w.trace(1);
                    let key = |s: &str| format!("{s}: start {x0:?}, options {oi}, answers {hist:?}");
                    let (m, table) = match adversary(&hist, x0, *o) {
                        Ok(v) => v,
                        Err(e) => {
                            w.fail(key("optimiser run"), e);
                            continue;
                        }
                    };
                    let look = |x: &[f64]| table.iter().find(|e| near(&e.0, x)).map(|e| e.1);
                    let best = table.iter().map(|e| e.1).fold(f64::MAX, f64::min);
                    w.check(m.f == best && look(&m.x) == Some(best), || key("the best point evaluated is returned"), || format!("x={:?} f={} best={best}", m.x, m.f));
                    w.check(m.iterations <= o.max_iter && (m.converged || m.iterations == o.max_iter), || key("iteration count"), || format!("{} converged {}", m.iterations, m.converged));
                    match ref_nm(look, x0, o) {
                        None => w.fail(key("simplex moves"), "the reference simplex visits a point the optimiser never asked for".to_string()),
                        Some(r) => {
                            w.check(table.iter().all(|e| r.seen.iter().any(|s| near(s, &e.0))), || key("simplex moves"), || "the optimiser asked for a point no simplex move reaches".into());
                            w.check(near(&r.x, &m.x) && r.f == m.f && r.it == m.iterations && r.conv == m.converged, || key("result"), || format!("x={:?} it={} conv={} against x={:?} it={} conv={}", m.x, m.iterations, m.converged, r.x, r.it, r.conv));
                        }
                    }
                    if si == 0 && oi == 0 && code < 3 {
                        w.sample(json!({"answers": hist, "x": m.x}));
                    }
                }
            }
        }
    });
    // whole descents in one to eight dimensions against the reference simplex
    let fam: [(&str, fn(&[f64]) -> f64); 7] = [
        ("bowl", |x| x.iter().enumerate().map(|(i, v)| (i as f64 + 1.0) * (v - 0.37 * i as f64 - 0.2).powi(2)).sum::<f64>() + 3.1),
        ("far bowl", |x| x.iter().enumerate().map(|(i, v)| (v - 41.137 + 13.0 * i as f64).powi(2)).sum::<f64>() * 1e-3 - 7.7),
        ("valley", |x| x.windows(2).map(|p| 100.0 * (p[1] - p[0] * p[0]).powi(2)).sum::<f64>() + x.iter().map(|v| (0.9 - v).powi(2)).sum::<f64>()),
        ("ridge", |x| x.iter().enumerate().map(|(i, v)| (v - 0.3 - 0.11 * i as f64).abs() * (1.0 + 0.3 * i as f64)).sum::<f64>()),
        ("waves", |x| x.iter().enumerate().map(|(i, v)| 0.05 * v * v + ((2.0 + 0.7 * i as f64) * v + 0.3).sin()).sum::<f64>()),
        ("slope", |x| x.iter().enumerate().map(|(i, v)| (1.0 + 0.17 * i as f64) * v + 1.0731e-3 * v * v).sum::<f64>()),
        ("spikes", |x| x.iter().enumerate().map(|(i, v)| ((v * 12.9898 + i as f64 * 78.233).sin() * 43758.5453).fract()).sum::<f64>()),
    ];
    let caps: &[usize] = run.by(&[1, 3, 8, 20, 45, 90, 200][..], &[1, 2, 3, 4, 5, 6, 8, 11, 15, 20, 28, 36, 45, 60, 75, 90, 120, 150, 200][..]);
    let dmax = run.by(8, 10);
    run.dim("descents", json!({"objectives": fam.iter().map(|x| x.0).collect::<Vec<_>>(), "dimensions": dmax, "iteration_caps": caps, "starts": 6, "options": 4}));
    run.par(fam.len() * dmax * 6, |i, w| {
        let ((nm, f), n, si) = (fam[i % fam.len()], i / fam.len() % dmax + 1, i / fam.len() / dmax);
        let x0: Vec<f64> = (0..n)
            .map(|j| match si {
                0 => 1.0 + 0.13 * j as f64,
                1 => 0.0,
                2 => -3.0 + 0.7 * j as f64,
                3 => if j % 2 == 0 { 1e3 } else { -0.04 },
                4 => 1e-13 * (j as f64 + 1.0),
                _ => -251.3719 - 3.0171 * (j * j) as f64,
            })
            .collect();
        for (oi, (ftol, xtol, step)) in [(1e-6, 1e-4, 0.05), (0.0, 0.0, 0.3), (1e-2, 1e9, 0.1), (1e9, 1e-2, 1.0)].into_iter().enumerate() {
            for &cap in caps {
                if oi == 1 && cap > 30 * n.min(3) && n < 4 {
                    continue;
                }
                w.state(1);
                let o = NelderMeadOptions { max_iter: cap, ftol, xtol, step_frac: step };
                let key = || format!("descent: {nm} in {n} dimensions from start {si}, options {oi}, cap {cap}");
                let seen = RefCell::new(0usize);
                let Some(m) = w.call(key, || nelder_mead(|x: &[f64]| { *seen.borrow_mut() += 1; f(x) }, &x0, o)) else { continue };
                w.trace(1);
                let r = ref_nm(|x| Some(f(x)), &x0, &o).unwrap();
                w.check(m.f == f(&m.x) && m.f <= f(&x0), key, || format!("value {} at {:?}", m.f, m.x));
                // decisions closer than rounding: only the weak statement above
                let agree = |a: &[f64], b: &[f64]| a.iter().zip(b).all(|(a, b)| (a - b).abs() <= 1e-6 * (1.0 + a.abs()));
                let shaky = (0..2).any(|k| {
                    let q = ref_nm(|x| { let y = f(x); Some(y + 1e-13 * (1.0 + y.abs()) * (x.iter().sum::<f64>() * (1e7 + k as f64)).sin()) }, &x0, &o).unwrap();
                    q.it != r.it || q.conv != r.conv || !agree(&q.x, &r.x)
                });
                if shaky {
                    continue;
                }
                w.check(m.iterations == r.it && m.converged == r.conv, key, || format!("{} iterations converged {} against {} {}", m.iterations, m.converged, r.it, r.conv));
                w.close(m.f, r.f, 1e-9, 1e-7, key);
                w.check(agree(&m.x, &r.x), key, || format!("{:?} against {:?}", m.x, r.x));
            }
        }
    });
    // convex bowls: the minimum is found from every start
    let cs = [-2.0, 0.0, 0.3, 5.0];
    let sc = [1.0, 7.0, 0.05];
    run.par(cs.len() * cs.len() * sc.len(), |i, w| {
        let (cx, cy, s) = (cs[i % 4], cs[i / 4 % 4], sc[i / 16]);
        for sx in [-3.0, 0.0, 1.0, 10.0] {
            for sy in [-1.0, 0.0, 4.0] {
                for rot in [0.0, 0.4] {
                    w.state(1);
                    let f = |x: &[f64]| (x[0] - cx).powi(2) + s * (x[1] - cy).powi(2) + rot * s.sqrt() * (x[0] - cx) * (x[1] - cy) + 3.0;
                    let o = NelderMeadOptions { max_iter: 2000, ftol: 1e-14, xtol: 1e-7, step_frac: 0.1 };
                    let key = |t: &str| format!("{t}: bowl at ({cx},{cy}) scale {s} rot {rot} from ({sx},{sy})");
                    let Some(m) = w.call(|| key("run"), || nelder_mead(f, &[sx, sy], o)) else { continue };
                    w.trace(1);
                    w.check(m.converged, || key("converges"), || format!("{} iterations", m.iterations));
                    w.check((m.x[0] - cx).abs() < 1e-4 && (m.x[1] - cy).abs() < 1e-3, || key("finds the minimum"), || format!("{:?}", m.x));
                    w.check(m.f == f(&m.x), || key("value belongs to the point"), || format!("{} {}", m.f, f(&m.x)));
                }
            }
        }
    });
    run.seq(|w| {
        let d = NelderMeadOptions::default();
        w.state(1);
        w.check(d.max_iter == 500 && d.ftol == 1e-8 && d.xtol == 1e-8 && d.step_frac == 0.05, || "default options".into(), || format!("{d:?}"));
    });
}

// ------------------------------------------------------------ M04

/// a model whose state is its own history
#[derive(Clone, Debug)]
pub struct Rec {
    pub path: usize,
    pub steps: Vec<(f64, f64)>,
}
pub struct Recorder {
    pub paths: std::cell::Cell<usize>,
}
impl SimulationModel for Recorder {
    type State = Rec;
    fn initial_state(&self) -> Rec {
        self.paths.set(self.paths.get() + 1);
        Rec { path: self.paths.get(), steps: vec![] }
    }
    fn step(&mut self, s: &Rec, t: f64, dt: f64) -> Rec {
        let mut s = s.clone();
        s.steps.push((t, dt));
        s
    }
}

/// one simulation of the recording model against the reference stepper
fn sim_check(w: &mut Worker, val: NaiveDate, obs: &[NaiveDate], np: usize, ms: u32, cn: &str, dc: &dyn DayCounters) {
    w.state(1);
    let key = |s: &str| format!("{s}: from {val}, dates {obs:?}, step {ms}, {cn}, {np} paths");
    let mut m = Recorder { paths: std::cell::Cell::new(0) };
    let Some(out) = w.call(|| key("run"), || simulate_at_dates(&mut m, val, obs, np, ms, dc)) else { return };
    w.trace(1);
    let mut srt = obs.to_vec();
    srt.sort();
    w.check(out.n_paths() == np && out.paths.len() == np && out.valuation_date == val, || key("paths"), || format!("{}", out.n_paths()));
    w.check(out.observation_dates == srt, || key("observation dates"), || format!("{:?}", out.observation_dates));
    // expected grid
    let last = *srt.last().unwrap();
    let mut g: Vec<NaiveDate> = (0..).map(|j| add(val, j * ms as i64)).take_while(|d| *d < last).collect();
    g.extend(&srt);
    g.sort();
    g.dedup();
    let yf: Vec<f64> = g.iter().map(|d| dc.year_fraction(val, *d).unwrap_or(0.0)).collect();
    for (pi, p) in out.paths.iter().enumerate() {
        if !w.check(p.len() == srt.len(), || key("every path observed at every date"), || format!("path {pi}: {} of {}", p.len(), srt.len())) {
            continue;
        }
        for (oi, s) in p.iter().enumerate() {
            let at = g.binary_search(&srt[oi]).unwrap();
            let want: Vec<(f64, f64)> = (1..=at).map(|j| (yf[j - 1], yf[j])).filter(|(a, b)| b - a > 1e-14).collect();
            let got: Vec<(f64, f64)> = s.steps.iter().copied().filter(|(_, dt)| dt.abs() > 1e-14).collect();
            w.check(s.path == pi + 1, || key("each path starts afresh"), || format!("path {pi} is {}", s.path));
            let ok = want.len() == got.len()
                && want.iter().zip(&got).all(|((a, b), (t, dt))| close(*dt, b - a, 1e-12, 0.0) && *t >= a - 1e-12 && *t <= b + 1e-12);
            w.check(ok, || key(&format!("steps up to {}", srt[oi])), || format!("{got:?} expected {want:?}"));
        }
    }
    for d in (0..=32).map(|j| add(val, j)).chain(srt.iter().flat_map(|d| [add(*d, -1), add(*d, 1)])) {
        let s = out.states_at(d);
        let x = out.sample(d, |r| r.steps.len() as f64);
        match srt.binary_search(&d) {
            Err(_) => {
                w.check(s.is_none() && x.is_none(), || key(&format!("{d} was not observed")), || "a state is returned".into());
            }
            Ok(k) => {
                let want: Vec<(usize, usize)> = out.paths.iter().map(|p| (p[k].path, p[k].steps.len())).collect();
                let got: Option<Vec<(usize, usize)>> = s.map(|v| v.iter().map(|r| (r.path, r.steps.len())).collect());
                w.check(got.as_ref() == Some(&want), || key(&format!("states at {d}")), || format!("{got:?} expected {want:?}"));
                let wx: Vec<f64> = want.iter().map(|v| v.1 as f64).collect();
                w.check(x.as_ref() == Some(&wx), || key(&format!("sample at {d}")), || format!("{x:?} expected {wx:?}"));
            }
        }
    }
}

fn m04(run: &Run) {
    // positions (days after valuation) a schedule may observe
    let pos: &[i64] = run.by(&[1, 2, 3, 5, 7, 12, 29, 31][..], &[1, 2, 3, 4, 5, 7, 12, 28, 29, 31, 33][..]);
    let vals = [ymd(2024, 1, 30), ymd(2023, 2, 27), ymd(2024, 2, 28), ymd(2025, 6, 13)];
    let steps: &[u32] = &[1, 2, 3, 5, 7, 21, 30, 40];
    let ctrs = counters(ymd(2024, 12, 31));
    run.dim("observation_positions", json!(pos));
    run.dim("observation_sets", "every non-empty subset, in ascending, descending and rotated order and with repeats");
    run.dim("valuation_dates", vals.len());
    run.dim("max_step_days", json!(steps));
    run.dim("day_counters", ctrs.len());
    let nsub = (1usize << pos.len()) - 1;
    run.par(nsub * vals.len(), |i, w| {
        let val = vals[i / nsub];
        let sub: Vec<NaiveDate> = (0..pos.len()).filter(|b| (i % nsub + 1) >> b & 1 == 1).map(|b| add(val, pos[b])).collect();
        let mut orders = vec![sub.clone()];
        if sub.len() > 1 {
            let mut r = sub.clone();
            r.reverse();
            orders.push(r);
            let mut r = sub.clone();
            r.rotate_left(1);
            orders.push(r);
        }
        let mut dup = sub.clone();
        dup.insert(0, *sub.last().unwrap());
        orders.push(dup);
        for (cn, _, mk) in &ctrs {
            let dc = mk();
            for &ms in steps {
                for (oi, obs) in orders.iter().enumerate() {
                    let np = 1 + oi % 3;
                    sim_check(w, val, obs, np, ms, cn, dc.as_ref());
                }
            }
        }
    });
    // long horizons: few dates far apart, and many dates, with steps from a day to longer than the horizon
    let far = [30i64, 91, 182, 365, 366, 730, 1826, 3652];
    let nfar = (1usize << far.len()) - 1;
    run.dim("long_horizons", json!(far));
    run.par(nfar * 2, |i, w| {
        let val = [vals[0], vals[2]][i / nfar];
        let sub: Vec<NaiveDate> = (0..far.len()).filter(|b| (i % nfar + 1) >> b & 1 == 1).map(|b| add(val, far[b])).collect();
        if sub.len() > run.by(3, 8) && sub.len() < far.len() {
            return;
        }
        for (j, (cn, _, mk)) in ctrs.iter().enumerate() {
            let dc = mk();
            for ms in [7u32, 31, 91, 366, 5000] {
                sim_check(w, val, &sub, if (i + j) % 4 == 0 { 5 } else { 1 }, ms, cn, dc.as_ref());
            }
        }
        if i % nfar < 4 || i % nfar == nfar - 1 {
            sim_check(w, val, &sub, 1, 1, "Actual365Fixed", &Actual365Fixed::default());
            // every day observed over the first 200 days, and many paths
            let mut every: Vec<NaiveDate> = (1..=200).map(|d| add(val, d)).collect();
            every.rotate_left(i % 7);
            sim_check(w, val, &every, 2, 3, "Actual365Fixed", &Actual365Fixed::default());
            sim_check(w, val, &sub, 200, 365, "Actual365Fixed", &Actual365Fixed::default());
        }
    });
    // refusals
    run.seq(|w| {
        let val = vals[0];
        let dc = Actual365Fixed::default();
        for (obs, np, ms) in [(vec![], 1, 1), (vec![val], 1, 1), (vec![add(val, -1), add(val, 3)], 1, 1), (vec![add(val, 3)], 0, 1), (vec![add(val, 3)], 1, 0)] {
            w.state(1);
            let r = crate::fw::guard(|| simulate_at_dates(&mut Recorder { paths: std::cell::Cell::new(0) }, val, &obs, np, ms, &dc));
            w.check(r.is_err(), || format!("refused: dates {obs:?} paths {np} step {ms}"), || "accepted".into());
        }
    });
    // Brownian motion and geometric Brownian motion: closed forms in the noise, recovered from a unit twin
    let mus = [-0.1, 0.0, 0.3, 2.0];
    let sgs = [0.0, 0.01, 0.2, 1.0, 3.0];
    let x0s = [-2.0, 0.0, 1.5, 140.0];
    run.dim("brownian_parameters", mus.len() * sgs.len() * x0s.len());
    run.par(run.by(8, 64), |seed, w| {
        let seed = seed as u64 * 7919 + 3;
        let dts = [1.0 / 365.0, 0.3, 1.0, 0.01, 2.5, 12.0, 1e-4];
        let noise = |len: usize, geo: bool| -> Vec<f64> {
            let mut b = BrownianMotion::new(seed);
            assert!(b.initial_state() == 0.0, "a new Brownian motion starts at {}", b.initial_state());
            let mut g = GeometricBrownianMotion::new(1.0, 0.5, 1.0, seed);
            let mut z = vec![];
            for _ in 0..len {
                z.push(if geo { g.step(&1.0, 0.0, 1.0).ln() } else { b.step(&0.0, 0.0, 1.0) });
            }
            z
        };
        let Some(z) = w.call(|| "noise".into(), || noise(400, false)) else { return };
        let zg = noise(400, true);
        let (mean, var) = (z.iter().sum::<f64>() / 400.0, z.iter().map(|x| x * x).sum::<f64>() / 400.0);
        w.check(mean.abs() < 0.35 && (var - 1.0).abs() < 0.5, || format!("unit noise of seed {seed}"), || format!("mean {mean}, variance {var}"));
        for mu in mus {
            for sg in sgs {
                for x0 in x0s {
                    w.state(1);
                    let key = |s: &str, i: usize| format!("{s} step {i}: x0={x0} mu={mu} sigma={sg} seed={seed}");
                    let mut b = BrownianMotion::new(seed).with_drift(mu).with_volatility(sg).with_initial(x0);
                    w.check(b.initial_state() == x0, || key("initial state", 0), || format!("{}", b.initial_state()));
                    let (mut x, mut e) = (b.initial_state(), x0);
                    for i in 0..20 {
                        let dt = dts[i % 7];
                        x = b.step(&x, i as f64, dt);
                        e += mu * dt + sg * dt.sqrt() * z[i];
                        w.close(x, e, 1e-9, 1e-9, || key("Brownian motion", i));
                    }
                    let s0 = x0.abs() + 0.5;
                    let mut g = GeometricBrownianMotion::new(s0, mu, sg, seed);
                    w.check(g.initial_state() == s0, || key("initial price", 0), || format!("{}", g.initial_state()));
                    let (mut x, mut l) = (g.initial_state(), s0.ln());
                    for i in 0..20 {
                        let dt = dts[i % 7];
                        x = g.step(&x, i as f64, dt);
                        l += (mu - 0.5 * sg * sg) * dt + sg * dt.sqrt() * zg[i];
                        w.close(x.ln(), l, 1e-9, 1e-9, || key("geometric Brownian motion", i));
                    }
                    // same seed, same paths; the runner drives the very same steps
                    let val = ymd(2024, 1, 30);
                    let obs = [add(val, 3), add(val, 9), add(val, 31)];
                    let go = || simulate_at_dates(&mut GeometricBrownianMotion::new(s0, mu, sg, seed), val, &obs, 3, 2, &Actual365Fixed::default());
                    let (a, b) = (go(), go());
                    w.check(a.paths == b.paths, || key("same seed, same paths", 0), || "paths differ".into());
                    let grid = [2.0, 3.0, 4.0, 6.0, 8.0, 9.0, 10.0, 12.0, 14.0, 16.0, 18.0, 20.0, 22.0, 24.0, 26.0, 28.0, 30.0, 31.0];
                    let mut k = 0;
                    for p in &a.paths {
                        let (mut l, mut prev, mut oi) = (s0.ln(), 0.0, 0);
                        for d in grid {
                            let dt: f64 = (d - prev) / 365.0;
                            l += (mu - 0.5 * sg * sg) * dt + sg * dt.sqrt() * zg[k];
                            k += 1;
                            prev = d;
                            if (d - (obs[oi] - val).num_days() as f64).abs() < 0.5 {
                                w.close(p[oi].ln(), l, 1e-9, 1e-9, || key("dated geometric Brownian motion", oi));
                                oi += 1;
                            }
                        }
                    }
                    w.trace(3);
                }
            }
        }
    });
}

// ------------------------------------------------------------ M05

/// log FX_T normal with the forward as mean of FX_T
struct Logn {
    f: f64,
    s: f64,
    t: f64,
}
impl ForwardChf for Logn {
    fn evaluate(&self, u: C64) -> C64 {
        let v = self.s * self.s * self.t;
        let i = C64::new(0.0, 1.0);
        (i * u * (self.f.ln() - 0.5 * v) - u * u * 0.5 * v).exp()
    }
    fn expiry(&self) -> f64 {
        self.t
    }
    fn log_forward(&self) -> f64 {
        self.f.ln()
    }
    fn typical_variance(&self) -> f64 {
        self.s * self.s
    }
}
/// Heston log-price, stable form
#[derive(Clone, Copy)]
pub struct Hes {
    pub f: f64,
    pub v0: f64,
    pub k: f64,
    pub th: f64,
    pub g: f64,
    pub rho: f64,
    pub t: f64,
}
impl Hes {
    pub fn phi(&self, u: C64) -> C64 {
        let i = C64::new(0.0, 1.0);
        let b = C64::new(self.k, 0.0) - i * u * self.rho * self.g;
        let d = (b * b + (i * u + u * u) * self.g * self.g).sqrt();
        let gg = (b - d) / (b + d);
        let e = (-d * self.t).exp();
        let g2 = self.g * self.g;
        let a = ((b - d) * self.t - 2.0 * ((1.0 - gg * e) / (1.0 - gg)).ln()) * (self.k * self.th / g2);
        let c = (b - d) / g2 * (1.0 - e) / (1.0 - gg * e);
        (a + c * self.v0 + i * u * self.f.ln()).exp()
    }
}
impl ForwardChf for Hes {
    fn evaluate(&self, u: C64) -> C64 {
        self.phi(u)
    }
    fn expiry(&self) -> f64 {
        self.t
    }
    fn log_forward(&self) -> f64 {
        self.f.ln()
    }
    fn typical_variance(&self) -> f64 {
        self.th
    }
}
/// Undiscounted call by Lewis's integral: C = F - sqrt(F K)/pi * Int_0^inf Re[e^{iu ln(F/K)} psi(u - i/2)]/(u^2+1/4) du
pub fn lewis(phi: &dyn Fn(C64) -> C64, f: f64, k: f64, umax: f64, n: usize) -> f64 {
    let i = C64::new(0.0, 1.0);
    let lf = f.ln();
    let g = |u: f64| {
        let z = C64::new(u, -0.5);
        // characteristic function of ln(FX/F)
        let p = phi(z) * (-i * z * lf).exp();
        ((i * u * (f / k).ln()).exp() * p).re / (u * u + 0.25)
    };
    // geometric panels keep the short scales near zero
    let mut s = 0.0;
    let mut a = 0.0;
    let mut b: f64 = 1.0;
    while a < umax {
        s += simpson(g, a, b.min(umax), n);
        a = b;
        b *= 2.0;
    }
    f - (f * k).sqrt() / std::f64::consts::PI * s
}

fn m05(run: &Run) {
    let fs: &[f64] = &[0.0072, 1.083, 148.0];
    let sg: &[f64] = &[0.005, 0.02, 0.06, 0.1, 0.2, 0.35, 0.6][..];
    let ts: &[f64] = &[1.0 / 365.0, 7.0 / 365.0, 0.1, 0.5, 1.0, 3.0, 10.0][..];
    let ds = [1.0, 0.93, 0.5];
    let n = run.by(48, 120);
    run.dim("forwards", json!(fs));
    run.dim("vols", json!(sg));
    run.dim("times", json!(ts));
    run.dim("strikes", "forward * exp(z * sigma * sqrt(t)), z evenly spaced in [-14, 14]: in and out of the truncation range");
    run.dim("strikes_per_case", 2 * n + 1);
    run.dim("settings", "default; 256, 512 and 3500 terms; explicit wider, much wider and shifted ranges");
    run.par(fs.len() * sg.len() * ts.len(), |i, w| {
        let l = Logn { f: fs[i % fs.len()], s: sg[i / fs.len() % sg.len()], t: ts[i / fs.len() / sg.len()] };
        let sd = l.s * l.t.sqrt();
        let dp = CosPricer::new(&l);
        let nm = format!("F={} sigma={} t={}", l.f, l.s, l.t);
        w.check(dp.n_terms == 128, || format!("default terms: {nm}"), || format!("{}", dp.n_terms));
        let hw = 10.0 * sd.max(1e-6);
        w.check(close(dp.range.0, l.f.ln() - hw, 1e-12, 0.0) && close(dp.range.1, l.f.ln() + hw, 1e-12, 0.0), || format!("default range: {nm}"), || format!("{:?}", dp.range));
        let lf = l.f.ln();
        let vw = (400.0 * sd).min(2.5).max(14.0 * sd);
        let cfgs: Vec<(&str, CosPricer<Logn>)> = vec![
            ("default", CosPricer::new(&l)),
            ("256 terms", CosPricer::new(&l).with_n_terms(256)),
            ("wide", CosPricer::new(&l).with_range(lf - 14.0 * sd, lf + 14.0 * sd).with_n_terms(512)),
            ("shifted", CosPricer::new(&l).with_n_terms(300).with_range(lf - 12.0 * sd, lf + 9.0 * sd)),
            // narrow on its range: every one of the terms counts
            ("very wide", CosPricer::new(&l).with_range(lf - vw, lf + 0.9 * vw).with_n_terms(3500)),
        ];
        w.check(cfgs[1].1.n_terms == 256 && cfgs[1].1.range == dp.range && cfgs[3].1.n_terms == 300, || format!("settings: {nm}"), || "not applied".into());
        for (cn, p) in &cfgs {
            for j in 0..=2 * n {
                if *cn == "very wide" && j % 4 != 1 {
                    continue;
                }
                let z = 14.0 * (j as f64 - n as f64) / n as f64;
                let k = l.f * (z * sd).exp();
                for d in ds {
                    w.state(1);
                    let key = |s: &str| format!("{s}: {nm} K={k} ({z} sd) D={d} {cn}");
                    let Some((c, q)) = w.call(|| key("price"), || (p.call(k, d), p.put(k, d))) else { continue };
                    w.trace(1);
                    // rounding grows with the payoff at the end of the range
                    let top = p.range.1.exp().max(k);
                    let tol = 1e-9 * l.f + 2e-12 * top;
                    w.close(c, bs(l.f, k, sd * sd, d, 1.0), tol, 1e-8, || key("call"));
                    w.close(q, bs(l.f, k, sd * sd, d, -1.0), tol, 1e-8, || key("put"));
                }
            }
        }
    });
    // Heston against Lewis's Fourier integral
    let mut hs = vec![];
    for v0 in [0.01, 0.04] {
        for (k, th) in [(0.5f64, 0.02), (3.0, 0.05)] {
            for g in &[0.05, 0.1, 0.3, 0.5][..] {
                for rho in &[-0.9, -0.7, -0.3, 0.0, 0.4, 0.8][..] {
                    for t in &[0.1, 0.25, 1.0, 2.0, 8.0][..] {
                        // heavier tails than these do not fit any workable truncation range
                        if *g * f64::sqrt(*t) > 0.75 * k.max(1.0) {
                            continue;
                        }
                        hs.push(Hes { f: 1.31, v0, k, th, g: *g, rho: *rho, t: *t });
                    }
                }
            }
        }
    }
    run.dim("heston_parameter_sets", hs.len());
    run.par(hs.len(), |i, w| {
        let h = hs[i];
        let sd = (h.v0.max(h.th) * h.t).sqrt();
        let r = 24.0 * sd + 2.0 * h.g * h.t.sqrt() * sd / h.k.sqrt();
        let p = CosPricer::new(&h).with_range(h.f.ln() - r, h.f.ln() + r).with_n_terms(2000);
        for m in [-2.5, -1.0, -0.3, 0.0, 0.4, 1.0, 2.5] {
            let k = h.f * (m * sd).exp();
            w.state(1);
            let key = |s: &str| format!("{s}: v0={} kappa={} theta={} gamma={} rho={} t={} K={k}", h.v0, h.k, h.th, h.g, h.rho, h.t);
            let c = lewis(&|u| h.phi(u), h.f, k, 4096.0, 400);
            let Some((a, b)) = w.call(|| key("price"), || (p.call(k, 0.9), p.put(k, 0.9))) else { continue };
            w.trace(1);
            w.close(a, 0.9 * c, 3e-6, 0.0, || key("Heston call"));
            w.close(b, 0.9 * (c - h.f + k), 3e-6, 0.0, || key("Heston put"));
        }
    });
    run.seq(|w| {
        let l = Logn { f: 1.0, s: 0.1, t: 1.0 };
        w.state(3);
        w.check(crate::fw::guard(|| CosPricer::new(&l).with_n_terms(1).n_terms).is_err(), || "one term refused".into(), || "accepted".into());
        w.check(crate::fw::guard(|| CosPricer::new(&l).with_range(1.0, 1.0).n_terms).is_err(), || "empty range refused".into(), || "accepted".into());
        for k in [0.0, -1.0] {
            w.check(crate::fw::guard(|| CosPricer::new(&l).call(k, 1.0)).is_err(), || format!("strike {k} refused"), || "accepted".into());
        }
    });
}

// ------------------------------------------------------------ M06

fn expm1(x: f64) -> f64 {
    x.exp_m1()
}
/// E sqrt(X) for the square-root process from its Laplace transform:
/// E sqrt X = 1/(2 sqrt pi) Int_0^inf (1 - L(s)) s^{-3/2} ds, L(s) = (1+2cs)^{-l/2} exp(-s c eps/(1+2cs))
pub fn cir_sqrt(p: &CirProcess, t: f64) -> f64 {
    let e = (-p.kappa * t).exp();
    let om = -expm1(-p.kappa * t);
    let c = p.gamma * p.gamma * om / (4.0 * p.kappa);
    let ell = 4.0 * p.kappa * p.theta / (p.gamma * p.gamma);
    let ceps = p.sigma_0 * e; // c * eps
    // s = exp(y): integrand (1 - L(e^y)) e^{-y/2}
    let g = |y: f64| {
        let s = y.exp();
        let ln_l = -0.5 * ell * (2.0 * c * s).ln_1p() - ceps * s / (1.0 + 2.0 * c * s);
        -expm1(ln_l) * (-0.5 * y).exp()
    };
    let m = p.mean(t).max(1e-12);
    let c0 = -m.ln(); // scale where s * mean = 1
    // tails: left ~ m e^{y/2} (integrable to -inf), right ~ e^{-y/2}
    let (a, b) = (c0 - 70.0, c0 + 70.0);
    // doubly-exponentially decaying tails make the plain trapezium rule converge geometrically
    let n = 7000;
    let h = (b - a) / n as f64;
    let s: f64 = (0..=n).map(|i| g(a + h * i as f64)).sum::<f64>() * h;
    s / (2.0 * std::f64::consts::PI.sqrt())
}

fn m06(run: &Run) {
    let ks: &[f64] = run.by(&[0.02, 0.1, 0.5, 1.0, 3.0, 8.0][..], &[0.01, 0.02, 0.05, 0.1, 0.2, 0.5, 0.7, 1.0, 1.5, 3.0, 5.0, 8.0, 12.0][..]);
    let ths: &[f64] = run.by(&[0.002, 0.01, 0.04, 0.1, 0.5][..], &[0.0005, 0.002, 0.005, 0.01, 0.02, 0.04, 0.07, 0.1, 0.25, 0.5, 1.0][..]);
    let gs: &[f64] = run.by(&[0.005, 0.02, 0.08, 0.2, 0.35, 0.6, 1.2][..], &[0.005, 0.01, 0.02, 0.04, 0.08, 0.13, 0.2, 0.28, 0.35, 0.45, 0.6, 0.9, 1.2, 2.0][..]);
    let s0s: &[f64] = run.by(&[0.0, 0.001, 0.005, 0.04, 0.1, 0.4][..], &[0.0, 0.0002, 0.001, 0.003, 0.005, 0.01, 0.02, 0.04, 0.1, 0.2, 0.4, 1.0][..]);
    let ts: &[f64] = run.by(&[1e-5, 1e-4, 1e-3, 0.01, 0.03, 0.1, 0.3, 1.0, 2.5, 5.0, 10.0, 30.0, 60.0][..], &[1e-5, 1e-4, 1e-3, 0.003, 0.01, 0.03, 0.06, 0.1, 0.2, 0.3, 0.5, 0.75, 1.0, 1.5, 2.0, 2.5, 3.5, 5.0, 7.0, 10.0, 15.0, 20.0, 30.0, 45.0, 60.0][..]);
    run.dim("kappa", json!(ks));
    run.dim("theta", json!(ths));
    run.dim("gamma", json!(gs));
    run.dim("sigma_0", json!(s0s));
    run.dim("times", json!(ts));
    let n = ks.len() * ths.len() * gs.len() * s0s.len();
    run.par(n, |i, w| {
        let p = CirProcess { kappa: ks[i % ks.len()], theta: ths[i / ks.len() % ths.len()], gamma: gs[i / ks.len() / ths.len() % gs.len()], sigma_0: s0s[i / ks.len() / ths.len() / gs.len()] };
        let nm = format!("kappa={} theta={} gamma={} sigma0={}", p.kappa, p.theta, p.gamma, p.sigma_0);
        let key = |s: &str, t: f64| format!("{s} at {t}: {nm}");
        w.check(p.mean(0.0) == p.sigma_0 && p.variance(0.0) == 0.0 && p.sqrt_mean(0.0) == p.sigma_0.sqrt(), || key("start", 0.0), || "not the initial value".into());
        w.check(p.feller_satisfied() == (2.0 * p.kappa * p.theta >= p.gamma * p.gamma), || key("Feller condition", 0.0), || format!("{}", p.feller_satisfied()));
        for &t in ts {
            w.state(1);
            // moments by their differential equations m' = k(th - m), v' = -2 k v + g^2 m
            let m = p.sigma_0 + (p.theta - p.sigma_0) * -expm1(-p.kappa * t);
            w.close(p.mean(t), m, 1e-15, 1e-12, || key("mean", t));
            let v = simpson(|s| (-2.0 * p.kappa * (t - s)).exp() * p.gamma * p.gamma * (p.sigma_0 + (p.theta - p.sigma_0) * -expm1(-p.kappa * s)), 0.0, t, 400.max((40.0 * p.kappa * t) as usize));
            w.close(p.variance(t), v, 1e-16, 1e-5, || key("variance", t));
            let Some(r) = w.call(|| key("E sqrt", t), || p.sqrt_mean(t)) else { continue };
            w.trace(1);
            let e = (-p.kappa * t).exp();
            let eps = 4.0 * p.kappa * p.sigma_0 * e / (p.gamma * p.gamma * -expm1(-p.kappa * t));
            let o = cir_sqrt(&p, t);
            w.close(r, o, 1e-13, if eps > 480.0 { 1e-5 } else { 1e-8 }, || key("expected square root", t));
            w.check(r <= m.sqrt() * (1.0 + 1e-12) && r * r + p.variance(t).max(0.0) >= 0.0 && r >= 0.0, || key("Jensen", t), || format!("{r} against sqrt mean {}", m.sqrt()));
            w.close(p.sqrt_mean_tol(t, 1e-10), r, 0.0, 1e-7, || key("looser tolerance", t));
        }
        // long run
        let inf = p.sqrt_mean_infinity();
        let far = 200.0 / p.kappa;
        w.close(p.sqrt_mean(far), inf, 0.0, 1e-9, || key("long-run limit", far));
        let o = cir_sqrt(&CirProcess { sigma_0: 0.0, ..p }, far);
        w.close(inf, o, 1e-13, 1e-8, || key("long-run expected square root", far));
        let x = p.sqrt_mean_proxy();
        w.close(x.eval(0.0), p.sigma_0.sqrt(), 1e-14, 1e-13, || key("proxy start", 0.0));
        w.close(x.eval(far), inf, 0.0, 1e-9, || key("proxy limit", far));
        for t in [0.01, 0.3, 2.0, 7.0, 25.0, 60.0] {
            w.close(x.eval(t), inf + (p.sigma_0.sqrt() - inf) * (-p.kappa * t).exp(), 1e-14, 1e-12, || key("proxy", t));
        }
        // deterministic variance limit
        let z = CirProcess { gamma: 0.0, ..p };
        for t in [1e-3, 0.5, 4.0, 25.0, 60.0] {
            w.close(z.sqrt_mean(t), z.mean(t).sqrt(), 1e-15, 1e-13, || key("no vol of vol", t));
        }
        // one step of the truncated Euler scheme, noise recovered from a twin
        let unit = CirProcess { kappa: 0.0, theta: 0.0, gamma: 1.0, sigma_0: 100.0 };
        for seed in [1u64, 77] {
            let mut tw = CirSimulator::new(unit, seed);
            let mut re = CirSimulator::new(p, seed);
            w.check(re.initial_state() == p.sigma_0, || key("simulator start", 0.0), || format!("{}", re.initial_state()));
            let mut x = p.sigma_0;
            for (j, dt) in [1.0 / 365.0, 0.1, 0.5, 1.0, 0.02, 1.0, 1.0, 1.0, 3.0, 10.0, 1e-5, 0.25, 0.25, 0.25, 5.0, 0.1].into_iter().enumerate() {
                let z = (tw.step(&100.0, 0.0, 1.0) - 100.0) / 10.0;
                for st in [if j % 4 == 3 { 2.5 } else { x }] {
                    let s = st.max(0.0);
                    let want = (s + p.kappa * (p.theta - s) * dt + p.gamma * (s * dt).sqrt() * z).max(0.0);
                    let got = re.step(&st, 0.3, dt);
                    w.close(got, want, 1e-13, 1e-11, || key(&format!("simulated step {j} seed {seed}"), dt));
                    x = got;
                }
            }
            // below zero the state is treated as zero
            let z = (tw.step(&100.0, 0.0, 1.0) - 100.0) / 10.0;
            let got = re.step(&-0.01, 0.3, 0.25);
            let _ = z;
            w.close(got, p.kappa * p.theta * 0.25, 1e-14, 1e-11, || key("step from below zero", 0.25));
        }
    });
}

// ------------------------------------------------------------ M07

fn m07(run: &Run) {
    // between 0 and about 1e-3 the closed forms lose digits to cancellation: outside the property
    let ls: &[f64] = run.by(&[0.0, 0.01, 0.03, 0.05, 0.15, 0.3, 0.8, 1.5, 4.0, -0.02][..], &[0.0, 0.001, 0.003, 0.01, 0.02, 0.03, 0.05, 0.08, 0.15, 0.3, 0.5, 0.8, 1.5, 2.5, 4.0, 8.0, -0.01, -0.02, -0.1][..]);
    let es: &[f64] = &[0.0, 0.0005, 0.004, 0.012, 0.05, 0.2];
    let grid: &[f64] = run.by(&[0.0, 0.02, 0.1, 0.5, 1.0, 2.0, 3.5, 7.0, 12.0, 20.0, 30.0, 60.0][..], &[0.0, 1e-3, 0.02, 0.1, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0, 3.0, 3.5, 5.0, 7.0, 10.0, 12.0, 15.0, 20.0, 25.0, 30.0, 40.0, 50.0, 60.0][..]);
    run.dim("lambda", json!(ls));
    run.dim("eta", json!(es));
    run.dim("time_grid", json!(grid));
    run.par(ls.len() * es.len(), |i, w| {
        let h = HullWhite1F { mean_reversion: ls[i % ls.len()], sigma: es[i / ls.len()] };
        let (l, eta) = (h.mean_reversion, h.sigma);
        let nm = format!("lambda={l} eta={eta}");
        let bf = |t: f64, u: f64| if l == 0.0 { -(u - t) } else { expm1(-l * (u - t)) / l };
        for &t in grid {
            for &u in grid {
                w.state(1);
                let key = |s: &str| format!("{s}({t},{u}): {nm}");
                w.close(h.b(t, u), bf(t, u), 1e-13, 1e-12, || key("duration factor"));
                let var = if u > t { eta * eta * simpson(|s| (-2.0 * l * s).exp(), 0.0, u - t, 2000.max((l * 400.0 * (u - t)) as usize)) } else { 0.0 };
                w.close(h.short_rate_variance(t, u), var, 1e-18, 1e-7, || key("short-rate variance"));
                if u < t {
                    w.check(h.short_rate_variance(t, u) == 0.0, || key("no negative variance"), || "".into());
                    continue;
                }
                for &big in grid {
                    let k3 = |s: &str| format!("{s}({t},{u},{big}): {nm}");
                    if big < u {
                        continue;
                    }
                    let o = eta * eta * simpson(|s| bf(s, big).powi(2), t, u, 4000);
                    let Some(g) = w.call(|| k3("bond variance"), || h.bond_log_variance(t, u, big)) else { continue };
                    // the closed form cancels down to lambda^-3 roundings
                    let slack = if l == 0.0 { 0.0 } else { 8e-16 * eta * eta / l.abs().powi(3) };
                    w.close(g, o, 1e-12 + slack, 1e-7, || k3("bond log-variance"));
                    w.trace(1);
                }
                // affine bond: today's curve, maturity, shape in r
                for (p0t, p0u, f0t) in [(1.0, 1.0, 0.0), (0.97, 0.9, 0.031), (1.01, 1.02, -0.004)] {
                    for r in [-0.02, 0.0, 0.03, 0.2] {
                        let ka = |s: &str| format!("{s}({t},{u}) r={r} P={p0t},{p0u} f={f0t}: {nm}");
                        let Some(g) = w.call(|| ka("bond"), || h.discount_affine(t, u, r, p0t, p0u, f0t)) else { continue };
                        let b = bf(t, u);
                        // A = ln(P0T/P0t) - B f - B^2 Var[r(t)]/2 in this sign convention
                        let vr = if l == 0.0 { eta * eta * t } else { eta * eta * -expm1(-2.0 * l * t) / (2.0 * l) };
                        let want = p0u / p0t * (b * (r - f0t) - 0.5 * b * b * vr).exp();
                        w.close(g, want, 1e-13, 1e-10, || ka("affine bond"));
                        if t == u && p0t == p0u {
                            w.close(g, 1.0, 1e-12, 0.0, || ka("a bond at maturity is worth one"));
                        }
                        if t == 0.0 && r == f0t {
                            w.close(g, p0u / p0t, 1e-12, 0.0, || ka("today's bond is on the curve"));
                        }
                        w.trace(1);
                    }
                }
            }
        }
        w.check(crate::fw::guard(|| h.bond_log_variance(2.0, 1.0, 3.0)).is_err(), || format!("reversed interval refused: {nm}"), || "accepted".into());
        // simulation step
        for seed in [5u64, 901] {
            for r0 in [-0.01, 0.04, 0.6] {
                for th in [-0.02, 0.0, 0.05] {
                    for curved in [false, true] {
                        w.state(1);
                        let mut tw = HullWhiteSimulator::new_constant_theta(HullWhite1F { mean_reversion: 0.0, sigma: 1.0 }, 0.0, 0.0, seed);
                        let mut s = HullWhiteSimulator::new_constant_theta(h, r0, th, seed);
                        if curved {
                            s = s.with_theta_fn(move |t| th + 0.01 * t * t);
                        }
                        let key = |x: &str, j: usize| format!("{x} step {j}: {nm} r0={r0} theta={th} curved={curved} seed={seed}");
                        w.check(s.initial_state() == r0, || key("start", 0), || format!("{}", s.initial_state()));
                        let mut x = r0;
                        for (j, (t, dt)) in [(0.0, 0.1), (0.1, 1.0 / 365.0), (0.5, 1.0), (3.0, 0.25), (0.2, 0.01), (5.0, 0.5), (7.0, 0.25), (12.5, 2.0), (29.5, 0.5), (40.0, 5.0), (59.0, 1e-4)].into_iter().enumerate() {
                            let z = tw.step(&0.0, 0.0, 1.0);
                            let target = th + if curved { 0.01 * t * t } else { 0.0 };
                            let want = x + l * (target - x) * dt + eta * dt.sqrt() * z;
                            x = s.step(&x, t, dt);
                            w.close(x, want, 1e-13, 1e-11, || key("short rate", j));
                        }
                        w.trace(1);
                    }
                }
            }
        }
    });
}

#[allow(dead_code)]
pub fn noise_ok(w: &mut Worker<'_>, z: &[f64], key: &str) {
    let n = z.len() as f64;
    let (m, v) = (z.iter().sum::<f64>() / n, z.iter().map(|x| x * x).sum::<f64>() / n);
    w.check(m.abs() < 8.0 / n.sqrt() && (v - 1.0).abs() < 8.0 * (2.0 / n).sqrt(), || format!("unit noise: {key}"), || format!("mean {m} variance {v}"));
}
