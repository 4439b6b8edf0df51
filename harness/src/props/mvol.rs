//! Local volatility, time-dependent SABR and the smile calibrators.
use super::forex::bs;
use super::mcommon::rk4;
use super::mfx::{CORRS, correlate, corr, hagan, hagan_rounding, hestons, re};
use crate::fw::{Run, Worker, close, guard};
use crate::props::Prop;
use chrono::NaiveDate;
use finquant::math::optimize::{Minimum, NelderMeadOptions};
use finquant::models::common::black_scholes::bs_call_forward;
use finquant::models::common::calibration::{Calibration, CalibrationReport};
use finquant::models::common::cir::CirProcess;
use finquant::models::common::simulation::SimulationModel;
use finquant::models::forex::dupire_local_vol::{self, DupireLocalVol};
use finquant::models::forex::fx_fmm::{FmmSide, FxFmmCorrelations, FxFmmParams};
use finquant::models::forex::fx_hhw::FxHhwParams;
use finquant::models::forex::fx_hlmm::{DdSvLmm, FxHlmmCorrelations, FxHlmmParams, LiborTenor};
use finquant::models::forex::market_data::{MarketSmileStrip, smile_strip};
use finquant::models::forex::sabr::{SabrParams, SabrSimulator, SabrState};
use finquant::models::forex::sabr_effective::{PiecewiseConstant, effective_correlation, effective_term_structure, effective_vol_vol};
use finquant::models::forex::sabr_slv::TimeDependentSabrSlvSimulator;
use finquant::models::forex::sabr_time_dependent::{TimeDependentSabrParams, TimeDependentSabrSimulator};
use finquant::models::forex::sabr_time_dependent_calibrator::{PillarTarget, SabrTimeDependentSurfaceCalibrator, calibrate_time_dependent};
use finquant::models::forex::{fx_fmm_calibrator as cfmm, fx_hhw_calibrator as chhw, fx_hlmm_calibrator as chlmm, sabr_calibrator as csabr};
use finquant::models::interestrate::fmm::{FmmTenor, LinearDecay};
use finquant::models::interestrate::hull_white::HullWhite1F;
use serde_json::json;

pub const PROPS: &[Prop] = &[("M13", m13), ("M14", m14), ("M15", m15), ("M16", m16)];

// ------------------------------------------------------------ M13

type Grid = (Vec<f64>, Vec<f64>);
fn grids(spot: f64) -> Vec<Grid> {
    let d: Vec<f64> = (0..=60).map(|i| spot * (0.7 + 0.01 * i as f64)).collect();
    vec![
        (vec![0.1, 0.5, 1.0], [0.8, 1.0, 1.2].iter().map(|x| x * spot).collect()),
        (vec![0.02, 0.05, 0.3, 1.0, 1.2, 3.0], [0.7, 0.8, 0.95, 1.0, 1.02, 1.3, 1.6].iter().map(|x| x * spot).collect()),
        (vec![0.25, 0.27, 0.29, 0.98, 1.0, 1.02, 1.98, 2.0, 2.02], d),
        (vec![1.0, 5.0, 10.0, 30.0], [0.2, 0.5, 0.9, 1.0, 1.5, 3.0, 7.0].iter().map(|x| x * spot).collect()),
        ((0..40).map(|i| 0.05 + 0.1 * i as f64).collect(), [0.97, 1.0, 1.04].iter().map(|x| x * spot).collect()),
        (vec![1.0 / 365.0, 2.0 / 365.0, 7.0 / 365.0, 0.04], (0..25).map(|i| spot * (0.94 + 0.005 * i as f64)).collect()),
    ]
}
/// implied volatility surfaces: flat, term, smile, skew, jagged (arbitrageable), out of the supported band
fn surf(i: usize, t: f64, m: f64, a: usize, b: usize) -> f64 {
    let x = m.ln();
    match i {
        0 => 0.1,
        1 => (0.01 + 0.004 * t).sqrt(),
        2 => 0.09 + 0.4 * x * x,
        3 => 0.15 - 0.2 * x + 0.01 * t,
        4 => if (a + b) % 2 == 0 { 0.3 } else { 0.05 },
        5 => 0.004,
        6 => 3.0,
        7 => 0.6 + 0.3 * x * x / (0.1 + x.abs()),
        _ => (0.3 - 0.05 * t).max(0.02),
    }
}
/// (value, alternative) of the local variance at a grid point, and the relative uncertainty left by cancellation
fn ref_local(g: &Grid, v: &dyn Fn(usize, usize) -> f64, spot: f64, rd: f64, rf: f64, i: usize, j: usize) -> (f64, Option<f64>, f64) {
    let (ts, ks) = g;
    let c = |i: usize, j: usize| bs_call_forward(spot * ((rd - rf) * ts[i]).exp(), ks[j], v(i, j), ts[i], (-rd * ts[i]).exp());
    let (a, b) = (i.saturating_sub(1), (i + 1).min(ts.len() - 1));
    let ct = (c(b, j) - c(a, j)) / (ts[b] - ts[a]);
    let (l, r) = (j.saturating_sub(1), (j + 1).min(ks.len() - 1));
    let ck = (c(i, r) - c(i, l)) / (ks[r] - ks[l]);
    let m = j.clamp(1, ks.len() - 2);
    let (h1, h2) = (ks[m] - ks[m - 1], ks[m + 1] - ks[m]);
    let ckk = 2.0 * (c(i, m + 1) * h1 - c(i, m) * (h1 + h2) + c(i, m - 1) * h2) / (h1 * h2 * (h1 + h2));
    let k = ks[j];
    let (num, den) = (ct + (rd - rf) * k * ck + rf * c(i, j), k * k * ckk);
    let big = c(i, m - 1).max(1e-12 * spot);
    let (en, ed) = (1e-14 * big * (1.0 / (ts[b] - ts[a]) + rd.abs() + rf.abs() + (rd - rf).abs() * k / (ks[r] - ks[l])), 1e-14 * big * k * k / h1.min(h2).powi(2));
    let clamp = |x: f64| x.clamp(0.01 * 0.01, 4.0);
    let (mk, lv) = (clamp(v(i, j).powi(2)), clamp(2.0 * num / den));
    let amb = (den - 1e-8).abs() < ed || num.abs() < en;
    let ok = den > 1e-8 && num > 0.0;
    (if ok { lv } else { mk }, amb.then_some(if ok { mk } else { lv }), if ok { (en / num.abs() + ed / den.abs()).min(1.0) } else { 0.0 })
}
fn toy_td(beta: f64, k: usize) -> TimeDependentSabrParams {
    let (kn, a, r, n): (Vec<f64>, Vec<f64>, Vec<f64>, Vec<f64>) = [
        (vec![0.0, 5.0], vec![0.1], vec![0.0], vec![0.0]),
        (vec![0.0, 5.0], vec![0.12], vec![-0.4], vec![0.5]),
        (vec![0.0, 0.5, 1.0, 5.0], vec![0.1, 0.2, 0.05], vec![-0.3, 0.6, 0.0], vec![0.4, 0.2, 0.8]),
        (vec![0.0, 0.25, 2.0, 5.0], vec![0.2, 0.1, 0.15], vec![0.9, -0.9, 0.3], vec![0.0, 0.0, 0.0]),
        ((0..=10).map(|i| 0.5 * i as f64).collect(), (0..10).map(|i| 0.3 - 0.02 * i as f64).collect(), (0..10).map(|i| 0.95 - 0.19 * i as f64).collect(), (0..10).map(|i| 0.2 * i as f64).collect()),
        (vec![0.0, 0.01, 5.0], vec![0.9, 0.001], vec![0.0, -0.999], vec![2.5, 0.01]),
        ((0..=8).map(|i| 1.5 * i as f64).collect(), (0..8).map(|i| [0.1, 0.22, 0.07][i % 3]).collect(), (0..8).map(|i| [-0.5, 0.3][i % 2]).collect(), (0..8).map(|i| [0.3, 0.1, 0.45][i % 3]).collect()),
        // constant over several segments, then all but constant
        ((0..=6).map(|i| 2.0 * i as f64).collect(), vec![0.11; 6], vec![-0.2; 6], vec![0.3; 6]),
        ((0..=6).map(|i| 2.0 * i as f64).collect(), vec![0.11; 6], vec![-0.2; 6], vec![0.3, 0.3, 0.3, 0.3, 0.3, 0.35]),
        ((0..=6).map(|i| 2.0 * i as f64).collect(), vec![0.11; 6], vec![-0.2, -0.2, -0.2, -0.2, -0.1, -0.2], vec![0.3; 6]),
    ][k]
        .clone();
    let p = |v| PiecewiseConstant::new(kn.clone(), v);
    TimeDependentSabrParams::new(p(a), p(r), p(n), beta, 1.1)
}
/// independent standard normals as the time-dependent SABR family draws them
fn normals(seed: u64, n: usize) -> Vec<f64> {
    let mut t = TimeDependentSabrSimulator::new(TimeDependentSabrParams::new(PiecewiseConstant::constant(9.0, 0.1), PiecewiseConstant::constant(9.0, 0.0), PiecewiseConstant::constant(9.0, 0.1), 1.0, 1.0), seed);
    let mut v = vec![];
    while v.len() < n {
        v.extend(t.step_with_noise(&SabrState { forward: 1.0, vol: 0.1 }, 0.5, 1.0).1);
    }
    v
}
fn pc_at(p: &PiecewiseConstant, t: f64) -> f64 {
    let k = p.knots[1..].iter().position(|x| t <= *x + 1e-12).unwrap_or(p.values.len() - 1);
    p.values[k]
}
fn ref_slv(p: &TimeDependentSabrParams, lv: &dyn Fn(f64, f64) -> f64, bins: usize, te: f64, ns: usize, np: usize, z: &[f64]) -> Vec<(f64, f64)> {
    let dt = te / ns as f64;
    let mut s = vec![(p.forward_0, p.alpha.values[0]); np];
    for n in 0..ns {
        let t = dt * (n as f64 + 0.5);
        let (r, nu) = (pc_at(&p.rho, t), pc_at(&p.nu, t));
        let mut order: Vec<usize> = (0..np).collect();
        order.sort_by(|a, b| s[*a].0.partial_cmp(&s[*b].0).unwrap());
        let size = np.div_ceil(bins);
        let means: Vec<(f64, f64)> = order.chunks(size).map(|c| (s[c[c.len() - 1]].0, c.iter().map(|i| s[*i].1.powi(2)).sum::<f64>() / c.len() as f64)).collect();
        for i in 0..np {
            let (z1, z2) = (z[2 * (n * np + i)], z[2 * (n * np + i) + 1]);
            let (f, v) = (s[i].0.max(1e-12), s[i].1);
            let e = means.iter().find(|m| f <= m.0).unwrap_or(&means[means.len() - 1]).1;
            let comp = (lv(t, f) / (e * f.powf(2.0 * p.beta - 2.0)).max(1e-12)).sqrt();
            let wa = dt.sqrt() * (r * z1 + (1.0 - r * r).sqrt() * z2);
            s[i] = ((f + comp * v * f.powf(p.beta) * dt.sqrt() * z1).max(0.0), v * (nu * wa - 0.5 * nu * nu * dt).exp());
        }
    }
    s
}
fn m13(run: &Run) {
    let spots = [1.1, 150.0, 0.0067, 1.0, 41000.0];
    let rates = [(0.0, 0.0), (0.03, 0.01), (-0.005, 0.04), (0.25, 0.0), (0.0, 0.3), (0.07, 0.07), (0.01, -0.03), (-0.04, -0.02)];
    let ng = grids(1.0).len();
    run.dim("spots", json!(spots));
    run.dim("rates", json!(rates));
    run.dim("grids", ng);
    run.dim("surfaces", 9);
    run.par(5 * 8 * ng * 9, |ix, w| {
        let (spot, (rd, rf), gi, si) = (spots[ix % 5], rates[ix / 5 % 8], ix / 40 % ng, ix / 40 / ng);
        let g = &grids(spot)[gi];
        let v: Vec<Vec<f64>> = (0..g.0.len()).map(|i| (0..g.1.len()).map(|j| surf(si, g.0[i], g.1[j] / spot, i, j)).collect()).collect();
        let key = |s: &str| format!("{s}: spot {spot} rates {rd},{rf} grid {gi} surface {si}");
        let Some(lv) = w.call(|| key("build"), || dupire_local_vol::build(&g.0, &g.1, &v, spot, rd, rf)) else { return };
        w.check(lv.expiries == g.0 && lv.strikes == g.1 && lv.t_range() == (g.0[0], g.0[g.0.len() - 1]) && lv.k_range() == (g.1[0], g.1[g.1.len() - 1]), || key("grid kept"), || "".into());
        for i in 0..g.0.len() {
            for j in 0..g.1.len() {
                w.state(1);
                let key = |s: &str| key(&format!("{s} at {i},{j}"));
                let (a, alt, un) = ref_local(g, &|i, j| v[i][j], spot, rd, rf, i, j);
                let x = lv.variance[i][j];
                let tol = 1e-8 + 10.0 * un;
                if tol < 0.1 {
                    w.check(close(x, a, 1e-13, tol) || alt.is_some_and(|b| close(x, b, 1e-13, tol)), || key("local variance"), || format!("{x} expected {a} or {alt:?}"));
                }
                w.check((1e-4 * (1.0 - 1e-12)..=4.0).contains(&x), || key("local variance within the band"), || format!("{x}"));
                w.close(lv.local_variance(g.0[i], g.1[j]), x, 0.0, 1e-11, || key("at the node"));
                w.close(lv.local_vol(g.0[i], g.1[j]), x.sqrt(), 0.0, 1e-11, || key("volatility at the node"));
                // bilinear in between, flat outside
                if i + 1 < g.0.len() && j + 1 < g.1.len() {
                    for (p, q) in [(0.5, 0.5), (0.25, 0.9), (0.0, 0.3), (0.7, 0.0), (1.0, 0.4)] {
                        let (t, k) = (g.0[i] + p * (g.0[i + 1] - g.0[i]), g.1[j] + q * (g.1[j + 1] - g.1[j]));
                        let z = &lv.variance;
                        let e = (1.0 - p) * ((1.0 - q) * z[i][j] + q * z[i][j + 1]) + p * ((1.0 - q) * z[i + 1][j] + q * z[i + 1][j + 1]);
                        w.close(lv.local_variance(t, k), e, 1e-14, 1e-9, || key("between nodes"));
                    }
                }
                let far = 10.0 * spot;
                for (t, k, e) in [(-1.0, g.1[j], lv.variance[0][j]), (99.0, g.1[j], lv.variance[g.0.len() - 1][j]), (g.0[i], 0.0, lv.variance[i][0]), (g.0[i], far, lv.variance[i][g.1.len() - 1]), (0.0, 0.0, lv.variance[0][0])] {
                    w.close(lv.local_variance(t, k), e, 0.0, 1e-11, || key("outside the grid"));
                }
                // a strike-independent surface: the forward variance
                if gi == 2 && si <= 1 && i % 3 == 1 && j > 0 && j + 1 < g.1.len() {
                    let f = spot * ((rd - rf) * g.0[i]).exp();
                    let sd = v[i][j] * g.0[i].sqrt();
                    if (g.1[j] / f).ln().abs() < sd {
                        let e = if si == 0 { 0.01 } else { 0.01 + 0.008 * g.0[i] };
                        w.close(x, e, 0.0, 0.02, || key("strike-independent surface"));
                    }
                }
            }
        }
        w.trace(1);
    });
    run.seq(|w| {
        let (t, k) = (vec![0.1, 0.5, 1.0], vec![0.9, 1.0, 1.1]);
        let v = vec![vec![0.1; 3]; 3];
        let bad: Vec<(&str, Vec<f64>, Vec<f64>, Vec<Vec<f64>>, f64)> = vec![
            ("two expiries", vec![0.1, 0.5], k.clone(), vec![vec![0.1; 3]; 2], 1.0),
            ("two strikes", t.clone(), vec![0.9, 1.0], vec![vec![0.1; 2]; 3], 1.0),
            ("rows", t.clone(), k.clone(), vec![vec![0.1; 3]; 2], 1.0),
            ("columns", t.clone(), k.clone(), vec![vec![0.1; 3], vec![0.1; 2], vec![0.1; 3]], 1.0),
            ("expiries unsorted", vec![0.1, 0.5, 0.5], k.clone(), v.clone(), 1.0),
            ("strikes unsorted", t.clone(), vec![1.0, 0.9, 1.1], v.clone(), 1.0),
            ("no spot", t.clone(), k.clone(), v.clone(), 0.0),
        ];
        for (s, t, k, v, f) in bad {
            w.state(1);
            w.check(guard(|| dupire_local_vol::build(&t, &k, &v, f, 0.0, 0.0).variance.len()).is_err(), || format!("{s} refused"), || "accepted".into());
        }
    });
    // stochastic local volatility on top
    let lvs: Vec<DupireLocalVol> = vec![
        DupireLocalVol { expiries: vec![0.1, 0.5, 2.0], strikes: vec![0.5, 1.0, 2.0], variance: vec![vec![0.01; 3]; 3] },
        DupireLocalVol { expiries: vec![0.1, 0.5, 2.0], strikes: vec![0.9, 1.1, 1.4], variance: vec![vec![0.02, 0.01, 0.03], vec![0.015, 0.012, 0.02], vec![0.05, 0.01, 0.04]] },
        DupireLocalVol { expiries: vec![0.1, 0.5, 2.0], strikes: vec![0.9, 1.1, 1.4], variance: vec![vec![4e-6, 1e-6, 9e-6], vec![1e-4, 2.25, 1.0], vec![3e-6, 2e-6, 1e-6]] },
    ];
    let shape = [(1, 1, 2), (7, 3, 2), (40, 5, 5), (101, 8, 50), (23, 4, 7), (1000, 6, 20), (3, 200, 2), (257, 30, 100), (300, 5, 200), (30, 5, 50), (2, 3, 9)];
    let seeds = run.by(4, 24);
    run.dim("slv_runs", json!(lvs.len() * 7 * 5 * shape.len() * seeds));
    run.par(lvs.len() * 7 * 5 * shape.len(), |ix, w| {
        let (li, pk, bi, si) = (ix % lvs.len(), ix / lvs.len() % 7, ix / 7 / lvs.len() % 5, ix / 35 / lvs.len());
        let beta = [1.0, 0.5, 0.2, 0.0, 0.95][bi];
        let (np, ns, bins) = shape[si];
        let p = toy_td(beta, pk);
        for sd in 0..seeds {
            let seed = 17 + sd as u64;
            let te = [0.8, 2.0, if pk == 6 { 11.0 } else { 4.9 }, 0.02][sd % 4];
            w.state(1);
            let key = |s: &str| format!("{s}: local volatility {li} parameters {pk} beta {beta} shape {si} seed {seed}");
            let sim = TimeDependentSabrSlvSimulator::new(p.clone(), lvs[li].clone(), seed);
            w.check(sim.n_bins == 50, || key("default bins"), || format!("{}", sim.n_bins));
            let mut sim = sim.with_bins(bins);
            let Some(out) = w.call(|| key("simulate"), || sim.simulate(te, ns, np)) else { continue };
            let z = normals(seed, 2 * np * ns);
            let l = |t: f64, f: f64| lvs[li].local_variance(t, f);
            let e = ref_slv(&p, &l, bins, te, ns, np, &z);
            w.check(out.len() == np && out.iter().zip(&e).all(|(a, b)| close(a.forward, b.0, 1e-12, 1e-9) && close(a.vol, b.1, 1e-12, 1e-9)), || key("paths"), || format!("{:?} expected {:?}", &out[0], &e[0]));
            w.trans((np * ns) as u64);
            if p.nu.values.iter().all(|n| *n == 0.0) {
                // no volatility of volatility: pure local volatility whatever the other parameters
                let dt = te / ns as f64;
                let ok = out.iter().enumerate().all(|(i, o)| {
                    let mut f = p.forward_0;
                    for n in 0..ns {
                        f = (f * (1.0 + l(dt * (n as f64 + 0.5), f).sqrt() * dt.sqrt() * z[2 * (n * np + i)])).max(0.0);
                    }
                    close(o.forward, f, 1e-11, 1e-8)
                });
                w.check(ok, || key("pure local volatility"), || format!("{:?}", out[0]));
            }
            w.trace(1);
        }
    });
    run.seq(|w| {
        let s = || TimeDependentSabrSlvSimulator::new(toy_td(0.5, 1), lvs[0].clone(), 1);
        for n in [0, 1] {
            w.check(guard(|| s().with_bins(n).n_bins).is_err(), || format!("{n} bins refused"), || "accepted".into());
        }
        for (t, a, b) in [(0.0, 1, 1), (1.0, 0, 1), (1.0, 1, 0)] {
            w.check(guard(|| s().simulate(t, a, b).len()).is_err(), || format!("simulation {t},{a},{b} refused"), || "accepted".into());
        }
    });
}

// ------------------------------------------------------------ M14

/// I and the double integral of the second moment, by Runge-Kutta over the schedule up to the expiry
fn moments(kn: &[f64], ga: &[f64], om: &[f64], t: f64) -> (f64, f64) {
    let mut y = [re(0.0); 3];
    let mut g0 = 0.0;
    for k in 0..ga.len() {
        if kn[k + 1] > t + 1e-9 {
            break;
        }
        let (g2, o2, a, b) = (ga[k] * ga[k], om[k] * om[k], kn[k], kn[k + 1]);
        y = rk4(y, a, b, 400 + (400.0 * g2 * (b - a)) as usize, |s, y| {
            let g = g0 + g2 * (s - a);
            [re(o2 * g.exp()), re(o2 * (5.0 * g).exp()), y[1] * (o2 * g.exp())]
        });
        g0 += g2 * (b - a);
    }
    (y[0].re, y[2].re)
}
/// second moment over squared first moment of a constant schedule, x = vol-of-vol squared times time
fn ratio(x: f64) -> f64 {
    let (mut n, mut d) = (0.0, 0.0);
    if x < 2.0 {
        let (mut p6, mut p1) = (1.0, 1.0);
        for k in 1..60 {
            p6 *= 6.0 * x / k as f64;
            p1 *= x / k as f64;
            d += p1;
            if k > 1 {
                n += p6 / 6.0 - p1;
            }
        }
    } else {
        n = (6.0 * x).exp() / 6.0 - x.exp() + 5.0 / 6.0;
        d = x.exp() - 1.0;
    }
    n / (5.0 * d * d)
}
fn vol_vol(i: f64, l: f64, t: f64) -> f64 {
    let r = l / (i * i);
    if r <= 0.5 {
        return 0.0;
    }
    let (mut a, mut b) = (0.0, 1.0);
    while ratio(b) < r {
        b *= 2.0;
    }
    for _ in 0..200 {
        let m = 0.5 * (a + b);
        if m > 0.0 && ratio(m) > r {
            b = m;
        } else {
            a = m;
        }
    }
    (0.5 * (a + b) / t).sqrt()
}
fn m14(run: &Run) {
    let kns = [vec![0.0, 1.0], vec![0.0, 0.5, 1.0], vec![0.0, 0.25, 1.0, 2.0], vec![0.0, 1.0 / 12.0, 0.5, 1.0, 2.0, 3.0], (0..=12).map(|i| 0.25 * i as f64).collect(), vec![0.0, 2.0 / 365.0, 7.0 / 365.0], vec![0.0, 5.0, 10.0, 20.0]];
    let gas: Vec<Vec<f64>> = vec![vec![0.3], vec![0.0], vec![0.8, 0.2], vec![0.05, 0.6, 0.3], vec![0.0, 0.5], vec![0.5, 0.0], vec![0.004, 0.002], vec![1.2, 0.9, 0.5, 0.3], vec![1.3], vec![2.3, 2.6], vec![3.1]];
    let oms: Vec<Vec<f64>> = vec![vec![0.1], vec![0.1, 0.15], vec![0.3, 0.05, 0.12], vec![1.5, 2.0]];
    let rhs: Vec<Vec<f64>> = vec![vec![-0.4], vec![0.5, -0.5, 0.1], vec![0.0]];
    run.dim("schedules", kns.len() * gas.len() * oms.len() * rhs.len());
    let cyc = |v: &[f64], n: usize| -> Vec<f64> { (0..n).map(|i| v[i % v.len()]).collect() };
    run.par(kns.len() * gas.len() * oms.len(), |ix, w| {
        let (ki, gi, oi) = (ix % kns.len(), ix / kns.len() % gas.len(), ix / kns.len() / gas.len());
        let kn = &kns[ki];
        let n = kn.len() - 1;
        let (ga, om) = (cyc(&gas[gi], n), cyc(&oms[oi], n));
        // very high levels overflow over long horizons
        if ga[0] > 2.0 && kn[n] > 3.0 {
            return;
        }
        let pg = PiecewiseConstant::new(kn.clone(), ga.clone());
        let po = PiecewiseConstant::new(kn.clone(), om.clone());
        for i in 1..=n {
            let t = kn[i];
            w.state(1);
            let key = |s: &str| format!("{s}: knots {ki} vol-of-vol {gi} volatility {oi} T={t}");
            let (im, lm) = moments(kn, &ga, &om, t);
            let Some(g) = w.call(|| key("effective vol of vol"), || effective_vol_vol(&pg, &po, t)) else { continue };
            let Some(o) = w.call(|| key("effective volatility"), || effective_term_structure(&pg, &po, t)) else { continue };
            let e = vol_vol(im, lm, t);
            let zero = ga[..i].iter().all(|x| *x == 0.0);
            w.check((g * g - e * e).abs() <= 1e-8 + 1e-5 * e * e && (!zero || g == 0.0), || key("effective vol of vol"), || format!("{g} expected {e}"));
            let eo = if g * g * t < 1e-9 { (im / t).sqrt() } else { (g * g * im / (g * g * t).exp_m1()).sqrt() };
            w.close(o, eo, 0.0, 1e-6, || key("effective volatility"));
            // the constant schedule has the same first two moments
            let (ic, lc) = moments(&[0.0, t], &[g], &[o], t);
            w.close(ic, im, 0.0, 1e-6, || key("first moment"));
            w.close(lc, lm, 0.0, 1e-5, || key("second moment"));
            if ga[..i].iter().all(|x| *x == ga[0]) && om[..i].iter().all(|x| *x == om[0]) {
                w.close(g * g, ga[0] * ga[0], 1e-11, 1e-7, || key("constant vol of vol kept"));
                w.close(o, om[0], 0.0, 1e-7, || key("constant volatility kept"));
            }
            for (ri, r) in rhs.iter().enumerate() {
                let rv = cyc(r, n);
                let key = |s: &str| key(&format!("{s} {ri}"));
                let Some(x) = w.call(|| key("effective correlation"), || effective_correlation(&pg, &po, &PiecewiseConstant::new(kn.clone(), rv.clone()), t)) else { continue };
                if zero {
                    w.check(x == 0.0, || key("correlation without vol of vol"), || format!("{x}"));
                    continue;
                }
                let s: f64 = (0..i).map(|k| rv[k] * ga[k] / om[k] * (kn[k + 1] - kn[k])).sum();
                w.close(x, o / (g * t) * s, 1e-12, 1e-9, || key("effective correlation"));
                if ga[..i].iter().all(|x| *x == ga[0]) && om[..i].iter().all(|x| *x == om[0]) && rv.iter().all(|x| *x == rv[0]) {
                    w.close(x, rv[0], 1e-9, 1e-4, || key("constant correlation kept"));
                }
            }
            w.trace(1);
        }
        // piecewise constants
        let mut ts = vec![];
        for k in kn {
            ts.extend([*k, k - 1e-6, k + 1e-6, k + 0.04]);
        }
        for t in ts {
            if t >= 0.0 && t <= kn[n] {
                let e = if t <= 0.0 { ga[0] } else { ga[kn[1..].iter().position(|x| t <= *x).unwrap()] };
                w.check(pg.at(t) == e, || format!("value at {t} of schedule {ki} {gi}"), || format!("{} expected {e}", pg.at(t)));
            } else {
                w.check(guard(|| pg.at(t)).is_err(), || format!("value at {t} of schedule {ki} refused"), || "accepted".into());
            }
        }
        w.check(pg.n_segments() == n && pg.final_time() == kn[n], || format!("schedule {ki} size"), || "".into());
    });
    // simulation
    let seeds = run.by(12u64, 120);
    let pats: Vec<Vec<f64>> = vec![vec![0.25; 12], vec![0.1; 20], vec![0.5, 0.5, 0.25, 0.75, 2.0], vec![0.3, 0.4, 0.05, 0.9, 1.2], vec![1.0 / 64.0; 70], vec![4.9], vec![1.0 / 365.0; 300], vec![1.5005, 1.5, 1.4999, 2.0, 3.0, 2.4995], vec![1.0; 12]];
    run.dim("step_patterns", pats.len());
    run.dim("seeds", seeds);
    run.par(10 * 5 * pats.len(), |ix, w| {
        let (pk, bi, pi) = (ix % 10, ix / 10 % 5, ix / 50);
        let beta = [1.0, 0.5, 0.0, 0.2, 0.9][bi];
        let p = toy_td(beta, pk);
        let flat = [&p.alpha, &p.rho, &p.nu].iter().all(|v| v.values.iter().all(|x| *x == v.values[0]));
        let left = |v: &PiecewiseConstant, t: f64| v.values[v.knots[1..].iter().position(|x| t <= *x + 1e-8).unwrap_or(v.values.len() - 1)];
        for s in 0..seeds {
            let seed = 400 + s;
            let key = |s: &str, n: usize| format!("{s}: parameters {pk} beta {beta} pattern {pi} seed {seed} step {n}");
            let mut sim = TimeDependentSabrSimulator::new(p.clone(), seed);
            let mut con = SabrSimulator::new(SabrParams::new(p.alpha.values[0], beta, p.rho.values[0], p.nu.values[0]), p.forward_0, seed);
            let z = normals(seed, 2 * pats[pi].len());
            let mut x = sim.initial_state();
            w.check(x.forward == p.forward_0 && x.vol == p.alpha.values[0], || key("start", 0), || format!("{x:?}"));
            let mut c = con.initial_state();
            let (mut t, mut xi) = (0.0, 1.0);
            for (n, dt) in pats[pi].iter().copied().enumerate() {
                if t + dt > p.horizon() {
                    break;
                }
                w.state(1);
                let mid = t + 0.5 * dt;
                let pm = p.at(mid);
                w.check(pm.alpha == pc_at(&p.alpha, mid) && pm.rho == pc_at(&p.rho, mid) && pm.nu == pc_at(&p.nu, mid) && pm.beta == beta, || key("parameters in force", n), || format!("{pm:?}"));
                let dw = correlate(&[vec![1.0], vec![pm.rho, (1.0 - pm.rho * pm.rho).sqrt()]], &z[2 * n..2 * n + 2], dt);
                let f = (x.forward + pc_at(&p.alpha, mid) * xi * x.forward.powf(beta) * dw[0]).max(0.0);
                xi *= (pm.nu * dw[1] - 0.5 * pm.nu * pm.nu * dt).exp();
                let y = if n % 2 == 0 {
                    let (y, d) = sim.step_with_noise(&x, mid, dt);
                    w.check(close(d[0], dw[0], 1e-14, 1e-12) && close(d[1], dw[1], 1e-14, 1e-12), || key("increments", n), || format!("{d:?} expected {dw:?}"));
                    y
                } else {
                    SimulationModel::step(&mut sim, &x, mid, dt)
                };
                t += dt;
                w.trans(1);
                w.close(y.forward, f, 1e-13, 1e-10, || key("forward", n));
                w.close(y.vol, left(&p.alpha, t) * xi, 1e-13, 1e-10, || key("volatility follows its schedule", n));
                if flat {
                    c = con.step_with_noise(&c, dt).0;
                    w.check(close(y.forward, c.forward, 1e-13, 1e-10) && close(y.vol, c.vol, 1e-13, 1e-10), || key("flat schedule is constant SABR", n), || format!("{y:?} {c:?}"));
                }
                x = y;
            }
            // whole paths
            let (te, ns, np) = ([2.0, 1.3][s as usize % 2], 5, 3);
            let out = TimeDependentSabrSimulator::new(p.clone(), seed).simulate(te, ns, np);
            let mut b = TimeDependentSabrSimulator::new(p.clone(), seed);
            let mut ok = out.len() == np;
            for o in &out {
                let mut x = b.initial_state();
                for n in 0..ns {
                    let dt = te / ns as f64;
                    x = b.step_with_noise(&x, dt * (n as f64 + 0.5), dt).0;
                }
                ok &= close(x.forward, o.forward, 1e-12, 1e-10) && close(x.vol, o.vol, 1e-12, 1e-10);
            }
            w.check(ok, || key("simulated paths", 0), || format!("{out:?}"));
            let r = TimeDependentSabrSimulator::new(p.clone(), seed).reduces_to_constant();
            w.check(r.is_some() == flat, || key("reduces to constant", 0), || format!("{}", r.is_some()));
            if let Some(r) = r {
                w.check(r.params == SabrParams::new(p.alpha.values[0], beta, p.rho.values[0], p.nu.values[0]) && r.forward_0 == p.forward_0, || key("constant parameters", 0), || format!("{:?}", r.params));
            }
            w.check(p.horizon() == if pk >= 6 { 12.0 } else { 5.0 }, || key("horizon", 0), || format!("{}", p.horizon()));
            w.trace(1);
        }
    });
    run.seq(|w| {
        for (n, (k, v)) in [(vec![0.0], vec![]), (vec![0.0, 1.0], vec![1.0, 2.0]), (vec![0.1, 1.0], vec![1.0]), (vec![0.0, 1.0, 1.0], vec![1.0, 2.0]), (vec![0.0, 1.0, 0.5], vec![1.0, 2.0])].into_iter().enumerate() {
            w.state(1);
            w.check(guard(|| PiecewiseConstant::new(k, v)).is_err(), || format!("bad schedule {n} refused"), || "accepted".into());
        }
        let c = PiecewiseConstant::constant;
        let two = |v: f64| PiecewiseConstant::new(vec![0.0, 1.0, 2.0], vec![0.1, v]);
        let bad = vec![
            ("knots differ", c(1.0, 0.1), c(2.0, 0.0), c(1.0, 0.1), 0.5, 1.0),
            ("knots of vol of vol differ", c(1.0, 0.1), c(1.0, 0.0), c(2.0, 0.1), 0.5, 1.0),
            ("zero volatility", two(0.0), two(0.2), two(0.1), 0.5, 1.0),
            ("negative vol of vol", two(0.1), two(0.2), two(-0.1), 0.5, 1.0),
            ("correlation one", two(0.1), two(1.0), two(0.1), 0.5, 1.0),
            ("correlation minus one", two(0.1), two(-1.0), two(0.1), 0.5, 1.0),
            ("beta above one", two(0.1), two(0.2), two(0.1), 1.1, 1.0),
            ("beta negative", two(0.1), two(0.2), two(0.1), -0.1, 1.0),
            ("no forward", two(0.1), two(0.2), two(0.1), 0.5, 0.0),
        ];
        for (s, a, r, n, b, f) in bad {
            w.state(1);
            w.check(guard(|| TimeDependentSabrParams::new(a, r, n, b, f).beta).is_err(), || format!("{s} refused"), || "accepted".into());
        }
        w.check(guard(|| effective_vol_vol(&two(0.3), &two(0.2), 1.5)).is_err(), || "expiry off the knots refused".into(), || "accepted".into());
        w.check(guard(|| effective_vol_vol(&two(0.3), &c(2.0, 0.2), 2.0)).is_err(), || "different knots refused".into(), || "accepted".into());
        w.check(guard(|| effective_correlation(&two(0.3), &two(0.3), &c(2.0, 0.2), 2.0)).is_err(), || "different correlation knots refused".into(), || "accepted".into());
        w.check(guard(|| effective_correlation(&two(0.3), &two(0.0), &two(0.2), 2.0)).is_err(), || "zero volatility has no correlation".into(), || "accepted".into());
    });
}

// ------------------------------------------------------------ M15

fn opt(n: usize) -> NelderMeadOptions {
    NelderMeadOptions { max_iter: n, ftol: 1e-12, xtol: 1e-10, step_frac: 0.05 }
}
struct Fit<'a, P> {
    name: String,
    seed: P,
    strikes: Vec<f64>,
    expiry: f64,
    ivs: &'a dyn Fn(&P) -> Vec<Option<f64>>,
    fit: &'a dyn Fn(&P, &[f64], NelderMeadOptions) -> (P, f64, Minimum),
    via: &'a dyn Fn(&P, &MarketSmileStrip, NelderMeadOptions) -> CalibrationReport<P>,
    /// the seed with the free parameters of the argument
    free: &'a dyn Fn(&P) -> P,
    /// the free parameters
    arr: &'a dyn Fn(&P) -> Vec<f64>,
    /// domain of the fitted parameters
    inside: &'a dyn Fn(&P) -> bool,
    /// where the search starts when the seed is outside the domain
    start: Option<P>,
}
fn rmse(a: &[Option<f64>], b: &[f64]) -> Option<f64> {
    let mut s = 0.0;
    for (x, y) in a.iter().zip(b) {
        s += ((*x)? - y).powi(2);
    }
    Some((s / b.len() as f64).sqrt())
}
fn fit_case<P: Clone + PartialEq + std::fmt::Debug>(w: &mut Worker<'_>, f: &Fit<'_, P>, targets: &[(&str, Vec<f64>)], iters: &[usize]) {
    let own: Vec<Option<f64>> = (f.ivs)(&f.seed);
    let mut all: Vec<(&str, Vec<f64>)> = targets.to_vec();
    if own.iter().all(|x| x.is_some()) && f.start.is_none() {
        all.push(("own smile", own.iter().map(|x| x.unwrap()).collect()));
    }
    for (tn, tv) in &all {
        for &n in iters {
            w.state(1);
            let key = |s: &str| format!("{s}: {} target {tn} iterations {n}", f.name);
            let Some((p, r, m)) = w.call(|| key("calibrate"), || (f.fit)(&f.seed, tv, opt(n))) else { continue };
            w.trans(m.iterations as u64);
            w.check((f.free)(&p) == p, || key("fixed parameters untouched"), || format!("{p:?}"));
            w.check((f.inside)(&p), || key("parameters inside their domain"), || format!("{p:?}"));
            w.check(m.iterations <= n, || key("iteration budget"), || format!("{}", m.iterations));
            let got = rmse(&(f.ivs)(&p), tv);
            match got {
                Some(g) => {
                    w.close(r, g, 1e-9, 1e-6, || key("reported error is the model's error"));
                    // never worse than where the search starts
                    if let Some(s) = rmse(&(f.ivs)(f.start.as_ref().unwrap_or(&f.seed)), tv) {
                        w.check(g <= s * (1.0 + 1e-6) + 1e-7, || key("no worse than the seed"), || format!("{g} from {s}"));
                    }
                }
                None => {
                    w.check(r >= 100.0, || key("unpriceable fit flagged"), || format!("{r}"));
                }
            }
            if *tn == "own smile" {
                w.check(r < 1e-6, || key("the seed's own smile"), || format!("{r}"));
            }
            let strip = MarketSmileStrip { expiry_yf: f.expiry, forward: 1.1, strikes: f.strikes.clone(), vols: tv.clone() };
            if let Some(rep) = w.call(|| key("calibrate through the pipeline"), || (f.via)(&f.seed, &strip, opt(n))) {
                let same = (f.arr)(&rep.params).iter().zip((f.arr)(&p)).all(|(a, b)| close(*a, b, 1e-12, 1e-9));
                w.check(same && (f.free)(&rep.params) == rep.params && close(rep.rmse, r, 1e-12, 1e-9) && rep.optimiser.as_ref().is_some_and(|o| o.iterations == m.iterations), || key("pipeline gives the same fit"), || format!("{:?}", rep.params));
            }
            w.trace(1);
        }
    }
}
fn heston_arr(h: &CirProcess, rho: f64) -> Vec<f64> {
    vec![h.kappa, h.gamma, h.theta, h.sigma_0, rho]
}
fn m15(run: &Run) {
    let iters: &[usize] = run.by(&[0, 8][..], &[0, 5, 25, 60][..]);
    run.dim("iteration_budgets", json!(iters));
    let ms = [-1.2, -0.5, 0.0, 0.5, 1.2];
    let smiles = |ms: &[f64], v: f64| -> Vec<(&'static str, Vec<f64>)> {
        vec![("smile", ms.iter().map(|m| v * (1.0 + 0.04 * m * m - 0.03 * m)).collect()), ("skew", ms.iter().map(|m| v * (1.1 - 0.12 * m)).collect())]
    };
    // SABR
    let sab: [(f64, f64, f64, f64); 6] = [(0.1, 0.5, -0.2, 0.3), (0.08, 1.0, 0.0, 0.6), (0.3, 0.0, 0.4, 0.1), (0.12, 0.5, -0.9995, 0.4), (0.1, 1.0, -0.3, 0.0), (0.15, 0.8, 0.6, 1.5)];
    let exps: [f64; 5] = [0.1, 1.0, 3.0, 0.02, 10.0];
    run.dim("sabr_seeds", sab.len());
    run.dim("expiries", json!(exps));
    let mss: [&[f64]; 4] = [&ms, &[-1.0, 0.0, 1.0], &[-1.6, -1.2, -0.8, -0.4, -0.1, 0.2, 0.5, 0.9, 1.3], &[-1.5, -1.3, -1.1, -0.9, -0.7, -0.5, -0.3, -0.1, 0.1, 0.3, 0.5, 0.7, 0.9, 1.1, 1.3, 1.5]];
    run.par(sab.len() * exps.len() * 4 * 4, |ix, w| {
        let ms = mss[ix / 120];
        let ((a, b, r, n), t, fwd): ((f64, f64, f64, f64), f64, f64) = (sab[ix % 6], exps[ix / 6 % 5], [1.1, 0.9, 150.0, 0.007][ix / 30 % 4]);
        let seed = SabrParams::new(a, b, r, n);
        let sd = 0.1 * t.sqrt();
        let ks: Vec<f64> = ms.iter().map(|m| fwd * (m * sd).exp()).collect();
        // targets scaled to the pipeline's forward when it differs
        let f = Fit {
            name: format!("SABR {seed:?} F={fwd} T={t} strikes {}", ms.len()),
            seed,
            strikes: ks.clone(),
            expiry: t,
            ivs: &|p| csabr::model_implied_vols(p, fwd, t, &ks).into_iter().map(Some).collect(),
            fit: &|p, v, o| { let r = csabr::calibrate(*p, fwd, &csabr::targets_from_grid(&ks, v), t, o); (r.params, r.rmse, r.optimiser) },
            via: &|p, s, o| csabr::SabrSmileCalibrator { initial: *p }.calibrate(&MarketSmileStrip { forward: fwd, ..s.clone() }, o).unwrap(),
            free: &|p| SabrParams { beta: b, ..*p },
            arr: &|p| vec![p.alpha, p.rho, p.nu],
            inside: &|p| p.alpha > 0.0 && p.nu >= 0.0 && p.rho.abs() < 1.0,
            start: (r.abs() > 0.999 || n == 0.0).then(|| SabrParams { alpha: a, beta: b, rho: r.clamp(-0.999, 0.999), nu: n.max(1e-8) }),
        };
        let iv = csabr::model_implied_vols(&seed, fwd, t, &ks);
        for (k, v) in ks.iter().zip(&iv) {
            w.close(*v, hagan(a, b, r, n, fwd, *k, t), 1e-12, 1e-6 + hagan_rounding(a, b, r, n, fwd, *k), || format!("{}: model volatility at {k}", f.name));
        }
        let mut tg = smiles(ms, 0.1);
        let truth = SabrParams::new(a * 1.1, b, (r * 0.8).clamp(-0.95, 0.95), n * 0.9 + 0.05);
        tg.push(("nearby model", csabr::model_implied_vols(&truth, fwd, t, &ks)));
        fit_case(w, &f, &tg, iters);
        // recovery of a nearby model with a generous budget
        let r = csabr::calibrate(seed, fwd, &csabr::targets_from_grid(&ks, &tg[2].1), t, opt(2000));
        if f.start.is_none() {
            w.check(r.rmse < 2e-5 * tg[2].1.iter().fold(1.0, |a: f64, b| a.max(10.0 * b)), || format!("{}: nearby model recovered", f.name), || format!("{} {:?}", r.rmse, r.params));
        }
    });
    // Heston-type models
    let hs = hestons();
    run.dim("heston_seeds", 3);
    let exps: &[f64] = run.by(&[0.25, 1.0][..], &[0.25, 1.0, 2.0][..]);
    run.par(3 * exps.len() * 4 * 2, |ix, w| {
        let (hi, t, kind, var) = (ix % 3, exps[ix / 3 % exps.len()], ix / 3 / exps.len() % 4, ix / 3 / exps.len() / 4);
        let h = hs[hi];
        let floor = [0.3, 2.0][var]; // the second makes some seeds start below the floor
        let below = h.kappa - floor < 1e-8;
        let sd = (h.sigma_0.max(h.theta) * t).sqrt();
        let ms: Vec<f64> = if var == 1 { vec![-1.8, -1.2, -0.5, 0.0, 0.5, 1.2, 1.8, 2.4] } else { ms.to_vec() };
        let strikes = |fwd: f64| -> Vec<f64> { ms.iter().map(|m| fwd * (m * sd).exp()).collect() };
        let v = h.sigma_0.max(h.theta).sqrt();
        let moved = |h: &CirProcess| CirProcess { kappa: h.kappa.max(floor + 0.1) * 1.05, theta: h.theta * 1.1, gamma: h.gamma * 0.9, sigma_0: h.sigma_0 * 1.05 };
        let started = |h: &CirProcess| CirProcess { kappa: h.kappa.max(floor + 1e-8), ..*h };
        if kind < 2 {
            let seed = FxHhwParams {
                fx_0: 1.1,
                heston: h,
                domestic: HullWhite1F { mean_reversion: 0.05, sigma: 0.007 },
                foreign: HullWhite1F { mean_reversion: 0.1, sigma: 0.01 },
                rd_0: 0.02,
                rf_0: 0.035,
                theta_d: 0.02,
                theta_f: 0.035,
                correlations: corr(&CORRS[1 + hi % 2]),
            };
            let cap = (kind == 1).then_some([0.28, 0.5][var]);
            let fwd = 1.1 * (-0.015 * t).exp();
            let ks = strikes(fwd);
            let capped = cap.is_some_and(|c| h.gamma >= c);
            let f = Fit {
                name: format!("FX-HHW heston {hi} T={t} floor {floor} cap {cap:?}"),
                seed,
                strikes: ks.clone(),
                expiry: t,
                ivs: &|p| chhw::model_implied_vols(p, t, &ks),
                fit: &|p, v, o| {
                    let tg = chhw::targets_from_grid(&ks, v);
                    let r = match cap { Some(c) => chhw::calibrate_bounded(*p, &tg, t, floor, c, o), None => chhw::calibrate(*p, &tg, t, floor, o) };
                    (r.params, r.rmse, r.optimiser)
                },
                via: &|p, s, o| chhw::FxHhwSmileCalibrator { initial: *p, kappa_floor: floor, gamma_max: cap }.calibrate(s, o).unwrap(),
                free: &|p| { let mut q = seed; q.heston = p.heston; q.correlations.rho_xi_sigma = p.correlations.rho_xi_sigma; q },
                arr: &|p| heston_arr(&p.heston, p.correlations.rho_xi_sigma),
                inside: &|p| p.heston.kappa >= floor && p.heston.gamma >= 0.0 && p.heston.theta >= 0.0 && p.heston.sigma_0 >= 0.0 && p.correlations.rho_xi_sigma.abs() <= 1.0 && cap.is_none_or(|c| p.heston.gamma <= c),
                start: (below || capped).then(|| { let mut q = seed; q.heston = started(&h); if let Some(c) = cap { q.heston.gamma = q.heston.gamma.min(c * (1.0 - 1e-4)); } q }),
            };
            let iv = (f.ivs)(&seed);
            for (k, x) in ks.iter().zip(&iv) {
                if let Some(x) = x {
                    w.close(chhw::price_call(&seed, t, *k), bs(fwd, *k, x * x * t, (-0.02 * t as f64).exp(), 1.0), 1e-7, 1e-6, || format!("{}: price against volatility at {k}", f.name));
                }
            }
            w.check(iv.iter().all(|x| x.is_some()), || format!("{}: smile", f.name), || format!("{iv:?}"));
            let mut q = seed;
            q.heston = moved(&h);
            let mut tg = smiles(&ms, v);
            tg.push(("nearby model", (f.ivs)(&q).iter().map(|x| x.unwrap_or(v)).collect()));
            fit_case(w, &f, &tg, iters);
        } else if kind == 2 {
            let n = 3;
            let c = vec![vec![1.0, 0.9, 0.8], vec![0.9, 1.0, 0.9], vec![0.8, 0.9, 1.0]];
            let side = |s: f64| DdSvLmm { sigmas: vec![s; n], betas: vec![0.95; n], lambda: 1.0, eta: 0.1, v_0: 1.0, libor_corr: c.clone() };
            let seed = FxHlmmParams {
                fx_0: 1.1,
                heston: h,
                tenor: LiborTenor::new(vec![0.0, t / 4.0, t / 2.0, t], vec![0.02, 0.03, 0.025]),
                domestic: side(0.15),
                foreign: side(0.2),
                correlations: FxHlmmCorrelations { rho_xi_sigma: [-0.4, 0.3, -0.6][hi], rho_xi_d: vec![0.1; n], rho_xi_f: vec![-0.1; n], libor_cross_corr: vec![vec![0.2; n]; n] },
            };
            let ks = strikes(1.1);
            let df: f64 = 1.0 / ((1.0 + 0.02 * t / 4.0) * (1.0 + 0.03 * t / 4.0) * (1.0 + 0.025 * t / 2.0));
            let name = format!("FX-HLMM heston {hi} T={t} floor {floor}");
            w.close(chlmm::discount_factor(&seed, t), df, 0.0, 1e-12, || format!("{name}: discount factor"));
            w.close(chlmm::discount_factor(&seed, t + 0.7), df * (-0.025 * 0.7f64).exp(), 0.0, 1e-12, || format!("{name}: discount factor past the grid"));
            w.check(chlmm::forward_fx(&seed, t) == 1.1, || format!("{name}: forward"), || "".into());
            let f = Fit {
                name,
                seed: seed.clone(),
                strikes: ks.clone(),
                expiry: t,
                ivs: &|p| chlmm::model_implied_vols(p, t, &ks),
                fit: &|p, v, o| { let r = chlmm::calibrate(p.clone(), &chlmm::targets_from_grid(&ks, v), t, floor, o); (r.params, r.rmse, r.optimiser) },
                via: &|p, s, o| chlmm::FxHlmmSmileCalibrator { initial: p.clone(), kappa_floor: floor }.calibrate(s, o).unwrap(),
                free: &|p| { let mut q = seed.clone(); q.heston = p.heston; q.correlations.rho_xi_sigma = p.correlations.rho_xi_sigma; q },
                arr: &|p| heston_arr(&p.heston, p.correlations.rho_xi_sigma),
                inside: &|p| p.heston.kappa >= floor && p.heston.gamma >= 0.0 && p.heston.theta >= 0.0 && p.heston.sigma_0 >= 0.0 && p.correlations.rho_xi_sigma.abs() <= 1.0,
                start: below.then(|| { let mut q = seed.clone(); q.heston = started(&h); q }),
            };
            for (k, x) in ks.iter().zip((f.ivs)(&seed)) {
                if let Some(x) = x {
                    w.close(chlmm::price_call(&seed, t, *k), bs(1.1, *k, x * x * t, df, 1.0), 1e-7, 1e-6, || format!("{}: price against volatility at {k}", f.name));
                }
            }
            let mut q = seed.clone();
            q.heston = moved(&h);
            let mut tg = smiles(&ms, v);
            tg.push(("nearby model", (f.ivs)(&q).iter().map(|x| x.unwrap_or(v)).collect()));
            fit_case(w, &f, &tg, iters);
        } else {
            let n = 3;
            let c = vec![vec![1.0, 0.9, 0.8], vec![0.9, 1.0, 0.9], vec![0.8, 0.9, 1.0]];
            let side = |s: f64| FmmSide { sigmas: vec![s; n], lambda: 1.0, eta: 0.1, v_0: 1.0, rate_corr: c.clone(), decay: LinearDecay };
            let seed = FxFmmParams {
                fx_0: 1.1,
                heston: h,
                tenor: FmmTenor::new(vec![0.0, t / 4.0, t / 2.0, t], vec![0.02, 0.03, 0.025]),
                domestic: side(0.006),
                foreign: side(0.009),
                correlations: FxFmmCorrelations { rho_xi_sigma: [-0.4, 0.3, -0.6][hi], rho_xi_d: vec![0.1; n], rho_xi_f: vec![-0.1; n], rho_sigma_d: vec![0.05; n], rho_sigma_f: vec![0.0; n], cross_rate_corr: vec![vec![0.2; n]; n] },
            };
            let ks = strikes(1.1);
            let df: f64 = 1.0 / ((1.0 + 0.02 * t / 4.0) * (1.0 + 0.03 * t / 4.0) * (1.0 + 0.025 * t / 2.0));
            let name = format!("FX-FMM heston {hi} T={t} floor {floor}");
            w.close(cfmm::discount_factor(&seed, t), df, 0.0, 1e-12, || format!("{name}: discount factor"));
            w.close(cfmm::discount_factor(&seed, t + 0.7), df * (-0.025 * 0.7f64).exp(), 0.0, 1e-12, || format!("{name}: discount factor past the grid"));
            w.check(cfmm::forward_fx(&seed, t) == 1.1, || format!("{name}: forward"), || "".into());
            let f = Fit {
                name,
                seed: seed.clone(),
                strikes: ks.clone(),
                expiry: t,
                ivs: &|p| cfmm::model_implied_vols(p, t, &ks),
                fit: &|p, v, o| { let r = cfmm::calibrate(p.clone(), &cfmm::targets_from_grid(&ks, v), t, floor, o); (r.params, r.rmse, r.optimiser) },
                via: &|p, s, o| cfmm::FxFmmSmileCalibrator { initial: p.clone(), kappa_floor: floor }.calibrate(s, o).unwrap(),
                free: &|p| { let mut q = seed.clone(); q.heston = p.heston; q.correlations.rho_xi_sigma = p.correlations.rho_xi_sigma; q },
                arr: &|p| heston_arr(&p.heston, p.correlations.rho_xi_sigma),
                inside: &|p| p.heston.kappa >= floor && p.heston.gamma >= 0.0 && p.heston.theta >= 0.0 && p.heston.sigma_0 >= 0.0 && p.correlations.rho_xi_sigma.abs() <= 1.0,
                start: below.then(|| { let mut q = seed.clone(); q.heston = started(&h); q }),
            };
            for (k, x) in ks.iter().zip((f.ivs)(&seed)) {
                if let Some(x) = x {
                    w.close(cfmm::price_call(&seed, t, *k), bs(1.1, *k, x * x * t, df, 1.0), 1e-7, 1e-6, || format!("{}: price against volatility at {k}", f.name));
                }
            }
            let mut q = seed.clone();
            q.heston = moved(&h);
            let mut tg = smiles(&ms, v);
            tg.push(("nearby model", (f.ivs)(&q).iter().map(|x| x.unwrap_or(v)).collect()));
            fit_case(w, &f, &tg, iters);
        }
    });
    // seeds far from the usual ones: their own smile needs no search at all
    let far: Vec<(CirProcess, f64)> = (0..96)
        .map(|i| {
            let theta = [0.005, 0.2][i / 4 % 2];
            (CirProcess { kappa: [0.3, 6.0][i % 2], gamma: [0.1, 1.2][i / 2 % 2], theta, sigma_0: theta * [0.5, 2.0][i / 8 % 2] }, [-0.97, -0.93, -0.6, 0.2, 0.8, 0.95][i / 16])
        })
        .collect();
    run.dim("far_seeds", json!({"heston": far.len(), "models": 5, "forward scales": 3, "expiries": 3}));
    run.par(far.len() * 5, |ix, w| {
        let (kind, i) = (ix % 5, ix / 5);
        let (h, rho) = far[i];
        let (t, sc) = ([1.0, 0.1, 7.0][i % 3], [1.1, 148.0, 0.0072][i / 3 % 3]);
        let sd = (h.theta * t).sqrt();
        let ks: Vec<f64> = [-1.0, 0.0, 0.7].iter().map(|m| sc * (m * sd).exp()).collect();
        let o = NelderMeadOptions { max_iter: i % 2, ftol: 1e-12, xtol: 1e-12, step_frac: 1e-7 };
        let key = || format!("far seed {h:?} rho {rho} model {kind} T={t} scale {sc}");
        w.state(1);
        let c = vec![vec![1.0, 0.9], vec![0.9, 1.0]];
        let z = vec![vec![0.0; 2]; 2];
        // the model's own volatilities, and the error of a fit to them
        let tn = vec![0.0, t / 2.0, t];
        let run_ = |iv: Vec<Option<f64>>, fit: &dyn Fn(&[f64]) -> (f64, f64)| -> Option<(f64, f64)> { iv.iter().all(|x| x.is_some()).then(|| fit(&iv.iter().map(|x| x.unwrap()).collect::<Vec<_>>())) };
        let r = w.call(key, || match kind {
            0 | 1 => {
                let p = FxHhwParams { fx_0: sc, heston: h, domestic: HullWhite1F { mean_reversion: 0.05, sigma: 0.007 }, foreign: HullWhite1F { mean_reversion: 0.1, sigma: 0.01 }, rd_0: 0.02, rf_0: 0.035, theta_d: 0.02, theta_f: 0.035, correlations: corr(&[rho, 0.0, 0.0, 0.0, 0.0, 0.3]) };
                run_(chhw::model_implied_vols(&p, t, &ks), &|v| {
                    let tg = chhw::targets_from_grid(&ks, v);
                    let r = if kind == 0 { chhw::calibrate(p, &tg, t, 0.05, o) } else { chhw::calibrate_bounded(p, &tg, t, 0.05, 3.0, o) };
                    (r.rmse, r.params.correlations.rho_xi_sigma)
                })
            }
            2 => {
                let side = |s: f64| DdSvLmm { sigmas: vec![s; 2], betas: vec![0.95; 2], lambda: 1.0, eta: 0.1, v_0: 1.0, libor_corr: c.clone() };
                let p = FxHlmmParams { fx_0: sc, heston: h, tenor: LiborTenor::new(tn.clone(), vec![0.02, 0.03]), domestic: side(0.15), foreign: side(0.2), correlations: FxHlmmCorrelations { rho_xi_sigma: rho, rho_xi_d: vec![0.0; 2], rho_xi_f: vec![0.0; 2], libor_cross_corr: z.clone() } };
                run_(chlmm::model_implied_vols(&p, t, &ks), &|v| {
                    let r = chlmm::calibrate(p.clone(), &chlmm::targets_from_grid(&ks, v), t, 0.05, o);
                    (r.rmse, r.params.correlations.rho_xi_sigma)
                })
            }
            3 => {
                let side = |s: f64| FmmSide { sigmas: vec![s; 2], lambda: 1.0, eta: 0.1, v_0: 1.0, rate_corr: c.clone(), decay: LinearDecay };
                let p = FxFmmParams { fx_0: sc, heston: h, tenor: FmmTenor::new(tn.clone(), vec![0.02, 0.03]), domestic: side(0.006), foreign: side(0.009), correlations: FxFmmCorrelations { rho_xi_sigma: rho, rho_xi_d: vec![0.0; 2], rho_xi_f: vec![0.0; 2], rho_sigma_d: vec![0.0; 2], rho_sigma_f: vec![0.0; 2], cross_rate_corr: z.clone() } };
                run_(cfmm::model_implied_vols(&p, t, &ks), &|v| {
                    let r = cfmm::calibrate(p.clone(), &cfmm::targets_from_grid(&ks, v), t, 0.05, o);
                    (r.rmse, r.params.correlations.rho_xi_sigma)
                })
            }
            _ => {
                let b = [0.0, 0.5, 1.0][i % 3];
                let p = SabrParams::new(h.theta.sqrt() * sc.powf(1.0 - b), b, rho, h.gamma);
                run_(csabr::model_implied_vols(&p, sc, t, &ks).into_iter().map(|x| (x > 0.0).then_some(x)).collect(), &|v| {
                    let r = csabr::calibrate(p, sc, &csabr::targets_from_grid(&ks, v), t, o);
                    (r.rmse, r.params.rho)
                })
            }
        });
        if let Some(Some((e, q))) = r {
            w.trace(1);
            w.check(e < 1e-6, || format!("{}: own smile", key()), || format!("error {e}, correlation {q}"));
        }
    });
    run.seq(|w| {
        let s = SabrParams::new(0.1, 0.5, 0.0, 0.3);
        let t = csabr::targets_from_grid(&[1.0], &[0.1]);
        for (f, e, n) in [(0.0, 1.0, 1), (1.0, 0.0, 1), (1.0, 1.0, 0)] {
            w.check(guard(|| csabr::calibrate(s, f, &t[..n], e, opt(1)).rmse).is_err(), || format!("SABR calibration {f},{e},{n} refused"), || "accepted".into());
        }
        w.check(guard(|| csabr::targets_from_grid(&[1.0, 1.1], &[0.1]).len()).is_err(), || "uneven targets refused".into(), || "accepted".into());
        w.check(guard(|| chhw::targets_from_grid(&[1.0, 1.1], &[0.1]).len()).is_err(), || "uneven FX-HHW targets refused".into(), || "accepted".into());
    });
}

// ------------------------------------------------------------ M16

fn m16(run: &Run) {
    // schedules whose effective smiles are the market
    let kns = [vec![0.0, 1.0], vec![0.0, 0.25, 1.0], vec![0.0, 0.1, 0.5, 1.0, 2.0], (0..=8).map(|i| 0.25 * i as f64).collect(), vec![0.0, 1.0 / 52.0, 1.0 / 12.0, 0.25, 1.0, 5.0], vec![0.0, 2.5], vec![0.0, 1.0, 1.02]];
    let als: Vec<Vec<f64>> = vec![vec![0.1], vec![0.1, 0.12, 0.14, 0.13], vec![0.2, 0.12, 0.1, 0.09], vec![0.4, 0.02], vec![0.12, 0.09]];
    let nus: Vec<Vec<f64>> = vec![vec![0.4], vec![0.9, 0.6, 0.4, 0.3], vec![0.3, 0.5], vec![1.2, 0.1]];
    let rhos: Vec<Vec<f64>> = vec![vec![-0.3], vec![0.2, -0.3, 0.1, 0.0], vec![0.95, -0.95]];
    let betas = [0.5, 1.0, 0.0, 0.2, 0.85];
    let nk = kns.len();
    let total = nk * als.len() * nus.len() * rhos.len() * betas.len() * 2;
    run.dim("surfaces", total);
    let budgets: &[usize] = run.by(&[0, 3, 40, 400][..], &[0, 1, 3, 10, 40, 150, 400, 1500][..]);
    run.dim("iteration_budgets", json!(budgets));
    let cyc = |v: &[f64], n: usize| -> Vec<f64> { (0..n).map(|i| v[i % v.len()]).collect() };
    run.par(total, |ix, w| {
        let kn = &kns[ix % nk];
        let n = kn.len() - 1;
        // a jump over a short last segment needs a volatility far above its target
        let jump = [0.1, 1.5];
        let (al, nu, rh) = (cyc(if ix % nk == 6 && ix / nk % 5 == 4 { &jump } else { &als[ix / nk % 5] }, n), cyc(&nus[ix / nk / 5 % 4], n), cyc(&rhos[ix / nk / 20 % 3], n));
        let beta = betas[ix / nk / 60 % 5];
        // the second market has a forward curve and a different number of strikes at every pillar
        let drift = ix / nk / 300 == 1;
        let f0: f64 = if drift { 0.9 } else { 1.1 };
        let fw = |i: usize| if drift { f0 * (0.08 * kn[i] - 0.03).exp() } else { f0 };
        let p = |v: &[f64]| PiecewiseConstant::new(kn.clone(), v.to_vec());
        let (pa, pn, pr) = (p(&al), p(&nu), p(&rh));
        let mut pill = vec![];
        for i in 1..=n {
            let t = kn[i];
            let (g, o) = (effective_vol_vol(&pn, &pa, t), effective_term_structure(&pn, &pa, t));
            let r = effective_correlation(&pn, &pa, &pr, t).clamp(-0.97, 0.97);
            let sd = o * t.sqrt();
            let ms: &[f64] = match if drift { i % 3 } else { 3 } {
                0 => &[-1.0, 0.0, 1.0],
                1 => &[-1.5, -1.0, -0.6, -0.3, 0.0, 0.2, 0.5, 0.9, 1.4],
                2 => &[-0.4, 0.4, -1.1, 1.1],
                _ => &[-1.2, -0.5, 0.0, 0.5, 1.2],
            };
            let strikes: Vec<f64> = ms.iter().map(|m| fw(i) * (m * sd).exp()).collect();
            let vols = strikes.iter().map(|k| hagan(o, beta, r, g, fw(i), *k, t)).collect();
            pill.push(MarketSmileStrip { expiry_yf: t, forward: fw(i), strikes, vols });
        }
        let targets: Vec<PillarTarget> = pill.iter().map(|s| s.pillar_target()).collect();
        for &budget in budgets {
            w.state(1);
            let key = |s: &str| format!("{s}: surface {ix} budget {budget}");
            let o = NelderMeadOptions { max_iter: budget, ftol: 1e-14, xtol: 1e-10, step_frac: 0.05 };
            let Some(res) = w.call(|| key("calibrate"), || calibrate_time_dependent(&targets, beta, f0, o)) else { continue };
            let q = &res.params;
            w.check(q.beta == beta && q.forward_0 == f0 && q.alpha.knots == *kn && q.rho.knots == *kn && q.nu.knots == *kn && res.per_pillar.len() == n, || key("shape"), || format!("{q:?}"));
            let mut worst: f64 = 0.0;
            for i in 1..=n {
                let t = kn[i];
                w.trans(1);
                let key = |s: &str| key(&format!("{s}, pillar {i}"));
                let d = &res.per_pillar[i - 1];
                let m = &d.market_effective;
                // stage 1 fits the smile of this pillar
                let s = &pill[i - 1];
                let e = s.strikes.iter().zip(&s.vols).map(|(k, v)| (hagan(m.alpha, m.beta, m.rho, m.nu, fw(i), *k, t) - v).powi(2)).sum::<f64>() / s.strikes.len() as f64;
                let rnd = s.strikes.iter().map(|k| hagan(m.alpha, m.beta, m.rho, m.nu, fw(i), *k, t) * hagan_rounding(m.alpha, m.beta, m.rho, m.nu, fw(i), *k)).fold(0.0, f64::max);
                w.close(d.stage1_rmse, e.sqrt(), 1e-7 + rnd, 1e-4, || key("reported smile error"));
                w.check(d.expiry == t && m.beta == beta, || key("pillar"), || format!("{d:?}"));
                worst = worst.max(d.stage1_rmse);
                // later stages reproduce the pillar's effective parameters
                let pc = |v: &[f64]| PiecewiseConstant::new(kn[..=i].to_vec(), v[..i].to_vec());
                let (a, r, v) = (pc(&q.alpha.values), pc(&q.rho.values), pc(&q.nu.values));
                let (ea, ev, er) = (effective_term_structure(&v, &a, t), effective_vol_vol(&v, &a, t), effective_correlation(&v, &a, &r, t));
                // the bounds of the schedules, and a vol of vol too small to carry a correlation
                let low = |x: f64| x <= 1.1e-6;
                let flatv = m.nu < 1e-4;
                if !low(q.alpha.values[i - 1]) {
                    w.close(ea, m.alpha, 1e-7, 1e-6, || key("volatility reproduced"));
                }
                if !low(q.nu.values[i - 1]) && !flatv {
                    let flat = PiecewiseConstant::new(kn[..=i].to_vec(), vec![m.alpha; i]);
                    w.close(effective_vol_vol(&v, &flat, t), m.nu, 1e-6, 1e-6, || key("vol of vol reproduced"));
                }
                let rv = q.rho.values[i - 1];
                w.check(rv.abs() <= 0.999, || key("correlation in range"), || format!("{rv}"));
                if flatv {
                } else if rv.abs() < 0.9989 && !low(q.nu.values[i - 1]) {
                    w.close(er, m.rho, 1e-6, 1e-5, || key("correlation reproduced"));
                } else {
                    // clamped: the residual points at the bound
                    w.check(rv * (m.rho - er) >= -1e-6 || rv.abs() < 0.9989, || key("correlation clamped towards the target"), || format!("{rv} target {} got {er}", m.rho));
                }
                let pf = (((ev - m.nu).powi(2) + (ea - m.alpha).powi(2) + (er - m.rho).powi(2)) / 3.0).sqrt();
                w.close(d.post_fit_rmse, pf, 1e-9, 1e-6, || key("reported residual"));
            }
            w.check(q.alpha.values.iter().all(|a| *a > 0.0) && q.nu.values.iter().all(|a| *a >= 0.0), || key("schedules in range"), || format!("{q:?}"));
            // a market produced by a flat volatility is recovered (stage two reads the
            // vol of vol off a flat volatility, so only then exactly)
            if budget >= 400 && (beta == 0.5 || beta == 1.0) && !drift && n <= 4 && ix / nk % 5 == 0 && ix / nk / 5 % 4 < 2 && ix / nk / 20 % 3 < 2 && ix % nk != 6 {
                let ok = (0..n).all(|i| close(q.alpha.values[i], al[i], 1e-3, 1e-2) && close(q.nu.values[i], nu[i], 2e-2, 5e-2) && close(q.rho.values[i], rh[i], 3e-2, 5e-2));
                w.check(ok, || key("schedule recovered"), || format!("{q:?} {:?}", res.per_pillar));
            }
            if let Some(rep) = w.call(|| key("calibrate through the pipeline"), || SabrTimeDependentSurfaceCalibrator { beta, forward_0: f0 }.calibrate(&pill, o).unwrap()) {
                w.check(rep.params == *q && rep.optimiser.is_none(), || key("pipeline gives the same fit"), || format!("{:?}", rep.params));
                w.close(rep.rmse, worst, 1e-12, 1e-9, || key("pipeline reports the worst pillar"));
            }
            w.trace(1);
        }
    });
    // strips read off a market surface
    let val = NaiveDate::from_ymd_opt(2026, 4, 22).unwrap();
    run.seq(|w| {
        for (si, fwd) in [(0, 1.15), (1, 1.15), (2, 130.0), (3, 0.02)] {
        let surface = if si == 0 { super::forex::flat_surface(val) } else { super::forex::smile_surface(val, fwd) };
        for d in [1, 20, 30, 60, 180, 400, 730, 1500] {
            let e = val + chrono::Duration::days(d);
            for ks in [vec![1.1], vec![0.9, 1.0, 1.2], vec![0.3, 0.5, 0.7, 0.8, 0.9, 0.95, 1.0, 1.05, 1.1, 1.25, 1.5, 2.0, 4.0], vec![1.3, 0.8, 1.3]] {
                let ks: Vec<f64> = ks.iter().map(|k| k * if si == 0 { 1.0 } else { fwd }).collect();
                w.state(1);
                let key = |s: &str| format!("{s}: surface {si}, {d} days, {} strikes", ks.len());
                match w.call(|| key("strip"), || smile_strip(&surface, val, e, fwd, &ks)) {
                    Some(Ok(s)) => {
                        w.close(s.expiry_yf, d as f64 / 365.0, 1e-14, 0.0, || key("time to expiry"));
                        w.check(s.forward == fwd && s.strikes == ks, || key("inputs kept"), || format!("{s:?}"));
                        for (k, v) in ks.iter().zip(&s.vols) {
                            w.check(surface.volatility(e, *k).is_ok_and(|x| x == *v), || key("volatility from the surface"), || format!("{v}"));
                        }
                        let ok = s.hhw_targets().iter().map(|t| (t.strike, t.market_vol)).eq(ks.iter().copied().zip(s.vols.iter().copied())) && s.sabr_targets().iter().map(|t| (t.strike, t.market_vol)).eq(ks.iter().copied().zip(s.vols.iter().copied()));
                        let p = s.pillar_target();
                        w.check(ok && p.expiry == s.expiry_yf && p.forward == fwd && p.strikes == ks && p.market_vols == s.vols, || key("targets"), || format!("{s:?}"));
                    }
                    Some(Err(e)) => {
                        w.check(surface.volatility(val + chrono::Duration::days(d), ks[0]).is_err(), || key("strip"), || format!("{e:?}"));
                    }
                    None => {}
                }
            }
        }
        }
        let surface = super::forex::flat_surface(val);
        w.check(guard(|| smile_strip(&surface, val, val + chrono::Duration::days(30), 1.1, &[]).is_ok()).is_err(), || "no strikes refused".into(), || "accepted".into());
        w.check(guard(|| calibrate_time_dependent(&[], 0.5, 1.1, opt(1)).per_pillar.len()).is_err(), || "no pillars refused".into(), || "accepted".into());
        let t = |e: f64| PillarTarget { expiry: e, forward: 1.1, strikes: vec![1.0, 1.1, 1.2], market_vols: vec![0.1; 3] };
        w.check(guard(|| calibrate_time_dependent(&[t(1.0), t(0.5)], 0.5, 1.1, opt(1)).per_pillar.len()).is_err(), || "unsorted pillars refused".into(), || "accepted".into());
    });
}
