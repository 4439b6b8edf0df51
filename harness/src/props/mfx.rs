//! Stochastic FX models: SABR, FX-HHW and its stock extension.
use super::mcommon::{Hes, lewis, rk4};
use crate::fw::{Run, Worker, guard};
use crate::props::Prop;
use finquant::models::common::cir::CirProcess;
use finquant::models::common::cos_pricer::{CosPricer, ForwardChf};
use finquant::models::common::simulation::SimulationModel;
use finquant::models::forex::fx_hhw::{Correlation4x4, FxHhwParams, FxHhwSimulator, FxHhwState};
use finquant::models::forex::fx_hhw_stock::{ForeignStock, FxHhwStockSimulator, FxHhwStockState};
use finquant::models::forex::fx_hhw1_chf::FxHhw1ForwardChf;
use finquant::models::forex::sabr::{SabrParams, SabrSimulator, SabrState, hagan_atm_vol, hagan_implied_vol};
use finquant::models::interestrate::hull_white::HullWhite1F;
use num_complex::Complex64 as C64;
use serde_json::json;

pub const PROPS: &[Prop] = &[("M08", m08), ("M09", m09)];

pub const I: C64 = C64 { re: 0.0, im: 1.0 };
pub fn re(x: f64) -> C64 {
    C64::new(x, 0.0)
}
pub fn cclose(w: &mut Worker<'_>, a: C64, b: C64, atol: f64, rtol: f64, key: impl FnOnce() -> String) -> bool {
    let ok = a.re.is_finite() && a.im.is_finite() && (a - b).norm() <= atol + rtol * b.norm();
    w.check(ok, key, || format!("got {a}, expected {b}, diff {:.3e}", (a - b).norm()))
}
/// lower Cholesky factor; None when a pivot is not positive
pub fn chol(m: &[Vec<f64>]) -> Option<Vec<Vec<f64>>> {
    let n = m.len();
    let mut l = vec![vec![0.0; n]; n];
    for i in 0..n {
        for j in 0..=i {
            let s = m[i][j] - (0..j).map(|k| l[i][k] * l[j][k]).sum::<f64>();
            if i == j {
                if s <= 0.0 {
                    return None;
                }
                l[i][i] = s.sqrt();
            } else {
                l[i][j] = s / l[j][j];
            }
        }
    }
    Some(l)
}

// ------------------------------------------------------------ M08

/// Hagan et al. (2002): implied Black volatility
pub fn hagan(a: f64, b: f64, r: f64, n: f64, f: f64, k: f64, t: f64) -> f64 {
    let ob = 1.0 - b;
    let l = (f / k).ln();
    let m = (f * k).powf(ob / 2.0);
    let z = n / a * m * l;
    // z / x(z); series of x(z) = asinh-type integral of 1/sqrt(1 - 2 r s + s^2)
    let zx = if z.abs() < 2e-3 {
        let x = 1.0 + 0.5 * r * z + (3.0 * r * r - 1.0) / 6.0 * z * z + (5.0 * r.powi(3) - 3.0 * r) / 8.0 * z.powi(3) + (35.0 * r.powi(4) - 30.0 * r * r + 3.0) / 40.0 * z.powi(4);
        1.0 / x
    } else {
        // for z below rho the equal form that does not cancel
        let q = (1.0 - 2.0 * r * z + z * z).sqrt();
        z / (if z < r { (1.0 + r) / (q - z + r) } else { (q + z - r) / (1.0 - r) }).ln()
    };
    let d = 1.0 + ob * ob / 24.0 * l * l + ob.powi(4) / 1920.0 * l.powi(4);
    let h = 1.0 + (ob * ob / 24.0 * a * a / (m * m) + r * b * n * a / (4.0 * m) + (2.0 - 3.0 * r * r) / 24.0 * n * n) * t;
    a / (m * d) * zx * h
}

/// Relative rounding error any evaluation of the published form may carry: its logarithm's
/// argument cancels when z is far below rho.
pub fn hagan_rounding(a: f64, b: f64, r: f64, n: f64, f: f64, k: f64) -> f64 {
    let z = n / a * (f * k).powf((1.0 - b) / 2.0) * (f / k).ln();
    let q = (1.0 - 2.0 * r * z + z * z).sqrt();
    let arg = if z < r { (1.0 + r) / (q - z + r) } else { (q + z - r) / (1.0 - r) };
    let l = arg.ln().abs();
    if l < 1e-3 {
        return 0.0;
    }
    8.0 * f64::EPSILON * (q + z.abs() + 1.0) / (arg * (1.0 - r)) / l
}

fn m08(run: &Run) {
    let al: &[f64] = run.by(&[0.003, 0.01, 0.05, 0.1, 0.2, 0.4, 1.0][..], &[0.001, 0.003, 0.006, 0.01, 0.03, 0.05, 0.08, 0.1, 0.15, 0.2, 0.3, 0.4, 0.6, 1.0, 2.0][..]);
    let be: &[f64] = run.by(&[0.0, 0.2, 0.5, 0.85, 1.0][..], &[0.0, 0.1, 0.2, 0.3, 0.5, 0.7, 0.85, 0.95, 0.999, 1.0][..]);
    let rh: &[f64] = run.by(&[-0.99, -0.7, -0.3, 0.0, 0.5, 0.9, 0.99][..], &[-0.99, -0.9, -0.7, -0.5, -0.3, -0.1, 0.0, 0.2, 0.5, 0.7, 0.9, 0.99][..]);
    let nu: &[f64] = run.by(&[0.0, 0.02, 0.1, 0.3, 0.6, 1.2, 2.0][..], &[0.0, 0.005, 0.02, 0.05, 0.1, 0.2, 0.3, 0.45, 0.6, 0.9, 1.2, 2.0, 3.5][..]);
    let fs = [0.9, 1.1, 148.0, 0.0072];
    let ts = [0.001, 0.02, 0.5, 1.0, 5.0, 12.0, 30.0, 50.0];
    let mut ks = vec![1.0, 1.0 + 1e-12, 1.0 - 1e-7, 1.0 + 1e-5];
    let n = run.by(16, 40);
    ks.extend((0..=n).map(|i| (run.by(2.0, 3.0) * (2.0 * i as f64 / n as f64 - 1.0)).exp()));
    let np = al.len() * be.len() * rh.len() * nu.len();
    run.dim("parameter_sets", np);
    run.dim("forwards", json!(fs));
    run.dim("times", json!(ts));
    run.dim("strike_ratios", ks.len());
    let get = |i: usize| SabrParams::new(al[i % al.len()], be[i / al.len() % be.len()], rh[i / al.len() / be.len() % rh.len()], nu[i / al.len() / be.len() / rh.len()]);
    run.par(np, |i, w| {
        let p = get(i);
        for f in fs {
            for t in ts {
                let mut atm = 0.0;
                for (j, q) in ks.iter().enumerate() {
                    let k = f * q;
                    w.state(1);
                    let key = |s: &str| format!("{s}: {p:?} F={f} K={k} t={t}");
                    let Some(v) = w.call(|| key("implied volatility"), || hagan_implied_vol(&p, f, k, t)) else { continue };
                    w.close(v, hagan(p.alpha, p.beta, p.rho, p.nu, f, k, t), 1e-12, 2e-6 + hagan_rounding(p.alpha, p.beta, p.rho, p.nu, f, k), || key("implied volatility"));
                    w.trace(1);
                    if j == 0 {
                        atm = v;
                        w.close(hagan_atm_vol(&p, f, t), v, 1e-13, 1e-9, || key("at-the-money volatility"));
                    }
                    if j < 2 {
                        w.close(v, atm, 0.0, 1e-5, || key("continuous at the money"));
                    }
                    if p.nu == 0.0 && p.beta == 1.0 {
                        w.close(v, p.alpha, 0.0, 1e-12, || key("no smile without vol of vol"));
                    }
                    if p.rho == 0.0 && p.beta == 1.0 {
                        w.close(hagan_implied_vol(&p, f, f / q, t), v, 0.0, 1e-6, || key("symmetric smile without correlation"));
                    }
                }
            }
        }
        // simulation: the increments reported drive the state
        for seed in run.by(&[11u64, 4040, 5][..], &[11u64, 4040, 5, 6, 7, 8, 9, 10][..]).iter().copied() {
            for f0 in [1.1, 0.02, 150.0] {
                w.state(1);
                let key = |s: &str, j: usize| format!("{s} step {j}: {p:?} F0={f0} seed={seed}");
                let mut tw = SabrSimulator::new(SabrParams::new(0.5, 0.5, 0.0, 0.5), 1.0, seed);
                let mut s = SabrSimulator::new(p, f0, seed);
                let i0 = s.initial_state();
                w.check(i0 == SabrState { forward: f0, vol: p.alpha }, || key("start", 0), || format!("{i0:?}"));
                let mut x = i0;
                let dts = [1.0 / 365.0, 0.25, 1.0, 0.01, 2.0, 1.0, 5.0, 1e-5, 0.5, 0.1, 0.1, 12.0];
                for (j, dt) in dts.into_iter().enumerate() {
                    let z = tw.step_with_noise(&SabrState { forward: 1.0, vol: 1.0 }, 1.0).1;
                    let (y, dw) = s.step_with_noise(&x, dt);
                    w.close(dw[0], dt.sqrt() * z[0], 1e-14, 1e-12, || key("forward increment", j));
                    w.close(dw[1], dt.sqrt() * (p.rho * z[0] + (1.0 - p.rho * p.rho).sqrt() * z[1]), 1e-14, 1e-12, || key("volatility increment", j));
                    w.close(y.forward, (x.forward + x.vol * x.forward.powf(p.beta) * dw[0]).max(0.0), 1e-14 + 1e-13 * x.forward, 1e-12, || key("forward", j));
                    w.close(y.vol, x.vol * (p.nu * dw[1] - 0.5 * p.nu * p.nu * dt).exp(), 1e-14, 1e-12, || key("volatility", j));
                    x = y;
                }
                if p.beta > 0.0 {
                    let (y, _) = s.step_with_noise(&SabrState { forward: 0.0, vol: 0.3 }, 0.5);
                    w.check(y.forward == 0.0, || key("zero is absorbing", 9), || format!("{y:?}"));
                }
                // whole paths: the same steps, every path from the start
                for (te, ns, npth) in [(0.7, 3, 4), (2.0, 1, 9), (10.0, 70, 2), (0.01, 130, 1)] {
                let mut a = SabrSimulator::new(p, f0, seed);
                let mut b = SabrSimulator::new(p, f0, seed);
                let out = a.simulate(te, ns, npth);
                let mut want = vec![];
                for _ in 0..npth {
                    let mut x = b.initial_state();
                    for _ in 0..ns {
                        x = b.step(&x, 0.0, te / ns as f64);
                    }
                    want.push(x);
                }
                let ok = out.len() == npth && out.iter().zip(&want).all(|(x, y)| (x.forward - y.forward).abs() <= 1e-12 * (1.0 + y.forward) && (x.vol - y.vol).abs() <= 1e-12 * (1.0 + y.vol));
                w.check(ok, || key(&format!("simulated paths {te} {ns} {npth}"), 0), || format!("{out:?} expected {want:?}"));
                w.trace(2);
                }
            }
        }
    });
    run.seq(|w| {
        for (a, b, r, n) in [(0.0, 0.5, 0.0, 0.1), (-0.1, 0.5, 0.0, 0.1), (0.1, -0.01, 0.0, 0.1), (0.1, 1.01, 0.0, 0.1), (0.1, 0.5, 1.0, 0.1), (0.1, 0.5, -1.0, 0.1), (0.1, 0.5, 0.0, -0.1)] {
            w.state(1);
            w.check(guard(|| SabrParams::new(a, b, r, n)).is_err(), || format!("parameters ({a},{b},{r},{n}) refused"), || "accepted".into());
        }
        let p = SabrParams::new(0.1, 0.5, 0.2, 0.3);
        for (f, k, t) in [(0.0, 1.0, 1.0), (1.0, 0.0, 1.0), (1.0, 1.0, 0.0), (-1.0, 1.0, 1.0)] {
            w.check(guard(|| hagan_implied_vol(&p, f, k, t)).is_err(), || format!("F={f} K={k} t={t} refused"), || "accepted".into());
        }
    });
}

// ------------------------------------------------------------ M09

pub fn corr_grid(vals: &[f64]) -> Vec<[f64; 6]> {
    let mut v = vec![];
    let n = vals.len();
    for c in 0..n.pow(6) {
        let mut c = c;
        let mut a = [0.0; 6];
        for x in &mut a {
            *x = vals[c % n];
            c /= n;
        }
        v.push(a);
    }
    v
}
pub fn corr(a: &[f64; 6]) -> Correlation4x4 {
    Correlation4x4 { rho_xi_sigma: a[0], rho_xi_d: a[1], rho_xi_f: a[2], rho_sigma_d: a[3], rho_sigma_f: a[4], rho_d_f: a[5] }
}
pub fn dense(a: &[f64; 6]) -> Vec<Vec<f64>> {
    vec![vec![1.0, a[0], a[1], a[2]], vec![a[0], 1.0, a[3], a[4]], vec![a[1], a[3], 1.0, a[5]], vec![a[2], a[4], a[5], 1.0]]
}
pub const CORRS: [[f64; 6]; 6] = [
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [-0.4, -0.15, -0.15, 0.3, 0.3, 0.25],
    [0.6, 0.2, -0.3, 0.1, -0.2, 0.5],
    [0.0, 0.5, 0.0, 0.0, 0.0, 0.0],
    [0.0, 0.0, 0.6, 0.0, -0.5, 0.0],
    [-0.9, 0.1, 0.05, -0.2, 0.0, -0.7],
];
pub fn hestons() -> Vec<CirProcess> {
    vec![
        CirProcess { kappa: 0.5, theta: 0.1, gamma: 0.3, sigma_0: 0.1 },
        CirProcess { kappa: 1.5, theta: 0.015, gamma: 0.25, sigma_0: 0.008 },
        CirProcess { kappa: 3.0, theta: 0.04, gamma: 0.6, sigma_0: 0.09 },
        CirProcess { kappa: 1.0, theta: 0.02, gamma: 0.0, sigma_0: 0.02 },
        CirProcess { kappa: 0.2, theta: 0.5, gamma: 0.9, sigma_0: 0.8 },
        CirProcess { kappa: 2.0, theta: 0.03, gamma: 0.02, sigma_0: 0.001 },
    ]
}
fn hhw(h: CirProcess, rates: usize, c: &[f64; 6]) -> FxHhwParams {
    let (d, f, rd, rf, td, tf) = [
        ((0.01, 0.007), (0.05, 0.012), 0.02, 0.05, 0.02, 0.05),
        ((0.3, 0.02), (0.1, 0.004), -0.004, 0.031, 0.01, 0.02),
        ((0.05, 0.0), (0.05, 0.0), 0.03, 0.01, 0.03, 0.01),
        ((0.05, 0.01), (0.05, 0.0), 0.03, 0.01, 0.05, 0.0),
        ((0.01, 0.03), (1.2, 0.015), 0.11, -0.02, 0.15, -0.03),
    ][rates];
    FxHhwParams {
        fx_0: 1.35,
        heston: h,
        domestic: HullWhite1F { mean_reversion: d.0, sigma: d.1 },
        foreign: HullWhite1F { mean_reversion: f.0, sigma: f.1 },
        rd_0: rd,
        rf_0: rf,
        theta_d: td,
        theta_f: tf,
        correlations: corr(c),
    }
}
fn hhw_step(p: &FxHhwParams, s: &FxHhwState, dt: f64, td: f64, tf: f64, dw: &[f64]) -> [f64; 4] {
    let v = s.variance.max(0.0);
    let q = v.sqrt();
    [
        s.fx * ((s.rd - s.rf - 0.5 * v) * dt + q * dw[0]).exp(),
        (v + p.heston.kappa * (p.heston.theta - v) * dt + p.heston.gamma * q * dw[1]).max(0.0),
        s.rd + p.domestic.mean_reversion * (td - s.rd) * dt + p.domestic.sigma * dw[2],
        s.rf + (p.foreign.mean_reversion * (tf - s.rf) - p.foreign.sigma * p.correlations.rho_xi_f * q) * dt + p.foreign.sigma * dw[3],
    ]
}
fn arr(s: &FxHhwState) -> [f64; 4] {
    [s.fx, s.variance, s.rd, s.rf]
}
fn ok4(a: &[f64; 4], b: &[f64; 4]) -> bool {
    (0..4).all(|i| crate::fw::close(a[i], b[i], 1e-12, 1e-10))
}
pub fn ident() -> FxHhwParams {
    FxHhwParams {
        fx_0: 1.0,
        heston: CirProcess { kappa: 0.0, theta: 0.0, gamma: 1.0, sigma_0: 100.0 },
        domestic: HullWhite1F { mean_reversion: 0.0, sigma: 1.0 },
        foreign: HullWhite1F { mean_reversion: 0.0, sigma: 1.0 },
        rd_0: 0.0,
        rf_0: 0.0,
        theta_d: 0.0,
        theta_f: 0.0,
        correlations: corr(&[0.0; 6]),
    }
}
pub fn correlate(l: &[Vec<f64>], z: &[f64], dt: f64) -> Vec<f64> {
    (0..l.len()).map(|i| dt.sqrt() * (0..=i).map(|j| l[i][j] * z[j]).sum::<f64>()).collect()
}

/// A(u, tau), C(u, tau) of FX-HHW1 by Runge-Kutta on the defining differential equations
fn hhw_ode(p: &FxHhwParams, u: C64, tau: f64, big: f64, n: usize) -> (C64, C64) {
    let iu = I * u;
    let (h, c) = (&p.heston, &p.correlations);
    let b = |m: &HullWhite1F, s: f64| if m.mean_reversion == 0.0 { -s } else { (-m.mean_reversion * s).exp_m1() / m.mean_reversion };
    let y = rk4([re(0.0), re(0.0)], 0.0, tau, n, |s, y| {
        let phi = h.sqrt_mean((big - s).max(0.0));
        let (bd, bf) = (b(&p.domestic, s), b(&p.foreign, s));
        let (ed, ef) = (p.domestic.sigma, p.foreign.sigma);
        let zeta = (c.rho_xi_d * ed * bd - c.rho_xi_f * ef * bf) * phi + c.rho_d_f * ed * ef * bd * bf - 0.5 * (ed * ed * bd * bd + ef * ef * bf * bf);
        let cc = y[1];
        let da = h.kappa * h.theta * cc
            + h.gamma * phi * cc * (c.rho_sigma_d * ed * bd * (1.0 - iu) + c.rho_sigma_f * ef * bf * iu)
            + (u * u + iu) * zeta;
        let dc = 0.5 * h.gamma * h.gamma * cc * cc + (c.rho_xi_sigma * h.gamma * iu - h.kappa) * cc + 0.5 * (iu * iu - iu);
        [da, dc]
    });
    (y[0], y[1])
}

fn m09(run: &Run) {
    // every correlation matrix over a grid: factor exists exactly for positive-definite matrices
    let cv: &[f64] = run.by(&[-1.0, -0.8, -0.5, -0.1, 0.3, 0.6, 0.9][..], &[-1.0, -0.95, -0.8, -0.5, -0.3, -0.1, 0.0, 0.2, 0.3, 0.6, 0.9][..]);
    let cg = corr_grid(cv);
    run.dim("correlation_matrices", cg.len());
    let ch = 500;
    run.par(cg.len().div_ceil(ch), |i, w| {
        for a in &cg[i * ch..((i + 1) * ch).min(cg.len())] {
            w.state(1);
            let c = corr(a);
            let m = dense(a);
            let key = |s: &str| format!("{s}: {a:?}");
            let got = c.as_matrix();
            w.check((0..4).all(|i| (0..4).all(|j| got[i][j] == m[i][j])), || key("matrix"), || format!("{got:?}"));
            // leading minors decide positive-definiteness
            let d3 = det(&m, 3);
            let (d2, d4) = (1.0 - a[0] * a[0], det(&m, 4));
            let min = d2.min(d3).min(d4);
            let f = c.cholesky();
            if min.abs() > 1e-9 {
                w.check(f.is_some() == (min > 0.0) && c.is_valid() == (min > 0.0), || key("positive definite"), || format!("minors {d2} {d3} {d4}"));
            }
            if let Some(l) = f {
                let ok = (0..4).all(|i| (0..4).all(|j| ((0..4).map(|k| l[i][k] * l[j][k]).sum::<f64>() - m[i][j]).abs() < 1e-12 && (j <= i || l[i][j] == 0.0)));
                w.check(ok, || key("factor times its transpose"), || format!("{l:?}"));
            }
            w.check(c.is_valid() == f.is_some(), || key("validity"), || "".into());
        }
    });
    // simulation
    let hs = hestons();
    let n = hs.len() * 5 * CORRS.len();
    run.dim("parameter_sets", n);
    let get = |i: usize| (hhw(hs[i % hs.len()], i / hs.len() % 5, &CORRS[i / hs.len() / 5]), CORRS[i / hs.len() / 5]);
    run.par(n, |i, w| {
        let (p, ca) = get(i);
        let l = chol(&dense(&ca)).unwrap();
        for seed in run.by(&[3u64, 99][..], &[3u64, 99, 1, 2, 4, 5, 6, 7, 8, 9, 10, 11][..]).iter().copied() {
            w.state(1);
            let key = |s: &str, j: usize| format!("{s} step {j}: parameters {i} seed {seed}");
            let mut tw = FxHhwSimulator::new(ident(), seed).unwrap();
            let Some(Ok(mut s)) = w.call(|| key("simulator", 0), || FxHhwSimulator::new(p, seed)) else {
                w.fail(key("simulator", 0), "refused");
                continue;
            };
            w.check(arr(&s.initial_state()) == [p.fx_0, p.heston.sigma_0, p.rd_0, p.rf_0], || key("start", 0), || format!("{:?}", s.initial_state()));
            let mut x = s.initial_state();
            for (j, dt) in [1.0 / 365.0, 0.25, 1.0, 0.02, 1.0, 3.0, 0.5, 10.0, 1e-5, 0.1].into_iter().enumerate() {
                let (_, z) = tw.step(&FxHhwState { fx: 1.0, variance: 1.0, rd: 0.0, rf: 0.0 }, 1.0);
                let (td, tf) = if j % 2 == 0 { (p.theta_d, p.theta_f) } else { (0.07, -0.01) };
                let (y, dw) = if j % 2 == 0 { s.step(&x, dt) } else { s.step_at_time(&x, dt, td, tf) };
                let e = correlate(&l, &z, dt);
                w.check((0..4).all(|k| crate::fw::close(dw[k], e[k], 1e-13, 1e-11)), || key("correlated increments", j), || format!("{dw:?} expected {e:?}"));
                let want = hhw_step(&p, &x, dt, td, tf, &dw);
                w.check(ok4(&arr(&y), &want), || key("state", j), || format!("{y:?} expected {want:?}"));
                x = y;
            }
            // a state with negative variance
            for (bi, bad) in [(1.2, -0.02, 0.01, 0.02), (1.2, 0.0, 0.2, -0.1), (150.0, 0.9, -0.05, 0.3), (0.007, 6.0, 0.0, 0.0), (1.0, 1e-9, 0.5, 0.5)].into_iter().enumerate() {
                let bad = FxHhwState { fx: bad.0, variance: bad.1, rd: bad.2, rf: bad.3 };
                let (y, dw) = s.step(&bad, 0.5);
                let want = hhw_step(&p, &bad, 0.5, p.theta_d, p.theta_f, &dw);
                w.check(ok4(&arr(&y), &want), || key("from a far state", bi), || format!("{y:?} expected {want:?}"));
            }
            // time-dependent targets through the runner's interface
            let th = |t: f64| (0.01 + 0.02 * t, 0.05 - 0.01 * t * t);
            let mut a = FxHhwSimulator::new(p, seed).unwrap().with_theta_fn(th);
            let mut b = FxHhwSimulator::new(p, seed).unwrap();
            let mut c = FxHhwSimulator::new(p, seed).unwrap();
            let mut x = a.initial_state();
            for (j, (t, dt)) in [(0.0, 0.1), (0.1, 1.0), (4.0, 0.25), (0.6, 0.25), (11.0, 0.5), (29.9, 0.1)].into_iter().enumerate() {
                let y = SimulationModel::step(&mut a, &x, t, dt);
                let (td, tf) = th(t);
                let (e, _) = b.step_at_time(&x, dt, td, tf);
                w.check(ok4(&arr(&y), &arr(&e)), || key("time-dependent target", j), || format!("{y:?} expected {e:?}"));
                let y2 = SimulationModel::step(&mut c, &x, t, dt);
                let dwn = hhw_noise(&p, &x, &e, dt, td, tf);
                let want = hhw_step(&p, &x, dt, p.theta_d, p.theta_f, &dwn);
                if t < 5.0 && p.heston.gamma > 0.0 && p.domestic.sigma > 0.0 && p.foreign.sigma > 0.0 && e.variance > 0.0 {
                    w.check((0..4).all(|k| crate::fw::close(arr(&y2)[k], want[k], 1e-10, 1e-8)), || key("constant target by default", j), || format!("{y2:?} expected {want:?}"));
                }
                x = y;
            }
            // whole paths
            for (te, ns, np) in [(0.9, 3, 3), (8.0, 1, 12), (5.0, 120, 2)] {
                let out = FxHhwSimulator::new(p, seed).unwrap().simulate(te, ns, np);
                let mut b = FxHhwSimulator::new(p, seed).unwrap();
                let mut ok = out.len() == np;
                for o in &out {
                    let mut x = FxHhwState::initial(&p);
                    for _ in 0..ns {
                        x = b.step(&x, te / ns as f64).0;
                    }
                    ok &= ok4(&arr(o), &arr(&x));
                }
                w.check(ok, || key("simulated paths", ns), || format!("{out:?}"));
            }
            w.trace(4);
            // foreign stock on top
            for (r1, r2) in [(0.0, 0.0), (0.5, -0.4), (-0.7, 0.6), (1.0, 0.0), (0.3, 1.0), (-1.0, -0.9)] {
                let st = ForeignStock { s_0: 80.0, variance: CirProcess { kappa: 1.2, theta: 0.05, gamma: 0.4, sigma_0: 0.06 }, rho_xi_sf: r1, rho_sf_omega: r2 };
                let key = |s: &str, j: usize| format!("{s} step {j}: parameters {i} seed {seed} stock correlations {r1},{r2}");
                let ts = ForeignStock { s_0: 1.0, variance: CirProcess { kappa: 0.0, theta: 0.0, gamma: 1.0, sigma_0: 100.0 }, rho_xi_sf: 0.0, rho_sf_omega: 0.0 };
                let mut tw = FxHhwStockSimulator::new(ident(), ts, seed).unwrap();
                let ti = tw.initial_state();
                let Some(Ok(mut s)) = w.call(|| key("simulator", 0), || FxHhwStockSimulator::new(p, st, seed)) else {
                    w.fail(key("stock simulator", 0), "refused");
                    continue;
                };
                let mut x = s.initial_state();
                w.check(x.stock == 80.0 && x.stock_variance == 0.06 && arr(&x.fx) == [p.fx_0, p.heston.sigma_0, p.rd_0, p.rf_0], || key("start", 0), || format!("{x:?}"));
                for (j, dt) in [1.0 / 365.0, 0.25, 1.0, 1.0, 2.0, 0.1, 5.0, 1e-4].into_iter().enumerate() {
                    let y = tw.step(&ti, 1.0);
                    let z = [(y.fx.fx.ln() + 50.0) / 10.0, (y.fx.variance - 100.0) / 10.0, y.fx.rd, y.fx.rf, (y.stock.ln() + 50.0) / 10.0, (y.stock_variance - 100.0) / 10.0];
                    let dw = correlate(&l, &z[..4], dt);
                    let fx = hhw_step(&p, &x.fx, dt, p.theta_d, p.theta_f, &dw);
                    let (q, o) = (x.fx.variance.max(0.0).sqrt(), x.stock_variance.max(0.0));
                    let zs = r1 * z[0] + (1.0 - r1 * r1).sqrt() * z[4];
                    let zo = r2 * zs + (1.0 - r2 * r2).sqrt() * z[5];
                    let so = o.sqrt();
                    let stock = x.stock * ((x.fx.rf - r1 * q * so - 0.5 * o) * dt + so * zs * dt.sqrt()).exp();
                    let ov = (o + (st.variance.kappa * (st.variance.theta - o) - r1 * r2 * st.variance.gamma * so * q) * dt + st.variance.gamma * so * zo * dt.sqrt()).max(0.0);
                    let y = if j % 2 == 0 { s.step(&x, dt) } else { SimulationModel::step(&mut s, &x, 0.3, dt) };
                    let good = (0..4).all(|k| crate::fw::close(arr(&y.fx)[k], fx[k], 1e-10, 1e-9)) && crate::fw::close(y.stock, stock, 1e-9, 1e-9) && crate::fw::close(y.stock_variance, ov, 1e-11, 1e-9);
                    w.check(good, || key("stock state", j), || format!("{y:?} expected {fx:?} {stock} {ov}"));
                    x = y;
                }
                let out = FxHhwStockSimulator::new(p, st, seed).unwrap().simulate(0.6, 2, 3);
                let mut b = FxHhwStockSimulator::new(p, st, seed).unwrap();
                let mut ok = out.len() == 3;
                for o in &out {
                    let mut x = FxHhwStockState::initial(&p, &st);
                    for _ in 0..2 {
                        x = b.step(&x, 0.3);
                    }
                    ok &= ok4(&arr(&o.fx), &arr(&x.fx)) && crate::fw::close(o.stock, x.stock, 0.0, 1e-10) && crate::fw::close(o.stock_variance, x.stock_variance, 1e-13, 1e-10);
                }
                w.check(ok, || key("simulated stock paths", 0), || format!("{out:?}"));
                w.trace(2);
            }
        }
    });
    run.seq(|w| {
        let mut p = hhw(hs[0], 0, &CORRS[1]);
        let st = |a, b| ForeignStock { s_0: 80.0, variance: hs[0], rho_xi_sf: a, rho_sf_omega: b };
        w.state(4);
        w.check(FxHhwStockSimulator::new(p, st(1.01, 0.0), 1).is_err() && FxHhwStockSimulator::new(p, st(0.0, -1.01), 1).is_err(), || "stock correlation beyond one refused".into(), || "accepted".into());
        p.correlations = corr(&[0.9, 0.9, 0.0, -0.9, 0.0, 0.0]);
        w.check(FxHhwSimulator::new(p, 1).is_err() && FxHhwStockSimulator::new(p, st(0.0, 0.0), 1).is_err(), || "indefinite correlations refused".into(), || "accepted".into());
    });
    // characteristic function
    let us: Vec<C64> = [0.0, 0.3, 1.0, 3.0, -2.0, 8.0, 20.0].iter().map(|x| re(*x)).chain([C64::new(0.0, -1.0), C64::new(1.5, -0.5), C64::new(4.0, -1.0)]).collect();
    let ts: &[f64] = run.by(&[1.0 / 12.0, 1.0, 5.0, 12.0][..], &[1.0 / 52.0, 1.0 / 12.0, 0.25, 0.5, 1.0, 2.0, 5.0, 7.0, 10.0, 12.0, 15.0, 20.0][..]);
    run.dim("chf_frequencies", us.len());
    run.dim("chf_maturities", json!(ts));
    run.par(n * ts.len(), |i, w| {
        let (p, _) = get(i / ts.len());
        let t = ts[i % ts.len()];
        let key = |s: &str, u: C64, tau: f64| format!("{s}: parameters {} T={t} u={u} tau={tau}", i / ts.len());
        let Some(chf) = w.call(|| key("characteristic function", re(0.0), t), || FxHhw1ForwardChf::with_simpson_steps(&p, t, 1024)) else { return };
        let def = FxHhw1ForwardChf::new(&p, t);
        w.check(chf.n_simpson == 1024 && def.n_simpson == 128 && chf.expiry == t, || key("settings", re(0.0), t), || "".into());
        let f0 = p.fx_0 * ((p.rd_0 - p.rf_0) * t).exp();
        w.close(ForwardChf::log_forward(&chf), f0.ln(), 1e-13, 0.0, || key("log forward", re(0.0), t));
        w.check(ForwardChf::expiry(&chf) == t && ForwardChf::typical_variance(&chf) == p.heston.theta, || key("pricing interface", re(0.0), t), || "".into());
        for &u in &us {
            for tau in [t, t - 0.01, 0.4 * t, 0.05 * t, 0.0] {
                w.state(1);
                let (a, c) = hhw_ode(&p, u, tau, t, 400 + (300.0 * t) as usize);
                let Some(g) = w.call(|| key("components", u, tau), || chf.components(u, tau)) else { continue };
                cclose(w, g.b, I * u, 1e-14, 0.0, || key("B", u, tau));
                cclose(w, g.c, c, 1e-8, 1e-6, || key("C", u, tau));
                cclose(w, g.a, a, 2e-7, 2e-6, || key("A", u, tau));
                w.trace(1);
                if tau == t {
                    let v = (a + I * u * f0.ln() + c * p.heston.sigma_0).exp();
                    cclose(w, chf.evaluate(u), v, 2e-6, 1e-5, || key("characteristic function", u, tau));
                    cclose(w, ForwardChf::evaluate(&chf, u), chf.evaluate(u), 0.0, 1e-12, || key("through the pricing interface", u, tau));
                    cclose(w, g.assemble(0.3, 0.07), (g.a + I * u * 0.3 + g.c * 0.07).exp(), 1e-13, 1e-11, || key("assembled", u, tau));
                    // where the approximation explodes its own Simpson error does too
                    if v.norm() < 1e3 {
                        cclose(w, def.evaluate(u), v, 1e-3, 1e-3, || key("default resolution", u, tau));
                    }
                }
            }
        }
        cclose(w, def.evaluate(re(0.0)), re(1.0), 1e-12, 0.0, || key("total probability", re(0.0), t));
        cclose(w, def.evaluate(-I), re(f0), 1e-12, 1e-11, || key("the forward is a martingale", -I, t));
        let (x, y) = (def.evaluate(re(2.5)), def.evaluate(re(-2.5)));
        cclose(w, x, y.conj(), 1e-12, 1e-10, || key("conjugate symmetry", re(2.5), t));
        // deterministic rates: plain Heston, and prices by an independent Fourier integral
        if p.domestic.sigma == 0.0 && p.foreign.sigma == 0.0 && p.heston.gamma > 0.0 && t <= 2.0 {
            let h = Hes { f: f0, v0: p.heston.sigma_0, k: p.heston.kappa, th: p.heston.theta, g: p.heston.gamma, rho: p.correlations.rho_xi_sigma, t };
            for &u in &us {
                let v = h.phi(u);
                if v.is_finite() {
                    cclose(w, def.evaluate(u), v, 1e-5, 1e-5, || key("Heston limit", u, t));
                }
            }
            let sd = (h.v0.max(h.th) * t).sqrt();
            let r = 24.0 * sd + 2.0 * h.g * t.sqrt() * sd / h.k.sqrt();
            let cp = CosPricer::new(&def).with_range(f0.ln() - r, f0.ln() + r).with_n_terms(1024);
            for m in [-1.5, 0.0, 0.6] {
                let k = f0 * (m * sd).exp();
                let o = lewis(&|u| h.phi(u), f0, k, 4096.0, 300);
                if h.g * t.sqrt() <= 0.75 * h.k.max(1.0) {
                    w.close(cp.call(k, 0.95), 0.95 * o, 2e-5, 0.0, || key(&format!("Heston call at {k}"), re(0.0), t));
                    w.close(cp.put(k, 0.95), 0.95 * (o - f0 + k), 2e-5, 0.0, || key(&format!("Heston put at {k}"), re(0.0), t));
                }
            }
        }
    });
    run.seq(|w| {
        let p = hhw(hs[0], 0, &CORRS[1]);
        for n in [0, 1, 3, 127] {
            w.state(1);
            w.check(guard(|| FxHhw1ForwardChf::with_simpson_steps(&p, 1.0, n).n_simpson).is_err(), || format!("{n} Simpson steps refused"), || "accepted".into());
        }
        w.check(guard(|| FxHhw1ForwardChf::new(&p, 1.0).components(re(1.0), 1.1)).is_err(), || "beyond the maturity refused".into(), || "accepted".into());
    });
}
fn det(m: &[Vec<f64>], n: usize) -> f64 {
    let mut a: Vec<Vec<f64>> = m[..n].iter().map(|r| r[..n].to_vec()).collect();
    let mut d = 1.0;
    for i in 0..n {
        let p = (i..n).max_by(|x, y| a[*x][i].abs().partial_cmp(&a[*y][i].abs()).unwrap()).unwrap();
        if a[p][i] == 0.0 {
            return 0.0;
        }
        if p != i {
            a.swap(p, i);
            d = -d;
        }
        d *= a[i][i];
        for r in i + 1..n {
            let f = a[r][i] / a[i][i];
            for c in i..n {
                a[r][c] -= f * a[i][c];
            }
        }
    }
    d
}
/// the Brownian increments that lead from one state to the next
fn hhw_noise(p: &FxHhwParams, x: &FxHhwState, y: &FxHhwState, dt: f64, td: f64, tf: f64) -> [f64; 4] {
    let v = x.variance.max(0.0);
    let q = v.sqrt().max(1e-300);
    [
        ((y.fx / x.fx).ln() - (x.rd - x.rf - 0.5 * v) * dt) / q,
        (y.variance - v - p.heston.kappa * (p.heston.theta - v) * dt) / (p.heston.gamma.max(1e-300) * q),
        (y.rd - x.rd - p.domestic.mean_reversion * (td - x.rd) * dt) / p.domestic.sigma.max(1e-300),
        (y.rf - x.rf - (p.foreign.mean_reversion * (tf - x.rf) - p.foreign.sigma * p.correlations.rho_xi_f * q) * dt) / p.foreign.sigma.max(1e-300),
    ]
}
