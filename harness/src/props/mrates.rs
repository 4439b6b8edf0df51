//! Term-rate market models and their FX combinations: FX-HLMM, FMM, FX-FMM.
use super::mcommon::{cir_sqrt, rk4};
use super::mfx::{I, cclose, chol, correlate, hestons, re};
use crate::fw::{Run, close, guard};
use crate::props::Prop;
use finquant::models::common::cir::CirProcess;
use finquant::models::common::cos_pricer::ForwardChf;
use finquant::models::common::simulation::SimulationModel;
use finquant::models::forex::fx_fmm::{self, FmmSide, FxFmmCorrelations, FxFmmParams};
use finquant::models::forex::fx_fmm1_chf::FxFmm1ForwardChf;
use finquant::models::forex::fx_fmm_simulator::{FxFmmSimulator, FxFmmState};
use finquant::models::forex::fx_hlmm::{DdSvLmm, FxHlmmCorrelations, FxHlmmParams, LiborTenor, compute_a_d, compute_a_f, compute_f_linearised};
use finquant::models::forex::fx_hlmm1_chf::FxHlmm1ForwardChf;
use finquant::models::interestrate::fmm::{
    FlatCurve, Fmm, FmmPath, FmmSimulator, FmmTenor, InitialDiscountCurve, LinearDecay, VolSchedule, back_stub_forward_bond, bank_account, bond_price, front_stub_bond,
};
use num_complex::Complex64 as C64;
use serde_json::json;

pub const PROPS: &[Prop] = &[("M10", m10), ("M11", m11), ("M12", m12)];

type Mat = Vec<Vec<f64>>;
/// unit diagonal, c off the diagonal decaying with distance
fn decay_corr(n: usize, c: f64, b: f64) -> Mat {
    (0..n).map(|i| (0..n).map(|j| if i == j { 1.0 } else { c * (-b * i.abs_diff(j) as f64).exp() }).collect()).collect()
}
fn cyc(v: &[f64], n: usize) -> Vec<f64> {
    (0..n).map(|i| v[i % v.len()]).collect()
}
/// sum_{i,j >= start} a_i b_j m_ij, one-based start
fn quad(a: &[f64], b: &[f64], m: &Mat, start: usize) -> f64 {
    let mut s = 0.0;
    for i in start - 1..a.len() {
        for j in start - 1..b.len() {
            s += a[i] * b[j] * m[i][j];
        }
    }
    s
}
fn dot(a: &[f64], b: &[f64], start: usize) -> f64 {
    (start - 1..a.len()).map(|i| a[i] * b[i]).sum()
}
fn tenors() -> Vec<(Vec<f64>, Vec<f64>)> {
    vec![
        (vec![0.0, 0.5, 1.0, 1.5], vec![0.03, 0.03, 0.03]),
        (vec![0.0, 1.0], vec![0.04]),
        (vec![0.0, 0.25, 1.0, 1.75, 4.0], vec![0.01, 0.0, -0.005, 0.04]),
        (vec![0.25, 0.5, 1.25, 3.0], vec![0.02, 0.01, 0.06]),
        ((0..=12).map(|j| 0.25 * j as f64).collect(), (0..12).map(|j| 0.04 - 0.005 * j as f64).collect()),
        (vec![0.0, 10.0, 12.0], vec![0.05, 0.13]),
        ((0..=9).map(|j| j as f64 + 0.02 * (j * j) as f64).collect(), (0..9).map(|j| 0.01 + 0.007 * (j % 4) as f64).collect()),
        ((0..=10).map(|j| j as f64 * 0.75).collect(), (0..10).map(|j| [-0.045, 0.02, -0.03, 0.035, -0.022][j % 5]).collect()),
    ]
}
fn expiry(dates: &[f64], fr: &[f64], j: usize) -> Option<f64> {
    if j < fr.len() {
        return Some(dates[dates.len() - 1] * fr[j]);
    }
    let j = j - fr.len();
    let d = 1 + j / 5;
    (d + 1 < dates.len()).then(|| dates[d] + [-3e-3, 0.0, 3e-3, -5e-4, 5e-4][j % 5])
}
fn freqs() -> Vec<C64> {
    [0.0, 0.4, 1.0, -2.5, 7.0, 18.0].iter().map(|x| re(*x)).chain([C64::new(0.0, -1.0), C64::new(1.5, -0.5), C64::new(3.0, -1.0)]).collect()
}
struct Blocks<'a> {
    heston: &'a CirProcess,
    rho: f64,
    sides: [(f64, f64, f64); 2],
}
/// characteristic function components A, C, D_d, D_f at maturity by Runge-Kutta, time running backwards through the breaks
fn chf_ode(b: &Blocks<'_>, u: C64, expiry: f64, breaks: &[f64], n: usize, coef: &dyn Fn(f64, f64) -> (f64, f64, f64)) -> [C64; 4] {
    let iu = I * u;
    let q = iu * iu - iu;
    let mut cuts: Vec<f64> = breaks.iter().map(|t| expiry - t).filter(|s| *s > 1e-12 && *s < expiry - 1e-12).collect();
    cuts.push(expiry);
    cuts.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let h = b.heston;
    let mut y = [re(0.0); 4];
    let mut s0 = 0.0;
    for s1 in cuts {
        let mid = expiry - 0.5 * (s0 + s1);
        let m = ((n as f64 * (s1 - s0)).ceil() as usize).max(20);
        y = rk4(y, s0, s1, m, |s, y| {
            let (ad, af, f) = coef(expiry - s, mid);
            let d = |k: usize, a: f64| {
                let (l, e, _) = b.sides[k];
                q * (0.5 * a) - y[2 + k] * l + y[2 + k] * y[2 + k] * (0.5 * e * e)
            };
            let dc = y[1] * y[1] * (0.5 * h.gamma * h.gamma) - y[1] * (re(h.kappa) - iu * (h.gamma * b.rho)) + q * 0.5;
            let da = y[1] * (h.kappa * h.theta) + y[2] * (b.sides[0].0 * b.sides[0].2) + y[3] * (b.sides[1].0 * b.sides[1].2) + q * (0.5 * f);
            [da, dc, d(0, ad), d(1, af)]
        });
        s0 = s1;
    }
    y
}

// ------------------------------------------------------------ M10

fn hlmm(t: usize, h: usize, v: usize) -> FxHlmmParams {
    let (dates, libors) = tenors()[t].clone();
    let n = libors.len();
    let side = |s: &[f64], l: f64, e: f64, v0: f64, c: f64, b: f64| DdSvLmm { sigmas: cyc(s, n), betas: vec![0.95; n], lambda: l, eta: e, v_0: v0, libor_corr: decay_corr(n, c, b) };
    let (domestic, foreign, x) = match v {
        0 => (side(&[0.15], 1.0, 0.1, 1.0, 0.9, 0.1), side(&[0.25], 1.0, 0.1, 1.0, 0.8, 0.2), (-0.3, 0.0, 0.0, 0.0)),
        1 => (side(&[0.15, 0.3, 0.2], 1.0, 0.4, 1.0, 0.9, 0.1), side(&[0.3, 0.1], 0.5, 0.8, 1.4, -0.3, 0.2), (0.5, 0.25, -0.4, 0.3)),
        2 => (side(&[0.0], 1.0, 0.1, 1.0, 0.9, 0.1), side(&[0.0], 1.0, 0.1, 1.0, 0.9, 0.1), (-0.7, 0.3, 0.3, 0.2)),
        _ => (side(&[0.6, 0.4], 2.0, 1.0, 0.5, 0.99, 0.0), side(&[0.0, 0.5, 0.7], 0.3, 0.2, 2.0, 0.5, 0.4), (0.0, -0.6, 0.5, -0.7)),
    };
    FxHlmmParams {
        fx_0: 1.35,
        heston: hestons()[h],
        tenor: LiborTenor::new(dates, libors),
        domestic,
        foreign,
        correlations: FxHlmmCorrelations {
            rho_xi_sigma: x.0,
            rho_xi_d: (0..n).map(|j| x.1 * (1.0 - 0.2 * j as f64).max(-1.0)).collect(),
            rho_xi_f: (0..n).map(|j| x.2 * (1.0 - 0.15 * j as f64).max(-1.0)).collect(),
            libor_cross_corr: (0..n).map(|i| (0..n).map(|j| x.3 * (1.0 - 0.1 * i as f64 - 0.2 * j as f64).max(-1.0)).collect()).collect(),
        },
    }
}
fn side_cir(l: f64, e: f64, v: f64) -> CirProcess {
    CirProcess { kappa: l, theta: v, gamma: e, sigma_0: v }
}
fn m10(run: &Run) {
    let nt = tenors().len();
    // volatility of variance is positive in these closed forms
    let hs: &[usize] = run.by(&[0, 2, 5][..], &[0, 1, 2, 4, 5][..]);
    let nh = hs.len();
    let n = nt * nh * 4;
    run.dim("parameter_sets", n);
    let us = freqs();
    run.dim("frequencies", us.len());
    // fractions of the last tenor date, then just off inner tenor dates
    let fr: &[f64] = run.by(&[0.0004, 0.0015, 0.05, 0.3, 0.5, 0.8, 1.0][..], &[0.0004, 0.0015, 0.01, 0.05, 0.2, 0.3, 0.5, 0.6, 0.75, 0.9, 1.0][..]);
    run.dim("expiries_relative_to_last_tenor_date", json!(fr));
    run.dim("expiries_around_inner_tenor_dates", "3e-3 and 5e-4 before and after, and at each");
    // the tenor grid
    run.par(nt, |i, w| {
        let (dates, libors) = tenors()[i].clone();
        let k = |s: &str| format!("tenor {i}: {s}");
        let Some(te) = w.call(|| k("new"), || LiborTenor::new(dates.clone(), libors.clone())) else { return };
        let n = libors.len();
        w.check(te.n() == n && te.dates == dates && te.libors == libors, || k("fields"), || format!("{te:?}"));
        let mut ts: Vec<f64> = (0..=200).map(|j| j as f64 * dates[n] * 1.2 / 200.0).collect();
        for d in &dates {
            ts.extend([*d, d - 1e-9, d + 1e-9]);
        }
        for j in 1..=n {
            w.close(te.tau(j), dates[j] - dates[j - 1], 1e-15, 1e-12, || k(&format!("accrual {j}")));
        }
        for t in ts {
            w.state(1);
            let m = dates.iter().filter(|d| **d < t).count().min(n);
            w.check(te.m(t) == m, || k(&format!("m({t})")), || format!("{} expected {m}", te.m(t)));
            let act: Vec<usize> = te.active(t).collect();
            w.check(act == (m + 1..=n).collect::<Vec<_>>(), || k(&format!("active({t})")), || format!("{act:?}"));
        }
        for bad in [0, n + 1] {
            w.check(guard(|| te.tau(bad)).is_err(), || k("accrual outside the grid refused"), || format!("{bad}"));
        }
        w.trace(1);
    });
    // coefficients and characteristic function
    let per = fr.len() + 55;
    run.par(n * per, |ij, w| {
        let i = ij / per;
        let (ti, hi, vi) = (i % nt, hs[i / nt % nh], i / nt / nh);
        let p = hlmm(ti, hi, vi);
        let nn = p.tenor.n();
        let (d, f, c) = (&p.domestic, &p.foreign, &p.correlations);
        let dates = p.tenor.dates.clone();
        // Simpson panels stretch with a ten-year period
        let slack = if ti == 5 { 10.0 } else { 1.0 };
        let Some(big) = expiry(&dates[..=nn], fr, ij % per) else { return };
        let key = |s: &str| format!("{s}: tenor {ti} heston {hi} rates {vi} T={big}");
        w.check(p.validate().is_ok(), || key("valid parameters"), || format!("{:?}", p.validate()));
        let psi = |s: &DdSvLmm| -> Vec<f64> { (0..nn).map(|j| { let tau = dates[j + 1] - dates[j]; tau * s.sigmas[j] * p.tenor.libors[j] / (1.0 + tau * p.tenor.libors[j]) }).collect() };
        let (pd, pf) = (psi(d), psi(f));
        for j in 0..nn {
            w.close(d.psi(&p.tenor)[j], pd[j], 1e-15, 1e-12, || key("frozen domestic coefficient"));
            w.close(f.psi(&p.tenor)[j], pf[j], 1e-15, 1e-12, || key("frozen foreign coefficient"));
        }
        let (cd, cf) = (side_cir(d.lambda, d.eta, d.v_0), side_cir(f.lambda, f.eta, f.v_0));
        let fl = |t: f64, s: usize, sq: &dyn Fn(&CirProcess, f64) -> f64| {
            if s > nn {
                return 0.0;
            }
            let (x, a, b) = (sq(&p.heston, t), sq(&cd, t), sq(&cf, t));
            2.0 * (x * a * dot(&pd, &c.rho_xi_d, s) - x * b * dot(&pf, &c.rho_xi_f, s) - a * b * quad(&pd, &pf, &c.libor_cross_corr, s))
        };
        let (ad, af) = (|s: usize| if s > nn { 0.0 } else { quad(&pd, &pd, &d.libor_corr, s) }, |s: usize| if s > nn { 0.0 } else { quad(&pf, &pf, &f.libor_corr, s) });
        for s in 1..=nn + 1 {
            w.state(1);
            w.close(compute_a_d(&p, s), ad(s), 1e-15, 1e-11, || key(&format!("A_d from {s}")));
            w.close(compute_a_f(&p, s), af(s), 1e-15, 1e-11, || key(&format!("A_f from {s}")));
            for t in [0.0, 0.3, 1.0, 2.7] {
                w.close(compute_f_linearised(&p, t, s), fl(t, s, &|c, t| c.sqrt_mean(t)), 1e-15, 1e-10, || key(&format!("f at {t} from {s}")));
                w.close(compute_f_linearised(&p, t, s), fl(t, s, &|c, t| if t == 0.0 { c.sigma_0.sqrt() } else { cir_sqrt(c, t) }), 1e-9, 3e-2, || key(&format!("f at {t} from {s}, exact square-root means")));
            }
        }
        let Some(fine) = w.call(|| key("characteristic function"), || FxHlmm1ForwardChf::with_simpson_steps(&p, big, 256)) else { return };
        let def = FxHlmm1ForwardChf::new(&p, big);
        w.check(def.n_simpson_per_segment == 32 && fine.n_simpson_per_segment == 256 && def.expiry == big && def.params() == &p, || key("settings"), || "".into());
        w.close(ForwardChf::log_forward(&def), p.fx_0.ln(), 1e-14, 0.0, || key("log forward"));
        w.check(ForwardChf::expiry(&def) == big && ForwardChf::typical_variance(&def) == p.heston.theta, || key("pricing interface"), || "".into());
        let b = Blocks { heston: &p.heston, rho: c.rho_xi_sigma, sides: [(d.lambda, d.eta, d.v_0), (f.lambda, f.eta, f.v_0)] };
        for &u in &us {
            w.state(1);
            let key = |s: &str| format!("{s}: tenor {ti} heston {hi} rates {vi} T={big} u={u}");
            // the active set at the time itself: periods whose reset date has not passed
            let o = chf_ode(&b, u, big, &dates, 150, &|t, mid| {
                let s = dates.iter().filter(|x| **x < mid).count() + 1;
                let a = |s: usize, v: &dyn Fn(usize) -> f64| if s > nn { 0.0 } else { v(s) };
                (a(s, &ad), a(s, &af), fl(t, s, &|c, t| c.sqrt_mean(t)))
            });
            let Some(g) = w.call(|| key("components"), || fine.components(u)) else { continue };
            cclose(w, g.b, I * u, 1e-14, 0.0, || key("B"));
            cclose(w, g.c, o[1], 1e-9, 1e-6, || key("C"));
            cclose(w, g.d_d, o[2], 1e-9, 1e-6, || key("D domestic"));
            cclose(w, g.d_f, o[3], 1e-9, 1e-6, || key("D foreign"));
            cclose(w, g.a, o[0], 1e-7, 2e-6 * slack, || key("A"));
            let v = (o[0] + I * u * p.fx_0.ln() + o[1] * p.heston.sigma_0 + o[2] * d.v_0 + o[3] * f.v_0).exp();
            let e = fine.evaluate(u);
            cclose(w, e, v, 2e-6 * slack, 1e-5 * slack, || key("characteristic function"));
            cclose(w, def.evaluate(u), v, 1e-4, 1e-3, || key("default resolution"));
            cclose(w, ForwardChf::evaluate(&fine, u), e, 0.0, 1e-13, || key("through the pricing interface"));
            cclose(w, g.assemble(0.2, 0.05, 0.9, 1.1), (g.a + I * u * 0.2 + g.c * 0.05 + g.d_d * 0.9 + g.d_f * 1.1).exp(), 1e-13, 1e-11, || key("assembled"));
            cclose(w, def.evaluate(-u.conj()), def.evaluate(u).conj(), 1e-12, 1e-10, || key("conjugate symmetry"));
            if u.im == 0.0 && ti != 5 {
                w.check(def.evaluate(u).norm() <= 1.0 + 1e-9, || key("bounded by one"), || format!("{}", def.evaluate(u).norm()));
            }
            w.trace(1);
        }
        cclose(w, def.evaluate(re(0.0)), re(1.0), 1e-12, 0.0, || key("total probability"));
        cclose(w, def.evaluate(-I), re(p.fx_0), 1e-12, 1e-11, || key("the forward is a martingale"));
    });
    // refusals
    run.seq(|w| {
        for (n, (d, l)) in [(vec![0.0, 1.0], vec![0.01, 0.02]), (vec![-0.1, 1.0], vec![0.01]), (vec![0.0, 1.0, 1.0], vec![0.01, 0.02]), (vec![0.0, 1.0, 0.5], vec![0.01, 0.02])].into_iter().enumerate() {
            w.state(1);
            w.check(guard(|| LiborTenor::new(d, l)).is_err(), || format!("bad tenor {n} refused"), || "accepted".into());
        }
        type Break = fn(&mut FxHlmmParams);
        let breaks: Vec<(&str, Break)> = vec![
            ("domestic volatilities too few", |p| { p.domestic.sigmas.pop(); }),
            ("foreign volatilities too few", |p| { p.foreign.sigmas.pop(); }),
            ("foreign betas too many", |p| p.foreign.betas.push(1.0)),
            ("correlation rows", |p| { p.domestic.libor_corr.pop(); }),
            ("correlation columns", |p| { p.foreign.libor_corr[1].pop(); }),
            ("diagonal", |p| p.domestic.libor_corr[2][2] = 0.9),
            ("asymmetric", |p| p.foreign.libor_corr[0][2] = 0.1),
            ("beyond one", |p| { p.foreign.libor_corr[0][2] = 1.1; p.foreign.libor_corr[2][0] = 1.1; }),
            ("zero lambda", |p| p.domestic.lambda = 0.0),
            ("negative eta", |p| p.foreign.eta = -0.1),
            ("zero variance", |p| p.foreign.v_0 = 0.0),
            ("fx variance correlation", |p| p.correlations.rho_xi_sigma = -1.2),
            ("fx domestic correlation length", |p| { p.correlations.rho_xi_d.pop(); }),
            ("fx foreign correlation length", |p| p.correlations.rho_xi_f.push(0.0)),
            ("fx domestic correlation", |p| p.correlations.rho_xi_d[2] = 1.2),
            ("fx foreign correlation", |p| p.correlations.rho_xi_f[0] = -1.2),
            ("cross rows", |p| { p.correlations.libor_cross_corr.pop(); }),
            ("cross columns", |p| { p.correlations.libor_cross_corr[0].pop(); }),
            ("cross beyond one", |p| p.correlations.libor_cross_corr[2][1] = -1.1),
        ];
        for (s, b) in breaks {
            w.state(1);
            let mut p = hlmm(0, 0, 1);
            b(&mut p);
            w.check(p.validate().is_err(), || format!("{s} refused"), || "accepted".into());
            w.check(guard(|| FxHlmm1ForwardChf::new(&p, 1.0).expiry).is_err(), || format!("characteristic function: {s} refused"), || "accepted".into());
        }
        let p = hlmm(0, 0, 1);
        for n in [0, 1, 7] {
            w.check(guard(|| FxHlmm1ForwardChf::with_simpson_steps(&p, 1.0, n).expiry).is_err(), || format!("{n} Simpson steps refused"), || "accepted".into());
        }
        w.check(guard(|| FxHlmm1ForwardChf::new(&p, 0.0).expiry).is_err(), || "zero expiry refused".into(), || "accepted".into());
    });
}

// ------------------------------------------------------------ M11

fn gamma(dates: &[f64], j: usize, t: f64) -> f64 {
    ((dates[j] - t) / (dates[j] - dates[j - 1])).clamp(0.0, 1.0)
}
fn eta(dates: &[f64], t: f64) -> usize {
    1 + dates[1..].iter().filter(|d| **d < t).count()
}
#[derive(Clone, Debug)]
struct Leg {
    r: Vec<f64>,
    y: Vec<f64>,
    rs: Vec<f64>,
    ys: Vec<f64>,
    x: f64,
}
impl Leg {
    fn of(p: &FmmPath) -> Leg {
        Leg { r: p.rates.clone(), y: p.y_diag.clone(), rs: p.rates_at_start.clone(), ys: p.y_at_start.clone(), x: p.x_active }
    }
    fn matches(&self, o: &Leg) -> bool {
        let v = |a: &[f64], b: &[f64]| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| close(*x, *y, 3e-12, 1e-9));
        v(&self.r, &o.r) && v(&self.y, &o.y) && v(&self.rs, &o.rs) && v(&self.ys, &o.ys) && close(self.x, o.x, 3e-12, 1e-9)
    }
}
/// one step of the term-rate model: drifted forward rates, integrated variance, front-stub state, period snapshots
fn leg_step(dates: &[f64], s: &Leg, t: f64, dt: f64, vol: &dyn Fn(usize, f64, f64) -> f64, corr: &Mat, dw: &[f64], quanto: &dyn Fn(usize) -> f64) -> Leg {
    let m = dates.len() - 1;
    let mid = t + 0.5 * dt;
    let (e0, e1) = (eta(dates, t), eta(dates, t + dt));
    let tau = |j: usize| dates[j] - dates[j - 1];
    let mut o = s.clone();
    let v: Vec<f64> = (1..=m).map(|j| vol(j, mid, s.r[j - 1]) * gamma(dates, j, mid)).collect();
    for j in e0..=m {
        if v[j - 1] == 0.0 {
            continue;
        }
        let dr: f64 = (e0..=j).map(|i| corr[i - 1][j - 1] * v[i - 1] / (s.r[i - 1] + 1.0 / tau(i))).sum::<f64>() - quanto(j);
        o.r[j - 1] = s.r[j - 1] + v[j - 1] * (dr * dt + dw[j - 1]);
    }
    for j in e0..=m {
        let live = (dates[j].min(t + dt) - t).max(0.0);
        o.y[j - 1] += (vol(j, mid, s.r[j - 1]) / (s.r[j - 1] + 1.0 / tau(j))).powi(2) * live;
    }
    if e0 <= m && t >= dates[e0 - 1] && t < dates[e0] {
        let a = 0.5 * (s.r[e0 - 1] + o.r[e0 - 1]);
        o.x += (o.y[e0 - 1] - s.ys[e0 - 1]) / tau(e0) * dt + vol(e0, mid, a) / (a + 1.0 / tau(e0)) * dw[e0 - 1];
    }
    for k in e0 + 1..=e1.min(m) {
        o.rs[k - 1] = o.r[k - 1];
        o.ys[k - 1] = o.y[k - 1];
        o.x = 0.0;
    }
    o
}
/// discount curve through the model's tenor dates, bent in between
struct Curve {
    dates: Vec<f64>,
    rates: Vec<f64>,
    bend: f64,
}
impl InitialDiscountCurve for Curve {
    fn p0(&self, t: f64) -> f64 {
        let mut l = 0.0;
        for j in 1..self.dates.len() {
            let (a, b) = (self.dates[j - 1], self.dates[j]);
            let full = -(1.0 + (b - a) * self.rates[j - 1]).ln();
            if t >= b {
                l += full;
            } else if t > a {
                l += full * (t - a) / (b - a) + self.bend * (t - a) * (b - t);
            }
        }
        l.exp()
    }
}
fn ref_bond(dates: &[f64], s: &Leg, t: f64, big: f64, p0: &dyn Fn(f64) -> f64) -> f64 {
    let g = |k: usize, a: f64, b: f64| gamma(dates, k, a) - gamma(dates, k, b);
    let tau = |k: usize| dates[k] - dates[k - 1];
    let back = |k: usize, big: f64| {
        let (lo, hi) = (dates[k - 1], dates[k]);
        let a = g(k, lo, big);
        (p0(big) / p0(lo)).ln() - a * ((1.0 + tau(k) * s.r[k - 1]).ln() + (p0(hi) / p0(lo)).ln()) + 0.5 * a * g(k, big, hi) * s.y[k - 1]
    };
    let front = |k: usize, big: f64| {
        let (lo, hi) = (dates[k - 1], dates[k]);
        if t <= lo {
            return back(k, big);
        }
        let a = g(k, t, big);
        let y0 = s.ys[k - 1];
        (p0(big) / p0(t)).ln() - a * ((1.0 + tau(k) * s.rs[k - 1]).ln() + (p0(hi) / p0(lo)).ln()) - a * s.x - 0.5 * a * a * (s.y[k - 1] - y0) + 0.5 * y0 * (g(k, big, hi) * g(k, lo, big) - g(k, t, hi) * g(k, lo, t))
    };
    let (k, e) = (eta(dates, t), eta(dates, big));
    if big == t {
        return 1.0;
    }
    if k == e {
        return front(k, big).exp();
    }
    let mid: f64 = (k + 1..e).map(|j| -(1.0 + tau(j) * s.r[j - 1]).ln()).sum();
    (front(k, dates[k]) + mid + back(e, big)).exp()
}
struct Case {
    dates: Vec<f64>,
    rates: Vec<f64>,
    sig: Vec<f64>,
    corr: Mat,
    betas: Option<Vec<f64>>,
    sched: usize,
}
fn cases() -> Vec<Case> {
    let mut v = vec![];
    let ts = [(vec![0.0, 1.0, 2.0, 3.0], vec![0.03; 3]), (vec![0.0, 0.5, 1.0, 1.5, 2.0], vec![0.01, 0.02, -0.005, 0.03]), (vec![0.0, 0.25, 1.0, 1.75, 4.0], vec![0.0, 0.05, 0.02, 0.04]), (vec![0.0, 1.0], vec![0.04]), ((0..=12).map(|j| 0.25 * j as f64).collect(), (0..12).map(|j| 0.04 - 0.005 * j as f64).collect()), (vec![0.0, 10.0, 12.0], vec![0.05, 0.13]), ((0..=9).map(|j| j as f64 + 0.02 * (j * j) as f64).collect(), (0..9).map(|j| 0.01 + 0.007 * (j % 4) as f64).collect()), ((0..=10).map(|j| j as f64 * 0.75).collect(), (0..10).map(|j| [-0.045, 0.02, -0.03, 0.035, -0.022][j % 5]).collect())];
    for (dates, rates) in ts {
        let n = rates.len();
        for c in [(0.0, 0.0), (0.9, 0.2), (-0.2, 0.1)] {
            for s in [&[0.0][..], &[0.01], &[0.012, 0.0, 0.02, 0.006]] {
                for b in 0..2 {
                    for sched in 0..2 + MRS.len() {
                        if sched > 0 && s.len() == 1 && s[0] > 0.0 {
                            continue;
                        }
                        let sig: Vec<f64> = cyc(s, n).iter().map(|x| if b == 1 { x * 20.0 } else { *x }).collect();
                        v.push(Case { dates: dates.clone(), rates: rates.clone(), sig, corr: decay_corr(n, if n > 4 && c.0 < 0.0 { c.0 / 3.0 } else { c.0 }, c.1), betas: (b == 1).then(|| cyc(&[0.5, 1.0, 0.0], n)), sched });
                    }
                }
            }
        }
    }
    v
}
/// mean reversions of the Gaussian-equivalent volatility schedule
const MRS: [f64; 9] = [0.0, 0.08, 0.5, 0.01, 1e-3, 2e-4, 1e-5, -0.03, -1e-3];
fn knots(m: usize, b: f64) -> Vec<Vec<(f64, f64)>> {
    (0..m).map(|j| vec![(0.0, 0.01 * b), (0.4 + 0.2 * (j % 4) as f64, 0.02 * b), (1.1, 0.004 * b), (2.3, 0.011 * b), (2.7, 0.0), (6.1, 0.007 * b), (8.4, 0.013 * b)][..[7, 1, 3, 2, 4, 5][j % 6]].to_vec()).collect()
}
fn case_sigma(c: &Case, j: usize, t: f64) -> f64 {
    let b = if c.betas.is_some() { 20.0 } else { 1.0 };
    match c.sched {
        0 => c.sig[j - 1],
        1 => {
            let k = &knots(c.rates.len(), b)[j - 1];
            k.iter().rev().find(|x| x.0 <= t).unwrap_or(&k[0]).1
        }
        _ if t >= c.dates[j] => 0.0,
        2 => 0.01 * b * (c.dates[j] - c.dates[j - 1]),
        s => {
            let a = MRS[s - 2];
            -0.01 * b * (-a * (c.dates[j - 1] - t)).exp() * (-a * (c.dates[j] - c.dates[j - 1])).exp_m1() / a
        }
    }
}
fn case_model(c: &Case) -> Fmm {
    let mut m = Fmm::new(FmmTenor::new(c.dates.clone(), c.rates.clone()), c.sig.clone(), c.corr.clone(), LinearDecay);
    let b = if c.betas.is_some() { 20.0 } else { 1.0 };
    if let Some(x) = &c.betas {
        m = m.with_betas(x.clone());
    }
    match c.sched {
        0 => m,
        1 => m.with_vol_schedule(VolSchedule::PiecewiseConstant(knots(c.rates.len(), b))),
        s => m.with_vol_schedule(VolSchedule::HoLeeEquivalent { vol: 0.01 * b, mean_reversion: MRS[s - 2] }),
    }
}
fn level(c: &Case, j: usize, r: f64) -> f64 {
    match &c.betas {
        None => 1.0,
        Some(b) => b[j - 1] * r + (1.0 - b[j - 1]) * c.rates[j - 1],
    }
}
/// standard normals of the next step, read off a twin with independent unit-volatility rates
fn fmm_noise(tw: &mut FmmSimulator) -> Vec<f64> {
    let mut p = tw.initial_path();
    tw.step(&mut p, 1.0);
    (0..p.rates.len()).map(|i| { let g = if i == 0 { 0.5 } else { 1.0 }; (p.rates[i] - g * g) / g }).collect()
}
fn fmm_twin(m: usize, seed: u64) -> FmmSimulator {
    FmmSimulator::new(Fmm::new(FmmTenor::new((0..=m).map(|x| x as f64).collect(), vec![0.0; m]), vec![1.0; m], decay_corr(m, 0.0, 0.0), LinearDecay), seed).unwrap()
}
fn m11(run: &Run) {
    let cs = cases();
    let seeds: &[u64] = run.by(&[3, 99][..], &[3, 99, 7, 1234, 5, 6, 8, 10][..]);
    run.dim("models", cs.len());
    run.dim("seeds", json!(seeds));
    let pats: Vec<Vec<f64>> = vec![vec![0.25; 18], vec![0.1; 44], vec![0.3, 0.05, 0.7, 0.45, 0.5, 0.5, 1.0, 0.3, 0.6], vec![2.5, 0.5, 2.0, 6.0, 0.7], vec![1.0 / 64.0; 40]];
    run.dim("step_patterns", pats.len());
    run.par(cs.len(), |i, w| {
        let c = &cs[i];
        let m = c.rates.len();
        let mo = case_model(c);
        let key = |s: &str| format!("{s}: model {i}");
        for k in 0..=40 {
            let t = c.dates[m] * k as f64 / 36.0;
            w.state(1);
            w.check(mo.tenor.eta(t) == eta(&c.dates, t), || key(&format!("eta({t})")), || format!("{}", mo.tenor.eta(t)));
            for j in 1..=m {
                w.close(mo.decay.gamma(j, t, &mo.tenor), gamma(&c.dates, j, t), 1e-14, 0.0, || key(&format!("gamma {j} at {t}")));
                w.close(mo.decay.big_g(j, t, t + 0.4, &mo.tenor), gamma(&c.dates, j, t) - gamma(&c.dates, j, t + 0.4), 1e-14, 0.0, || key(&format!("G {j} at {t}")));
                w.close(mo.sigma_at(j, t), case_sigma(c, j, t), 1e-14, 1e-10, || key(&format!("volatility {j} at {t}")));
                for r in [0.0, 0.03, -0.01] {
                    w.close(mo.displacement_level(j, r), level(c, j, r), 1e-15, 1e-12, || key(&format!("level {j} at {r}")));
                    w.close(mo.adapted_vol(j, t, r), case_sigma(c, j, t) * level(c, j, r), 1e-15, 1e-9, || key(&format!("adapted volatility {j} at {t},{r}")));
                }
            }
        }
        w.check(mo.tenor.m() == m && (1..=m).all(|j| close(mo.tenor.tau(j), c.dates[j] - c.dates[j - 1], 1e-15, 0.0)), || key("tenor"), || "".into());
        let l = chol(&c.corr).unwrap();
        let flat = Curve { dates: c.dates.clone(), rates: c.rates.clone(), bend: 0.004 };
        let still = c.sched == 0 && c.sig.iter().all(|s| *s == 0.0);
        for &seed in seeds {
            for (pi, pat) in pats.iter().enumerate() {
                let key = |s: &str, n: usize| format!("{s}: model {i} seed {seed} pattern {pi} step {n}");
                let mut tw = fmm_twin(m, seed);
                let Ok(mut s) = FmmSimulator::new(case_model(c), seed) else {
                    w.fail(key("simulator", 0), "refused");
                    continue;
                };
                let mut p = s.initial_path();
                w.check(p.rates == c.rates && p.t == 0.0 && p.x_active == 0.0 && p.y_diag == vec![0.0; m] && p.rates_at_start[0] == c.rates[0] && p.y_at_start == vec![0.0; m], || key("start", 0), || format!("{p:?}"));
                for (n, dt) in std::iter::once(0.0).chain(pat.iter().copied()).enumerate() {
                    if n > 0 {
                        let dw: Vec<f64> = correlate(&l, &fmm_noise(&mut tw), dt);
                        let want = leg_step(&c.dates, &Leg::of(&p), p.t, dt, &|j, t, r| case_sigma(c, j, t) * level(c, j, r), &c.corr, &dw, &|_| 0.0);
                        let t1 = p.t + dt;
                        if n % 2 == 0 {
                            p = SimulationModel::step(&mut s, &p, 77.0, dt);
                        } else {
                            s.step(&mut p, dt);
                        }
                        w.trans(1);
                        let got = Leg::of(&p);
                        w.check(got.matches(&want) && p.t == t1, || key("step", n), || format!("{got:?} expected {want:?}"));
                    }
                    if pi == 4 && n % 8 != 0 {
                        continue;
                    }
                    // bonds and account from this state
                    let t = p.t;
                    let leg = Leg::of(&p);
                    w.state(1);
                    let tm = c.dates[m];
                    if eta(&c.dates, t) > m {
                        let b = w.call(|| key("account past the last date", n), || bank_account(&mo, &p, &flat));
                        let acc: f64 = (1..=m).map(|j| 1.0 + (c.dates[j] - c.dates[j - 1]) * p.rates[j - 1]).product();
                        if let Some(b) = b {
                            w.close(b, acc, 0.0, 1e-11, || key("account past the last date", n));
                        }
                        continue;
                    }
                    let mut ts: Vec<f64> = c.dates.iter().copied().chain([0.1, 0.37, 0.8, 1.3, 1.9, 2.6, 3.7, 7.1, 10.9, 11.9]).filter(|x| *x > t + 1e-9 && *x <= tm).collect();
                    ts.push(t);
                    for big in ts {
                        let key = |s: &str| format!("{s}: model {i} seed {seed} pattern {pi} step {n} t={t} T={big}");
                        let Some(b) = w.call(|| key("bond"), || bond_price(&mo, &p, big, &flat)) else { continue };
                        w.close(b, ref_bond(&c.dates, &leg, t, big, &|x| flat.p0(x)), 1e-13, 1e-9, || key("bond"));
                        if still || n == 0 {
                            w.close(b, flat.p0(big) / flat.p0(t), 1e-12, 1e-9, || key("bond from the initial curve"));
                        }
                    }
                    let k = eta(&c.dates, t);
                    let acc: f64 = (1..=k).map(|j| 1.0 + (c.dates[j] - c.dates[j - 1]) * p.rates[j - 1]).product::<f64>() * ref_bond(&c.dates, &leg, t, c.dates[k], &|x| flat.p0(x));
                    if let Some(b) = w.call(|| key("account", n), || bank_account(&mo, &p, &flat)) {
                        w.close(b, acc, 0.0, 1e-9, || key("account", n));
                        if still || n == 0 {
                            w.close(b, 1.0 / flat.p0(t), 0.0, 1e-9, || key("account from the initial curve", n));
                        }
                    }
                    // whole-period forward bonds
                    for j in k + 1..=m {
                        let (a, b) = (bond_price(&mo, &p, c.dates[j - 1], &flat), bond_price(&mo, &p, c.dates[j], &flat));
                        w.close(a / b, 1.0 + (c.dates[j] - c.dates[j - 1]) * p.rates[j - 1], 0.0, 1e-10, || key("forward bond against the rate", n));
                        let x = back_stub_forward_bond(&mo, &p, j, c.dates[j], flat.p0_fwd(c.dates[j - 1], c.dates[j]), flat.p0_fwd(c.dates[j - 1], c.dates[j]));
                        w.close(x, b / a, 0.0, 1e-10, || key("back stub over the whole period", n));
                    }
                    w.check(guard(|| bond_price(&mo, &p, tm + 0.1, &flat)).is_err(), || key("bond past the last date refused", n), || "accepted".into());
                    if t > 0.2 {
                        w.check(guard(|| bond_price(&mo, &p, t - 0.1, &flat)).is_err(), || key("bond in the past refused", n), || "accepted".into());
                    }
                }
                w.trace(1);
            }
            // whole paths
            let out = FmmSimulator::new(case_model(c), seed).unwrap().simulate_terminal(0.9, 4, 3);
            let mut b = FmmSimulator::new(case_model(c), seed).unwrap();
            let mut ok = out.len() == 3;
            for o in &out {
                let mut p = b.initial_path();
                for _ in 0..4 {
                    b.step(&mut p, 0.9 / 4.0);
                }
                ok &= Leg::of(o).matches(&Leg::of(&p)) && close(o.t, 0.9, 1e-12, 0.0);
            }
            w.check(ok, || key(&format!("simulated paths seed {seed}")), || format!("{out:?}"));
        }
    });
    run.seq(|w| {
        let f = FlatCurve { rate: 0.03 };
        for (s, t) in [(0.0, 1.0), (0.5, 2.5), (1.0, 1.0)] {
            w.close(f.p0_fwd(s, t), (-0.03 * (t - s) as f64).exp(), 1e-14, 0.0, || format!("flat curve {s} {t}"));
        }
        for (n, (d, l)) in [(vec![0.0], vec![]), (vec![0.0, 1.0], vec![0.01, 0.02]), (vec![-0.1, 1.0], vec![0.01]), (vec![0.0, 1.0, 1.0], vec![0.01, 0.02]), (vec![0.0, 1.0, 0.5], vec![0.01, 0.02])].into_iter().enumerate() {
            w.state(1);
            w.check(guard(|| FmmTenor::new(d, l)).is_err(), || format!("bad tenor {n} refused"), || "accepted".into());
        }
        let te = || FmmTenor::new(vec![0.0, 1.0, 2.0], vec![0.01, 0.02]);
        for bad in [0, 3] {
            w.check(guard(|| te().tau(bad)).is_err(), || format!("accrual {bad} refused"), || "accepted".into());
        }
        let id = decay_corr(2, 0.0, 0.0);
        let bad: Vec<(&str, Vec<f64>, Mat)> = vec![
            ("volatilities", vec![0.1], id.clone()),
            ("negative volatility", vec![0.1, -0.1], id.clone()),
            ("volatility not a number", vec![0.1, f64::NAN], id.clone()),
            ("rows", vec![0.1; 2], vec![vec![1.0, 0.0]]),
            ("columns", vec![0.1; 2], vec![vec![1.0, 0.0], vec![0.0]]),
            ("diagonal", vec![0.1; 2], vec![vec![1.0, 0.0], vec![0.0, 0.9]]),
            ("asymmetric", vec![0.1; 2], vec![vec![1.0, 0.2], vec![0.1, 1.0]]),
            ("beyond one", vec![0.1; 2], decay_corr(2, 1.2, 0.0)),
        ];
        for (s, v, c) in bad {
            w.state(1);
            w.check(guard(|| Fmm::new(te(), v, c, LinearDecay)).is_err(), || format!("{s} refused"), || "accepted".into());
        }
        let mk = || Fmm::new(te(), vec![0.01; 2], id.clone(), LinearDecay);
        for b in [vec![0.5], vec![0.5, 1.1], vec![-0.1, 0.5]] {
            w.check(guard(|| mk().with_betas(b.clone())).is_err(), || format!("betas {b:?} refused"), || "accepted".into());
        }
        for b in [vec![vec![(0.0, 0.1)]], vec![vec![(0.0, 0.1)], vec![]], vec![vec![(0.0, 0.1)], vec![(1.0, 0.1), (1.0, 0.2)]], vec![vec![(0.5, 0.1), (0.2, 0.1)], vec![(0.0, 0.1)]]] {
            w.check(guard(|| mk().with_vol_schedule(VolSchedule::PiecewiseConstant(b.clone()))).is_err(), || format!("schedule {b:?} refused"), || "accepted".into());
        }
        let three = vec![vec![1.0, 0.9, -0.9], vec![0.9, 1.0, 0.9], vec![-0.9, 0.9, 1.0]];
        let m3 = Fmm::new(FmmTenor::new(vec![0.0, 1.0, 2.0, 3.0], vec![0.01; 3]), vec![0.01; 3], three, LinearDecay);
        w.check(FmmSimulator::new(m3, 1).is_err(), || "indefinite correlations refused".into(), || "accepted".into());
        let mut s = FmmSimulator::new(mk(), 1).unwrap();
        for dt in [0.0, -0.5] {
            let mut p = s.initial_path();
            w.check(guard(|| s.step(&mut p, dt)).is_err(), || format!("step of {dt} refused"), || "accepted".into());
        }
        let mut p = s.initial_path();
        s.step(&mut p, 0.5);
        w.check(guard(|| back_stub_forward_bond(&mk(), &p, 1, 0.8, 0.99, 0.99)).is_err(), || "back stub of the running period refused".into(), || "accepted".into());
        w.check(guard(|| front_stub_bond(&mk(), &p, 1.5, 0.99, 0.99)).is_err(), || "front stub past its period refused".into(), || "accepted".into());
        w.trace(1);
    });
}

// ------------------------------------------------------------ M12

fn fxfmm(t: usize, h: usize, v: usize) -> FxFmmParams {
    let (dates, rates) = tenors()[t].clone();
    let n = rates.len();
    let side = |s: &[f64], l: f64, e: f64, v0: f64, c: f64, b: f64| FmmSide { sigmas: cyc(s, n), lambda: l, eta: e, v_0: v0, rate_corr: decay_corr(n, c, b), decay: LinearDecay };
    let (domestic, foreign, x) = match v {
        0 => (side(&[0.006], 1.0, 0.1, 1.0, 0.9, 0.1), side(&[0.009], 1.0, 0.1, 1.0, 0.8, 0.2), (-0.3, 0.0, 0.0, 0.0)),
        1 => (side(&[0.005, 0.01, 0.008], 1.0, 0.4, 1.0, 0.5, 0.1), side(&[0.012, 0.004], 0.5, 0.8, 1.4, -0.15, 0.2), (0.5, 0.15, -0.2, 0.1)),
        2 => (side(&[0.0], 1.0, 0.1, 1.0, 0.9, 0.1), side(&[0.0], 1.0, 0.1, 1.0, 0.9, 0.1), (-0.7, 0.1, 0.1, 0.05)),
        _ => (side(&[0.03, 0.02], 2.0, 1.0, 0.5, 0.8, 0.0), side(&[0.0, 0.025, 0.04], 0.3, 0.2, 2.0, 0.5, 0.4), (0.0, -0.3, 0.25, -0.15)),
    };
    FxFmmParams {
        fx_0: 1.35,
        heston: hestons()[h],
        tenor: FmmTenor::new(dates, rates),
        domestic,
        foreign,
        correlations: FxFmmCorrelations {
            rho_xi_sigma: x.0,
            rho_xi_d: (0..n).map(|j| x.1 * (1.0 - 0.2 * j as f64).max(-1.0)).collect(),
            rho_xi_f: (0..n).map(|j| x.2 * (1.0 - 0.15 * j as f64).max(-1.0)).collect(),
            rho_sigma_d: (0..n).map(|j| 0.1 * x.2 * (1.0 + 0.5 * j as f64).min(3.0)).collect(),
            rho_sigma_f: (0..n).map(|j| -0.2 * x.1 * (1.0 + 0.25 * j as f64).min(2.5)).collect(),
            cross_rate_corr: (0..n).map(|i| (0..n).map(|j| x.3 * (1.0 - 0.1 * i as f64 - 0.2 * j as f64).max(-1.0)).collect()).collect(),
        },
    }
}
fn joint(p: &FxFmmParams) -> Mat {
    let m = p.tenor.m();
    let c = &p.correlations;
    let at = |i: usize, j: usize| -> f64 {
        match (i, j) {
            _ if i == j => 1.0,
            (0, 1) => c.rho_xi_sigma,
            (0, _) => if j < 2 + m { c.rho_xi_d[j - 2] } else { c.rho_xi_f[j - 2 - m] },
            (1, _) => if j < 2 + m { c.rho_sigma_d[j - 2] } else { c.rho_sigma_f[j - 2 - m] },
            _ if j < 2 + m => p.domestic.rate_corr[i - 2][j - 2],
            _ if i >= 2 + m => p.foreign.rate_corr[i - 2 - m][j - 2 - m],
            _ => 0.5 * (c.cross_rate_corr[i - 2][j - 2 - m] + c.cross_rate_corr[j - 2 - m][i - 2]),
        }
    };
    (0..2 + 2 * m).map(|i| (0..2 + 2 * m).map(|j| at(i.min(j), i.max(j))).collect()).collect()
}
fn legs(s: &FxFmmState) -> (Leg, Leg) {
    (
        Leg { r: s.rates_d.clone(), y: s.y_diag_d.clone(), rs: s.rates_at_start_d.clone(), ys: s.y_at_start_d.clone(), x: s.x_active_d },
        Leg { r: s.rates_f.clone(), y: s.y_diag_f.clone(), rs: s.rates_at_start_f.clone(), ys: s.y_at_start_f.clone(), x: s.x_active_f },
    )
}
fn fxfmm_noise(tw: &mut FxFmmSimulator, m: usize) -> Vec<f64> {
    let mut s = FxFmmState::initial(&tw.params);
    tw.step(&mut s, 1.0);
    let r = |v: &[f64], i: usize| { let g = if i == 0 { 0.5 } else { 1.0 }; (v[i] - g * g) / g };
    let mut z = vec![(s.fx.ln() + 50.0) / 10.0, (s.variance - 100.0) / 10.0];
    z.extend((0..m).map(|i| r(&s.rates_d, i)));
    z.extend((0..m).map(|i| r(&s.rates_f, i)));
    z
}
fn fxfmm_twin(m: usize, seed: u64) -> FxFmmSimulator {
    let side = || FmmSide { sigmas: vec![1.0; m], lambda: 1.0, eta: 1.0, v_0: 1.0, rate_corr: decay_corr(m, 0.0, 0.0), decay: LinearDecay };
    let z = vec![0.0; m];
    FxFmmSimulator::new(
        FxFmmParams {
            fx_0: 1.0,
            heston: CirProcess { kappa: 0.0, theta: 0.0, gamma: 1.0, sigma_0: 100.0 },
            tenor: FmmTenor::new((0..=m).map(|x| x as f64).collect(), z.clone()),
            domestic: side(),
            foreign: side(),
            correlations: FxFmmCorrelations { rho_xi_sigma: 0.0, rho_xi_d: z.clone(), rho_xi_f: z.clone(), rho_sigma_d: z.clone(), rho_sigma_f: z, cross_rate_corr: vec![vec![0.0; m]; m] },
        },
        seed,
    )
    .unwrap()
}
fn m12(run: &Run) {
    let nt = tenors().len();
    // volatility of variance is positive in these closed forms
    let hs: &[usize] = run.by(&[0, 2, 5][..], &[0, 1, 2, 4, 5][..]);
    let nh = hs.len();
    let n = nt * nh * 4;
    run.dim("parameter_sets", n);
    let us = freqs();
    run.dim("frequencies", us.len());
    // fractions of the last tenor date, then just off inner tenor dates
    let fr: &[f64] = run.by(&[0.0004, 0.0015, 0.05, 0.3, 0.5, 0.8, 1.0][..], &[0.0004, 0.0015, 0.01, 0.05, 0.2, 0.3, 0.5, 0.6, 0.75, 0.9, 1.0][..]);
    run.dim("expiries_relative_to_last_tenor_date", json!(fr));
    run.dim("expiries_around_inner_tenor_dates", "3e-3 and 5e-4 before and after, and at each");
    let sub = run.by(64, 256);
    let per = fr.len() + 55;
    run.par(n * per, |ij, w| {
        let i = ij / per;
        let (ti, hi, vi) = (i % nt, hs[i / nt % nh], i / nt / nh);
        let p = fxfmm(ti, hi, vi);
        let m = p.tenor.m();
        let (d, f, c) = (&p.domestic, &p.foreign, &p.correlations);
        let dates = p.tenor.dates.clone();
        // Simpson panels stretch with a ten-year period
        let slack = if ti == 5 { 10.0 } else { 1.0 };
        let Some(big) = expiry(&dates[..=m], fr, ij % per) else { return };
        let key = |s: &str| format!("{s}: tenor {ti} heston {hi} rates {vi} T={big}");
        w.check(p.validate().is_ok(), || key("valid parameters"), || format!("{:?}", p.validate()));
        let psi = |s: &FmmSide, t: Option<f64>| -> Vec<f64> {
            (0..m).map(|j| { let tau = dates[j + 1] - dates[j]; tau * s.sigmas[j] / (1.0 + tau * p.tenor.initial_rates[j]) * t.map_or(1.0, |t| gamma(&dates, j + 1, t)) }).collect()
        };
        let (cd, cf) = (side_cir(d.lambda, d.eta, d.v_0), side_cir(f.lambda, f.eta, f.v_0));
        let coef = |t: f64, s: usize, sq: &dyn Fn(&CirProcess, f64) -> f64| {
            if s > m {
                return (0.0, 0.0, 0.0);
            }
            let (pd, pf) = (psi(d, Some(t)), psi(f, Some(t)));
            let (x, a, b) = (sq(&p.heston, t), sq(&cd, t), sq(&cf, t));
            (quad(&pd, &pd, &d.rate_corr, s), quad(&pf, &pf, &f.rate_corr, s), 2.0 * (x * a * dot(&pd, &c.rho_xi_d, s) - x * b * dot(&pf, &c.rho_xi_f, s) - a * b * quad(&pd, &pf, &c.cross_rate_corr, s)))
        };
        for (s, side) in [("domestic", d), ("foreign", f)] {
            let b = psi(side, None);
            w.check(side.psi_base(&p.tenor).iter().zip(&b).all(|(x, y)| close(*x, *y, 1e-15, 1e-12)), || key(&format!("frozen {s} coefficients")), || format!("{:?}", side.psi_base(&p.tenor)));
            for t in [0.0, 0.1, 0.3, 0.6, 1.0, 1.4, 3.9] {
                w.check(fx_fmm::psi_at(side, &p.tenor, t).iter().zip(&psi(side, Some(t))).all(|(x, y)| close(*x, *y, 1e-15, 1e-12)), || key(&format!("{s} coefficients at {t}")), || "".into());
            }
        }
        for s in 1..=m + 1 {
            for t in [0.0, 0.3, 0.9, 1.0, 2.7] {
                w.state(1);
                let o = coef(t, s, &|c, t| c.sqrt_mean(t));
                w.close(fx_fmm::compute_a_d(&p, t, s), o.0, 1e-15, 1e-11, || key(&format!("A_d at {t} from {s}")));
                w.close(fx_fmm::compute_a_f(&p, t, s), o.1, 1e-15, 1e-11, || key(&format!("A_f at {t} from {s}")));
                w.close(fx_fmm::compute_f_linearised(&p, t, s), o.2, 1e-15, 1e-10, || key(&format!("f at {t} from {s}")));
            }
        }
        let Some(fine) = w.call(|| key("characteristic function"), || FxFmm1ForwardChf::with_resolution(&p, big, sub, 8)) else { return };
        let def = FxFmm1ForwardChf::new(&p, big);
        let narrow = FxFmm1ForwardChf::with_resolution(&p, big, 1, 256);
        w.check(def.n_substeps_per_period == 1 && def.n_simpson_per_segment == 32 && fine.n_substeps_per_period == sub && def.expiry == big && def.params() == &p, || key("settings"), || "".into());
        w.close(ForwardChf::log_forward(&def), p.fx_0.ln(), 1e-14, 0.0, || key("log forward"));
        w.check(ForwardChf::expiry(&def) == big && ForwardChf::typical_variance(&def) == p.heston.theta, || key("pricing interface"), || "".into());
        let b = Blocks { heston: &p.heston, rho: c.rho_xi_sigma, sides: [(d.lambda, d.eta, d.v_0), (f.lambda, f.eta, f.v_0)] };
        for &u in &us {
            w.state(1);
            let key = |s: &str| format!("{s}: tenor {ti} heston {hi} rates {vi} T={big} u={u}");
            let o = chf_ode(&b, u, big, &dates, 150, &|t, mid| coef(t, eta(&dates, mid), &|c, t| c.sqrt_mean(t)));
            let Some(g) = w.call(|| key("components"), || fine.components(u)) else { continue };
            cclose(w, g.b, I * u, 1e-14, 0.0, || key("B"));
            cclose(w, g.c, o[1], 1e-9, 1e-6, || key("C"));
            cclose(w, g.d_d, o[2], 1e-7, 2e-3, || key("D domestic"));
            cclose(w, g.d_f, o[3], 1e-7, 2e-3, || key("D foreign"));
            cclose(w, g.a, o[0], 2e-6 * slack, 2e-4 * slack, || key("A"));
            let v = (o[0] + I * u * p.fx_0.ln() + o[1] * p.heston.sigma_0 + o[2] * d.v_0 + o[3] * f.v_0).exp();
            let e = fine.evaluate(u);
            cclose(w, e, v, 1e-4 * slack, 1e-3 * slack, || key("characteristic function"));
            cclose(w, ForwardChf::evaluate(&fine, u), e, 0.0, 1e-13, || key("through the pricing interface"));
            cclose(w, g.assemble(0.2, 0.05, 0.9, 1.1), (g.a + I * u * 0.2 + g.c * 0.05 + g.d_d * 0.9 + g.d_f * 1.1).exp(), 1e-13, 1e-11, || key("assembled"));
            cclose(w, def.evaluate(-u.conj()), def.evaluate(u).conj(), 1e-12, 1e-10, || key("conjugate symmetry"));
            let od = chf_ode(&b, u, big, &dates, 150, &|t, mid| {
                // the default takes the rate variance at the middle of every period
                let s = eta(&dates, mid);
                let (a, b, _) = coef(mid, s, &|c, t| c.sqrt_mean(t));
                (a, b, coef(t, s, &|c, t| c.sqrt_mean(t)).2)
            });
            let gd = def.components(u);
            cclose(w, gd.d_d, od[2], 1e-9, 1e-6, || key("default D domestic"));
            cclose(w, gd.d_f, od[3], 1e-9, 1e-6, || key("default D foreign"));
            cclose(w, gd.a, od[0], 1e-5 * slack, 2e-4 * slack, || key("default A"));
            // many quadrature points on the default midpoints
            cclose(w, narrow.components(u).a, od[0], 1e-8 * slack, 1e-6 * slack, || key("A by a fine quadrature"));
            w.trace(1);
        }
        cclose(w, def.evaluate(re(0.0)), re(1.0), 1e-12, 0.0, || key("total probability"));
        cclose(w, def.evaluate(-I), re(p.fx_0), 1e-12, 1e-11, || key("the forward is a martingale"));
    });
    // simulation
    let seeds: &[u64] = run.by(&[3, 99][..], &[3, 99, 7, 1234, 5, 6, 8, 10][..]);
    run.dim("seeds", json!(seeds));
    let pats: Vec<Vec<f64>> = vec![vec![0.25; 18], vec![0.3, 0.05, 0.7, 0.45, 0.5, 0.5, 1.0, 0.3, 0.6], vec![2.5, 0.5, 2.0], vec![1.0 / 64.0; 20]];
    run.dim("step_patterns", pats.len());
    run.par(nt * 4 * 4, |i, w| {
        let (ti, hi, vi) = (i % nt, i / nt % 4, i / nt / 4);
        let mut p = fxfmm(ti, hi, vi);
        if p.tenor.dates[0] > 0.0 {
            p.tenor.dates[0] = 0.0;
        }
        let m = p.tenor.m();
        let dates = p.tenor.dates.clone();
        let c = joint(&p);
        let l = chol(&c);
        let key = |s: &str| format!("{s}: parameters {i}");
        let s = FxFmmSimulator::new(p.clone(), 1);
        if l.is_none() {
            w.check(s.is_err(), || key("indefinite correlations refused"), || "accepted".into());
            return;
        }
        let l = l.unwrap();
        w.check(s.is_ok(), || key("simulator"), || "refused".into());
        if s.is_err() {
            return;
        }
        for &seed in seeds {
            for (pi, pat) in pats.iter().enumerate() {
                let key = |s: &str, n: usize| format!("{s}: parameters {i} seed {seed} pattern {pi} step {n}");
                let mut tw = fxfmm_twin(m, seed);
                let mut s = FxFmmSimulator::new(p.clone(), seed).unwrap();
                let mut x = FxFmmState::initial(&p);
                let (a, b) = legs(&x);
                let fresh = |g: &Leg| g.r == p.tenor.initial_rates && g.x == 0.0 && g.y == vec![0.0; m] && g.ys == vec![0.0; m] && g.rs[0] == g.r[0];
                w.check(x.fx == p.fx_0 && x.variance == p.heston.sigma_0 && x.t == 0.0 && fresh(&a) && fresh(&b) && SimulationModel::initial_state(&s) == x, || key("start", 0), || format!("{x:?}"));
                for (n, dt) in pat.iter().copied().enumerate() {
                    let dw = correlate(&l, &fxfmm_noise(&mut tw, m), dt);
                    let (a, b) = legs(&x);
                    let v = x.variance.max(0.0);
                    let q = v.sqrt();
                    let k = eta(&dates, x.t).min(m) - 1;
                    let fx = x.fx * ((a.r[k] - b.r[k] - 0.5 * v) * dt + q * dw[0]).exp();
                    let var = (v + p.heston.kappa * (p.heston.theta - v) * dt + p.heston.gamma * q * dw[1]).max(0.0);
                    let wd = leg_step(&dates, &a, x.t, dt, &|j, _, _| p.domestic.sigmas[j - 1], &p.domestic.rate_corr, &dw[2..2 + m], &|_| 0.0);
                    let wf = leg_step(&dates, &b, x.t, dt, &|j, _, _| p.foreign.sigmas[j - 1], &p.foreign.rate_corr, &dw[2 + m..], &|j| p.correlations.rho_xi_f[j - 1] * q);
                    let t1 = x.t + dt;
                    if n % 2 == 0 {
                        s.step(&mut x, dt);
                    } else {
                        x = SimulationModel::step(&mut s, &x, 55.0, dt);
                    }
                    w.trans(1);
                    let (a, b) = legs(&x);
                    w.check(close(x.fx, fx, 0.0, 1e-9) && close(x.variance, var, 1e-12, 1e-9) && x.t == t1, || key("rate of exchange", n), || format!("{} {} expected {fx} {var}", x.fx, x.variance));
                    w.check(a.matches(&wd), || key("domestic rates", n), || format!("{a:?} expected {wd:?}"));
                    w.check(b.matches(&wf), || key("foreign rates", n), || format!("{b:?} expected {wf:?}"));
                }
                w.trace(1);
            }
            let out = FxFmmSimulator::new(p.clone(), seed).unwrap().simulate_terminal(0.9, 4, 3);
            let mut b = FxFmmSimulator::new(p.clone(), seed).unwrap();
            let mut ok = out.len() == 3;
            for o in &out {
                let mut x = FxFmmState::initial(&p);
                for _ in 0..4 {
                    b.step(&mut x, 0.9 / 4.0);
                }
                ok &= legs(o).0.matches(&legs(&x).0) && legs(o).1.matches(&legs(&x).1) && close(o.fx, x.fx, 0.0, 1e-12) && close(o.t, 0.9, 1e-12, 0.0);
            }
            w.check(ok, || key(&format!("simulated paths seed {seed}")), || format!("{out:?}"));
        }
    });
    run.seq(|w| {
        type Break = fn(&mut FxFmmParams);
        let breaks: Vec<(&str, Break)> = vec![
            ("domestic volatilities too few", |p| { p.domestic.sigmas.pop(); }),
            ("negative volatility", |p| p.foreign.sigmas[1] = -0.01),
            ("volatility not a number", |p| p.domestic.sigmas[1] = f64::NAN),
            ("correlation rows", |p| { p.domestic.rate_corr.pop(); }),
            ("correlation columns", |p| { p.foreign.rate_corr[1].pop(); }),
            ("diagonal", |p| p.domestic.rate_corr[2][2] = 0.9),
            ("asymmetric", |p| p.foreign.rate_corr[0][2] = 0.1),
            ("beyond one", |p| { p.foreign.rate_corr[0][2] = 1.1; p.foreign.rate_corr[2][0] = 1.1; }),
            ("zero lambda", |p| p.domestic.lambda = 0.0),
            ("negative eta", |p| p.foreign.eta = -0.1),
            ("zero variance", |p| p.foreign.v_0 = 0.0),
            ("fx variance correlation", |p| p.correlations.rho_xi_sigma = -1.2),
            ("fx domestic correlation length", |p| { p.correlations.rho_xi_d.pop(); }),
            ("fx foreign correlation length", |p| p.correlations.rho_xi_f.push(0.0)),
            ("variance domestic correlation length", |p| { p.correlations.rho_sigma_d.pop(); }),
            ("variance foreign correlation length", |p| p.correlations.rho_sigma_f.push(0.0)),
            ("fx domestic correlation", |p| p.correlations.rho_xi_d[2] = 1.2),
            ("fx foreign correlation", |p| p.correlations.rho_xi_f[0] = -1.2),
            ("variance domestic correlation", |p| p.correlations.rho_sigma_d[2] = 1.2),
            ("variance foreign correlation", |p| p.correlations.rho_sigma_f[0] = -1.2),
            ("cross rows", |p| { p.correlations.cross_rate_corr.pop(); }),
            ("cross columns", |p| { p.correlations.cross_rate_corr[0].pop(); }),
            ("cross beyond one", |p| p.correlations.cross_rate_corr[2][1] = -1.1),
        ];
        for (s, b) in breaks {
            w.state(1);
            let mut p = fxfmm(0, 0, 1);
            b(&mut p);
            w.check(p.validate().is_err(), || format!("{s} refused"), || "accepted".into());
            w.check(guard(|| FxFmm1ForwardChf::new(&p, 1.0).expiry).is_err(), || format!("characteristic function: {s} refused"), || "accepted".into());
            w.check(matches!(guard(|| FxFmmSimulator::new(p.clone(), 1).is_err()), Ok(true)), || format!("simulator: {s} refused"), || "accepted".into());
        }
        let p = fxfmm(0, 0, 1);
        for (a, b) in [(1, 0), (1, 1), (1, 7), (0, 32)] {
            w.check(guard(|| FxFmm1ForwardChf::with_resolution(&p, 1.0, a, b).expiry).is_err(), || format!("resolution {a},{b} refused"), || "accepted".into());
        }
        w.check(guard(|| FxFmm1ForwardChf::new(&p, 0.0).expiry).is_err(), || "zero expiry refused".into(), || "accepted".into());
        let mut s = FxFmmSimulator::new(p.clone(), 1).unwrap();
        for dt in [0.0, -0.5] {
            let mut x = FxFmmState::initial(&p);
            w.check(guard(|| s.step(&mut x, dt)).is_err(), || format!("step of {dt} refused"), || "accepted".into());
        }
        w.trace(1);
    });
}
