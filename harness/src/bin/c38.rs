//! C38: model inputs outside their stated domain are refused, inputs inside it
//! (boundaries included) are accepted.
use chrono::Days;
use finquant::math::optimize::NelderMeadOptions;
use finquant::models::common::cir::CirProcess;
use finquant::models::common::cos_pricer::CosPricer;
use finquant::models::common::simulation::simulate_at_dates;
use finquant::models::forex::dupire_local_vol as dup;
use finquant::models::forex::fx_fmm::{FmmSide, FxFmmCorrelations, FxFmmParams};
use finquant::models::forex::fx_fmm1_chf::FxFmm1ForwardChf;
use finquant::models::forex::fx_fmm_simulator::{FxFmmSimulator, FxFmmState};
use finquant::models::forex::fx_hhw::{Correlation4x4, FxHhwParams, FxHhwSimulator, FxHhwState};
use finquant::models::forex::fx_hhw1_chf::FxHhw1ForwardChf;
use finquant::models::forex::fx_hhw_stock::{ForeignStock, FxHhwStockSimulator, FxHhwStockState};
use finquant::models::forex::fx_hlmm::{DdSvLmm, FxHlmmCorrelations, FxHlmmParams, LiborTenor};
use finquant::models::forex::fx_hlmm1_chf::FxHlmm1ForwardChf;
use finquant::models::forex::sabr::{SabrParams, SabrSimulator, SabrState, hagan_implied_vol};
use finquant::models::forex::sabr_effective::{PiecewiseConstant as Pc, effective_correlation, effective_term_structure, effective_vol_vol};
use finquant::models::forex::sabr_slv::TimeDependentSabrSlvSimulator;
use finquant::models::forex::sabr_time_dependent::{TimeDependentSabrParams, TimeDependentSabrSimulator};
use finquant::models::forex::sabr_time_dependent_calibrator as td;
use finquant::models::forex::{fx_fmm_calibrator as cf, fx_hhw_calibrator as ch, fx_hlmm_calibrator as cl, sabr_calibrator as cs};
use finquant::models::interestrate::fmm::*;
use finquant::time::daycounters::actual365fixed::Actual365Fixed;
use fqmon::dates::*;
use fqmon::{Mon, Rng, fxm};
use num_complex::Complex64;
use serde_json::json;
use std::fmt::Debug;

fn accept<D: Debug>(m: &mut Mon, what: &str, d: D, f: impl FnOnce() -> bool) {
    let r = Mon::attempt(f);
    m.check(r == Ok(true), &format!("valid refused/{what}"), || format!("{r:?} {d:?}"));
    m.count("accepted");
    m.case((what.to_string(), format!("{d:?}")));
}

fn refuse<D: Debug>(m: &mut Mon, what: &str, d: D, f: impl FnOnce() -> bool) {
    let r = Mon::attempt(f);
    m.check(r != Ok(true), &format!("invalid accepted/{what}"), || format!("{d:?}"));
    m.count("refused");
    m.count(&format!("refused {}", what.split('/').next().unwrap()));
    m.case((what.to_string(), format!("{d:?}")));
}

/// One broken rule applied to a copy of a valid object.
macro_rules! bad {
    ($m:expr, $what:expr, $base:expr, $mutate:expr, $try:expr) => {{
        let mut x = $base.clone();
        #[allow(clippy::redundant_closure_call)]
        ($mutate)(&mut x, &mut $m.rng);
        let d = format!("{x:?}");
        #[allow(clippy::redundant_closure_call)]
        refuse($m, $what, d, || ($try)(x));
    }};
}

/// A number outside the unit interval, from barely to grossly.
fn over(r: &mut Rng) -> f64 {
    (1.0 + r.lf(1e-6, 3.0)) * if r.b() { 1.0 } else { -1.0 }
}
fn nonpos(r: &mut Rng) -> f64 {
    if r.chance(0.3) { 0.0 } else { -r.lf(1e-6, 10.0) }
}
fn resize(v: &mut Vec<f64>, r: &mut Rng) {
    if r.b() || v.len() < 2 {
        let x = r.f(0.0, 0.1);
        v.push(x);
    } else {
        v.pop();
    }
}
fn any(n: usize, r: &mut Rng) -> usize {
    r.n(n)
}
fn offdiag(n: usize, r: &mut Rng) -> (usize, usize) {
    let i = r.n(n);
    (i, (i + 1 + r.n(n - 1)) % n)
}

/// Breaks a correlation matrix without (1) or with (2..) keeping it symmetric.
fn break_corr(c: &mut Vec<Vec<f64>>, kind: usize, r: &mut Rng) {
    let n = c.len();
    match kind {
        0 => {
            let i = any(n, r);
            c[i][i] = *r.pick(&[1.0 - 1e-6, 1.0 + 1e-6, 0.0, 0.5, 1.5, -1.0]);
        }
        1 => {
            let (i, j) = offdiag(n, r);
            let e = r.lf(1e-6, 0.5);
            c[i][j] += if c[i][j] > 0.0 { -e } else { e };
        }
        2 => {
            let (i, j) = offdiag(n, r);
            let x = over(r);
            c[i][j] = x;
            c[j][i] = x;
        }
        3 => {
            let i = any(n, r);
            resize(&mut c[i], r);
        }
        _ => {
            if r.b() {
                let row = c[0].clone();
                c.push(row);
            } else {
                c.pop();
            }
        }
    }
}
const CORR: [&str; 5] = ["diagonal", "asymmetric", "beyond one", "row length", "row count"];

/// A point of three mutual correlations at a known distance from singular.
fn triple(r: &mut Rng, valid: bool) -> (f64, f64, f64) {
    loop {
        let (a, b, c) = (r.f(-0.99, 0.99), r.f(-0.99, 0.99), r.f(-0.99, 0.99));
        let det = 1.0 + 2.0 * a * b * c - a * a - b * b - c * c;
        if (valid && det > 1e-3) || (!valid && det < -1e-3) {
            return (a, b, c);
        }
    }
}

fn dates(r: &mut Rng, n: usize) -> Vec<f64> {
    let mut d = vec![if r.chance(0.7) { 0.0 } else { r.f(0.0, 0.5) }];
    for _ in 0..n {
        let l = *d.last().unwrap();
        d.push(l + r.lf(0.02, 2.0));
    }
    d
}
/// Breaks the order of a grid somewhere (equal or reversed neighbours).
fn disorder(d: &mut [f64], r: &mut Rng) {
    let i = 1 + any(d.len() - 1, r);
    d[i] = if r.b() { d[i - 1] } else { d[i - 1] - r.lf(1e-6, 1.0) };
}

fn zero_corr(n: usize) -> Vec<Vec<f64>> {
    (0..n).map(|i| (0..n).map(|j| if i == j { 1.0 } else { 0.0 }).collect()).collect()
}
fn opts(n: usize) -> NelderMeadOptions {
    NelderMeadOptions { max_iter: n, ..Default::default() }
}

fn fmm_model(m: &mut Mon) {
    let n = m.rng.i(2, 6) as usize;
    let (d, rates) = { let r = &mut m.rng; (dates(r, n), (0..n).map(|_| r.f(-0.01, 0.08)).collect::<Vec<_>>()) };
    let base = (d.clone(), rates.clone());
    type T = (Vec<f64>, Vec<f64>);
    let fm = |x: T| { FmmTenor::new(x.0, x.1); true };
    let lb = |x: T| { LiborTenor::new(x.0, x.1); true };
    accept(m, "fmm tenor", &base, || fm(base.clone()));
    accept(m, "libor tenor", &base, || lb(base.clone()));
    bad!(m, "tenor/order", base, |x: &mut T, r: &mut Rng| disorder(&mut x.0, r), fm);
    bad!(m, "tenor/order libor", base, |x: &mut T, r: &mut Rng| disorder(&mut x.0, r), lb);
    bad!(m, "tenor/length", base, |x: &mut T, r: &mut Rng| resize(&mut x.1, r), fm);
    bad!(m, "tenor/length libor", base, |x: &mut T, r: &mut Rng| resize(&mut x.1, r), lb);
    bad!(m, "tenor/past start", base, |x: &mut T, r: &mut Rng| x.0[0] = -r.lf(1e-6, 1.0), fm);
    bad!(m, "tenor/past start libor", base, |x: &mut T, r: &mut Rng| x.0[0] = -r.lf(1e-6, 1.0), lb);
    refuse(m, "tenor/empty", d[0], || fm((vec![d[0]], vec![])));
    let tn = FmmTenor::new(d.clone(), rates.clone());
    let ln = LiborTenor::new(d.clone(), rates.clone());
    for j in [0, n + 1, n + 2] {
        refuse(m, "tenor/period index", (n, j), || { tn.tau(j); true });
        refuse(m, "tenor/period index libor", (n, j), || { ln.tau(j); true });
    }
    accept(m, "period index", n, || tn.tau(1) > 0.0 && tn.tau(n) > 0.0 && ln.tau(1) > 0.0 && ln.tau(n) > 0.0);

    // forward market model
    let r = &mut m.rng;
    let corr = fxm::correlation(r, n, 3);
    let mut sig: Vec<f64> = (0..n).map(|_| r.f(0.0, 0.02)).collect();
    if r.chance(0.2) {
        sig[0] = 0.0;
    }
    type F = (Vec<f64>, Vec<Vec<f64>>);
    let mk = |x: F| { Fmm::new(tn.clone(), x.0, x.1, LinearDecay); true };
    let base: F = (sig.clone(), corr.clone());
    accept(m, "fmm", &base, || mk(base.clone()));
    let one = (0..n).map(|_| vec![1.0; n]).collect::<Vec<_>>();
    accept(m, "fmm perfectly correlated", n, || mk((sig.clone(), one.clone())));
    bad!(m, "fmm/volatility count", base, |x: &mut F, r: &mut Rng| resize(&mut x.0, r), mk);
    bad!(m, "fmm/negative volatility", base, |x: &mut F, r: &mut Rng| { let i = any(n, r); x.0[i] = -r.lf(1e-8, 1.0) }, mk);
    bad!(m, "fmm/unbounded volatility", base, |x: &mut F, r: &mut Rng| { let i = any(n, r); x.0[i] = *r.pick(&[f64::INFINITY, f64::NAN]) }, mk);
    for (k, w) in CORR.iter().enumerate() {
        bad!(m, &format!("fmm/correlation {w}"), base, |x: &mut F, r: &mut Rng| break_corr(&mut x.1, k, r), mk);
    }
    let f = Fmm::new(tn.clone(), sig.clone(), corr.clone(), LinearDecay);
    let r = &mut m.rng;
    let betas: Vec<f64> = (0..n).map(|_| *r.pick(&[0.0, 1.0, 0.5])).collect();
    let wb = |x: Vec<f64>| { f.clone().with_betas(x); true };
    accept(m, "betas", &betas, || wb(betas.clone()));
    bad!(m, "fmm/beta range", betas, |x: &mut Vec<f64>, r: &mut Rng| { let i = any(n, r); x[i] = if r.b() { -r.lf(1e-8, 1.0) } else { 1.0 + r.lf(1e-8, 1.0) } }, wb);
    bad!(m, "fmm/beta count", betas, resize, wb);
    type S = Vec<Vec<(f64, f64)>>;
    let r = &mut m.rng;
    let sc: S = (0..n).map(|_| { let k = r.i(2, 5) as usize; let mut t = -0.1; (0..k).map(|_| { t += r.lf(0.05, 1.0); (t, r.f(0.0, 0.02)) }).collect() }).collect();
    let ws = |x: S| { f.clone().with_vol_schedule(VolSchedule::PiecewiseConstant(x)); true };
    accept(m, "volatility schedule", &sc, || ws(sc.clone()));
    accept(m, "equivalent schedule", n, || { f.clone().with_vol_schedule(VolSchedule::HoLeeEquivalent { vol: 0.01, mean_reversion: 0.0 }); true });
    bad!(m, "fmm/schedule count", sc, |x: &mut S, r: &mut Rng| if r.b() { x.pop(); } else { let l = x[0].clone(); x.push(l) }, ws);
    bad!(m, "fmm/schedule empty", sc, |x: &mut S, r: &mut Rng| { let i = any(n, r); x[i].clear() }, ws);
    bad!(m, "fmm/schedule order", sc, |x: &mut S, r: &mut Rng| { let i = any(n, r); let k = 1 + any(x[i].len() - 1, r); x[i][k].0 = x[i][k - 1].0 - if r.b() { 0.0 } else { r.lf(1e-6, 1.0) } }, ws);

    // simulator
    let seed = m.rng.next();
    let go = |c: Vec<Vec<f64>>| FmmSimulator::new(Fmm::new(tn.clone(), sig.clone(), c, LinearDecay), seed).is_ok();
    if n >= 3 {
        for valid in [true, false] {
            let (a, b, c) = triple(&mut m.rng, valid);
            let mut z = zero_corr(n);
            let mut ix: Vec<usize> = (0..n).collect();
            m.rng.shuffle(&mut ix);
            for (i, j, v) in [(0, 1, a), (0, 2, b), (1, 2, c)] {
                z[ix[i]][ix[j]] = v;
                z[ix[j]][ix[i]] = v;
            }
            if valid {
                accept(m, "fmm simulator", &z, || go(z.clone()));
            } else {
                refuse(m, "simulator/not positive definite fmm", &z, || go(z.clone()));
            }
        }
    }
    let sim = || FmmSimulator::new(f.clone(), seed).unwrap();
    accept(m, "fmm run", n, || sim().simulate_terminal(0.5, 2, 2).len() == 2);
    let t = nonpos(&mut m.rng);
    refuse(m, "simulator/horizon fmm", t, || { sim().simulate_terminal(t, 2, 2); true });
    refuse(m, "simulator/no step fmm", n, || { sim().simulate_terminal(1.0, 0, 2); true });
    refuse(m, "simulator/no path fmm", n, || { sim().simulate_terminal(1.0, 2, 0); true });
    refuse(m, "simulator/time step fmm", t, || { let mut s = sim(); let mut p = s.initial_path(); s.step(&mut p, t); true });

    // bond queries
    let p0 = |a: f64, b: f64| (-0.03 * (b - a)).exp();
    let path = |t: f64| { let mut p = sim().initial_path(); p.t = t; p };
    let k = 1 + m.rng.n(n);
    let (lo, hi) = (d[k - 1], d[k]);
    let r = &mut m.rng;
    let e = r.lf(1e-6, 0.5);
    let inside = lo + (hi - lo) * r.f(0.2, 0.5);
    let to = inside + (hi - inside) * r.f(0.1, 1.0);
    let early = lo * r.u();
    let bs = |t: f64, k: usize, x: f64| { back_stub_forward_bond(&f, &path(t), k, x, p0(lo, x), p0(lo, hi)) > 0.0 };
    let fs = |t: f64, x: f64| { front_stub_bond(&f, &path(t), x, p0(t, x), p0(lo, hi)) > 0.0 };
    let i = || (d.clone(), k, inside, to, e);
    accept(m, "back stub", i(), || bs(early, k, to) && bs(lo, k, hi));
    refuse(m, "bond/back stub inside the period", i(), || bs(inside, k, to));
    refuse(m, "bond/back stub beyond the period", i(), || bs(early, k, hi + e));
    refuse(m, "bond/back stub before the period", i(), || bs(0.0, k, lo - e));
    refuse(m, "bond/back stub index", i(), || bs(early, 0, to));
    refuse(m, "bond/back stub index", i(), || bs(early, n + 1, to));
    accept(m, "front stub", i(), || fs(inside, to) && fs(inside, hi));
    refuse(m, "bond/front stub beyond the period", i(), || fs(inside, hi + e));
    refuse(m, "bond/front stub backwards", i(), || fs(inside, inside - e));
    refuse(m, "bond/front stub after the tenor", i(), || fs(d[n] + e, d[n] + 2.0 * e));
    struct Flat;
    impl InitialDiscountCurve for Flat {
        fn p0(&self, t: f64) -> f64 { (-0.03 * t).exp() }
    }
    let bp = |t: f64, x: f64| bond_price(&f, &path(t), x, &Flat) > 0.0;
    if d[0] == 0.0 {
        accept(m, "bond", i(), || bp(inside, to) && bp(inside, d[n]) && bp(inside, inside));
        refuse(m, "bond/price backwards", i(), || bp(inside, inside - e));
        refuse(m, "bond/price beyond the tenor", i(), || bp(inside, d[n] + e));
    }
}

fn fmm_side(r: &mut Rng, n: usize, corr: Vec<Vec<f64>>) -> FmmSide {
    FmmSide { sigmas: (0..n).map(|_| r.f(0.0, 0.02)).collect(), lambda: r.lf(0.01, 5.0), eta: r.lf(0.01, 2.0), v_0: r.lf(0.01, 2.0), rate_corr: corr, decay: LinearDecay }
}

fn fx_market_models(m: &mut Mon) {
    let r = &mut m.rng;
    let n = r.i(2, 5) as usize;
    let mut d = dates(r, n);
    d[0] = 0.0;
    let rates: Vec<f64> = (0..n).map(|_| r.f(-0.005, 0.07)).collect();
    let big = fxm::correlation(r, 2 + 2 * n, 3);
    let sub = |o: usize| -> Vec<Vec<f64>> { (0..n).map(|i| (0..n).map(|j| big[o + i][o + j]).collect()).collect() };
    let row = |a: usize, o: usize| -> Vec<f64> { (0..n).map(|i| big[a][o + i]).collect() };
    let cross: Vec<Vec<f64>> = (0..n).map(|i| (0..n).map(|j| big[2 + i][2 + n + j]).collect()).collect();
    let heston = fxm::heston(r);
    let p = FxFmmParams {
        fx_0: r.lf(0.5, 150.0),
        heston,
        tenor: FmmTenor::new(d.clone(), rates.clone()),
        domestic: fmm_side(r, n, sub(2)),
        foreign: fmm_side(r, n, sub(2 + n)),
        correlations: FxFmmCorrelations { rho_xi_sigma: big[0][1], rho_xi_d: row(0, 2), rho_xi_f: row(0, 2 + n), rho_sigma_d: row(1, 2), rho_sigma_f: row(1, 2 + n), cross_rate_corr: cross.clone() },
    };
    let t = r.f(0.2, 0.9) * d[n];
    let seed = r.next();
    type P = FxFmmParams;
    // every route into the model refuses what validation refuses
    let routes: [(&str, Box<dyn Fn(P) -> bool>); 3] = [
        ("validate", Box::new(|p: P| p.validate().is_ok())),
        ("transform", Box::new(move |p: P| { FxFmm1ForwardChf::new(&p, t); true })),
        ("simulator", Box::new(move |p: P| FxFmmSimulator::new(p, seed).is_ok())),
    ];
    for (w, _) in &routes {
        let f = &routes.iter().find(|x| x.0 == *w).unwrap().1;
        accept(m, &format!("fx-fmm {w}"), &p, || f(p.clone()));
    }
    // boundary: exact unit correlations and vanishing rate volatility pass validation
    let mut edge = p.clone();
    edge.correlations.rho_xi_sigma = if m.rng.b() { 1.0 } else { -1.0 };
    edge.correlations.cross_rate_corr[0][n - 1] = -1.0;
    edge.correlations.rho_sigma_f[0] = 1.0;
    edge.domestic.sigmas = vec![0.0; n];
    accept(m, "fx-fmm boundary", &edge, || edge.validate().is_ok());
    type Brk<X> = Box<dyn Fn(&mut X, &mut Rng)>;
    let mut brk: Vec<(String, Brk<P>)> = vec![];
    for dom in [true, false] {
        let s = if dom { "domestic" } else { "foreign" };
        let side = move |p: &mut P, f: &dyn Fn(&mut FmmSide)| if dom { f(&mut p.domestic) } else { f(&mut p.foreign) };
        for k in 0..5 {
            brk.push((format!("fx-fmm/{s} {}", CORR[k]), Box::new(move |p, r| { let c = if dom { &mut p.domestic.rate_corr } else { &mut p.foreign.rate_corr }; break_corr(c, k, r) })));
        }
        brk.push((format!("fx-fmm/{s} volatility count"), Box::new(move |p, r| { let c = if dom { &mut p.domestic.sigmas } else { &mut p.foreign.sigmas }; resize(c, r) })));
        brk.push((format!("fx-fmm/{s} volatility sign"), Box::new(move |p, r| { let (i, x) = (any(n, r), *r.pick(&[-1e-8, -0.01, f64::NAN, f64::INFINITY])); side(p, &|s| s.sigmas[i] = x) })));
        brk.push((format!("fx-fmm/{s} lambda"), Box::new(move |p, r| { let x = nonpos(r); side(p, &|s| s.lambda = x) })));
        brk.push((format!("fx-fmm/{s} eta"), Box::new(move |p, r| { let x = nonpos(r); side(p, &|s| s.eta = x) })));
        brk.push((format!("fx-fmm/{s} variance"), Box::new(move |p, r| { let x = nonpos(r); side(p, &|s| s.v_0 = x) })));
    }
    brk.push(("fx-fmm/rho_xi_sigma".into(), Box::new(|p, r| p.correlations.rho_xi_sigma = over(r))));
    for k in 0..4 {
        fn v(c: &mut FxFmmCorrelations, k: usize) -> &mut Vec<f64> {
            match k { 0 => &mut c.rho_xi_d, 1 => &mut c.rho_xi_f, 2 => &mut c.rho_sigma_d, _ => &mut c.rho_sigma_f }
        }
        brk.push((format!("fx-fmm/cross block {k} length"), Box::new(move |p, r| resize(v(&mut p.correlations, k), r))));
        brk.push((format!("fx-fmm/cross block {k} range"), Box::new(move |p, r| { let (i, x) = (any(n, r), over(r)); v(&mut p.correlations, k)[i] = x })));
    }
    brk.push(("fx-fmm/rate cross rows".into(), Box::new(|p, r| break_corr(&mut p.correlations.cross_rate_corr, 4, r))));
    brk.push(("fx-fmm/rate cross columns".into(), Box::new(|p, r| break_corr(&mut p.correlations.cross_rate_corr, 3, r))));
    brk.push(("fx-fmm/rate cross range".into(), Box::new(move |p, r| { let (i, j, x) = (any(n, r), any(n, r), over(r)); p.correlations.cross_rate_corr[i][j] = x })));
    for (w, f) in &brk {
        let mut x = p.clone();
        f(&mut x, &mut m.rng);
        for (route, go) in &routes {
            refuse(m, &format!("{w} ({route})"), &x, || go(x.clone()));
        }
    }
    // joint positive definiteness over any three drivers
    for valid in [true, false] {
        let (a, b, c) = triple(&mut m.rng, valid);
        let mut z = zero_corr(2 + 2 * n);
        let mut ix: Vec<usize> = (0..2 + 2 * n).collect();
        m.rng.shuffle(&mut ix);
        for (i, j, v) in [(0, 1, a), (0, 2, b), (1, 2, c)] {
            z[ix[i]][ix[j]] = v;
            z[ix[j]][ix[i]] = v;
        }
        let mut x = p.clone();
        let s = |a: usize, b: usize| -> Vec<Vec<f64>> { (0..n).map(|i| (0..n).map(|j| z[a + i][b + j]).collect()).collect() };
        x.domestic.rate_corr = s(2, 2);
        x.foreign.rate_corr = s(2 + n, 2 + n);
        x.correlations = FxFmmCorrelations { rho_xi_sigma: z[0][1], rho_xi_d: z[0][2..2 + n].to_vec(), rho_xi_f: z[0][2 + n..].to_vec(), rho_sigma_d: z[1][2..2 + n].to_vec(), rho_sigma_f: z[1][2 + n..].to_vec(), cross_rate_corr: s(2, 2 + n) };
        if valid {
            accept(m, "fx-fmm simulator", &x, || FxFmmSimulator::new(x.clone(), seed).is_ok());
        } else {
            refuse(m, "simulator/not positive definite fx-fmm", &x, || FxFmmSimulator::new(x.clone(), seed).is_ok());
        }
    }
    let sim = || FxFmmSimulator::new(p.clone(), seed).unwrap();
    accept(m, "fx-fmm run", n, || sim().simulate_terminal(0.5, 2, 2).len() == 2);
    let bt = nonpos(&mut m.rng);
    refuse(m, "simulator/horizon fx-fmm", bt, || { sim().simulate_terminal(bt, 2, 2); true });
    refuse(m, "simulator/no step fx-fmm", n, || { sim().simulate_terminal(1.0, 0, 2); true });
    refuse(m, "simulator/no path fx-fmm", n, || { sim().simulate_terminal(1.0, 2, 0); true });
    refuse(m, "simulator/time step fx-fmm", bt, || { let mut st = FxFmmState::initial(&p); sim().step(&mut st, bt); true });
    // transform resolution
    let odd = 2 * m.rng.n(20) + 1;
    let even = 2 * m.rng.n(20) + 2;
    let ns = 1 + m.rng.n(4);
    accept(m, "fx-fmm resolution", (even, ns), || { FxFmm1ForwardChf::with_resolution(&p, t, ns, even); true });
    refuse(m, "quadrature/odd fx-fmm", odd, || { FxFmm1ForwardChf::with_resolution(&p, t, ns, odd); true });
    refuse(m, "quadrature/zero fx-fmm", 0, || { FxFmm1ForwardChf::with_resolution(&p, t, ns, 0); true });
    refuse(m, "quadrature/no piece fx-fmm", 0, || { FxFmm1ForwardChf::with_resolution(&p, t, 0, even); true });
    refuse(m, "expiry/fx-fmm", bt, || { FxFmm1ForwardChf::with_resolution(&p, bt, ns, even); true });

    // Heston with Libor rates
    let r = &mut m.rng;
    let lm = |r: &mut Rng, c: Vec<Vec<f64>>| DdSvLmm { sigmas: (0..n).map(|_| r.f(0.0, 0.2)).collect(), betas: (0..n).map(|_| r.u()).collect(), lambda: r.lf(0.01, 5.0), eta: r.lf(0.01, 2.0), v_0: r.lf(0.01, 2.0), libor_corr: c };
    let q = FxHlmmParams {
        fx_0: p.fx_0,
        heston,
        tenor: LiborTenor::new(d.clone(), rates),
        domestic: lm(r, sub(2)),
        foreign: lm(r, sub(2 + n)),
        correlations: FxHlmmCorrelations { rho_xi_sigma: big[0][1], rho_xi_d: row(0, 2), rho_xi_f: row(0, 2 + n), libor_cross_corr: cross },
    };
    type Q = FxHlmmParams;
    let routes: [(&str, Box<dyn Fn(Q) -> bool>); 2] = [("validate", Box::new(|p: Q| p.validate().is_ok())), ("transform", Box::new(move |p: Q| { FxHlmm1ForwardChf::new(&p, t); true }))];
    for (w, f) in &routes {
        accept(m, &format!("fx-hlmm {w}"), &q, || f(q.clone()));
    }
    let mut brk: Vec<(String, Brk<Q>)> = vec![];
    for dom in [true, false] {
        let s = if dom { "domestic" } else { "foreign" };
        fn side(p: &mut Q, dom: bool) -> &mut DdSvLmm { if dom { &mut p.domestic } else { &mut p.foreign } }
        for k in 0..5 {
            brk.push((format!("fx-hlmm/{s} {}", CORR[k]), Box::new(move |p, r| break_corr(&mut side(p, dom).libor_corr, k, r))));
        }
        brk.push((format!("fx-hlmm/{s} volatility count"), Box::new(move |p, r| resize(&mut side(p, dom).sigmas, r))));
        brk.push((format!("fx-hlmm/{s} displacement count"), Box::new(move |p, r| resize(&mut side(p, dom).betas, r))));
        brk.push((format!("fx-hlmm/{s} lambda"), Box::new(move |p, r| side(p, dom).lambda = nonpos(r))));
        brk.push((format!("fx-hlmm/{s} eta"), Box::new(move |p, r| side(p, dom).eta = nonpos(r))));
        brk.push((format!("fx-hlmm/{s} variance"), Box::new(move |p, r| side(p, dom).v_0 = nonpos(r))));
    }
    brk.push(("fx-hlmm/rho_xi_sigma".into(), Box::new(|p, r| p.correlations.rho_xi_sigma = over(r))));
    brk.push(("fx-hlmm/domestic cross length".into(), Box::new(|p, r| resize(&mut p.correlations.rho_xi_d, r))));
    brk.push(("fx-hlmm/foreign cross length".into(), Box::new(|p, r| resize(&mut p.correlations.rho_xi_f, r))));
    brk.push(("fx-hlmm/domestic cross range".into(), Box::new(move |p, r| { let i = any(n, r); p.correlations.rho_xi_d[i] = over(r) })));
    brk.push(("fx-hlmm/foreign cross range".into(), Box::new(move |p, r| { let i = any(n, r); p.correlations.rho_xi_f[i] = over(r) })));
    brk.push(("fx-hlmm/rate cross rows".into(), Box::new(|p, r| break_corr(&mut p.correlations.libor_cross_corr, 4, r))));
    brk.push(("fx-hlmm/rate cross columns".into(), Box::new(|p, r| break_corr(&mut p.correlations.libor_cross_corr, 3, r))));
    brk.push(("fx-hlmm/rate cross range".into(), Box::new(move |p, r| { let (i, j) = (any(n, r), any(n, r)); p.correlations.libor_cross_corr[i][j] = over(r) })));
    for (w, f) in &brk {
        let mut x = q.clone();
        f(&mut x, &mut m.rng);
        for (route, go) in &routes {
            refuse(m, &format!("{w} ({route})"), &x, || go(x.clone()));
        }
    }
    accept(m, "fx-hlmm resolution", even, || { FxHlmm1ForwardChf::with_simpson_steps(&q, t, even); true });
    refuse(m, "quadrature/odd fx-hlmm", odd, || { FxHlmm1ForwardChf::with_simpson_steps(&q, t, odd); true });
    refuse(m, "quadrature/zero fx-hlmm", 0, || { FxHlmm1ForwardChf::with_simpson_steps(&q, t, 0); true });
    refuse(m, "expiry/fx-hlmm", bt, || { FxHlmm1ForwardChf::new(&q, bt); true });

    // calibrators of both
    let ks = [0.9 * p.fx_0, p.fx_0];
    let vs = [0.12, 0.1];
    let tf = cf::targets_from_grid(&ks, &vs);
    let tl = cl::targets_from_grid(&ks, &vs);
    let neg = -m.rng.lf(1e-6, 1.0);
    refuse(m, "calibrator/grid length fx-fmm", n, || { cf::targets_from_grid(&ks, &vs[..1]); true });
    refuse(m, "calibrator/grid length fx-hlmm", n, || { cl::targets_from_grid(&ks, &vs[..1]); true });
    refuse(m, "calibrator/expiry fx-fmm", bt, || { cf::calibrate(p.clone(), &tf, bt, 0.0, opts(0)); true });
    refuse(m, "calibrator/no target fx-fmm", n, || { cf::calibrate(p.clone(), &[], t, 0.0, opts(0)); true });
    refuse(m, "calibrator/floor fx-fmm", neg, || { cf::calibrate(p.clone(), &tf, t, neg, opts(0)); true });
    refuse(m, "calibrator/expiry fx-hlmm", bt, || { cl::calibrate(q.clone(), &tl, bt, 0.0, opts(0)); true });
    refuse(m, "calibrator/no target fx-hlmm", n, || { cl::calibrate(q.clone(), &[], t, 0.0, opts(0)); true });
    refuse(m, "calibrator/floor fx-hlmm", neg, || { cl::calibrate(q.clone(), &tl, t, neg, opts(0)); true });
}

fn hybrid(m: &mut Mon) {
    let p = fxm::hhw(&mut m.rng);
    let r = &mut m.rng;
    let stock = ForeignStock { s_0: r.lf(1.0, 500.0), variance: fxm::heston(r), rho_xi_sf: r.f(-0.9, 0.9), rho_sf_omega: r.f(-0.9, 0.9) };
    let seed = r.next();
    let t = r.f(0.1, 5.0);
    let bt = nonpos(r);
    for valid in [true, false] {
        let (a, b, c) = triple(&mut m.rng, valid);
        let mut z = [[0.0; 4]; 4];
        let mut ix = vec![0usize, 1, 2, 3];
        m.rng.shuffle(&mut ix);
        for (i, j, v) in [(0, 1, a), (0, 2, b), (1, 2, c)] {
            z[ix[i]][ix[j]] = v;
            z[ix[j]][ix[i]] = v;
        }
        let c = Correlation4x4 { rho_xi_sigma: z[0][1], rho_xi_d: z[0][2], rho_xi_f: z[0][3], rho_sigma_d: z[1][2], rho_sigma_f: z[1][3], rho_d_f: z[2][3] };
        let x = FxHhwParams { correlations: c, ..p };
        if valid {
            accept(m, "hybrid", c, || c.is_valid() && c.cholesky().is_some() && FxHhwSimulator::new(x, seed).is_ok() && FxHhwStockSimulator::new(x, stock, seed).is_ok());
        } else {
            refuse(m, "simulator/not positive definite factor", c, || c.cholesky().is_some());
            refuse(m, "simulator/not positive definite flag", c, || c.is_valid());
            refuse(m, "simulator/not positive definite hybrid", c, || FxHhwSimulator::new(x, seed).is_ok());
            refuse(m, "simulator/not positive definite stock", c, || FxHhwStockSimulator::new(x, stock, seed).is_ok());
        }
    }
    // one pair beyond one is never positive definite
    let mut c = p.correlations;
    let x = over(&mut m.rng);
    let k = m.rng.n(6);
    *[&mut c.rho_xi_sigma, &mut c.rho_xi_d, &mut c.rho_xi_f, &mut c.rho_sigma_d, &mut c.rho_sigma_f, &mut c.rho_d_f][k] = x;
    refuse(m, "simulator/pair beyond one", c, || FxHhwSimulator::new(FxHhwParams { correlations: c, ..p }, seed).is_ok());
    for e in [1.0, -1.0] {
        let s = ForeignStock { rho_xi_sf: e, rho_sf_omega: -e, ..stock };
        accept(m, "stock boundary", e, || FxHhwStockSimulator::new(p, s, seed).is_ok());
    }
    let s = ForeignStock { rho_xi_sf: over(&mut m.rng), ..stock };
    refuse(m, "simulator/stock correlation", s, || FxHhwStockSimulator::new(p, s, seed).is_ok());
    let s = ForeignStock { rho_sf_omega: over(&mut m.rng), ..stock };
    refuse(m, "simulator/stock leverage", s, || FxHhwStockSimulator::new(p, s, seed).is_ok());
    let sim = || FxHhwSimulator::new(p, seed).unwrap();
    let ss = || FxHhwStockSimulator::new(p, stock, seed).unwrap();
    accept(m, "hybrid run", t, || sim().simulate(t, 2, 3).len() == 3 && ss().simulate(t, 2, 3).len() == 3);
    refuse(m, "simulator/horizon hybrid", bt, || { sim().simulate(bt, 2, 2); true });
    refuse(m, "simulator/no step hybrid", 0, || { sim().simulate(t, 0, 2); true });
    refuse(m, "simulator/no path hybrid", 0, || { sim().simulate(t, 2, 0); true });
    refuse(m, "simulator/time step hybrid", bt, || { sim().step(&FxHhwState::initial(&p), bt); true });
    refuse(m, "simulator/time step hybrid at a time", bt, || { sim().step_at_time(&FxHhwState::initial(&p), bt, 0.02, 0.01); true });
    refuse(m, "simulator/horizon stock", bt, || { ss().simulate(bt, 2, 2); true });
    refuse(m, "simulator/no step stock", 0, || { ss().simulate(t, 0, 2); true });
    refuse(m, "simulator/no path stock", 0, || { ss().simulate(t, 2, 0); true });
    refuse(m, "simulator/time step stock", bt, || { ss().step(&FxHhwStockState::initial(&p, &stock), bt); true });
    // transform and quadrature
    let odd = 2 * m.rng.n(20) + 1;
    let even = 2 * m.rng.n(40) + 2;
    let u = Complex64::new(m.rng.f(0.1, 5.0), 0.0);
    accept(m, "hybrid resolution", even, || { let c = FxHhw1ForwardChf::with_simpson_steps(&p, t, even); c.components(u, 0.0); c.components(u, t); true });
    refuse(m, "quadrature/odd hybrid", odd, || { FxHhw1ForwardChf::with_simpson_steps(&p, t, odd); true });
    refuse(m, "quadrature/zero hybrid", 0, || { FxHhw1ForwardChf::with_simpson_steps(&p, t, 0); true });
    let e = m.rng.lf(1e-6, 1.0);
    refuse(m, "quadrature/time before start", e, || { FxHhw1ForwardChf::new(&p, t).components(u, -e); true });
    refuse(m, "quadrature/time beyond expiry", e, || { FxHhw1ForwardChf::new(&p, t).components(u, t + e); true });
    let chf = FxHhw1ForwardChf::new(&p, t);
    let (a, w) = (m.rng.f(-2.0, 2.0), m.rng.lf(0.1, 5.0));
    accept(m, "cosine", (a, w), || { CosPricer::new(&chf).with_n_terms(2).with_range(a, a + w).call(p.fx_0, 1.0).is_finite() });
    refuse(m, "cosine/range", (a, w), || { CosPricer::new(&chf).with_range(a, a - w); true });
    refuse(m, "cosine/empty range", a, || { CosPricer::new(&chf).with_range(a, a); true });
    for n in [0, 1] {
        refuse(m, "cosine/terms", n, || { CosPricer::new(&chf).with_n_terms(n); true });
    }
    let k = nonpos(&mut m.rng);
    refuse(m, "cosine/strike call", k, || { CosPricer::new(&chf).call(k, 1.0); true });
    refuse(m, "cosine/strike put", k, || { CosPricer::new(&chf).put(k, 1.0); true });
    // calibration
    let ks = [0.9 * p.fx_0, p.fx_0];
    let vs = [0.12, 0.1];
    let tg = ch::targets_from_grid(&ks, &vs);
    let neg = -m.rng.lf(1e-6, 1.0);
    accept(m, "hybrid calibrator", t, || { ch::calibrate(p, &tg, t, 0.0, opts(0)); ch::calibrate_bounded(p, &tg, t, 0.0, 0.7, opts(0)); true });
    refuse(m, "calibrator/grid length hybrid", 0, || { ch::targets_from_grid(&ks, &vs[..1]); true });
    refuse(m, "calibrator/expiry hybrid", bt, || { ch::calibrate(p, &tg, bt, 0.0, opts(0)); true });
    refuse(m, "calibrator/no target hybrid", 0, || { ch::calibrate(p, &[], t, 0.0, opts(0)); true });
    refuse(m, "calibrator/floor hybrid", neg, || { ch::calibrate(p, &tg, t, neg, opts(0)); true });
    refuse(m, "calibrator/expiry bounded", bt, || { ch::calibrate_bounded(p, &tg, bt, 0.0, 0.7, opts(0)); true });
    refuse(m, "calibrator/no target bounded", 0, || { ch::calibrate_bounded(p, &[], t, 0.0, 0.7, opts(0)); true });
    refuse(m, "calibrator/floor bounded", neg, || { ch::calibrate_bounded(p, &tg, t, neg, 0.7, opts(0)); true });
    refuse(m, "calibrator/cap bounded", k, || { ch::calibrate_bounded(p, &tg, t, 0.0, k, opts(0)); true });
    // processes
    let h = p.heston;
    let g = CirProcess { kappa: k, ..h };
    refuse(m, "process/mean reversion", g, || { g.sqrt_mean(t); true });
    let g = CirProcess { gamma: k, ..h };
    refuse(m, "process/vol of vol", g, || { g.sqrt_mean_infinity(); true });
    let (s1, s2) = (m.rng.f(0.1, 2.0), m.rng.lf(1e-6, 0.1));
    accept(m, "bond variance", s1, || p.domestic.bond_log_variance(s1 - s2, s1, 3.0) > 0.0 && p.domestic.bond_log_variance(s1, s1, 3.0) == 0.0);
    refuse(m, "process/bond variance backwards", (s1, s2), || { p.domestic.bond_log_variance(s1, s1 - s2, 3.0); true });
    // dated paths
    let val = date(days_from_civil(m.rng.i(2000, 2060) as i32, 3, 1) + m.rng.i(0, 300));
    let obs: Vec<_> = (0..m.rng.i(1, 4)).map(|_| val + Days::new(m.rng.i(1, 60) as u64)).collect();
    let dc = Actual365Fixed::default();
    let go = |o: &[chrono::NaiveDate], n: usize, s: u32| { simulate_at_dates(&mut sim(), val, o, n, s, &dc); true };
    accept(m, "dated paths", &obs, || go(&obs, 2, 7));
    refuse(m, "dates/no path", &obs, || go(&obs, 0, 7));
    refuse(m, "dates/no step", &obs, || go(&obs, 2, 0));
    refuse(m, "dates/no observation", 0, || go(&[], 2, 7));
    let mut b = obs.clone();
    let i = m.rng.n(b.len());
    b[i] = val - Days::new(m.rng.n(3) as u64);
    refuse(m, "dates/observation not in the future", &b, || go(&b, 2, 7));
}

fn smiles(m: &mut Mon) {
    let r = &mut m.rng;
    let base = (r.lf(1e-3, 1.0), r.u(), r.f(-0.999, 0.999), r.lf(1e-3, 2.0));
    type S = (f64, f64, f64, f64);
    let mk = |x: S| { SabrParams::new(x.0, x.1, x.2, x.3); true };
    for x in [base, (base.0, 0.0, base.2, 0.0), (base.0, 1.0, base.2, base.3)] {
        accept(m, "sabr", x, || mk(x));
    }
    bad!(m, "sabr/level", base, |x: &mut S, r: &mut Rng| x.0 = nonpos(r), mk);
    bad!(m, "sabr/exponent", base, |x: &mut S, r: &mut Rng| x.1 = if r.b() { -r.lf(1e-8, 1.0) } else { 1.0 + r.lf(1e-8, 1.0) }, mk);
    bad!(m, "sabr/correlation", base, |x: &mut S, r: &mut Rng| x.2 = if r.chance(0.3) { *r.pick(&[1.0, -1.0]) } else { over(r) }, mk);
    bad!(m, "sabr/vol of vol", base, |x: &mut S, r: &mut Rng| x.3 = -r.lf(1e-8, 1.0), mk);
    let p = SabrParams::new(base.0, base.1, base.2, base.3);
    let r = &mut m.rng;
    let f = r.lf(0.1, 200.0);
    let (k, t) = (f * r.f(0.5, 2.0), r.lf(0.01, 10.0));
    let b = nonpos(r);
    let seed = r.next();
    accept(m, "smile", (f, k, t), || { hagan_implied_vol(&p, f, k, t); true });
    refuse(m, "smile/forward", b, || { hagan_implied_vol(&p, b, k, t); true });
    refuse(m, "smile/strike", b, || { hagan_implied_vol(&p, f, b, t); true });
    refuse(m, "smile/time", b, || { hagan_implied_vol(&p, f, k, b); true });
    refuse(m, "simulator/forward sabr", b, || { SabrSimulator::new(p, b, seed); true });
    let sim = || SabrSimulator::new(p, f, seed);
    accept(m, "sabr run", t, || sim().simulate(t, 2, 3).len() == 3);
    refuse(m, "simulator/horizon sabr", b, || { sim().simulate(b, 2, 2); true });
    refuse(m, "simulator/no step sabr", 0, || { sim().simulate(t, 0, 2); true });
    refuse(m, "simulator/no path sabr", 0, || { sim().simulate(t, 2, 0); true });
    refuse(m, "simulator/time step sabr", b, || { sim().step_with_noise(&SabrState { forward: f, vol: p.alpha }, b); true });
    let ks = [0.9 * f, f, 1.1 * f];
    let vs = [0.12, 0.1, 0.11];
    let tg = cs::targets_from_grid(&ks, &vs);
    accept(m, "sabr calibrator", f, || { cs::calibrate(p, f, &tg, t, opts(0)); true });
    refuse(m, "calibrator/grid length sabr", 0, || { cs::targets_from_grid(&ks, &vs[..2]); true });
    refuse(m, "calibrator/forward sabr", b, || { cs::calibrate(p, b, &tg, t, opts(0)); true });
    refuse(m, "calibrator/expiry sabr", b, || { cs::calibrate(p, f, &tg, b, opts(0)); true });
    refuse(m, "calibrator/no target sabr", 0, || { cs::calibrate(p, f, &[], t, opts(0)); true });

    // schedules
    let n = m.rng.i(1, 6) as usize;
    let r = &mut m.rng;
    let mut knots = dates(r, n);
    let shift = knots[0];
    knots.iter_mut().for_each(|x| *x -= shift);
    let vals: Vec<f64> = (0..n).map(|_| r.lf(0.01, 1.0)).collect();
    type K = (Vec<f64>, Vec<f64>);
    let mk = |x: K| { Pc::new(x.0, x.1); true };
    let bs: K = (knots.clone(), vals.clone());
    accept(m, "schedule", &bs, || mk(bs.clone()));
    bad!(m, "schedule/order", bs, |x: &mut K, r: &mut Rng| disorder(&mut x.0, r), mk);
    bad!(m, "schedule/length", bs, |x: &mut K, r: &mut Rng| resize(&mut x.1, r), mk);
    bad!(m, "schedule/start", bs, |x: &mut K, r: &mut Rng| x.0[0] = r.lf(1e-6, 1e-2) * if r.b() { 1.0 } else { -1.0 }, mk);
    refuse(m, "schedule/no segment", 0, || mk((vec![0.0], vec![])));
    let end = knots[n];
    let e = m.rng.lf(1e-6, 1.0);
    let pc = Pc::new(knots.clone(), vals.clone());
    accept(m, "schedule query", &pc, || pc.at(0.0) == vals[0] && pc.at(end) == vals[n - 1]);
    refuse(m, "schedule/query beyond", e, || { pc.at(end + e); true });
    refuse(m, "schedule/query before", e, || { pc.at(-e); true });
    // effective parameters need shared knots and an expiry on a knot
    let r = &mut m.rng;
    let j = r.n(n);
    let mut k2 = knots.clone();
    k2[j + 1] = knots[j] + (knots[j + 1] - knots[j]) * if j + 1 == n { r.f(0.3, 0.999) } else { r.f(0.3, 0.9) };
    let off = Pc::new(k2, vals.clone());
    let between = knots[j] + (knots[j + 1] - knots[j]) * r.f(0.05, 0.95);
    let g = Pc::new(knots.clone(), (0..n).map(|_| r.lf(0.01, 0.8)).collect());
    let rho = Pc::new(knots.clone(), (0..n).map(|_| r.f(-0.9, 0.9)).collect());
    let i = || format!("{pc:?} {off:?} {between}");
    if (1..=n).all(|i| g.values[i - 1].powi(2) * knots[i] < 3.0) {
        accept(m, "effective", i(), || { effective_vol_vol(&g, &pc, end); effective_term_structure(&g, &pc, end); effective_correlation(&g, &pc, &rho, end); true });
    }
    refuse(m, "effective/knots differ vol-vol", i(), || { effective_vol_vol(&g, &off, end); true });
    refuse(m, "effective/knots differ level", i(), || { effective_term_structure(&g, &off, end); true });
    refuse(m, "effective/knots differ correlation", i(), || { effective_correlation(&g, &pc, &off, end); true });
    refuse(m, "effective/off a knot vol-vol", i(), || { effective_vol_vol(&g, &pc, between); true });
    refuse(m, "effective/off a knot level", i(), || { effective_term_structure(&g, &pc, between); true });
    refuse(m, "effective/off a knot correlation", i(), || { effective_correlation(&g, &pc, &rho, between); true });

    // time-dependent parameters
    #[derive(Clone, Debug)]
    struct T { a: Pc, r: Pc, n: Pc, b: f64, f: f64 }
    let base = T { a: pc.clone(), r: rho.clone(), n: g.clone(), b: *m.rng.pick(&[0.0, 0.3, 1.0]), f };
    let mk = |x: T| { TimeDependentSabrParams::new(x.a, x.r, x.n, x.b, x.f); true };
    accept(m, "time-dependent", &base, || mk(base.clone()));
    let mut flat = base.clone();
    flat.n.values = vec![0.0; n];
    accept(m, "time-dependent without vol of vol", &flat, || mk(flat.clone()));
    bad!(m, "time-dependent/level knots", base, |x: &mut T, _: &mut Rng| x.a = off.clone(), mk);
    bad!(m, "time-dependent/correlation knots", base, |x: &mut T, _: &mut Rng| x.r.knots = off.knots.clone(), mk);
    bad!(m, "time-dependent/vol of vol knots", base, |x: &mut T, _: &mut Rng| x.n.knots = off.knots.clone(), mk);
    bad!(m, "time-dependent/exponent", base, |x: &mut T, r: &mut Rng| x.b = if r.b() { -r.lf(1e-8, 1.0) } else { 1.0 + r.lf(1e-8, 1.0) }, mk);
    bad!(m, "time-dependent/forward", base, |x: &mut T, r: &mut Rng| x.f = nonpos(r), mk);
    bad!(m, "time-dependent/level", base, |x: &mut T, r: &mut Rng| { let i = any(n, r); x.a.values[i] = nonpos(r) }, mk);
    bad!(m, "time-dependent/vol of vol", base, |x: &mut T, r: &mut Rng| { let i = any(n, r); x.n.values[i] = -r.lf(1e-8, 1.0) }, mk);
    bad!(m, "time-dependent/correlation", base, |x: &mut T, r: &mut Rng| { let i = any(n, r); x.r.values[i] = if r.chance(0.3) { *r.pick(&[1.0, -1.0]) } else { over(r) } }, mk);
    let tp = TimeDependentSabrParams::new(pc.clone(), rho.clone(), g.clone(), base.b, f);
    let sim = || TimeDependentSabrSimulator::new(tp.clone(), seed);
    let near = end * m.rng.f(0.1, 1.0);
    accept(m, "time-dependent run", near, || sim().simulate(near, 2, 3).len() == 3);
    refuse(m, "simulator/horizon time-dependent", b, || { sim().simulate(b, 2, 2); true });
    refuse(m, "simulator/no step time-dependent", 0, || { sim().simulate(near, 0, 2); true });
    refuse(m, "simulator/no path time-dependent", 0, || { sim().simulate(near, 2, 0); true });
    let st = SabrState { forward: f, vol: vals[0] };
    refuse(m, "simulator/time step time-dependent", b, || { sim().step_with_noise(&st, 0.0, b); true });

    // calibration pillars
    let pl = |t: f64| td::PillarTarget { expiry: t, forward: f, strikes: ks.to_vec(), market_vols: vs.to_vec() };
    refuse(m, "calibrator/no pillar", 0, || { td::calibrate_time_dependent(&[], 0.5, f, opts(0)); true });
    let tail = if m.rng.b() { t } else { t - m.rng.lf(1e-6, 1.0) * t };
    let at = m.rng.b();
    refuse(m, "calibrator/pillar order", (t, tail), || {
        let v = if at { vec![pl(t), pl(tail)] } else { vec![pl(0.5 * t), pl(t), pl(tail)] };
        td::calibrate_time_dependent(&v, 0.5, f, opts(0));
        true
    });

    // local volatility grid
    #[derive(Clone, Debug)]
    struct G { t: Vec<f64>, k: Vec<f64>, v: Vec<Vec<f64>>, s: f64 }
    let r = &mut m.rng;
    let (nt, nk) = (r.i(3, 6) as usize, r.i(3, 8) as usize);
    let mut tt = dates(r, nt);
    tt.remove(0);
    let kk: Vec<f64> = (0..nk).map(|i| f * (0.7 + 0.6 * i as f64 / (nk - 1) as f64)).collect();
    let v0 = r.f(0.05, 0.3);
    let base = G { v: vec![vec![v0; nk]; nt], t: tt, k: kk, s: f };
    let mk = |x: G| { dup::build(&x.t, &x.k, &x.v, x.s, 0.02, 0.01); true };
    accept(m, "local volatility", &base, || mk(base.clone()));
    bad!(m, "local volatility/expiry order", base, |x: &mut G, r: &mut Rng| disorder(&mut x.t, r), mk);
    bad!(m, "local volatility/strike order", base, |x: &mut G, r: &mut Rng| disorder(&mut x.k, r), mk);
    bad!(m, "local volatility/row count", base, |x: &mut G, r: &mut Rng| if r.b() { x.v.pop(); } else { let l = x.v[0].clone(); x.v.push(l) }, mk);
    bad!(m, "local volatility/row length", base, |x: &mut G, r: &mut Rng| { let i = any(nt, r); resize(&mut x.v[i], r) }, mk);
    bad!(m, "local volatility/spot", base, |x: &mut G, r: &mut Rng| x.s = nonpos(r), mk);
    bad!(m, "local volatility/few expiries", base, |x: &mut G, _: &mut Rng| { x.t.truncate(2); x.v.truncate(2) }, mk);
    bad!(m, "local volatility/few strikes", base, |x: &mut G, _: &mut Rng| { x.k.truncate(2); x.v.iter_mut().for_each(|v| v.truncate(2)) }, mk);
    let lv = || dup::build(&base.t, &base.k, &base.v, base.s, 0.02, 0.01);
    let slv = || TimeDependentSabrSlvSimulator::new(tp.clone(), lv(), seed);
    accept(m, "local-stochastic", near, || slv().with_bins(2).simulate(near, 2, 5).len() == 5);
    for nb in [0, 1] {
        refuse(m, "simulator/bins", nb, || { slv().with_bins(nb); true });
    }
    refuse(m, "simulator/horizon local-stochastic", b, || { slv().simulate(b, 2, 2); true });
    refuse(m, "simulator/no step local-stochastic", 0, || { slv().simulate(near, 0, 2); true });
    refuse(m, "simulator/no path local-stochastic", 0, || { slv().simulate(near, 2, 0); true });
}

fn body(m: &mut Mon) {
    m.assume("refusal is a panic or an Err at the entry point; NaN inputs are only asserted where the code names finiteness");
    m.section("forward-market model");
    for _ in 0..m.scale(1500, 40_000) {
        fmm_model(m);
    }
    m.section("FX market models");
    for _ in 0..m.scale(250, 6_000) {
        fx_market_models(m);
    }
    m.section("FX hybrid");
    for _ in 0..m.scale(400, 10_000) {
        hybrid(m);
    }
    m.section("smile models");
    for _ in 0..m.scale(1200, 30_000) {
        smiles(m);
    }
    m.sample(json!({"example": "a cross-currency rate correlation of 1.2 in one cell of a 4x4 block must be refused by validation, transform and simulator alike"}));
    for k in ["fmm", "tenor", "bond", "fx-fmm", "fx-hlmm", "simulator", "quadrature", "calibrator", "cosine", "sabr", "schedule", "effective", "time-dependent", "local volatility", "dates"] {
        m.need(&format!("refused {k}"), 400);
    }
    m.need("accepted", 5000);
}

fn main() {
    fqmon::run("C38", "distinct model inputs offered to the constructors and entry points", body)
}
