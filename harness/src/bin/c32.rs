//! C32: calibrators.
use finquant::math::optimize::{Minimum, NelderMeadOptions};
use finquant::models::common::calibration::Calibration;
use finquant::models::common::cir::CirProcess;
use finquant::models::common::cos_pricer::CosPricer;
use finquant::models::forex::fx_fmm::{FmmSide, FxFmmCorrelations, FxFmmParams};
use finquant::models::forex::fx_fmm1_chf::FxFmm1ForwardChf;
use finquant::models::forex::fx_hhw::FxHhwParams;
use finquant::models::forex::fx_hhw1_chf::FxHhw1ForwardChf;
use finquant::models::forex::fx_hlmm::{DdSvLmm, FxHlmmCorrelations, FxHlmmParams, LiborTenor};
use finquant::models::forex::fx_hlmm1_chf::FxHlmm1ForwardChf;
use finquant::models::forex::market_data::{MarketSmileStrip, smile_strip};
use finquant::models::forex::sabr::{SabrParams, hagan_implied_vol};
use finquant::models::forex::sabr_effective::{PiecewiseConstant as Pc, effective_correlation, effective_term_structure, effective_vol_vol};
use finquant::models::forex::sabr_time_dependent_calibrator as td;
use finquant::models::forex::{fx_fmm_calibrator as fmm, fx_hhw_calibrator as hhw, fx_hlmm_calibrator as hlmm, sabr_calibrator as sabr};
use finquant::models::interestrate::fmm::{FmmTenor, LinearDecay};
use fqmon::{Mon, Rng, fx, fxm};
use serde_json::json;

fn main() {
    fqmon::run("C32", "distinct calibration runs, curve queries and surface strips", body)
}

fn body(m: &mut Mon) {
    m.section("SABR smile");
    let n = m.scale(2500, 40_000);
    for _ in 0..n {
        sabr_smile(m);
    }
    m.section("FX-Heston blocks");
    let n = m.scale(40, 1200);
    for batch in 0..n / 40 + m.scale(5, 15) {
        let jobs: Vec<Job> = (0..40).filter_map(|i| job(m, (batch * 40 + i) % 4, batch >= n / 40)).collect();
        let next = std::sync::atomic::AtomicUsize::new(0);
        let done = std::sync::Mutex::new(vec![]);
        std::thread::scope(|s| {
            for _ in 0..8 {
                s.spawn(|| loop {
                    let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    let Some(j) = jobs.get(i) else { break };
                    let r = j.run();
                    done.lock().unwrap().push((i, r));
                });
            }
        });
        let mut done = done.into_inner().unwrap();
        done.sort_by_key(|x| x.0);
        for (i, r) in done {
            heston_block(m, &jobs[i], r);
        }
    }
    m.section("model curves");
    let n = m.scale(400, 4000);
    for _ in 0..n {
        curves(m);
    }
    m.section("time-dependent SABR");
    let n = m.scale(600, 10_000);
    for _ in 0..n {
        surface(m);
    }
    m.section("surface strips");
    let n = m.scale(600, 10_000);
    for _ in 0..n {
        strips(m);
    }
    // a simplex can strand at vanishing vol-of-vol, but only rarely
    let (a, b) = (m.get("sabr smile found again"), m.get("sabr stuck"));
    m.check(b * 25 <= a + b, "sabr recovers its own smile", || format!("{b} of {} noise-free smiles not recovered", a + b));
    let (a, b) = (m.get("pillar smile fitted"), m.get("pillar smile not fitted"));
    m.check(b * 25 <= a + b, "pillar smiles are fitted", || format!("{b} of {} noise-free pillar smiles not fitted", a + b));
    m.need("sabr fits", 1500);
    m.need("sabr recovered", 500);
    for k in ["hull-white fits", "bounded fits", "libor fits", "forward-market fits"] {
        m.need(k, 8);
    }
    m.need("improved on the seed", 20);
    m.need("expiry inside the tenor", 100);
    m.need("expiry on a tenor date", 50);
    m.need("expiry beyond the tenor", 50);
    m.need("pillars", 800);
    m.need("correlation clamped", 20);
    m.need("pillars after a clamped one", 10);
    m.need("strips", 400);
    m.assume("targets are at strikes where the model's implied volatility exists");
    m.assume("recovery of the generating SABR smile is asked of four restarts from a seed within a factor 1.5 of the truth");
}

fn opts(iter: usize) -> NelderMeadOptions {
    NelderMeadOptions { max_iter: iter, ftol: 1e-16, xtol: 1e-10, ..NelderMeadOptions::default() }
}

fn rms(a: &[f64], b: &[f64]) -> f64 {
    (a.iter().zip(b).map(|(x, y)| (x - y).powi(2)).sum::<f64>() / a.len() as f64).sqrt()
}

/// Implied volatility of an undiscounted call.
fn implied(p: f64, f: f64, k: f64, t: f64) -> Option<f64> {
    fqmon::num::implied_black(p, f, k, t, true)
}

fn strikes(r: &mut Rng, f: f64, sd: f64) -> Vec<f64> {
    let n = r.i(1, 9) as usize;
    let w = r.f(0.4, 1.8);
    let mut k: Vec<f64> = (0..n).map(|i| f * ((if n == 1 { r.f(-1.0, 1.0) } else { 2.0 * i as f64 / (n - 1) as f64 - 1.0 }) * w * sd).exp()).collect();
    if r.chance(0.2) {
        r.shuffle(&mut k);
    }
    k
}

fn sabr_smile(m: &mut Mon) {
    let r = &mut m.rng;
    let f = r.lf(0.4, 180.0);
    let beta = *r.pick(&[0.0, 0.5, 0.5, 1.0, 0.3, 0.8]);
    let sig = r.lf(0.03, 0.4);
    let t = r.lf(0.05, 8.0);
    let tame = |r: &mut Rng| if t > 1.0 { r.f(0.1, 0.8) / t.sqrt() } else { r.f(0.1, 1.2) };
    let truth = SabrParams::new(sig * f.powf(1.0 - beta), beta, r.f(-0.8, 0.8), tame(r));
    let ks = strikes(r, f, sig * t.sqrt());
    let noise = if r.chance(0.4) { 0.03 * sig } else { 0.0 };
    let vols: Vec<f64> = ks.iter().map(|k| hagan_implied_vol(&truth, f, *k, t) + noise * r.normal()).collect();
    if vols.iter().any(|v| !(*v > 0.0)) {
        return;
    }
    let wild = r.chance(0.3);
    let seed = if wild {
        SabrParams { alpha: r.lf(0.2, 5.0) * truth.alpha, beta, rho: *r.pick(&[-0.9999, 0.0, 0.9999, -0.5]), nu: *r.pick(&[0.0, 0.1, 1.0]) }
    } else {
        SabrParams { alpha: r.f(0.67, 1.5) * truth.alpha, beta, rho: (truth.rho + r.f(-0.2, 0.2)).clamp(-0.9, 0.9), nu: r.f(0.67, 1.5) * truth.nu }
    };
    let o = opts(*r.pick(&[0, 1, 5, 40, 400]));
    let info = || format!("truth {truth:?} seed {seed:?} F {f} T {t} strikes {ks:?} noise {noise} iterations {}", o.max_iter);
    let tg = sabr::targets_from_grid(&ks, &vols);
    m.check(tg.len() == ks.len() && tg.iter().zip(&ks).zip(&vols).all(|((a, k), v)| a.strike == *k && a.market_vol == *v), "targets keep the grid", info);
    let Some(res) = m.guard("panic/sabr", info, || sabr::calibrate(seed, f, &tg, t, o)) else { return };
    let p = res.params;
    m.check(p.beta == beta, "beta kept", || format!("{p:?} {}", info()));
    m.check(p.alpha > 0.0 && p.nu >= 0.0 && p.rho.abs() < 1.0 && p.alpha.is_finite() && p.nu.is_finite(), "sabr domain", || format!("{p:?} {}", info()));
    let fit = |p: &SabrParams| rms(&ks.iter().map(|k| hagan_implied_vol(p, f, *k, t)).collect::<Vec<_>>(), &vols);
    let got = fit(&p);
    if !got.is_finite() || res.optimiser.f >= 1e5 {
        // no admissible point on the way: only from an inadmissible seed
        let z = SabrParams { alpha: seed.alpha, beta, rho: seed.rho.clamp(-0.999, 0.999), nu: seed.nu.max(1e-8) };
        m.check(ks.iter().any(|k| !(hagan_implied_vol(&z, f, *k, t) > 1e-9)), "sabr penalty without cause", info);
        m.trivial();
        return;
    }
    m.close("sabr reported fit", res.rmse, got, 1e-7, 1e-10, || format!("{p:?} {}", info()));
    m.close("sabr objective", (res.optimiser.f / ks.len() as f64).sqrt(), got, 1e-7, 1e-10, info);
    m.check(res.optimiser.iterations <= o.max_iter.max(1), "iteration limit", info);
    let mv = sabr::model_implied_vols(&p, f, t, &ks);
    m.check(mv.len() == ks.len(), "one vol per strike", info);
    for (k, v) in ks.iter().zip(&mv) {
        m.close("sabr model vols", *v, hagan_implied_vol(&p, f, *k, t), 1e-12, 0.0, info);
    }
    let start = SabrParams { alpha: seed.alpha.max(1e-8), beta, rho: seed.rho.clamp(-0.999, 0.999), nu: seed.nu.max(1e-8) };
    let s = fit(&start);
    if s.is_finite() && ks.iter().all(|k| hagan_implied_vol(&start, f, *k, t) > 0.0) {
        m.check(got <= s * (1.0 + 1e-4) + 1e-9, "sabr never worse than its seed", || format!("{got} vs {s} {}", info()));
    }
    let strip = MarketSmileStrip { expiry_yf: t, forward: f, strikes: ks.clone(), vols: vols.clone() };
    if let Some(Ok(w)) = m.guard("panic/sabr driver", info, || sabr::SabrSmileCalibrator { initial: seed }.calibrate(&strip, o)) {
        m.close("sabr driver", w.rmse, res.rmse, 1e-9, 1e-12, info);
        m.close("sabr driver alpha", w.params.alpha, p.alpha, 1e-9, 0.0, info);
        m.close("sabr driver rho", w.params.rho, p.rho, 1e-9, 1e-12, info);
        m.close("sabr driver nu", w.params.nu, p.nu, 1e-9, 1e-12, info);
    }
    if !wild && noise == 0.0 {
        // the generating smile is found again
        let mut q = p;
        let mut e = got;
        for _ in 0..4 {
            let x = sabr::calibrate(q, f, &tg, t, opts(1500));
            q = x.params;
            e = x.rmse;
        }
        if e <= 1e-3 * sig {
            m.count("sabr smile found again");
        } else {
            m.count("sabr stuck");
        }
        if ks.len() >= 4 && e < 1e-9 {
            m.count("sabr identified");
        }
        m.count("sabr recovered");
    }
    m.count("sabr fits");
    m.case((f.to_bits(), t.to_bits(), o.max_iter));
    if m.rng.chance(0.002) {
        m.sample(json!({"truth": format!("{truth:?}"), "fit": format!("{p:?}"), "rmse": got}));
    }
}

/// Market-model parameters with a shared tenor.
struct Market {
    dates: Vec<f64>,
    rates: Vec<f64>,
    h: FxHlmmParams,
    f: FxFmmParams,
}

fn market(r: &mut Rng) -> Market {
    let n = r.i(1, 5) as usize;
    let mut dates = vec![0.0];
    for _ in 0..n {
        let l = *dates.last().unwrap();
        dates.push(l + r.f(0.2, 1.3));
    }
    let rates: Vec<f64> = (0..n).map(|_| r.f(-0.005, 0.07)).collect();
    let c = fxm::correlation(r, 2 * n + 1, 3);
    let sub = |o: usize| -> Vec<Vec<f64>> { (0..n).map(|i| (0..n).map(|j| c[o + i][o + j]).collect()).collect() };
    let cross: Vec<Vec<f64>> = (0..n).map(|i| (0..n).map(|j| c[1 + i][1 + n + j]).collect()).collect();
    let heston = CirProcess { kappa: r.f(0.4, 3.0), theta: r.lf(6e-3, 0.06), gamma: r.f(0.1, 0.5), sigma_0: r.lf(6e-3, 0.06) };
    let rho = r.f(-0.7, 0.7);
    let fx_0 = r.lf(0.5, 150.0);
    let v: Vec<(f64, f64, f64)> = (0..2).map(|_| (r.f(0.3, 2.0), r.f(0.05, 0.4), r.f(0.5, 1.5))).collect();
    let sig: Vec<Vec<f64>> = (0..2).map(|_| (0..n).map(|_| r.f(0.003, 0.012)).collect()).collect();
    let xd: Vec<f64> = (0..n).map(|i| c[0][1 + i]).collect();
    let xf: Vec<f64> = (0..n).map(|i| c[0][1 + n + i]).collect();
    let lm = |i: usize| DdSvLmm { sigmas: sig[i].iter().map(|x| x * 10.0).collect(), betas: vec![0.9; n], lambda: v[i].0, eta: v[i].1, v_0: v[i].2, libor_corr: sub(1 + i * n) };
    let fm = |i: usize| FmmSide { sigmas: sig[i].clone(), lambda: v[i].0, eta: v[i].1, v_0: v[i].2, rate_corr: sub(1 + i * n), decay: LinearDecay };
    Market {
        h: FxHlmmParams {
            fx_0,
            heston,
            tenor: LiborTenor::new(dates.clone(), rates.clone()),
            domestic: lm(0),
            foreign: lm(1),
            correlations: FxHlmmCorrelations { rho_xi_sigma: rho, rho_xi_d: xd.clone(), rho_xi_f: xf.clone(), libor_cross_corr: cross.clone() },
        },
        f: FxFmmParams {
            fx_0,
            heston,
            tenor: FmmTenor::new(dates.clone(), rates.clone()),
            domestic: fm(0),
            foreign: fm(1),
            correlations: FxFmmCorrelations { rho_xi_sigma: rho, rho_xi_d: xd, rho_xi_f: xf, rho_sigma_d: vec![0.0; n], rho_sigma_f: vec![0.0; n], cross_rate_corr: cross },
        },
        dates,
        rates,
    }
}

impl Market {
    /// Domestic discount factors at the tenor dates.
    fn p(&self) -> Vec<f64> {
        let mut p = vec![1.0];
        for i in 0..self.rates.len() {
            p.push(p[i] / (1.0 + (self.dates[i + 1] - self.dates[i]) * self.rates[i]));
        }
        p
    }
}

/// The model behind a calibrator, seen through its public functions only.
#[derive(Clone)]
enum Model {
    Hw(FxHhwParams),
    Libor(FxHlmmParams),
    Fmm(FxFmmParams),
}

impl Model {
    fn undiscounted(&self, t: f64, ks: &[f64]) -> Vec<f64> {
        match self {
            Model::Hw(p) => { let c = FxHhw1ForwardChf::new(p, t); let c = CosPricer::new(&c); ks.iter().map(|k| c.call(*k, 1.0)).collect() }
            Model::Libor(p) => { let c = FxHlmm1ForwardChf::new(p, t); let c = CosPricer::new(&c); ks.iter().map(|k| c.call(*k, 1.0)).collect() }
            Model::Fmm(p) => { let c = FxFmm1ForwardChf::new(p, t); let c = CosPricer::new(&c); ks.iter().map(|k| c.call(*k, 1.0)).collect() }
        }
    }
    fn forward(&self, t: f64) -> f64 {
        match self {
            Model::Hw(p) => p.fx_0 * ((p.rd_0 - p.rf_0) * t).exp(),
            Model::Libor(p) => p.fx_0,
            Model::Fmm(p) => p.fx_0,
        }
    }
    fn vols(&self, t: f64, ks: &[f64]) -> Option<Vec<f64>> {
        let f = self.forward(t);
        self.undiscounted(t, ks).iter().zip(ks).map(|(p, k)| implied(*p, f, *k, t)).collect()
    }
    fn own_vols(&self, t: f64, ks: &[f64]) -> Vec<Option<f64>> {
        match self {
            Model::Hw(p) => hhw::model_implied_vols(p, t, ks),
            Model::Libor(p) => hlmm::model_implied_vols(p, t, ks),
            Model::Fmm(p) => fmm::model_implied_vols(p, t, ks),
        }
    }
    fn block(&mut self) -> (&mut CirProcess, &mut f64) {
        match self {
            Model::Hw(p) => (&mut p.heston, &mut p.correlations.rho_xi_sigma),
            Model::Libor(p) => (&mut p.heston, &mut p.correlations.rho_xi_sigma),
            Model::Fmm(p) => (&mut p.heston, &mut p.correlations.rho_xi_sigma),
        }
    }
    /// Everything that is not calibrated, printed.
    fn rest(&self) -> String {
        let mut c = self.clone();
        let (h, r) = c.block();
        *h = CirProcess { kappa: 1.0, theta: 1.0, gamma: 1.0, sigma_0: 1.0 };
        *r = 0.0;
        c.text()
    }
    fn text(&self) -> String {
        match self {
            Model::Hw(p) => format!("{p:?}"),
            Model::Libor(p) => format!("{p:?}"),
            Model::Fmm(p) => format!("{p:?}"),
        }
    }
}

struct Job {
    kind: usize,
    truth: Model,
    seed: Model,
    t: f64,
    ks: Vec<f64>,
    vols: Vec<f64>,
    floor: f64,
    cap: Option<f64>,
    o: NelderMeadOptions,
    strip: MarketSmileStrip,
    still: bool,
}
type Fit = Result<(Model, f64, Minimum), String>;

/// `still` jobs look at the first simplex only, from seeds at the ends of
/// their ranges.
fn job(m: &mut Mon, kind: usize, still: bool) -> Option<Job> {
    let m_thorough = m.thorough();
    let r = &mut m.rng;
    let mk = market(r);
    let t = r.lf(0.15, 0.9) * mk.dates.last().unwrap();
    let mut truth = match kind {
        0 | 1 => {
            let mut p = fxm::hhw(r);
            p.heston = mk.h.heston;
            p.theta_d = p.rd_0;
            p.theta_f = p.rf_0;
            // small short-rate coupling, so that the linearisation stays a law
            p.domestic.sigma = r.f(0.001, 0.007);
            p.foreign.sigma = r.f(0.001, 0.007);
            p.correlations = finquant::models::forex::fx_hhw::Correlation4x4 { rho_xi_sigma: r.f(-0.7, 0.5), rho_xi_d: r.f(-0.2, 0.2), rho_xi_f: r.f(-0.2, 0.2), rho_sigma_d: r.f(-0.2, 0.2), rho_sigma_f: r.f(-0.2, 0.2), rho_d_f: r.f(-0.2, 0.3) };
            Model::Hw(p)
        }
        2 => Model::Libor(mk.h.clone()),
        _ => Model::Fmm(mk.f.clone()),
    };
    let f = truth.forward(t);
    let (h, _) = truth.block();
    let sd = (h.mean(0.5 * t) * t).sqrt();
    let ks = strikes(r, f, 0.8 * sd);
    let Some(mut vols) = truth.vols(t, &ks) else {
        m.trivial();
        return None;
    };
    let r = &mut m.rng;
    if r.chance(0.3) {
        vols.iter_mut().for_each(|v| *v *= 1.0 + 0.02 * r.normal());
    }
    let mut seed = truth.clone();
    let floor = *r.pick(&[0.0, 0.1, 0.3]);
    {
        let (h, c) = seed.block();
        h.kappa *= r.f(0.7, 1.4);
        h.gamma *= r.f(0.7, 1.4);
        h.theta *= r.f(0.7, 1.4);
        h.sigma_0 *= r.f(0.7, 1.4);
        *c = (*c + r.f(-0.15, 0.15)).clamp(-0.8, 0.8);
        // seeds just above the floor, or at either end of the cap
        if still && r.chance(0.4) {
            h.kappa = floor + r.lf(1e-6, 3e-2);
        }
        if still && r.chance(0.4) {
            *c = r.f(0.9, 0.99) * if r.b() { 1.0 } else { -1.0 };
        }
        if still && kind == 1 && r.chance(0.6) {
            h.gamma *= r.lf(0.02, 1.0);
        }
    }
    let cap = if kind == 1 { Some(r.f(0.05, 1.2)) } else { None };
    let most = if m_thorough { 120 } else if kind < 2 { 60 } else { 20 };
    let o = opts(if still { 0 } else { *r.pick(&[0, most / 4, most / 2, most]) });
    let strip = MarketSmileStrip { expiry_yf: t, forward: r.f(0.5, 2.0) * f, strikes: ks.clone(), vols: vols.clone() };
    Some(Job { kind, truth, seed, t, ks, vols, floor, cap, o, strip, still })
}

impl Job {
    fn run(&self) -> (Fit, Result<(Model, f64), String>) {
        let Job { t, ks, vols, floor, cap, o, strip, .. } = self;
        let (t, floor, o) = (*t, *floor, *o);
        macro_rules! go {
            ($c:ident, $p:expr, $v:path, $d:expr) => {{
                let tg = $c::targets_from_grid(ks, vols);
                let same = tg.len() == ks.len() && tg.iter().zip(ks).zip(vols).all(|((a, k), v)| a.strike == *k && a.market_vol == *v);
                (
                    if same { Mon::attempt(|| $c::calibrate($p.clone(), &tg, t, floor, o)).map(|x| ($v(x.params), x.rmse, x.optimiser)) } else { Err("targets lost".into()) },
                    Mon::attempt(|| $d.calibrate(strip, o)).and_then(|x| x.map_err(|e| format!("{e:?}"))).map(|x| ($v(x.params), x.rmse)),
                )
            }};
        }
        match &self.seed {
            Model::Hw(p) => {
                let d = hhw::FxHhwSmileCalibrator { initial: *p, kappa_floor: floor, gamma_max: *cap };
                match cap {
                    Some(g) => {
                        let tg = strip.hhw_targets();
                        (
                            Mon::attempt(|| hhw::calibrate_bounded(*p, &tg, t, floor, *g, o)).map(|x| (Model::Hw(x.params), x.rmse, x.optimiser)),
                            Mon::attempt(|| d.calibrate(strip, o)).and_then(|x| x.map_err(|e| format!("{e:?}"))).map(|x| (Model::Hw(x.params), x.rmse)),
                        )
                    }
                    None => go!(hhw, p, Model::Hw, d),
                }
            }
            Model::Libor(p) => go!(hlmm, p, Model::Libor, hlmm::FxHlmmSmileCalibrator { initial: p.clone(), kappa_floor: floor }),
            Model::Fmm(p) => go!(fmm, p, Model::Fmm, fmm::FxFmmSmileCalibrator { initial: p.clone(), kappa_floor: floor }),
        }
    }
}

fn heston_block(m: &mut Mon, j: &Job, (res, drv): (Fit, Result<(Model, f64), String>)) {
    let Job { kind, truth, seed, t, ks, vols, floor, cap, o, .. } = j;
    let (kind, t, floor) = (*kind, *t, *floor);
    let info = || format!("truth {} seed {} T {t} strikes {ks:?} vols {vols:?} floor {floor} cap {cap:?} iterations {}", truth.text(), seed.text(), o.max_iter);
    let (mut fit, rmse, opt) = match res {
        Ok(x) => x,
        Err(e) => return m.violate("panic/calibrate", format!("{e}: {}", info())),
    };
    let out = fit.text();
    let full = || format!("result {out} rmse {rmse} {}", info());
    m.check(fit.rest() == seed.rest(), "only the Heston block moves", full);
    {
        let (h, c) = fit.block();
        let (h, c) = (*h, *c);
        m.check(h.kappa >= floor && h.gamma > 0.0 && h.theta > 0.0 && h.sigma_0 > 0.0 && c.abs() < 1.0, "heston domain", full);
        if let Some(g) = *cap {
            m.check(h.gamma <= g, "vol-of-vol cap", full);
        }
    }
    m.check(opt.iterations <= o.max_iter.max(1), "iteration limit", full);
    m.close("objective is the reported error", (opt.f / ks.len() as f64).sqrt(), rmse, 1e-9, 0.0, full);
    // the seed, mapped into the bounds
    let mut s = seed.clone();
    {
        let (h, c) = s.block();
        h.kappa = floor + (h.kappa - floor).max(1e-8);
        *c = c.clamp(-0.999, 0.999);
        if let Some(g) = *cap {
            h.gamma = g * (h.gamma / g).clamp(1e-4, 1.0 - 1e-4);
        }
    }
    if o.max_iter == 0 {
        // nothing but the first simplex was looked at: the seed, or the
        // seed with one coordinate stepped
        let (a, ac) = { let (h, c) = fit.block(); (*h, *c) };
        let (b, bc) = { let (h, c) = s.block(); (*h, *c) };
        let kept = [(a.kappa - floor, b.kappa - floor), (a.gamma, b.gamma), (a.theta, b.theta), (a.sigma_0, b.sigma_0), (ac, bc)].iter().filter(|(x, y)| (x - y).abs() <= 1e-6 * y.abs() + 1e-12).count();
        m.check(kept >= 4, "starts from the seed", full);
        m.count("seed simplex observed");
    }
    if j.still {
        // edge seeds are beyond what the pricer's default grid resolves
    } else if let Some(v) = fit.vols(t, ks) {
        m.close("reported fit", rmse, rms(&v, vols), 1e-6, 2e-6, full);
        for (a, b) in fit.own_vols(t, ks).iter().zip(&v) {
            m.check(a.is_some(), "model vol exists", full);
            m.close("model vols", a.unwrap_or(f64::NAN), *b, 1e-6, 5e-6, full);
        }
        // never worse than where it started
        if let Some(sv) = s.vols(t, ks) {
            let e = rms(&sv, vols);
            m.check(rmse <= e * (1.0 + 1e-5) + 1e-5, "never worse than the seed", || format!("seed error {e} {}", full()));
            if rmse < 0.5 * e {
                m.count("improved on the seed");
            }
        }
    } else {
        m.trivial();
    }
    match drv {
        Ok((mut d, e)) => {
            m.close("driver fit", e, rmse, 1e-9, 1e-12, full);
            let (a, ac) = { let (h, c) = d.block(); (*h, *c) };
            let (b, bc) = { let (h, c) = fit.block(); (*h, *c) };
            for (x, y) in [(a.kappa, b.kappa), (a.gamma, b.gamma), (a.theta, b.theta), (a.sigma_0, b.sigma_0), (ac, bc)] {
                m.close("driver parameters", x, y, 1e-9, 1e-12, full);
            }
        }
        Err(e) => m.violate("driver error", format!("{e} {}", full())),
    }
    m.count(["hull-white fits", "bounded fits", "libor fits", "forward-market fits"][kind]);
    m.case((t.to_bits(), kind, ks.len()));
}

/// Discounting, forwards and option prices the calibrators share with callers.
fn curves(m: &mut Mon) {
    let mk = market(&mut m.rng);
    let p = mk.p();
    let n = mk.rates.len();
    let big = mk.dates[n];
    let info = || format!("dates {:?} rates {:?}", mk.dates, mk.rates);
    for side in 0..2 {
        let df = |t: f64| if side == 0 { hlmm::discount_factor(&mk.h, t) } else { fmm::discount_factor(&mk.f, t) };
        let fw = |t: f64| if side == 0 { hlmm::forward_fx(&mk.h, t) } else { fmm::forward_fx(&mk.f, t) };
        for i in 1..=n {
            m.close("discount at a tenor date", df(mk.dates[i]), p[i], 1e-12, 0.0, || format!("{i} {}", info()));
            m.count("expiry on a tenor date");
        }
        for _ in 0..3 {
            let t = m.rng.f(1e-3, 0.999) * big;
            let i = mk.dates.iter().rposition(|d| *d <= t).unwrap();
            let (a, b) = (p[i].min(p[i + 1]), p[i].max(p[i + 1]));
            let d = df(t);
            m.check(d >= a * (1.0 - 1e-9) && d <= b * (1.0 + 1e-9), "discount between tenor dates", || format!("t {t} got {d} expected in [{a}, {b}] {}", info()));
            m.close("single-curve forward", fw(t), mk.h.fx_0, 1e-12, 0.0, info);
            m.count("expiry inside the tenor");
            let late = big + m.rng.lf(1e-3, 5.0);
            m.close("flat beyond the tenor", df(late), p[n] * (-mk.rates[n - 1] * (late - big)).exp(), 1e-12, 0.0, || format!("{late} {}", info()));
            m.count("expiry beyond the tenor");
        }
        if m.rng.chance(0.15) {
            // quoted price = discount times undiscounted model price
            let i = m.rng.i(1, n as i64) as usize;
            let (t, k) = (mk.dates[i], mk.h.fx_0 * m.rng.f(0.9, 1.1));
            let model = if side == 0 { Model::Libor(mk.h.clone()) } else { Model::Fmm(mk.f.clone()) };
            let u = model.undiscounted(t, &[k])[0];
            let got = if side == 0 { hlmm::price_call(&mk.h, t, k) } else { fmm::price_call(&mk.f, t, k) };
            m.close("call price", got, p[i] * u, 1e-9, 1e-9 * mk.h.fx_0, || format!("t {t} k {k} {}", info()));
            m.count("call prices");
        }
    }
    if m.rng.chance(0.1) {
        let h = fxm::hhw(&mut m.rng);
        let (t, k) = (m.rng.lf(0.1, 5.0), h.fx_0 * m.rng.f(0.9, 1.1));
        let u = Model::Hw(h).undiscounted(t, &[k])[0];
        m.close("call price", hhw::price_call(&h, t, k), (-h.rd_0 * t).exp() * u, 1e-9, 1e-9 * h.fx_0, || format!("{h:?} t {t} k {k}"));
    }
    m.case((big.to_bits(), n));
}

fn surface(m: &mut Mon) {
    let r = &mut m.rng;
    let n = r.i(1, 6) as usize;
    let f0 = r.lf(0.6, 2.0);
    let beta = *r.pick(&[0.5, 0.5, 1.0, 0.3]);
    let wild = r.chance(0.4);
    let mut t = 0.0;
    let (mut a, mut rho, mut nu) = (r.lf(0.05, 0.2), r.f(-0.6, 0.6), r.f(0.3, 1.0));
    let mut pillars = vec![];
    for _ in 0..n {
        t += r.f(0.15, 1.0);
        let f = f0 * (r.f(-0.01, 0.01) * t).exp();
        let truth = SabrParams::new(a * f.powf(1.0 - beta), beta, rho, nu);
        let ks: Vec<f64> = { let k = r.i(3, 7); (0..k).map(|i| f * ((2.0 * i as f64 / (k - 1) as f64 - 1.0) * 1.3 * a * t.sqrt()).exp()).collect() };
        let vols = ks.iter().map(|k| hagan_implied_vol(&truth, f, *k, t)).collect();
        pillars.push(MarketSmileStrip { expiry_yf: t, forward: f, strikes: ks, vols });
        let w = if wild { 0.35 } else { 0.08 };
        a = (a * (1.0 + r.f(-w, w))).clamp(0.03, 0.3);
        rho = (rho + r.f(-1.5 * w, 1.5 * w)).clamp(-0.85, 0.85);
        nu = (nu * (1.0 - r.f(-0.5 * w, 1.5 * w))).clamp(0.08, 1.2);
    }
    let o = NelderMeadOptions { max_iter: 600, ftol: 1e-12, xtol: 1e-9, step_frac: 0.1 };
    let info = || format!("beta {beta} f0 {f0} pillars {pillars:?}");
    let targets: Vec<td::PillarTarget> = pillars.iter().map(|p| p.pillar_target()).collect();
    let res = match Mon::attempt(|| td::calibrate_time_dependent(&targets, beta, f0, o)) {
        Ok(x) => x,
        Err(e) => {
            // an unreachable level is refused
            m.check(e.contains("could not reach target"), "panic/surface", || format!("{e} {}", info()));
            m.count("unreachable");
            m.trivial();
            return;
        }
    };
    let p = &res.params;
    let knots: Vec<f64> = std::iter::once(0.0).chain(pillars.iter().map(|p| p.expiry_yf)).collect();
    m.check(p.alpha.knots == knots && p.rho.knots == knots && p.nu.knots == knots && p.beta == beta && p.forward_0 == f0, "schedule grid", info);
    m.check(p.alpha.values.len() == n && p.rho.values.len() == n && p.nu.values.len() == n && res.per_pillar.len() == n, "one value per pillar", info);
    m.check(p.alpha.values.iter().chain(&p.nu.values).all(|x| *x > 0.0) && p.rho.values.iter().all(|x| x.abs() < 1.0), "schedule domain", || format!("{p:?} {}", info()));
    let mut sum = 0.0;
    let mut clamped = false;
    let mut worst = 0.0f64;
    for i in 0..n {
        let d = &res.per_pillar[i];
        let s = &pillars[i];
        let q = d.market_effective;
        let info = || format!("pillar {i} {d:?} schedule {p:?} {}", info());
        m.check(d.expiry == s.expiry_yf && q.beta == beta, "pillar labels", info);
        let fit = rms(&s.strikes.iter().map(|k| hagan_implied_vol(&q, s.forward, *k, s.expiry_yf)).collect::<Vec<_>>(), &s.vols);
        m.close("stage-one fit", d.stage1_rmse, fit, 1e-7, 1e-12, info);
        let av = s.vols.iter().sum::<f64>() / s.vols.len() as f64;
        m.count(if fit <= 2e-3 * av { "pillar smile fitted" } else { "pillar smile not fitted" });
        worst = worst.max(fit);
        let sub = |v: &[f64]| Pc::new(knots[..=i + 1].to_vec(), v[..=i].to_vec());
        let (sn, sa, sr) = (sub(&p.nu.values), sub(&p.alpha.values), sub(&p.rho.values));
        let t = s.expiry_yf;
        let flat = sub(&vec![q.alpha; n]);
        let g0 = effective_vol_vol(&sn, &flat, t);
        if p.nu.values[i] <= 3e-6 || q.nu < 1e-5 {
            m.check(g0 >= q.nu - 1e-5, "vol-of-vol at its lower end", || format!("{g0} {}", info()));
            m.count("vol-of-vol floored");
        } else {
            m.close("effective vol-of-vol", g0, q.nu, 1e-7, 1e-7, info);
        }
        let (g, w) = (effective_vol_vol(&sn, &sa, t), effective_term_structure(&sn, &sa, t));
        if p.alpha.values[i] <= 1.01e-6 {
            m.check(w >= q.alpha - 1e-6, "level at its lower end", || format!("{w} {}", info()));
            m.count("level floored");
        } else {
            m.close("effective level", w, q.alpha, 1e-7, 1e-8, info);
        }
        let si = (knots[i + 1] - knots[i]) * p.nu.values[i] / p.alpha.values[i];
        let exact = (q.rho * g * t / w - sum) / si;
        m.close("correlation solves its equation", p.rho.values[i], exact.clamp(-0.999, 0.999), 1e-7, 1e-7 * (1.0 + (sum / si).abs()), || format!("exact {exact} {}", info()));
        let c = effective_correlation(&sn, &sa, &sr, t);
        if g < 1e-4 {
            // no smile at all: the correlation of a vanishing vol-of-vol is undefined
            m.count("pillars without vol-of-vol");
        } else if exact.abs() <= 0.999 {
            m.close("effective correlation", c, q.rho, 1e-6, 1e-7, info);
            if clamped {
                m.count("pillars after a clamped one");
            }
        } else {
            clamped = true;
            m.count("correlation clamped");
        }
        let post = (((g - q.nu).powi(2) + (w - q.alpha).powi(2) + (c - q.rho).powi(2)) / 3.0).sqrt();
        m.close("reported residual", d.post_fit_rmse, post, 1e-7, 1e-9, info);
        sum += p.rho.values[i] * si;
        m.count("pillars");
    }
    if let Some(Ok(x)) = m.guard("panic/surface driver", info, || td::SabrTimeDependentSurfaceCalibrator { beta, forward_0: f0 }.calibrate(&pillars, o)) {
        m.close("surface error is the worst pillar", x.rmse, worst, 1e-7, 1e-12, info);
        for (a, b) in [(&x.params.alpha, &p.alpha), (&x.params.rho, &p.rho), (&x.params.nu, &p.nu)] {
            m.check(a.knots == b.knots, "driver grid", info);
            for (u, v) in a.values.iter().zip(&b.values) {
                m.close("driver schedule", *u, *v, 1e-9, 1e-12, info);
            }
        }
    }
    m.case((t.to_bits(), n, f0.to_bits()));
}

/// Strips read off a market surface carry exactly the surface's volatilities.
fn strips(m: &mut Mon) {
    let r = &mut m.rng;
    let v0 = r.i(8000, 11_000);
    let e = v0 + r.i(20, 1500);
    let f = r.lf(0.5, 150.0);
    let (_, pillar) = fx::random_smile(r, v0, e, f);
    let v = fx::nd(v0);
    let Ok(s) = finquant::markets::forex::quotes::volsurface::FXVolSurface::new(v, vec![pillar]) else { return };
    let n = r.i(1, 6) as usize;
    let ks: Vec<f64> = (0..n).map(|_| f * r.f(0.9, 1.1)).collect();
    let x = fx::nd(v0 + r.i(10, 1600));
    let fwd = f * r.f(0.9, 1.1);
    let info = || format!("{v} {x} {fwd} {ks:?}");
    match Mon::attempt(|| smile_strip(&s, v, x, fwd, &ks)) {
        Ok(Ok(a)) => {
            m.check(a.forward == fwd && a.strikes == ks && a.vols.len() == n, "strip labels", info);
            m.close("strip expiry", a.expiry_yf, (x - v).num_days() as f64 / 365.0, 1e-12, 0.0, info);
            let (h, b, p) = (a.hhw_targets(), a.sabr_targets(), a.pillar_target());
            m.check(p.expiry == a.expiry_yf && p.forward == fwd && p.strikes == ks && p.market_vols == a.vols && h.len() == n && b.len() == n, "pillar target", info);
            for i in 0..n {
                let want = s.volatility(x, ks[i]).unwrap_or(f64::NAN);
                m.close("strip volatility", a.vols[i], want, 1e-12, 0.0, info);
                m.check(h[i].strike == ks[i] && b[i].strike == ks[i] && h[i].market_vol == a.vols[i] && b[i].market_vol == a.vols[i], "targets keep the pairs", info);
            }
            m.count("strips");
        }
        Ok(Err(_)) => {
            m.check(ks.iter().any(|k| s.volatility(x, *k).is_err()), "strip refused", info);
        }
        Err(e) => m.violate("panic/strip", format!("{e} {}", info())),
    }
    m.case((v0, x, n));
}
