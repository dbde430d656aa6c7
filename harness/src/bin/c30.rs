//! C30: forward-market-model simulators, observed step by step.
use chrono::{Days, NaiveDate};
use finquant::models::common::cir::CirProcess;
use finquant::models::common::simulation::{SimulationModel, simulate_at_dates};
use finquant::models::forex::fx_fmm::{FmmSide, FxFmmCorrelations, FxFmmParams};
use finquant::models::forex::fx_fmm_simulator::{FxFmmSimulator, FxFmmState};
use finquant::models::interestrate::fmm::{Fmm, FmmPath, FmmSimulator, FmmTenor, LinearDecay, VolSchedule};
use finquant::time::daycounters::actual365fixed::Actual365Fixed;
use fqmon::{Mon, Rng, fxm};
use serde_json::json;

fn main() {
    fqmon::run("C30", "distinct simulated steps and paths", body)
}

fn body(m: &mut Mon) {
    m.section("forward-market steps");
    for _ in 0..m.scale(12_000, 200_000) {
        fmm_steps(m);
    }
    m.section("FX forward-market steps");
    for _ in 0..m.scale(6_000, 100_000) {
        fx_steps(m);
    }
    m.section("volatility schedules");
    for _ in 0..m.scale(20_000, 200_000) {
        schedules(m);
    }
    m.section("correlation rejection");
    for _ in 0..m.scale(5_000, 50_000) {
        rejection(m);
    }
    m.section("dated grids");
    for _ in 0..m.scale(300, 3000) {
        dated(m);
    }
    m.section("noise law");
    for _ in 0..m.scale(6, 40) {
        noise(m);
    }
    m.section("martingales");
    for _ in 0..m.scale(10, 60) {
        martingale(m);
    }
    m.need("fmm steps", 20_000);
    m.need("fx steps", 10_000);
    m.need("step starting on a tenor date", 500);
    m.need("step straddling a tenor date", 500);
    m.need("frozen rates observed", 5000);
    m.need("steps past the last tenor date", 300);
    m.need("variance truncated", 100);
    m.need("correlation rejected", 100);
    m.need("correlation accepted", 100);
    m.need("martingale estimates", 30);
    m.assume("noise is recovered from a same-seed twin whose tenor starts at T_0 = 1000 with small volatilities");
    m.assume("statistical comparisons use bands of 6 standard errors plus the first-order step-size bias");
}

fn tenor(r: &mut Rng) -> FmmTenor {
    let n = if r.chance(0.06) { 6 + r.n(19) } else { 1 + r.n(5) };
    let dyadic = r.b();
    let mut d = vec![0.0];
    for i in 0..n {
        d.push(d[i] + if dyadic { *r.pick(&[0.25, 0.5, 1.0]) } else { r.f(0.08, 1.2) });
    }
    FmmTenor::new(d, (0..n).map(|_| r.f(-0.01, 0.09)).collect())
}

fn schedule(r: &mut Rng, t: &FmmTenor) -> VolSchedule {
    if r.b() {
        VolSchedule::HoLeeEquivalent { vol: r.lf(1e-3, 0.05), mean_reversion: match r.n(4) {
            0 => 0.0,
            1 => r.lf(1e-11, 1e-2) * if r.b() { 1.0 } else { -1.0 },
            _ => r.f(-0.5, 1.5),
        } }
    } else {
        VolSchedule::PiecewiseConstant(
            (0..t.m())
                .map(|_| {
                    let mut x = 0.0;
                    (0..if r.chance(0.08) { 5 + r.n(14) } else { 1 + r.n(4) })
                        .map(|_| {
                            let k = (x, r.lf(1e-3, 0.05));
                            x += r.f(0.05, 1.5);
                            k
                        })
                        .collect()
                })
                .collect(),
        )
    }
}

/// Volatility of rate j (1-based) at t, from the documented definition.
fn sigma(f: &Fmm, j: usize, t: f64) -> f64 {
    match &f.vol_schedule {
        None => f.sigmas[j - 1],
        Some(VolSchedule::PiecewiseConstant(v)) => v[j - 1].iter().rev().find(|k| k.0 <= t).unwrap_or(&v[j - 1][0]).1,
        Some(VolSchedule::HoLeeEquivalent { vol, mean_reversion: a }) => {
            let (lo, hi) = (f.tenor.dates[j - 1], f.tenor.dates[j]);
            if t >= hi {
                0.0
            } else {
                // vol * integral of exp(-a (s - t)) over the period
                vol * fqmon::num::integrate(|s| (-a * (s - t)).exp(), lo, hi, 2)
            }
        }
    }
}

fn level(f: &Fmm, j: usize, x: f64) -> f64 {
    match &f.betas {
        None => 1.0,
        Some(b) => b[j - 1] * x + (1.0 - b[j - 1]) * f.tenor.initial_rates[j - 1],
    }
}

fn model(r: &mut Rng) -> Fmm {
    let t = tenor(r);
    let n = t.m();
    let mut f = Fmm::new(t.clone(), (0..n).map(|_| if r.chance(0.05) { 0.0 } else { r.lf(1e-3, 0.1) }).collect(), fxm::correlation(r, n, 2), LinearDecay);
    if r.chance(0.3) {
        f = f.with_betas((0..n).map(|_| *r.pick(&[0.0, 0.3, 0.7, 1.0])).collect());
    }
    if r.chance(0.4) {
        let s = schedule(r, &t);
        f = f.with_vol_schedule(s);
    }
    f
}

/// Same-seed twin: all rates far from their period, tiny volatility.
struct Twin {
    sim: FmmSimulator,
    corr: Vec<Vec<f64>>,
}
const S: f64 = 1e-5;
impl Twin {
    fn new(corr: &[Vec<f64>], seed: u64) -> Twin {
        let n = corr.len();
        let t = FmmTenor::new((0..=n).map(|i| 1000.0 + i as f64).collect(), vec![0.0; n]);
        let f = Fmm::new(t, vec![S; n], corr.to_vec(), LinearDecay);
        Twin { sim: FmmSimulator::new(f, seed).unwrap(), corr: corr.to_vec() }
    }
    fn draw(&mut self, dt: f64) -> Vec<f64> {
        let mut p = self.sim.initial_path();
        self.sim.step(&mut p, dt);
        (0..self.corr.len()).map(|j| (p.rates[j] - S * S * dt * (0..=j).map(|i| self.corr[i][j]).sum::<f64>()) / S).collect()
    }
}

fn gamma(t: &FmmTenor, j: usize, x: f64) -> f64 {
    ((t.dates[j] - x) / (t.dates[j] - t.dates[j - 1])).clamp(0.0, 1.0)
}

/// The step under way belongs to the first period ending at or after t.
fn active(t: &FmmTenor, x: f64) -> usize {
    (1..=t.m()).find(|j| t.dates[*j] >= x).unwrap_or(t.m() + 1)
}

/// One side of the discretised model: returns (rates, y, x) after the step.
#[allow(clippy::too_many_arguments)]
fn side_step(t: &FmmTenor, vol: &dyn Fn(usize, f64, f64) -> f64, corr: &[Vec<f64>], quanto: &dyn Fn(usize) -> f64, now: f64, dt: f64, rates: &[f64], y: &[f64], y0: &[f64], x: f64, dw: &[f64]) -> (Vec<f64>, Vec<f64>, f64) {
    let mid = now + dt / 2.0;
    let a = active(t, now);
    let m = t.m();
    let tau = |j: usize| t.dates[j] - t.dates[j - 1];
    let mut out = rates.to_vec();
    let s: Vec<f64> = (1..=m).map(|j| vol(j, mid, rates[j - 1])).collect();
    for j in a..=m {
        let g = gamma(t, j, mid);
        if g == 0.0 {
            continue;
        }
        let sum: f64 = (a..=j).map(|i| corr[i - 1][j - 1] * s[i - 1] * gamma(t, i, mid) * tau(i) / (1.0 + tau(i) * rates[i - 1])).sum();
        out[j - 1] += s[j - 1] * g * ((sum - quanto(j)) * dt + dw[j - 1]);
    }
    let mut yy = y.to_vec();
    for j in 1..=m {
        let span = (t.dates[j] - now).min(dt);
        if span > 0.0 {
            yy[j - 1] += (s[j - 1] / (rates[j - 1] + 1.0 / tau(j))).powi(2) * span;
        }
    }
    let mut xx = x;
    if a <= m && now >= t.dates[a - 1] && now < t.dates[a] {
        xx += (yy[a - 1] - y0[a - 1]) / tau(a) * dt + s[a - 1] / (rates[a - 1] + 1.0 / tau(a)) * dw[a - 1];
    }
    (out, yy, xx)
}

/// A step length: tiny, to the next tenor date, straddling, random.
fn step_len(r: &mut Rng, t: &FmmTenor, now: f64) -> f64 {
    let a = active(t, now);
    let next = t.dates.iter().copied().find(|d| *d > now + 1e-9);
    match (r.n(6), next) {
        (0, _) => r.lf(1e-5, 1e-2),
        (1 | 2, Some(d)) => d - now,
        (3, Some(d)) => d - now + r.f(0.01, 0.5),
        (4, _) if a <= t.m() => (t.dates[t.m()] - now) * r.u() + 1e-3,
        _ => r.f(0.01, 0.3),
    }
}

fn same(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| (x - y).abs() <= 1e-9 * (x.abs() + y.abs()) + 1e-12)
}

fn flat(p: &FmmPath) -> Vec<f64> {
    let mut v = vec![p.t, p.x_active];
    for a in [&p.rates, &p.y_diag, &p.rates_at_start, &p.y_at_start] {
        v.extend_from_slice(a);
    }
    v
}

fn all(m: &mut Mon, key: &str, got: &[f64], want: &[f64], rtol: f64, ctx: &dyn Fn() -> String) -> bool {
    if got.len() != want.len() {
        m.violate(key, format!("length {} vs {} {}", got.len(), want.len(), ctx()));
        return false;
    }
    let mut ok = true;
    for i in 0..got.len() {
        ok &= m.close(key, got[i], want[i], rtol, 1e-13, || format!("index {i} {}", ctx()));
    }
    ok
}

fn fmm_steps(m: &mut Mon) {
    let mut r = Rng::new(m.rng.next());
    let f = model(&mut r);
    let n = f.tenor.m();
    let seed = r.next();
    let ctx = || format!("{f:?} seed={seed}");
    let Some(Ok(mut sim)) = m.guard("fmm-panics", ctx, || FmmSimulator::new(f.clone(), seed)) else {
        m.violate("valid-correlation-rejected", ctx());
        return;
    };
    let mut twin = Twin::new(&f.correlation, seed);
    let init = sim.initial_path();
    m.check(init.rates == f.tenor.initial_rates && init.t == 0.0 && init.x_active == 0.0 && init.y_diag == vec![0.0; n] && init.rates_at_start[0] == f.tenor.initial_rates[0] && init.y_at_start == vec![0.0; n], "fmm-initial", || format!("{init:?}"));
    m.check(SimulationModel::initial_state(&sim) == init, "fmm-initial", ctx);
    let mut p = init.clone();
    for _ in 0..2 + r.n(6) {
        let dt = step_len(&mut r, &f.tenor, p.t);
        let dw = twin.draw(dt);
        let old = p.clone();
        let via_trait = r.b();
        let next = m.guard("fmm-panics", || format!("{} at {old:?} dt={dt}", ctx()), || {
            if via_trait {
                SimulationModel::step(&mut sim, &old, r.f(0.0, 5.0), dt)
            } else {
                let mut q = old.clone();
                sim.step(&mut q, dt);
                q
            }
        });
        let Some(next) = next else { return };
        if next.rates.iter().any(|x| *x < -1.0 || *x > 3.0) {
            m.trivial();
            return;
        }
        m.count("fmm steps");
        m.case(("fmm", seed, dt.to_bits(), old.t.to_bits()));
        let vol = |j: usize, t: f64, x: f64| sigma(&f, j, t) * level(&f, j, x);
        let (rates, y, x) = side_step(&f.tenor, &vol, &f.correlation, &|_| 0.0, old.t, dt, &old.rates, &old.y_diag, &old.y_at_start, old.x_active, &dw);
        let info = || format!("{} from {old:?} dt={dt} dw={dw:?} to {next:?}", ctx());
        m.close("fmm-time", next.t, old.t + dt, 1e-14, 0.0, info);
        // the twin's own rounding: relative 1e-9 on the increment
        for j in 0..n {
            m.close("fmm-rate-step", next.rates[j], rates[j], 1e-12, 1e-9 * (dw[j].abs() * 0.2 + 1e-4), || format!("rate {} {}", j + 1, info()));
            m.close("fmm-y-step", next.y_diag[j], y[j], 1e-10, 1e-16, || format!("rate {} {}", j + 1, info()));
        }
        let (a, b) = (active(&f.tenor, old.t), active(&f.tenor, next.t));
        for j in 1..=n {
            if f.tenor.dates[j] <= old.t {
                m.count("frozen rates observed");
                m.check(next.rates[j - 1] == old.rates[j - 1] && next.y_diag[j - 1] == old.y_diag[j - 1], "expired-rate-moves", || format!("rate {j} {}", info()));
            }
        }
        if old.t > f.tenor.dates[n] {
            m.count("steps past the last tenor date");
        }
        if f.tenor.dates.contains(&old.t) {
            m.count("step starting on a tenor date");
        }
        if f.tenor.dates.iter().any(|d| *d > old.t && *d < next.t) {
            m.count("step straddling a tenor date");
        }
        // book-keeping of the application periods
        for k in 1..=n {
            let opened = k > a && k <= b;
            let (rs, ys) = if opened { (next.rates[k - 1], next.y_diag[k - 1]) } else { (old.rates_at_start[k - 1], old.y_at_start[k - 1]) };
            m.check(next.rates_at_start[k - 1] == rs && next.y_at_start[k - 1] == ys, "period-snapshot", || format!("period {k} opened {opened} {}", info()));
        }
        let want_x = if b > a && a < n { 0.0 } else { x };
        m.close("fmm-x-step", next.x_active, want_x, 1e-9, 1e-9 * (0.2 * dw.iter().fold(0.0f64, |s, x| s.max(x.abs())) + 1e-4), info);
        p = next;
    }
    if r.chance(0.001) {
        m.sample(json!({"model": "fmm", "M": n, "end": p.t, "rates": p.rates}));
    }
    // drivers and reproducibility
    let steps = if r.chance(0.02) { 20 + r.n(200) } else { 1 + r.n(6) };
    let np = if r.chance(0.02) { 10 + r.n(40) } else { 3 };
    let t_end = r.f(0.1, 1.2) * f.tenor.dates[n];
    let out = FmmSimulator::new(f.clone(), seed).unwrap().simulate_terminal(t_end, steps, np);
    let again = FmmSimulator::new(f.clone(), seed).unwrap().simulate_terminal(t_end, steps, np);
    m.check(out == again, "seed-reproducible", ctx);
    m.check(out.len() == np, "fmm-path-count", ctx);
    let mid = t_end / steps as f64 / 2.0;
    let moves = (1..=n).any(|j| gamma(&f.tenor, j, mid) * sigma(&f, j, mid) * level(&f, j, f.tenor.initial_rates[j - 1]) != 0.0);
    if moves {
        let other = FmmSimulator::new(f.clone(), seed ^ 9).unwrap().simulate_terminal(t_end, steps, np);
        m.check(out[0] != out[1] && out != other, "paths-differ", ctx);
    }
    let mut it = FmmSimulator::new(f.clone(), seed).unwrap();
    for o in &out {
        let mut q = it.initial_path();
        for _ in 0..steps {
            it.step(&mut q, t_end / steps as f64);
        }
        m.check(same(&flat(o), &flat(&q)), "fmm-driver", || format!("{} t={t_end} n={steps}: {o:?} vs {q:?}", ctx()));
    }
}

// ------------------------------------------------------------------- FX --

fn params(r: &mut Rng) -> (FxFmmParams, Vec<Vec<f64>>) {
    let t = tenor(r);
    let n = t.m();
    let c = fxm::correlation(r, 2 + 2 * n, 3);
    let sub = |o: usize| -> Vec<Vec<f64>> { (0..n).map(|i| (0..n).map(|j| c[o + i][o + j]).collect()).collect() };
    let side = |r: &mut Rng, o: usize| FmmSide { sigmas: (0..n).map(|_| if r.chance(0.05) { 0.0 } else { r.lf(1e-3, 0.05) }).collect(), lambda: r.lf(0.1, 3.0), eta: r.lf(0.05, 1.0), v_0: if r.b() { 1.0 } else { r.lf(0.2, 3.0) }, rate_corr: sub(o), decay: LinearDecay };
    let (domestic, foreign) = (side(r, 2), side(r, 2 + n));
    let cross = (0..n).map(|i| (0..n).map(|j| c[2 + i][2 + n + j]).collect()).collect();
    let p = FxFmmParams {
        fx_0: r.lf(0.01, 200.0),
        heston: fxm::heston(r),
        tenor: t,
        domestic,
        foreign,
        correlations: FxFmmCorrelations { rho_xi_sigma: c[0][1], rho_xi_d: c[0][2..2 + n].to_vec(), rho_xi_f: c[0][2 + n..].to_vec(), rho_sigma_d: c[1][2..2 + n].to_vec(), rho_sigma_f: c[1][2 + n..].to_vec(), cross_rate_corr: cross },
    };
    (p, c)
}

struct FxTwin {
    sim: FxFmmSimulator,
    p: FxFmmParams,
}
const G: f64 = 1e-3;
impl FxTwin {
    fn new(p: &FxFmmParams, seed: u64) -> Option<FxTwin> {
        let n = p.tenor.m();
        let mut q = p.clone();
        q.tenor = FmmTenor::new((0..=n).map(|i| 1000.0 + i as f64).collect(), vec![0.0; n]);
        q.heston = CirProcess { kappa: 0.5, theta: 1.0, gamma: G, sigma_0: 1.0 };
        q.fx_0 = 1.0;
        for s in [&mut q.domestic, &mut q.foreign] {
            s.sigmas = vec![S; n];
            s.v_0 = 1.0;
        }
        Some(FxTwin { sim: FxFmmSimulator::new(q.clone(), seed).ok()?, p: q })
    }
    fn draw(&mut self, dt: f64) -> Vec<f64> {
        let mut s = FxFmmState::initial(&self.p);
        self.sim.step(&mut s, dt);
        let n = self.p.tenor.m();
        let mut v = vec![s.fx.ln() + 0.5 * dt, (s.variance - 1.0) / G];
        for j in 0..n {
            v.push((s.rates_d[j] - S * S * dt * (0..=j).map(|i| self.p.domestic.rate_corr[i][j]).sum::<f64>()) / S);
        }
        for j in 0..n {
            v.push((s.rates_f[j] - S * S * dt * (0..=j).map(|i| self.p.foreign.rate_corr[i][j]).sum::<f64>()) / S + self.p.correlations.rho_xi_f[j] * dt);
        }
        v
    }
}

fn fx_flat(s: &FxFmmState) -> Vec<f64> {
    let mut v = vec![s.t, s.fx, s.variance, s.x_active_d, s.x_active_f];
    for a in [&s.rates_d, &s.rates_f, &s.y_diag_d, &s.y_diag_f, &s.rates_at_start_d, &s.rates_at_start_f, &s.y_at_start_d, &s.y_at_start_f] {
        v.extend_from_slice(a);
    }
    v
}

fn fx_steps(m: &mut Mon) {
    let mut r = Rng::new(m.rng.next());
    let (mut p, mut c) = params(&mut r);
    for _ in 0..10 {
        if r.chance(0.05) || pivot(&c) > 1e-6 {
            break;
        }
        (p, c) = params(&mut r);
    }
    let n = p.tenor.m();
    let seed = r.next();
    let ctx = || format!("{p:?} seed={seed}");
    let pd = fqmon::num::cholesky(&c).is_some_and(|l| (0..l.len()).all(|i| l[i][i] > 1e-4));
    let Some(sim) = m.guard("fx-panics", ctx, || FxFmmSimulator::new(p.clone(), seed)) else { return };
    let Ok(mut sim) = sim else {
        m.check(!pd, "valid-correlation-rejected", ctx);
        return;
    };
    let Some(mut twin) = FxTwin::new(&p, seed) else { return };
    let init = FxFmmState::initial(&p);
    m.check(SimulationModel::initial_state(&sim) == init && init.fx == p.fx_0 && init.variance == p.heston.sigma_0 && init.rates_d == p.tenor.initial_rates && init.rates_f == p.tenor.initial_rates && init.t == 0.0 && init.rates_at_start_d[0] == p.tenor.initial_rates[0] && init.rates_at_start_f[0] == p.tenor.initial_rates[0] && [&init.y_diag_d, &init.y_diag_f].iter().all(|v| v.len() == n && v.iter().all(|x| *x == 0.0)) && [&init.y_at_start_d, &init.y_at_start_f].iter().all(|v| v.len() == n && v[0] == 0.0) && init.rates_at_start_d.len() == n && init.rates_at_start_f.len() == n && init.x_active_d == 0.0 && init.x_active_f == 0.0, "fx-initial", || format!("{init:?}"));
    let mut s = init.clone();
    for _ in 0..2 + r.n(6) {
        let dt = step_len(&mut r, &p.tenor, s.t);
        let dw = twin.draw(dt);
        let old = s.clone();
        let via_trait = r.b();
        let next = m.guard("fx-panics", || format!("{} at {old:?} dt={dt}", ctx()), || {
            if via_trait {
                SimulationModel::step(&mut sim, &old, r.f(0.0, 5.0), dt)
            } else {
                let mut q = old.clone();
                sim.step(&mut q, dt);
                q
            }
        });
        let Some(next) = next else { return };
        if next.rates_d.iter().chain(&next.rates_f).any(|x| *x < -0.7 || *x > 3.0) || next.fx.ln().abs() > 60.0 {
            m.trivial();
            return;
        }
        m.count("fx steps");
        m.case(("fx", seed, dt.to_bits(), old.t.to_bits()));
        let info = || format!("{} from {old:?} dt={dt} dw={dw:?} to {next:?}", ctx());
        let v = old.variance.max(0.0);
        let h = &p.heston;
        let wv = (v + h.kappa * (h.theta - v) * dt + h.gamma * v.sqrt() * dw[1]).max(0.0);
        if wv == 0.0 {
            m.count("variance truncated");
        }
        m.close("fx-variance-step", next.variance, wv, 1e-10, 1e-11 * (1.0 + h.gamma), info);
        let k = active(&p.tenor, old.t).min(n) - 1;
        let wl = (old.rates_d[k] - old.rates_f[k] - 0.5 * v) * dt + v.sqrt() * dw[0];
        m.close("fx-spot-step", (next.fx / old.fx).ln(), wl, 1e-10, 1e-11, info);
        m.check(next.fx > 0.0 && next.variance >= 0.0 && fx_flat(&next).iter().all(|x| x.is_finite()), "fx-state-valid", info);
        m.close("fx-time", next.t, old.t + dt, 1e-14, 0.0, info);
        for foreign in [false, true] {
            let sd = if foreign { &p.foreign } else { &p.domestic };
            let w = if foreign { &dw[2 + n..] } else { &dw[2..2 + n] };
            let get = |q: &FxFmmState| if foreign { (q.rates_f.clone(), q.y_diag_f.clone(), q.y_at_start_f.clone(), q.rates_at_start_f.clone(), q.x_active_f) } else { (q.rates_d.clone(), q.y_diag_d.clone(), q.y_at_start_d.clone(), q.rates_at_start_d.clone(), q.x_active_d) };
            let (o, g) = (get(&old), get(&next));
            let vol = |j: usize, _: f64, _: f64| sd.v_0.sqrt() * sd.sigmas[j - 1];
            let q = |j: usize| if foreign { p.correlations.rho_xi_f[j - 1] * v.sqrt() } else { 0.0 };
            let (rates, y, x) = side_step(&p.tenor, &vol, &sd.rate_corr, &q, old.t, dt, &o.0, &o.1, &o.2, o.4, w);
            let big = w.iter().fold(0.0f64, |s, x| s.max(x.abs()));
            let name = if foreign { "foreign" } else { "domestic" };
            for j in 0..n {
                m.close(&format!("fx-{name}-rate-step"), g.0[j], rates[j], 1e-12, 1e-9 * (0.2 * big + 1e-4), || format!("rate {} {}", j + 1, info()));
                m.close(&format!("fx-{name}-y-step"), g.1[j], y[j], 1e-10, 1e-16, || format!("rate {} {}", j + 1, info()));
                if p.tenor.dates[j + 1] <= old.t {
                    m.count("frozen rates observed");
                    m.check(g.0[j] == o.0[j] && g.1[j] == o.1[j], "expired-rate-moves", || format!("{name} rate {} {}", j + 1, info()));
                }
            }
            let (a, b) = (active(&p.tenor, old.t), active(&p.tenor, next.t));
            for k in 1..=n {
                let opened = k > a && k <= b;
                let (rs, ys) = if opened { (g.0[k - 1], g.1[k - 1]) } else { (o.3[k - 1], o.2[k - 1]) };
                m.check(g.3[k - 1] == rs && g.2[k - 1] == ys, "period-snapshot", || format!("{name} period {k} opened {opened} {}", info()));
            }
            let want_x = if b > a && a < n { 0.0 } else { x };
            m.close(&format!("fx-{name}-x-step"), g.4, want_x, 1e-9, 1e-9 * (0.2 * big + 1e-4), info);
        }
        s = next;
    }
    let steps = if r.chance(0.02) { 20 + r.n(200) } else { 1 + r.n(6) };
    let np = if r.chance(0.02) { 10 + r.n(40) } else { 3 };
    let t_end = r.f(0.1, 1.2) * p.tenor.dates[n];
    let mk = |sd: u64| FxFmmSimulator::new(p.clone(), sd).unwrap();
    let out = mk(seed).simulate_terminal(t_end, steps, np);
    m.check(out.len() == np, "fx-path-count", ctx);
    m.check(out == mk(seed).simulate_terminal(t_end, steps, np), "seed-reproducible", ctx);
    m.check(out[0] != out[1] && out != mk(seed ^ 9).simulate_terminal(t_end, steps, np), "paths-differ", ctx);
    let mut it = mk(seed);
    for o in &out {
        let mut q = FxFmmState::initial(&p);
        for _ in 0..steps {
            it.step(&mut q, t_end / steps as f64);
        }
        m.check(same(&fx_flat(o), &fx_flat(&q)) || fx_flat(&q).iter().any(|x| !(x.abs() < 1e6)), "fx-driver", || format!("{} t={t_end} n={steps}: {o:?} vs {q:?}", ctx()));
    }
}

fn schedules(m: &mut Mon) {
    let mut r = Rng::new(m.rng.next());
    let f = model(&mut r);
    let n = f.tenor.m();
    m.case(format!("{f:?}"));
    for _ in 0..6 {
        let j = 1 + r.n(n);
        let mut t = r.f(0.0, 1.2) * f.tenor.dates[n];
        if r.chance(0.2) {
            t = f.tenor.dates[r.n(n + 1)];
        }
        if let Some(VolSchedule::PiecewiseConstant(v)) = &f.vol_schedule {
            if r.chance(0.3) {
                t = r.pick(&v[j - 1]).0;
            }
        }
        let x = r.f(-0.05, 0.2);
        let ctx = || format!("{f:?} j={j} t={t} rate={x}");
        m.close("sigma-schedule", f.sigma_at(j, t), sigma(&f, j, t), 1e-9, 1e-300, ctx);
        m.close("displacement-level", f.displacement_level(j, x), level(&f, j, x), 1e-13, 1e-16, ctx);
        m.close("adapted-volatility", f.adapted_vol(j, t, x), sigma(&f, j, t) * level(&f, j, x), 1e-9, 1e-16, ctx);
        m.check(f.tenor.eta(t) == active(&f.tenor, t), "active-period", ctx);
        m.close("tenor-length", f.tenor.tau(j), f.tenor.dates[j] - f.tenor.dates[j - 1], 1e-14, 0.0, ctx);
        let (s, big) = (r.f(0.0, 1.2) * f.tenor.dates[n], r.f(0.0, 1.2) * f.tenor.dates[n]);
        m.close("decay", f.decay.gamma(j, t, &f.tenor), gamma(&f.tenor, j, t), 1e-13, 1e-14, ctx);
        m.close("decay-integral", f.decay.big_g(j, s, big, &f.tenor), gamma(&f.tenor, j, s) - gamma(&f.tenor, j, big), 1e-13, 1e-14, ctx);
    }
}

fn rejection(m: &mut Mon) {
    let mut r = Rng::new(m.rng.next());
    let n = 2 + r.n(3);
    let mut c = fxm::correlation(&mut r, n, 2);
    let k = r.f(0.8, 1.6);
    for i in 0..n {
        for j in 0..n {
            if i != j {
                c[i][j] = (c[i][j] * k).clamp(-0.999, 0.999);
            }
        }
    }
    let t = FmmTenor::new((0..=n).map(|i| i as f64).collect(), vec![0.02; n]);
    // signed definiteness margin from the pivots
    let margin = pivot(&c);
    let ctx = || format!("{c:?} pivot {margin}");
    if margin.abs() < 1e-9 {
        m.trivial();
        return;
    }
    let f = Fmm::new(t.clone(), vec![0.01; n], c.clone(), LinearDecay);
    let Some(got) = m.guard("rejection-panics", ctx, || FmmSimulator::new(f, 1).is_ok()) else { return };
    m.check(got == (margin > 0.0), "correlation-definiteness", ctx);
    m.count(if margin > 0.0 { "correlation accepted" } else { "correlation rejected" });
    m.case(format!("{c:?}"));
    // FX: the same on the joint matrix
    let (p, c) = params(&mut r);
    let n = p.tenor.m();
    let mut q = p.clone();
    let k = r.f(0.8, 1.6);
    let sc = |x: f64| (x * k).clamp(-0.999, 0.999);
    q.correlations.rho_xi_d = q.correlations.rho_xi_d.iter().map(|x| sc(*x)).collect();
    q.correlations.rho_sigma_f = q.correlations.rho_sigma_f.iter().map(|x| sc(*x)).collect();
    let mut j = c.clone();
    for i in 0..n {
        for (a, b) in [(0, 2 + i), (1, 2 + n + i)] {
            j[a][b] = sc(c[a][b]);
            j[b][a] = j[a][b];
        }
    }
    let margin = pivot(&j);
    if margin.abs() > 1e-9 {
        let got = m.guard("rejection-panics", || format!("{q:?}"), || FxFmmSimulator::new(q.clone(), 1).is_ok());
        m.check(got == Some(margin > 0.0), "fx-correlation-definiteness", || format!("{q:?} pivot {margin}"));
        m.count(if margin > 0.0 { "correlation accepted" } else { "correlation rejected" });
    }
    // malformed sides are refused
    let mut bad = p.clone();
    match r.n(8) {
        0 => bad.domestic.sigmas.push(0.01),
        1 => bad.foreign.sigmas[0] = -0.01,
        2 => bad.domestic.v_0 = 0.0,
        3 => bad.foreign.lambda = -0.1,
        4 => bad.correlations.rho_xi_d[0] = 1.5,
        5 => bad.correlations.rho_xi_f.push(0.0),
        6 => bad.domestic.rate_corr[0][0] = 0.5,
        _ => bad.correlations.cross_rate_corr[0][0] = -1.2,
    }
    let got = m.guard("rejection-panics", || format!("{bad:?}"), || (bad.validate().is_err(), FxFmmSimulator::new(bad.clone(), 1).is_err()));
    m.check(got == Some((true, true)), "malformed-parameters-accepted", || format!("{bad:?}"));
    m.check(p.validate().is_ok(), "valid-parameters-refused", || format!("{p:?}"));
}

/// Smallest squared pivot of a symmetric elimination.
fn pivot(c: &[Vec<f64>]) -> f64 {
    let n = c.len();
    let mut a = c.to_vec();
    let mut least = f64::INFINITY;
    for k in 0..n {
        least = least.min(a[k][k]);
        if a[k][k] <= 0.0 {
            return a[k][k].min(-1e-300);
        }
        for i in k + 1..n {
            for j in k + 1..n {
                a[i][j] -= a[i][k] * a[k][j] / a[k][k];
            }
        }
    }
    least
}

fn dated(m: &mut Mon) {
    let mut r = Rng::new(m.rng.next());
    let val = NaiveDate::from_ymd_opt(2020, 1, 1).unwrap() + Days::new(r.n(1500) as u64);
    let f = model(&mut r);
    let (p, c) = params(&mut r);
    let seed = r.next();
    let step = 1 + r.n(40) as u32;
    let mut dates: Vec<NaiveDate> = (0..1 + r.n(5)).map(|_| val + Days::new(1 + r.n(900) as u64)).collect();
    dates.sort();
    dates.dedup();
    let ctx = || format!("{f:?} seed={seed} dates {dates:?} from {val} step {step}");
    let dc = Actual365Fixed::default();
    let mk = || FmmSimulator::new(f.clone(), seed).unwrap();
    let a = m.guard("dated-panics", ctx, || simulate_at_dates(&mut mk(), val, &dates, 2, step, &dc));
    let b = m.guard("dated-panics", ctx, || simulate_at_dates(&mut mk(), val, &dates, 2, step, &dc));
    let (Some(a), Some(b)) = (a, b) else { return };
    m.case(("dated", seed));
    for d in &dates {
        let (x, y) = (a.states_at(*d), b.states_at(*d));
        let t = (*d - val).num_days() as f64 / 365.0;
        let Some(x) = x else {
            m.violate("dated-missing", format!("{d} {}", ctx()));
            continue;
        };
        m.check(Some(&x) == y.as_ref(), "seed-reproducible", ctx);
        for s in &x {
            m.close("dated-clock", s.t, t, 1e-11, 1e-12, || format!("{d} {}", ctx()));
            m.check(s.rates.len() == f.tenor.m() && s.y_diag.len() == f.tenor.m(), "dated-shape", ctx);
        }
    }
    let n = p.tenor.m();
    if pivot(&c) > 1e-6 {
        let a = m.guard("dated-panics", || format!("{p:?}"), || simulate_at_dates(&mut FxFmmSimulator::new(p.clone(), seed).unwrap(), val, &dates, 2, step, &dc));
        let Some(a) = a else { return };
        for d in &dates {
            let t = (*d - val).num_days() as f64 / 365.0;
            for s in a.states_at(*d).into_iter().flatten() {
                m.close("dated-clock", s.t, t, 1e-11, 1e-12, || format!("{d} {p:?}"));
            }
        }
    }
}

fn noise(m: &mut Mon) {
    let mut r = Rng::new(m.rng.next());
    let k = 40_000;
    let n = 2 + r.n(3);
    let c = fxm::correlation(&mut r, n, 2);
    let dt = r.lf(1e-3, 1.0);
    let mut t = Twin::new(&c, r.next());
    let mut z = vec![vec![]; n];
    for _ in 0..k {
        for (i, w) in t.draw(dt).into_iter().enumerate() {
            z[i].push(w / dt.sqrt());
        }
    }
    for i in 0..n {
        fxm::white(m, &format!("fmm increment {i} dt={dt}"), &z[i]);
        for j in 0..i {
            fxm::correlated(m, "fmm-increment-correlation", &format!("{c:?} pair {i},{j}"), &z[i], &z[j], c[i][j]);
        }
    }
    let (p, c) = params(&mut r);
    let n = p.tenor.m();
    let j = c.clone();
    let Some(mut t) = FxTwin::new(&p, r.next()) else { return };
    let mut z = vec![vec![]; 2 + 2 * n];
    for _ in 0..k {
        for (i, w) in t.draw(0.01).into_iter().enumerate() {
            z[i].push(w / 0.1);
        }
    }
    for a in 0..2 + 2 * n {
        fxm::white(m, &format!("fx increment {a}"), &z[a]);
        for b in 0..a {
            fxm::correlated(m, "fx-increment-correlation", &format!("pair {a},{b} of {j:.3?}"), &z[a], &z[b], j[a][b]);
        }
    }
    m.case(("noise", dt.to_bits()));
}

fn mean(m: &mut Mon, key: &str, x: &[f64], want: f64, extra: f64, ctx: &dyn Fn() -> String) {
    let n = x.len() as f64;
    let mu = x.iter().sum::<f64>() / n;
    let sd = (x.iter().map(|v| (v - mu).powi(2)).sum::<f64>() / n / n).sqrt();
    m.count("martingale estimates");
    m.close(key, mu, want, 0.0, 6.0 * sd + extra + 1e-9, || format!("mean of {n} draws, standard error {sd:e}: {}", ctx()));
}

fn martingale(m: &mut Mon) {
    let mut r = Rng::new(m.rng.next());
    // bonds to the tenor dates, deflated by the realised rates
    let n = 2 + r.n(2);
    let tau = *r.pick(&[0.5, 1.0]);
    let dates: Vec<f64> = (0..=n).map(|i| i as f64 * tau).collect();
    let rates: Vec<f64> = (0..n).map(|_| r.f(0.0, 0.06)).collect();
    let s = r.f(0.05, 0.1);
    let f = Fmm::new(FmmTenor::new(dates.clone(), rates.clone()), vec![s; n], fxm::correlation(&mut r, n, 2), LinearDecay);
    let seed = r.next();
    let per = 16;
    let dt = tau / per as f64;
    let paths = 20_000;
    let ctx = || format!("{f:?} seed={seed} dt={dt}");
    let mut sim = FmmSimulator::new(f.clone(), seed).unwrap();
    let mut d = vec![vec![]; n + 1];
    for _ in 0..paths {
        let mut p = sim.initial_path();
        let mut b = 1.0;
        for k in 1..=n {
            for _ in 0..per {
                sim.step(&mut p, dt);
            }
            b *= 1.0 + tau * p.rates[k - 1];
            // today's price of the bond to the last date, deflated
            let rest: f64 = (k + 1..=n).map(|j| 1.0 / (1.0 + tau * p.rates[j - 1])).product();
            d[k].push(rest / b);
            d[0].push(1.0 / b);
        }
    }
    let p0 = |k: usize| (1..=k).map(|j| 1.0 / (1.0 + tau * rates[j - 1])).product::<f64>();
    let bias = 2.0 * s * s * dt * n as f64;
    for k in 1..=n {
        mean(m, "deflated-bond-martingale", &d[k], p0(n), bias, &ctx);
        let x: Vec<f64> = d[0].iter().skip(k - 1).step_by(n).copied().collect();
        mean(m, "bank-account-inverse", &x, p0(k), bias, &ctx);
    }
    m.case(("mart", seed));
    // FX: spot deflated by the rates the step itself used
    let (mut p, c) = params(&mut r);
    p.heston = CirProcess { kappa: r.f(0.5, 3.0), theta: r.f(0.005, 0.05), gamma: r.f(0.1, 0.4), sigma_0: r.f(0.005, 0.05) };
    let n = p.tenor.m();
    if pivot(&c) < 1e-6 {
        return;
    }
    let ctx = || format!("{p:?} seed={seed}");
    let mut sim = FxFmmSimulator::new(p.clone(), seed).unwrap();
    let steps = 6;
    let dt = 0.9 * p.tenor.dates[n] / steps as f64;
    let mut v = vec![];
    for _ in 0..20_000 {
        let mut s = FxFmmState::initial(&p);
        let mut i = 0.0;
        for _ in 0..steps {
            let k = active(&p.tenor, s.t) - 1;
            i += (s.rates_d[k] - s.rates_f[k]) * dt;
            sim.step(&mut s, dt);
        }
        v.push(s.fx * (-i).exp() / p.fx_0);
    }
    mean(m, "fx-martingale", &v, 1.0, 0.0, &ctx);
}
