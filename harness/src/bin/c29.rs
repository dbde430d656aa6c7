//! C29: FX simulators, observed step by step.
use chrono::{Days, NaiveDate};
use finquant::models::common::cir::CirProcess;
use finquant::models::common::simulation::{SimulationModel, simulate_at_dates};
use finquant::models::forex::fx_hhw::{Correlation4x4, FxHhwParams, FxHhwSimulator, FxHhwState};
use finquant::models::forex::fx_hhw_stock::{ForeignStock, FxHhwStockSimulator, FxHhwStockState};
use finquant::models::forex::sabr::{SabrParams, SabrSimulator, SabrState};
use finquant::models::forex::sabr_effective::PiecewiseConstant as Pc;
use finquant::models::forex::sabr_time_dependent::{TimeDependentSabrParams, TimeDependentSabrSimulator};
use finquant::models::interestrate::hull_white::HullWhite1F;
use finquant::time::daycounters::actual365fixed::Actual365Fixed;
use fqmon::{Mon, Rng, fxm};
use serde_json::json;

fn main() {
    fqmon::run("C29", "distinct simulated steps and paths", body)
}

fn body(m: &mut Mon) {
    m.section("FX-HHW steps");
    let n = m.scale(15_000, 200_000);
    for _ in 0..n {
        hhw_steps(m);
    }
    m.section("foreign stock steps");
    for _ in 0..n {
        stock_steps(m);
    }
    m.section("SABR steps");
    for _ in 0..n {
        sabr_steps(m);
    }
    m.section("time-dependent SABR steps");
    for _ in 0..n {
        td_steps(m);
    }
    m.section("time-dependent SABR on dated grids");
    let n = m.scale(200, 2000);
    for _ in 0..n {
        td_dated(m);
    }
    m.section("correlation rejection");
    let n = m.scale(15_000, 200_000);
    for _ in 0..n {
        rejection(m);
    }
    m.section("noise law");
    let n = m.scale(12, 60);
    for _ in 0..n {
        noise(m);
    }
    m.section("martingales");
    let n = m.scale(12, 80);
    for _ in 0..n {
        martingale(m);
    }
    m.need("hhw steps", 5000);
    m.need("stock steps", 5000);
    m.need("sabr steps", 5000);
    m.need("time-dependent steps", 5000);
    m.need("variance truncated", 200);
    m.need("negative variance entered", 200);
    m.need("forward absorbed", 50);
    m.need("schedule level changed", 1000);
    m.need("correlation rejected", 200);
    m.need("correlation accepted", 200);
    m.need("martingale estimates", 20);
    m.assume("noise of the stock simulator is recovered from a same-seed twin run with unit parameters");
    m.assume("statistical comparisons use bands of 6 standard errors");
}

/// Steps and paths of a driver run: usually few, sometimes many of one.
fn size(r: &mut Rng, steps: usize, paths: usize) -> (usize, usize) {
    match r.n(100) {
        0 => (50 + r.n(500), paths),
        1 => (1 + r.n(steps), 20 + r.n(150)),
        _ => (1 + r.n(steps), paths),
    }
}

fn hhw_expect(p: &FxHhwParams, s: &FxHhwState, dt: f64, td: f64, tf: f64, dw: &[f64; 4]) -> [f64; 4] {
    let v = s.variance.max(0.0);
    let h = &p.heston;
    [
        s.fx * ((s.rd - s.rf - 0.5 * v) * dt + v.sqrt() * dw[0]).exp(),
        (v + h.kappa * (h.theta - v) * dt + h.gamma * v.sqrt() * dw[1]).max(0.0),
        s.rd + p.domestic.mean_reversion * (td - s.rd) * dt + p.domestic.sigma * dw[2],
        s.rf + (p.foreign.mean_reversion * (tf - s.rf) - p.correlations.rho_xi_f * p.foreign.sigma * v.sqrt()) * dt + p.foreign.sigma * dw[3],
    ]
}

/// Equal up to rounding (a truncated forward may differ by its own noise).
fn same(a: &[f64], b: &[f64]) -> bool {
    a.iter().zip(b).all(|(x, y)| (x - y).abs() <= 1e-9 * (x.abs() + y.abs()) + 1e-12)
}

fn four(s: &FxHhwState) -> [f64; 4] {
    [s.fx, s.variance, s.rd, s.rf]
}

fn close4(m: &mut Mon, key: &str, got: [f64; 4], want: [f64; 4], ctx: &dyn Fn() -> String) {
    for i in 0..4 {
        let k = format!("{key}-{}", ["fx", "variance", "domestic-rate", "foreign-rate"][i]);
        m.close(&k, got[i], want[i], 1e-11, 1e-13, ctx);
    }
}

fn hhw_steps(m: &mut Mon) {
    let mut r = Rng::new(m.rng.next());
    let p = fxm::hhw(&mut r);
    let seed = r.next();
    let ctx = || format!("{p:?} seed={seed}");
    let Some(Ok(mut sim)) = m.guard("hhw-panics", ctx, || FxHhwSimulator::new(p, seed)) else {
        m.violate("valid-correlation-rejected", ctx());
        return;
    };
    let init = FxHhwState::initial(&p);
    m.check(four(&init) == [p.fx_0, p.heston.sigma_0, p.rd_0, p.rf_0] && SimulationModel::initial_state(&sim) == init, "hhw-initial", ctx);
    let mut s = init;
    let k = 1 + r.n(8);
    for _ in 0..k {
        if r.chance(0.05) {
            s.variance = r.f(-0.05, 0.0);
            m.count("negative variance entered");
        }
        let dt = r.lf(1e-4, 1.0);
        let (td, tf) = if r.b() { (p.theta_d, p.theta_f) } else { (r.f(-0.02, 0.1), r.f(-0.02, 0.1)) };
        let step = m.guard("hhw-panics", ctx, || if (td, tf) == (p.theta_d, p.theta_f) { sim.step(&s, dt) } else { sim.step_at_time(&s, dt, td, tf) });
        let Some((n, dw)) = step else { return };
        m.count("hhw steps");
        m.case(("hhw", seed, dt.to_bits()));
        let want = hhw_expect(&p, &s, dt, td, tf, &dw);
        if want[1] == 0.0 {
            m.count("variance truncated");
        }
        close4(m, "hhw-step", four(&n), want, &|| format!("{} from {s:?} dt={dt} theta=({td},{tf}) dw={dw:?}", ctx()));
        m.check(four(&n).iter().all(|x| x.is_finite()) && n.fx > 0.0 && n.variance >= 0.0, "hhw-state-valid", || format!("{} {s:?} -> {n:?}", ctx()));
        s = n;
    }
    // same seed: bit-identical; the driver is the iterated step; the trait step asks theta at its time
    let (n_steps, np) = size(&mut r, 5, 3);
    let t_end = r.lf(0.05, 5.0);
    let out = FxHhwSimulator::new(p, seed).unwrap().simulate(t_end, n_steps, np);
    let mut it = FxHhwSimulator::new(p, seed).unwrap();
    let mut tr = FxHhwSimulator::new(p, seed).unwrap().with_theta_fn(move |t| (0.01 + 0.02 * t, 0.03 - 0.01 * t));
    let mut dr = FxHhwSimulator::new(p, seed).unwrap();
    m.check(out.len() == np, "hhw-path-count", ctx);
    let again = FxHhwSimulator::new(p, seed).unwrap().simulate(t_end, n_steps, np);
    m.check(out == again, "seed-reproducible", ctx);
    let other = FxHhwSimulator::new(p, seed ^ 5).unwrap().simulate(t_end, n_steps, np);
    m.check(out != other && (p.heston.sigma_0 == 0.0 || out[0] != out[1]), "paths-differ", ctx);
    for o in &out {
        let mut a = init;
        for _ in 0..n_steps {
            a = it.step(&a, t_end / n_steps as f64).0;
        }
        m.check(same(&four(o), &four(&a)), "hhw-driver", || format!("{} t={t_end} n={n_steps}: {o:?} vs {a:?}", ctx()));
    }
    // the drift target installed is the one every entry point simulates with (anywhere in the step)
    let (a0, a1, b0, b1) = (r.f(-0.02, 0.1), r.f(-0.02, 0.02), r.f(-0.02, 0.1), r.f(-0.02, 0.02));
    let theta = move |t: f64| (a0 + a1 * t, b0 + b1 * t);
    let out = FxHhwSimulator::new(p, seed).unwrap().with_theta_fn(theta).simulate(t_end, n_steps, 2);
    let mut it = FxHhwSimulator::new(p, seed).unwrap();
    let dt = t_end / n_steps as f64;
    let (ld, lf) = (p.domestic.mean_reversion, p.foreign.mean_reversion);
    for o in &out {
        let mut a = init;
        let (mut sd, mut sf) = (0.0, 0.0);
        for i in 0..n_steps {
            let mid = theta((i as f64 + 0.5) * dt);
            a = it.step_at_time(&a, dt, mid.0, mid.1).0;
            sd = (1.0 - ld * dt).abs() * sd + ld * dt * a1.abs() * dt * 0.5;
            sf = (1.0 - lf * dt).abs() * sf + lf * dt * b1.abs() * dt * 0.5;
        }
        m.close("simulate follows the installed domestic target", o.rd, a.rd, 1e-10, sd + 1e-12, || format!("{} theta=({a0}+{a1}t,{b0}+{b1}t) t={t_end} n={n_steps}", ctx()));
        m.close("simulate follows the installed foreign target", o.rf, a.rf, 1e-10, sf + 1e-12, || format!("{} theta=({a0}+{a1}t,{b0}+{b1}t) t={t_end} n={n_steps}", ctx()));
    }
    let t = r.f(0.0, 10.0);
    let x = SimulationModel::step(&mut tr, &init, t, 0.1);
    let y = dr.step_at_time(&init, 0.1, 0.01 + 0.02 * t, 0.03 - 0.01 * t).0;
    m.check(same(&four(&x), &four(&y)), "hhw-time-dependent-theta", || format!("{} t={t}: {x:?} vs {y:?}", ctx()));
    m.sample(json!({"model": "fx-hhw", "seed": seed, "fx": s.fx, "variance": s.variance}));
}

/// Same-seed twin with unit parameters: recovers the six increments (dt = 1).
struct Twin(FxHhwStockSimulator, f64, f64, f64);
impl Twin {
    fn new(p: &FxHhwParams, st: &ForeignStock, seed: u64) -> Twin {
        let unit = |g: f64| CirProcess { kappa: 0.0, theta: 0.0, gamma: g, sigma_0: 1.0 };
        let hw = HullWhite1F { mean_reversion: 0.0, sigma: 1.0 };
        let q = FxHhwParams { fx_0: 1.0, heston: unit(1e-2), domestic: hw, foreign: hw, rd_0: 0.0, rf_0: 0.0, theta_d: 0.0, theta_f: 0.0, correlations: p.correlations };
        let z = ForeignStock { s_0: 1.0, variance: unit(1e-2), rho_xi_sf: st.rho_xi_sf, rho_sf_omega: st.rho_sf_omega };
        Twin(FxHhwStockSimulator::new(q, z, seed).unwrap(), p.correlations.rho_xi_f, st.rho_xi_sf, st.rho_sf_omega)
    }
    fn draw(&mut self) -> [f64; 6] {
        let s = SimulationModel::initial_state(&self.0);
        let n = self.0.step(&s, 1.0);
        [
            n.fx.fx.ln() + 0.5,
            (n.fx.variance - 1.0) / 1e-2,
            n.fx.rd,
            n.fx.rf + self.1,
            n.stock.ln() + self.2 + 0.5,
            (n.stock_variance - 1.0) / 1e-2 + self.2 * self.3,
        ]
    }
}

fn stock(r: &mut Rng) -> ForeignStock {
    ForeignStock { s_0: r.lf(1.0, 5000.0), variance: fxm::heston(r), rho_xi_sf: r.f(-0.95, 0.95), rho_sf_omega: r.f(-0.95, 0.95) }
}

fn stock_steps(m: &mut Mon) {
    let mut r = Rng::new(m.rng.next());
    let p = fxm::hhw(&mut r);
    let st = stock(&mut r);
    let seed = r.next();
    let ctx = || format!("{p:?} {st:?} seed={seed}");
    let Some(Ok(mut sim)) = m.guard("stock-panics", ctx, || FxHhwStockSimulator::new(p, st, seed)) else {
        m.violate("valid-correlation-rejected", ctx());
        return;
    };
    let init = SimulationModel::initial_state(&sim);
    m.check(init == FxHhwStockState::initial(&p, &st) && init.stock == st.s_0 && init.stock_variance == st.variance.sigma_0 && init.fx == FxHhwState::initial(&p), "stock-initial", ctx);
    let mut twin = Twin::new(&p, &st, seed);
    let mut s = init;
    for _ in 0..1 + r.n(6) {
        if r.chance(0.05) {
            s.stock_variance = r.f(-0.05, 0.0);
            m.count("negative variance entered");
        }
        let dt = r.lf(1e-4, 1.0);
        let z = twin.draw();
        let w: Vec<f64> = z.iter().map(|x| x * dt.sqrt()).collect();
        let Some(n) = m.guard("stock-panics", ctx, || if r.b() { sim.step(&s, dt) } else { SimulationModel::step(&mut sim, &s, 0.3, dt) }) else { return };
        m.count("stock steps");
        m.case(("stock", seed, dt.to_bits()));
        let want = hhw_expect(&p, &s.fx, dt, p.theta_d, p.theta_f, &[w[0], w[1], w[2], w[3]]);
        let d = || format!("{} from {s:?} dt={dt} z={z:?}", ctx());
        close4(m, "stock-base", four(&n.fx), want, &d);
        let (v, o) = (s.fx.variance.max(0.0), s.stock_variance.max(0.0));
        let q = st.rho_xi_sf * (v * o).sqrt();
        let c = &st.variance;
        m.close("stock-price", n.stock, s.stock * ((s.fx.rf - q - 0.5 * o) * dt + o.sqrt() * w[4]).exp(), 1e-11, 0.0, d);
        m.close("stock-variance", n.stock_variance, (o + (c.kappa * (c.theta - o) - st.rho_sf_omega * c.gamma * q) * dt + c.gamma * o.sqrt() * w[5]).max(0.0), 1e-11, 1e-13, d);
        m.check(four(&n.fx).iter().all(|x| x.is_finite()) && n.stock.is_finite() && n.stock > 0.0 && n.stock_variance >= 0.0, "stock-state-valid", d);
        s = n;
    }
    let (k, np) = size(&mut r, 4, 2);
    let t = r.lf(0.05, 3.0);
    let out = FxHhwStockSimulator::new(p, st, seed).unwrap().simulate(t, k, np);
    let mut it = FxHhwStockSimulator::new(p, st, seed).unwrap();
    for o in &out {
        let mut a = init;
        for _ in 0..k {
            a = it.step(&a, t / k as f64);
        }
        m.check(same(&four(&o.fx), &four(&a.fx)) && same(&[o.stock, o.stock_variance], &[a.stock, a.stock_variance]), "stock-driver", ctx);
    }
    m.check(out.len() == np, "stock-path-count", ctx);
    m.check(out == FxHhwStockSimulator::new(p, st, seed).unwrap().simulate(t, k, np), "seed-reproducible", ctx);
    m.check(out != FxHhwStockSimulator::new(p, st, seed ^ 5).unwrap().simulate(t, k, np) && out[0] != out[1], "paths-differ", ctx);
}

fn sabr(r: &mut Rng) -> (SabrParams, f64) {
    let f = r.lf(0.3, 200.0);
    let beta = *r.pick(&[0.0, 0.3, 0.5, 0.8, 1.0]);
    let nu = if r.chance(0.1) { 0.0 } else { r.lf(0.05, 2.0) };
    (SabrParams::new(r.lf(0.02, 0.6) * f.powf(1.0 - beta), beta, r.f(-0.97, 0.97), nu), f)
}

fn sabr_expect(s: &SabrState, level: f64, p: &SabrParams, dt: f64, dw: &[f64; 2]) -> (f64, f64) {
    let (f, a) = (s.forward.max(0.0), s.vol.max(0.0));
    ((f + level * a * f.powf(p.beta) * dw[0]).max(0.0), a * (p.nu * dw[1] - 0.5 * p.nu * p.nu * dt).exp())
}

fn sabr_steps(m: &mut Mon) {
    let mut r = Rng::new(m.rng.next());
    let (p, f0) = sabr(&mut r);
    let seed = r.next();
    let ctx = || format!("{p:?} F0={f0} seed={seed}");
    let mut sim = SabrSimulator::new(p, f0, seed);
    let init = SimulationModel::initial_state(&sim);
    m.check(init == SabrState { forward: f0, vol: p.alpha }, "sabr-initial", ctx);
    let mut s = init;
    for _ in 0..1 + r.n(6) {
        if r.chance(0.03) {
            s.forward = f0 * r.lf(1e-6, 1e-2);
        }
        let dt = r.lf(1e-4, 1.0);
        let Some((n, dw)) = m.guard("sabr-panics", ctx, || sim.step_with_noise(&s, dt)) else { return };
        m.count("sabr steps");
        m.case(("sabr", seed, dt.to_bits()));
        let (f, a) = sabr_expect(&s, 1.0, &p, dt, &dw);
        if f == 0.0 {
            m.count("forward absorbed");
        }
        let d = || format!("{} from {s:?} dt={dt} dw={dw:?}", ctx());
        m.close("sabr-forward", n.forward, f, 1e-11, 1e-13 * f0, d);
        m.close("sabr-vol", n.vol, a, 1e-12, 0.0, d);
        m.check(n.forward >= 0.0 && n.forward.is_finite() && n.vol > 0.0 && n.vol.is_finite(), "sabr-state-valid", d);
        s = n;
    }
    let (k, np) = size(&mut r, 4, 3);
    let t = r.lf(0.05, 3.0);
    let out = SabrSimulator::new(p, f0, seed).simulate(t, k, np);
    let mut it = SabrSimulator::new(p, f0, seed);
    m.check(out.len() == np, "sabr-path-count", ctx);
    m.check(out == SabrSimulator::new(p, f0, seed).simulate(t, k, np), "seed-reproducible", ctx);
    if out.iter().any(|o| o.forward > 0.0) {
        m.check(out != SabrSimulator::new(p, f0, seed ^ 5).simulate(t, k, np) && (out[0] != out[1] || out[1] != out[2]), "paths-differ", ctx);
    }
    for o in &out {
        let mut a = init;
        for _ in 0..k {
            a = SimulationModel::step(&mut it, &a, 9.0, t / k as f64);
        }
        m.check(same(&[o.forward, o.vol], &[a.forward, a.vol]), "sabr-driver", ctx);
    }
}

fn td_params(r: &mut Rng, k: &[f64], flat: bool) -> TimeDependentSabrParams {
    let (p, f0) = sabr(r);
    let n = k.len() - 1;
    let mut v = |g: &mut dyn FnMut(&mut Rng) -> f64| -> Pc {
        let c = g(r);
        Pc::new(k.to_vec(), (0..n).map(|_| if flat { c } else { g(r) }).collect())
    };
    let a = v(&mut |r| p.alpha * r.lf(0.4, 2.5));
    let rho = v(&mut |r| r.f(-0.97, 0.97));
    let nu = v(&mut |r| if r.chance(0.1) { 0.0 } else { r.lf(0.05, 1.5) });
    TimeDependentSabrParams::new(a, rho, nu, p.beta, f0)
}

fn knots(r: &mut Rng) -> Vec<f64> {
    let mut k = vec![0.0];
    for _ in 0..1 + r.n(5) {
        k.push(k.last().unwrap() + r.lf(0.05, 2.0));
    }
    k
}

fn td_steps(m: &mut Mon) {
    let mut r = Rng::new(m.rng.next());
    let k = knots(&mut r);
    let flat = r.chance(0.15);
    let mut p = td_params(&mut r, &k, flat);
    if flat && k.len() > 2 && r.chance(0.4) {
        // all but flat
        let i = r.n(k.len() - 1);
        let e = r.lf(1e-8, 1e-3);
        match r.n(3) {
            0 => p.alpha.values[i] += e,
            1 => p.rho.values[i] += e,
            _ => p.nu.values[i] += e,
        }
        m.count("all but flat");
    }
    let seed = r.next();
    let ctx = || format!("{p:?} seed={seed}");
    m.check(p.horizon() == *k.last().unwrap(), "horizon", ctx);
    let mut sim = TimeDependentSabrSimulator::new(p.clone(), seed);
    let init = SimulationModel::initial_state(&sim);
    let a0 = p.alpha.values[0];
    m.check(init == SabrState { forward: p.forward_0, vol: a0 }, "td-initial", ctx);
    let seg = |t: f64| (0..k.len() - 1).find(|i| t <= k[i + 1]).unwrap_or(k.len() - 2);
    let mut s = init;
    for _ in 0..1 + r.n(6) {
        let i = r.n(k.len() - 1);
        let tm = k[i] + (k[i + 1] - k[i]) * r.f(0.001, 0.999);
        let dt = r.lf(1e-4, 0.5);
        let Some((n, dw)) = m.guard("td-panics", ctx, || sim.step_with_noise(&s, tm, dt)) else { return };
        m.count("time-dependent steps");
        m.case(("td", seed, dt.to_bits()));
        let q = SabrParams { alpha: p.alpha.values[i], beta: p.beta, rho: p.rho.values[i], nu: p.nu.values[i] };
        m.check(p.at(tm) == q, "td-parameters", || format!("{} t={tm} got {:?}", ctx(), p.at(tm)));
        let level = q.alpha / a0;
        if level != 1.0 {
            m.count("schedule level changed");
        }
        let (f, a) = sabr_expect(&s, level, &q, dt, &dw);
        let d = || format!("{} segment {i} t_mid={tm} from {s:?} dt={dt} dw={dw:?}", ctx());
        m.close("td-forward", n.forward, f, 1e-11, 1e-13 * p.forward_0, d);
        m.close("td-vol", n.vol, a, 1e-12, 0.0, d);
        m.check(n.forward >= 0.0 && n.forward.is_finite() && n.vol > 0.0 && n.vol.is_finite(), "td-state-valid", d);
        s = n;
    }
    // uniform driver: schedule taken at each step's midpoint
    let t_end = p.horizon() * r.f(0.3, 1.0);
    let (n, np) = size(&mut r, 12, 2);
    let h = t_end / n as f64;
    let mids: Vec<f64> = (0..n).map(|j| (j as f64 + 0.5) * h).collect();
    if mids.iter().all(|t| k.iter().all(|x| (t - x).abs() > 1e-9)) {
        let Some(out) = m.guard("td-panics", ctx, || TimeDependentSabrSimulator::new(p.clone(), seed).simulate(t_end, n, np)) else { return };
        let mut it = TimeDependentSabrSimulator::new(p.clone(), seed);
        m.check(out.len() == np, "td-path-count", ctx);
        m.check(out == TimeDependentSabrSimulator::new(p.clone(), seed).simulate(t_end, n, np), "seed-reproducible", ctx);
        for o in &out {
            let mut a = init;
            for t in &mids {
                let i = seg(*t);
                a = it.step_with_noise(&a, 0.5 * (k[i] + k[i + 1]), h).0;
            }
            m.check(same(&[o.forward, o.vol], &[a.forward, a.vol]), "td-driver", || format!("{} t_end={t_end} n={n}: {o:?} vs {a:?}", ctx()));
        }
    }
    let red = TimeDependentSabrSimulator::new(p.clone(), seed).reduces_to_constant();
    let const_all = [&p.alpha, &p.rho, &p.nu].iter().all(|v| v.values.iter().all(|x| (x - v.values[0]).abs() < 1e-13));
    let spread = [&p.alpha, &p.rho, &p.nu].iter().any(|v| v.values.windows(2).any(|w| (w[0] - w[1]).abs() > 1e-9));
    if const_all {
        let q = SabrParams::new(a0, p.beta, p.rho.values[0], p.nu.values[0]);
        m.check(red.map(|c| (c.params, c.forward_0)) == Some((q, p.forward_0)), "reduces-to-constant", ctx);
        let a = TimeDependentSabrSimulator::new(p.clone(), seed).simulate(t_end, n, 2);
        let b = SabrSimulator::new(q, p.forward_0, seed).simulate(t_end, n, 2);
        for (x, y) in a.iter().zip(&b) {
            m.close("flat-equals-constant", x.forward, y.forward, 1e-12, 0.0, ctx);
            m.close("flat-equals-constant", x.vol, y.vol, 1e-12, 0.0, ctx);
        }
        m.count("flat schedules");
    } else if spread {
        m.check(red.is_none(), "reduces-to-constant", ctx);
    }
}

/// Through the date runner, every interval must use its own segment.
fn td_dated(m: &mut Mon) {
    let mut r = Rng::new(m.rng.next());
    let val = NaiveDate::from_ymd_opt(2024, 1, 1).unwrap() + Days::new(r.i(0, 2000) as u64);
    let mut days = vec![0i64];
    for _ in 0..2 + r.n(3) {
        days.push(days.last().unwrap() + r.i(5, 120));
    }
    let k: Vec<f64> = days.iter().map(|d| *d as f64 / 365.0).collect();
    let p = td_params(&mut r, &k, false);
    let seed = r.next();
    let cap = *r.pick(&[1u32, 3, 10, 200]);
    let obs: Vec<NaiveDate> = days[1..].iter().map(|d| val + Days::new(*d as u64)).collect();
    let ctx = || format!("{p:?} seed={seed} cap={cap} knots(days)={days:?}");
    let dc = Actual365Fixed::default();
    let Some(out) = m.guard("td-panics", ctx, || simulate_at_dates(&mut TimeDependentSabrSimulator::new(p.clone(), seed), val, &obs, 2, cap, &dc)) else { return };
    m.case(("dated", seed));
    let mut grid: Vec<i64> = days.clone();
    let last = *days.last().unwrap();
    grid.extend((0..).map(|i| i * cap as i64).take_while(|d| *d < last));
    grid.sort();
    grid.dedup();
    let mut it = TimeDependentSabrSimulator::new(p.clone(), seed);
    for path in &out.paths {
        let mut s = SabrState { forward: p.forward_0, vol: p.alpha.values[0] };
        let mut oi = 0;
        for w in grid.windows(2) {
            let i = days.iter().rposition(|d| *d <= w[0]).unwrap();
            s = it.step_with_noise(&s, 0.5 * (k[i] + k[i + 1]), (w[1] - w[0]) as f64 / 365.0).0;
            if days.contains(&w[1]) {
                let o = &path[oi];
                oi += 1;
                let ok = m.close("dated-forward", o.forward, s.forward, 1e-9, 1e-12, || format!("{} day {}", ctx(), w[1]));
                if !ok || !m.close("dated-vol", o.vol, s.vol, 1e-9, 0.0, || format!("{} day {}", ctx(), w[1])) {
                    return;
                }
                m.count("dated observations");
            }
        }
    }
}

fn rejection(m: &mut Mon) {
    let mut r = Rng::new(m.rng.next());
    let mut p = fxm::hhw(&mut r);
    let b = *r.pick(&[0.5, 0.8, 1.0, 1.2]);
    let mut g = || r.f(-b, b);
    p.correlations = Correlation4x4 { rho_xi_sigma: g(), rho_xi_d: g(), rho_xi_f: g(), rho_sigma_d: g(), rho_sigma_f: g(), rho_d_f: g() };
    let c = &p.correlations;
    let mat = vec![
        vec![1.0, c.rho_xi_sigma, c.rho_xi_d, c.rho_xi_f],
        vec![c.rho_xi_sigma, 1.0, c.rho_sigma_d, c.rho_sigma_f],
        vec![c.rho_xi_d, c.rho_sigma_d, 1.0, c.rho_d_f],
        vec![c.rho_xi_f, c.rho_sigma_f, c.rho_d_f, 1.0],
    ];
    let ctx = || format!("{c:?}");
    m.case(("rej", c.rho_xi_d.to_bits()));
    // positive definite by leading minors
    let minors: Vec<f64> = (1..=4).map(|n| det(&mat, n)).collect();
    if minors.iter().any(|d| d.abs() < 1e-9) {
        return;
    }
    let pd = minors.iter().all(|d| *d > 0.0);
    m.count(if pd { "correlation accepted" } else { "correlation rejected" });
    let st = stock(&mut Rng::new(1));
    let (a, b) = (FxHhwSimulator::new(p, 1).is_ok(), FxHhwStockSimulator::new(p, st, 1).is_ok());
    m.check(a == pd && b == pd, "correlation-gate", || format!("{} positive definite={pd}, accepted={a}/{b}", ctx()));
    m.check((0..4).all(|i| (0..4).all(|j| c.as_matrix()[i][j] == mat[i][j])), "correlation-matrix", ctx);
    if let Some(l) = c.cholesky() {
        for i in 0..4 {
            for j in 0..4 {
                let v: f64 = (0..4).map(|k| l[i][k] * l[j][k]).sum();
                m.close("cholesky", v, mat[i][j], 0.0, 1e-12, ctx);
                m.check(j <= i || l[i][j] == 0.0, "cholesky-lower", ctx);
            }
        }
    }
    let q = m.rng.f(1.0001, 3.0);
    for bad in [ForeignStock { rho_xi_sf: q, ..st }, ForeignStock { rho_xi_sf: -q, ..st }, ForeignStock { rho_sf_omega: q, ..st }, ForeignStock { rho_sf_omega: -q, ..st }] {
        m.check(FxHhwStockSimulator::new(p, bad, 1).is_err(), "stock-correlation-gate", || format!("{bad:?}"));
    }
}

fn det(a: &[Vec<f64>], n: usize) -> f64 {
    if n == 1 {
        return a[0][0];
    }
    // expansion along the last row of the leading block
    let mut s = 0.0;
    for j in 0..n {
        let sub: Vec<Vec<f64>> = (0..n - 1).map(|i| (0..n).filter(|k| *k != j).map(|k| a[i][k]).collect()).collect();
        let sign = if (n - 1 + j) % 2 == 0 { 1.0 } else { -1.0 };
        s += sign * a[n - 1][j] * det(&sub, n - 1);
    }
    s
}

fn noise(m: &mut Mon) {
    let mut r = Rng::new(m.rng.next());
    let n = 60_000;
    let p = fxm::hhw(&mut r);
    let seed = r.next();
    let mut sim = FxHhwSimulator::new(p, seed).unwrap();
    let s = FxHhwState::initial(&p);
    let dt = r.lf(1e-3, 1.0);
    let mut z: Vec<Vec<f64>> = vec![vec![]; 4];
    for _ in 0..n {
        let (_, dw) = sim.step(&s, dt);
        for i in 0..4 {
            z[i].push(dw[i] / dt.sqrt());
        }
    }
    let c = p.correlations.as_matrix();
    for i in 0..4 {
        fxm::white(m, &format!("hhw increment {i} dt={dt}"), &z[i]);
        for j in 0..i {
            fxm::correlated(m, "hhw-increment-correlation", &format!("{p:?} pair {i},{j}"), &z[i], &z[j], c[i][j]);
        }
    }
    let st = stock(&mut r);
    let mut t = Twin::new(&p, &st, seed);
    let mut z: Vec<Vec<f64>> = vec![vec![]; 6];
    for _ in 0..n {
        let d = t.draw();
        for i in 0..6 {
            z[i].push(d[i]);
        }
    }
    for i in 0..6 {
        fxm::white(m, &format!("stock increment {i}"), &z[i]);
    }
    for i in 0..4 {
        for j in 0..i {
            fxm::correlated(m, "stock-base-correlation", &format!("{p:?} pair {i},{j}"), &z[i], &z[j], c[i][j]);
        }
    }
    fxm::correlated(m, "stock-fx-correlation", &format!("{st:?}"), &z[4], &z[0], st.rho_xi_sf);
    fxm::correlated(m, "stock-variance-correlation", &format!("{st:?}"), &z[4], &z[5], st.rho_sf_omega);
    let (q, f0) = sabr(&mut r);
    let mut sim = SabrSimulator::new(q, f0, seed);
    let k = knots(&mut r);
    let td = td_params(&mut r, &k, false);
    let mut tds = TimeDependentSabrSimulator::new(td.clone(), seed);
    let i = r.n(k.len() - 1);
    let (mut a, mut b, mut e, mut g) = (vec![], vec![], vec![], vec![]);
    let s = SabrState { forward: f0, vol: q.alpha };
    for _ in 0..n {
        let (_, dw) = sim.step_with_noise(&s, dt);
        a.push(dw[0] / dt.sqrt());
        b.push(dw[1] / dt.sqrt());
        let (_, dw) = tds.step_with_noise(&s, 0.5 * (k[i] + k[i + 1]), dt);
        e.push(dw[0] / dt.sqrt());
        g.push(dw[1] / dt.sqrt());
    }
    for (nm, v) in [("sabr forward", &a), ("sabr vol", &b), ("td forward", &e), ("td vol", &g)] {
        fxm::white(m, nm, v);
    }
    fxm::correlated(m, "sabr-correlation", &format!("{q:?}"), &a, &b, q.rho);
    fxm::correlated(m, "td-correlation", &format!("{td:?} segment {i}"), &e, &g, td.rho.values[i]);
    m.case(("noise", seed));
}

fn mean(m: &mut Mon, key: &str, x: &[f64], want: f64, ctx: &dyn Fn() -> String) {
    let n = x.len() as f64;
    let mu = x.iter().sum::<f64>() / n;
    let sd = (x.iter().map(|v| (v - mu).powi(2)).sum::<f64>() / (n - 1.0)).sqrt();
    m.close(key, mu, want, 1e-9, 6.0 * sd / n.sqrt(), || format!("{} over {n} paths, sd {sd}", ctx()));
    m.count("martingale estimates");
}

fn martingale(m: &mut Mon) {
    let mut r = Rng::new(m.rng.next());
    let mut p = fxm::hhw(&mut r);
    p.heston = CirProcess { kappa: r.f(0.5, 3.0), theta: r.f(0.005, 0.05), gamma: r.f(0.1, 0.4), sigma_0: r.f(0.005, 0.05) };
    let mut st = stock(&mut r);
    st.variance = CirProcess { kappa: r.f(0.5, 3.0), theta: r.f(0.01, 0.06), gamma: r.f(0.1, 0.4), sigma_0: r.f(0.01, 0.06) };
    let seed = r.next();
    let (k, n) = (1 + r.n(12), 20_000);
    let dt = r.f(0.02, 0.1);
    let ctx = || format!("{p:?} {st:?} seed={seed} dt={dt} steps={k}");
    let mut sim = FxHhwStockSimulator::new(p, st, seed).unwrap();
    let mut base = FxHhwSimulator::new(p, seed).unwrap();
    let (mut x, mut y, mut v, mut u) = (vec![], vec![], vec![], vec![]);
    for _ in 0..n {
        let mut s = FxHhwStockState::initial(&p, &st);
        let mut b = FxHhwState::initial(&p);
        let (mut id, mut iff, mut jd, mut jf) = (0.0, 0.0, 0.0, 0.0);
        for _ in 0..k {
            id += s.fx.rd * dt;
            iff += s.fx.rf * dt;
            s = sim.step(&s, dt);
            jd += b.rd * dt;
            jf += b.rf * dt;
            b = base.step(&b, dt).0;
        }
        x.push(s.fx.fx * (iff - id).exp() / p.fx_0);
        y.push(s.fx.fx * s.stock * (-id).exp() / (p.fx_0 * st.s_0));
        v.push(b.fx * (jf - jd).exp() / p.fx_0);
        u.push(b.rd);
    }
    mean(m, "fx-martingale", &v, 1.0, &ctx);
    mean(m, "stock-fx-martingale", &x, 1.0, &ctx);
    mean(m, "foreign-stock-martingale", &y, 1.0, &ctx);
    let q = 1.0 - p.domestic.mean_reversion * dt;
    mean(m, "domestic-rate-mean", &u, p.theta_d + (p.rd_0 - p.theta_d) * q.powi(k as i32), &ctx);
    m.case(("mart", seed));
    // SABR: forward and volatility are martingales, and with beta = 0 the
    // forward's variance is the averaged-volatility integral
    let kn = knots(&mut r);
    let mut td = td_params(&mut r, &kn, false);
    td.beta = 0.0;
    td.forward_0 = 100.0;
    let sc = r.f(0.5, 3.0) / td.horizon().sqrt();
    td.alpha = Pc::new(kn.clone(), (1..kn.len()).map(|_| sc * r.lf(0.5, 2.0)).collect());
    td.nu = Pc::new(kn.clone(), (1..kn.len()).map(|_| r.f(0.05, 0.5) / td.horizon().sqrt()).collect());
    let steps = 24;
    let t = td.horizon();
    let h = t / steps as f64;
    let ctx = || format!("{td:?} seed={seed} steps={steps}");
    let out = TimeDependentSabrSimulator::new(td.clone(), seed).simulate(t, steps, n);
    let f: Vec<f64> = out.iter().map(|s| s.forward).collect();
    mean(m, "sabr-forward-martingale", &f, td.forward_0, &ctx);
    let v: Vec<f64> = out.iter().map(|s| s.vol).collect();
    mean(m, "sabr-vol-martingale", &v, td.alpha.values[0], &ctx);
    // discretised: sum of alpha^2(mid) * E[xi^2(start)] * h
    let (mut var, mut g) = (0.0, 0.0f64);
    for j in 0..steps {
        let mid = (j as f64 + 0.5) * h;
        let i = (0..kn.len() - 1).find(|i| mid <= kn[i + 1]).unwrap();
        var += td.alpha.values[i].powi(2) * g.exp() * h;
        g += td.nu.values[i].powi(2) * h;
    }
    let sq: Vec<f64> = f.iter().map(|x| (x - td.forward_0).powi(2)).collect();
    mean(m, "sabr-forward-variance", &sq, var, &ctx);
}
