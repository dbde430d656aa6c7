//! C31: date-driven path generation, observed through an instrumented model.
use chrono::{Days, NaiveDate};
use finquant::models::common::cir::{CirProcess, CirSimulator};
use finquant::models::common::simulation::{BrownianMotion, GeometricBrownianMotion, SimulationModel, simulate_at_dates};
use finquant::models::interestrate::hull_white::{HullWhite1F, HullWhiteSimulator};
use finquant::time::calendars::Target;
use finquant::time::calendars::weekendsonly::WeekendsOnly;
use finquant::time::daycounters::DayCounters;
use finquant::time::daycounters::actual360::Actual360;
use finquant::time::daycounters::actual365fixed::Actual365Fixed;
use finquant::time::daycounters::actualactual::{ActualActual, ActualActualMarket};
use finquant::time::daycounters::business252::Business252;
use finquant::time::daycounters::thirty360::{Thirty360, Thirty360Market};
use fqmon::{Mon, Rng};
use serde_json::json;
use std::collections::BTreeSet;

fn main() {
    fqmon::run("C31", "distinct (date list, step cap, day counter) runs and model steps", body)
}

/// Instrumented model: its state is a full log of the steps taken.
#[derive(Default)]
struct Probe {
    started: usize,
}
#[derive(Clone)]
struct Log {
    path: usize,
    steps: Vec<(f64, f64)>,
}
impl SimulationModel for Probe {
    type State = Log;
    fn initial_state(&self) -> Log {
        Log { path: 0, steps: vec![] }
    }
    fn step(&mut self, s: &Log, t: f64, dt: f64) -> Log {
        let mut n = s.clone();
        if n.steps.is_empty() {
            self.started += 1;
            n.path = self.started;
        }
        n.steps.push((t, dt));
        n
    }
}

fn counter(r: &mut Rng) -> (&'static str, Box<dyn DayCounters>) {
    match r.n(8) {
        0 => ("act360", Box::new(Actual360)),
        1 => ("actact", Box::new(ActualActual { market: Some(ActualActualMarket::Isda) })),
        2 => ("30/360 us", Box::new(Thirty360::new(Thirty360Market::USA))),
        3 => ("30E/360", Box::new(Thirty360::new(Thirty360Market::European))),
        4 => ("30/360 it", Box::new(Thirty360::new(Thirty360Market::Italian))),
        5 => ("bus252 target", Box::new(b252(&Target))),
        6 => ("bus252 weekends", Box::new(b252(&WeekendsOnly))),
        _ => ("act365", Box::new(Actual365Fixed::default())),
    }
}

fn b252(c: &dyn finquant::time::calendars::Calendar) -> Business252 {
    let js = format!("{{\"calendar\":{}}}", serde_json::to_string(c).expect("calendar json"));
    serde_json::from_str(&js).expect("business252 json")
}

fn day(n: i64) -> NaiveDate {
    NaiveDate::from_ymd_opt(2024, 1, 1).unwrap() + chrono::Duration::days(n)
}

fn body(m: &mut Mon) {
    m.section("runner on instrumented model");
    let n = m.scale(4000, 40000);
    for _ in 0..n {
        runner(m);
    }
    m.section("runner on library models");
    let n = m.scale(400, 4000);
    for _ in 0..n {
        paths(m);
    }
    m.section("library steps");
    let n = m.scale(3000, 30000);
    for _ in 0..n {
        steps(m);
    }
    m.section("noise law");
    noise(m);
    m.need("runs", 1000);
    m.need("model steps", 20000);
    m.need("observations", 4000);
    m.need("zero-length grid intervals", 200);
    m.need("observations at zero-length intervals", 50);
    m.need("duplicate requests", 100);
    m.need("horizon of decades", 50);
    m.need("many dates", 50);
    m.need("many paths", 50);
    m.need("unsorted requests", 500);
    m.need("capped final interval", 100);
    m.assume("the time handed to a model step may be any point of the step's interval (the runner passes the midpoint)");
    m.assume("observation dates lie strictly after the valuation date, as documented");
}

fn runner(m: &mut Mon) {
    let mut r = Rng::new(m.rng.next());
    let val = day(r.i(-3000, 9000));
    let (name, dc) = counter(&mut r);
    // decades, many dates or many paths, one at a time
    let shape = r.n(40);
    let horizon = if shape == 0 { r.i(4000, 15000) } else { *r.pick(&[3i64, 20, 90, 400, 1200]) };
    let k = match shape {
        0 => 1 + r.n(2),
        1 => 9 + r.n(80),
        _ => 1 + r.n(8),
    };
    let mut req: Vec<NaiveDate> = (0..k).map(|_| val + Days::new(r.i(1, horizon) as u64)).collect();
    if r.chance(0.2) && k > 1 {
        let d = req[0];
        req.push(d);
        m.count("duplicate requests");
    }
    if req.windows(2).any(|w| w[0] > w[1]) {
        m.count("unsorted requests");
    }
    let cap = *r.pick(&[1u32, 2, 5, 7, 30, 91, 500]);
    let np = if shape == 2 && horizon <= 90 { 4 + r.n(300) } else { 1 + r.n(3) };
    m.count(["horizon of decades", "many dates", "many paths", "ordinary"][shape.min(3)]);
    let ctx = || format!("val={val} {name} cap={cap} paths={np} dates={req:?}");
    let mut probe = Probe::default();
    let Some(out) = m.guard("runner-panics", ctx, || simulate_at_dates(&mut probe, val, &req, np, cap, dc.as_ref())) else { return };
    m.count("runs");
    m.case((val, name, cap, req.clone()));
    let mut want = req.clone();
    want.sort();
    m.check(out.observation_dates == want && out.valuation_date == val, "dates-reported", || format!("{} got {:?}", ctx(), out.observation_dates));
    if !m.check(out.n_paths() == np && out.paths.iter().all(|p| p.len() == want.len()), "observation-count", || {
        format!("{} got {:?}", ctx(), out.paths.iter().map(|p| p.len()).collect::<Vec<_>>())
    }) {
        return;
    }
    // documented grid: requested dates plus a uniform refinement of at most cap days
    let last = *want.last().unwrap();
    let mut grid: BTreeSet<NaiveDate> = want.iter().copied().collect();
    let mut c = val;
    while c < last {
        grid.insert(c);
        c = c + Days::new(cap as u64);
    }
    if c > last {
        m.count("capped final interval");
    }
    grid.insert(val);
    let g: Vec<NaiveDate> = grid.into_iter().collect();
    let yf: Vec<f64> = g.iter().map(|d| dc.year_fraction(val, *d).unwrap()).collect();
    if yf.windows(2).any(|w| w[1] < w[0]) {
        m.count("non-monotone day counter skipped");
        return;
    }
    let zeros: Vec<usize> = (1..g.len()).filter(|i| yf[*i] == yf[*i - 1]).collect();
    m.add("zero-length grid intervals", zeros.len() as u64);
    for (pi, p) in out.paths.iter().enumerate() {
        for (oi, s) in p.iter().enumerate() {
            m.count("observations");
            let d = want[oi];
            let gi = g.iter().position(|x| *x == d).unwrap();
            if zeros.contains(&gi) {
                m.count("observations at zero-length intervals");
            }
            let elapsed: f64 = s.steps.iter().map(|x| x.1).sum();
            m.close("observation-time", elapsed, yf[gi], 1e-12, 1e-12, || format!("{} path {pi} date {d}", ctx()));
            if !s.steps.is_empty() {
                m.check(s.path == pi + 1, "fresh-start-per-path", || format!("{} path {pi} continues state of path {}", ctx(), s.path));
            }
            // the step log itself
            let expect: Vec<(f64, f64)> = (1..=gi).filter(|i| yf[*i] > yf[*i - 1]).map(|i| (yf[i - 1], yf[i])).collect();
            m.check(s.steps.len() == expect.len(), "step-count", || format!("{} path {pi} date {d}: {} steps, grid has {}", ctx(), s.steps.len(), expect.len()));
            for ((t, dt), (a, b)) in s.steps.iter().zip(&expect) {
                if !m.check((dt - (b - a)).abs() < 1e-12 && *t >= a - 1e-12 && *t <= b + 1e-12, "step-interval", || {
                    format!("{} path {pi}: step(t={t}, dt={dt}) for interval [{a}, {b}]", ctx())
                }) {
                    break;
                }
            }
            m.add("model steps", s.steps.len() as u64);
            // nesting: a later observation extends the log of an earlier one
            if oi > 0 {
                let q = &p[oi - 1].steps;
                m.check(s.steps.len() >= q.len() && s.steps[..q.len()] == q[..], "one-path-one-history", || format!("{} path {pi} date {d}", ctx()));
            }
        }
    }
    // look-ups
    for (oi, d) in want.iter().enumerate() {
        let a = m.guard("states-at-panics", ctx, || out.states_at(*d)).flatten();
        let b = out.sample(*d, |s| s.steps.len() as f64);
        let ok = match (&a, &b) {
            (Some(a), Some(b)) => {
                a.len() == np && b.len() == np && (0..np).all(|i| a[i].steps == out.paths[i][oi].steps && b[i] == a[i].steps.len() as f64)
            }
            _ => false,
        };
        m.check(ok, "lookup-by-date", || format!("{} date {d}", ctx()));
    }
    let other = val + Days::new(r.i(0, horizon + 5) as u64);
    if !want.contains(&other) {
        m.check(out.states_at(other).is_none() && out.sample(other, |_| 0.0).is_none(), "lookup-unrequested", || format!("{} date {other}", ctx()));
    }
    m.sample(json!({"valuation": val.to_string(), "counter": name, "cap": cap, "dates": want.len(), "steps": out.paths[0].last().unwrap().steps.len()}));
}

/// Whole-path relations for the library's own scalar models.
fn paths(m: &mut Mon) {
    let mut r = Rng::new(m.rng.next());
    let val = day(r.i(0, 3000));
    let (name, dc) = counter(&mut r);
    let k = 1 + r.n(5);
    let req: Vec<NaiveDate> = (0..k).map(|_| val + Days::new(r.i(1, 500) as u64)).collect();
    let cap = *r.pick(&[1u32, 7, 30, 91]);
    let np = 1 + r.n(4);
    let seed = r.next();
    let (mu, s, x0) = (r.f(-0.2, 0.2), r.lf(0.01, 0.8), r.lf(0.5, 200.0));
    let ctx = || format!("val={val} {name} cap={cap} paths={np} seed={seed} mu={mu} s={s} x0={x0} dates={req:?}");
    let d = dc.as_ref();
    let go = |mm: &mut BrownianMotion| simulate_at_dates(mm, val, &req, np, cap, d);
    let Some(w) = m.guard("runner-panics", ctx, || go(&mut BrownianMotion::new(seed))) else { return };
    let b = go(&mut BrownianMotion::new(seed).with_drift(mu).with_volatility(s).with_initial(x0));
    let b2 = go(&mut BrownianMotion::new(seed).with_drift(mu).with_volatility(s).with_initial(x0));
    let g = simulate_at_dates(&mut GeometricBrownianMotion::new(x0, mu, s, seed), val, &req, np, cap, d);
    let gw = simulate_at_dates(&mut GeometricBrownianMotion::new(1.0, 0.0, 1.0, seed), val, &req, np, cap, d);
    m.case(("paths", seed));
    let mut sorted = req.clone();
    sorted.sort();
    for p in 0..np {
        for (i, dd) in sorted.iter().enumerate() {
            let t = d.year_fraction(val, *dd).unwrap();
            m.close("brownian-path", b.paths[p][i], x0 + mu * t + s * w.paths[p][i], 1e-11, 1e-11, ctx);
            m.check(b.paths[p][i].to_bits() == b2.paths[p][i].to_bits(), "seed-reproducible", ctx);
            let wg = gw.paths[p][i].ln() + 0.5 * t;
            m.close("gbm-path", g.paths[p][i].ln(), x0.ln() + (mu - 0.5 * s * s) * t + s * wg, 1e-10, 1e-10, ctx);
        }
    }
    // a requested date that is already an integration date changes nothing else
    let extra = val + Days::new(cap as u64 * r.i(1, 4) as u64);
    if extra < *sorted.last().unwrap() {
        m.count("extra grid date");
        let mut req2 = req.clone();
        req2.insert(r.n(req2.len() + 1), extra);
        let b3 = simulate_at_dates(&mut BrownianMotion::new(seed).with_drift(mu).with_volatility(s).with_initial(x0), val, &req2, np, cap, d);
        for dd in &sorted {
            m.check(b3.states_at(*dd) == b.states_at(*dd), "independent-of-other-dates", || format!("{} extra {extra}, date {dd}", ctx()));
        }
    }
    // Hull-White: affine in the noise
    let hw = HullWhite1F { mean_reversion: r.lf(0.01, 2.0), sigma: r.lf(1e-3, 0.05) };
    let (lam, th, r0) = (hw.mean_reversion, r.f(-0.02, 0.1), r.f(-0.02, 0.1));
    let sg = hw.sigma;
    let full = simulate_at_dates(&mut HullWhiteSimulator::new_constant_theta(HullWhite1F { mean_reversion: lam, sigma: sg }, r0, th, seed), val, &req, np, cap, d);
    let unit = simulate_at_dates(&mut HullWhiteSimulator::new_constant_theta(HullWhite1F { mean_reversion: lam, sigma: 1.0 }, 0.0, 0.0, seed), val, &req, np, cap, d);
    let flat = simulate_at_dates(&mut HullWhiteSimulator::new_constant_theta(HullWhite1F { mean_reversion: lam, sigma: 0.0 }, r0, th, seed), val, &req, np, cap, d);
    for p in 0..np {
        for (i, dd) in sorted.iter().enumerate() {
            m.close("hull-white-path", full.paths[p][i], flat.paths[p][i] + sg * unit.paths[p][i], 1e-11, 1e-12, || format!("{} lam={lam} th={th} r0={r0} date={dd}", ctx()));
            let t = d.year_fraction(val, *dd).unwrap();
            // Euler decay against the exact mean, first order in the step
            let h = cap as f64 / 240.0;
            let exact = th + (r0 - th) * (-lam * t).exp();
            m.close("hull-white-mean", flat.paths[p][i], exact, 0.0, 1e-12 + (r0 - th).abs() * lam * lam * t * h, || format!("{} lam={lam} th={th} r0={r0} date={dd}", ctx()));
        }
    }
}

/// One transition of each library model against its stochastic equation.
fn steps(m: &mut Mon) {
    let mut r = Rng::new(m.rng.next());
    let seed = r.next();
    let n = 1 + r.n(6);
    let (mu, s) = (r.f(-0.3, 0.3), r.lf(0.01, 1.0));
    let mut b = BrownianMotion::new(seed).with_drift(mu).with_volatility(s);
    let mut bt = BrownianMotion::new(seed);
    let mut g = GeometricBrownianMotion::new(1.0, mu, s, seed);
    let mut gt = GeometricBrownianMotion::new(1.0, 0.0, 1.0, seed);
    let c = CirProcess { kappa: r.lf(0.05, 5.0), theta: r.lf(0.005, 0.5), gamma: r.lf(0.05, 3.0), sigma_0: r.lf(1e-3, 0.5) };
    let (ck, cth, cg, c0) = (c.kappa, c.theta, c.gamma, c.sigma_0);
    let mut cs = CirSimulator::new(c, seed);
    let mut ct = CirSimulator::new(CirProcess { kappa: 0.0, theta: 0.0, gamma: 1.0, sigma_0: 100.0 }, seed);
    m.check(cs.initial_state() == c0 && g.initial_state() == 1.0 && b.initial_state() == 0.0, "initial-state", || format!("seed {seed}"));
    let (lam, sg, a, q) = (r.lf(0.01, 3.0), r.lf(1e-3, 0.05), r.f(-0.05, 0.1), r.f(-0.05, 0.05));
    let mut h = HullWhiteSimulator::new_constant_theta(HullWhite1F { mean_reversion: lam, sigma: sg }, 0.03, 9.0, seed).with_theta_fn(move |t| a + q * t);
    let mut ht = HullWhiteSimulator::new_constant_theta(HullWhite1F { mean_reversion: 1.0, sigma: 1.0 }, 0.0, 0.0, seed);
    m.check(h.initial_state() == 0.03, "initial-state", || "hull-white".into());
    let (mut xb, mut xg, mut xc, mut xh) = (r.f(-5.0, 5.0), r.lf(0.1, 200.0), c0, 0.03);
    for _ in 0..n {
        let (t, dt) = (r.f(0.0, 30.0), r.lf(1e-4, 2.0));
        let z = bt.step(&0.0, t, 1.0);
        let y = b.step(&xb, t, dt);
        m.close("brownian-step", y, xb + mu * dt + s * dt.sqrt() * z, 1e-13, 1e-12, || format!("x={xb} mu={mu} s={s} dt={dt} z={z}"));
        xb = y;
        let z = gt.step(&1.0, t, 1.0).ln() + 0.5;
        let y = g.step(&xg, t, dt);
        m.close("gbm-step", y, xg * ((mu - 0.5 * s * s) * dt + s * dt.sqrt() * z).exp(), 1e-12, 0.0, || format!("x={xg} mu={mu} s={s} dt={dt} z={z}"));
        xg = y;
        let z = (ct.step(&100.0, t, 1.0) - 100.0) / 10.0;
        let y = cs.step(&xc, t, dt);
        let p = xc.max(0.0);
        let want = (p + ck * (cth - p) * dt + cg * p.sqrt() * dt.sqrt() * z).max(0.0);
        if want == 0.0 {
            m.count("cir truncated");
        }
        m.close("cir-step", y, want, 1e-11, 1e-12, || format!("x={xc} kappa={ck} theta={cth} gamma={cg} dt={dt} z={z}"));
        m.check(y >= 0.0, "cir-non-negative", || format!("x={xc} -> {y}"));
        xc = if r.chance(0.15) { r.f(-0.3, 0.0) } else { y };
        let z = ht.step(&0.0, t, 1.0);
        let y = h.step(&xh, t, dt);
        m.close("hull-white-step", y, xh + lam * (a + q * t - xh) * dt + sg * dt.sqrt() * z, 1e-12, 1e-12, || format!("x={xh} lam={lam} sigma={sg} a={a} q={q} t={t} dt={dt} z={z}"));
        xh = y;
        m.case(("step", seed, t.to_bits()));
    }
    m.add("library steps", n as u64);
}

/// The increments are independent standard normals, unlike across seeds.
fn noise(m: &mut Mon) {
    let n = m.scale(200_000, 2_000_000);
    for kind in 0..4 {
        let seed = m.rng.next();
        let mut b = BrownianMotion::new(seed);
        let mut g = GeometricBrownianMotion::new(1.0, 0.0, 1.0, seed);
        let mut c = CirSimulator::new(CirProcess { kappa: 0.0, theta: 0.0, gamma: 1.0, sigma_0: 100.0 }, seed);
        let mut h = HullWhiteSimulator::new_constant_theta(HullWhite1F { mean_reversion: 1.0, sigma: 1.0 }, 0.0, 0.0, seed);
        let z: Vec<f64> = (0..n)
            .map(|_| match kind {
                0 => b.step(&0.0, 0.0, 1.0),
                1 => g.step(&1.0, 0.0, 1.0).ln() + 0.5,
                2 => (c.step(&100.0, 0.0, 1.0) - 100.0) / 10.0,
                _ => h.step(&0.0, 0.0, 1.0),
            })
            .collect();
        let name = ["brownian", "gbm", "cir", "hull-white"][kind];
        fqmon::fxm::white(m, name, &z);
        m.case(("noise", name, seed));
    }
    // distinct seeds give distinct streams
    let s = m.rng.next();
    let a: Vec<f64> = { let mut b = BrownianMotion::new(s); (0..64).map(|_| b.step(&0.0, 0.0, 1.0)).collect() };
    let c: Vec<f64> = { let mut b = BrownianMotion::new(s ^ 1); (0..64).map(|_| b.step(&0.0, 0.0, 1.0)).collect() };
    m.check(a != c, "seed-matters", || format!("seeds {s} and {}", s ^ 1));
}
