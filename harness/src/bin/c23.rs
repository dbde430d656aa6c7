//! C23: square-root process moments and simulator steps.
use finquant::models::common::cir::{CirProcess, CirSimulator};
use finquant::models::common::simulation::SimulationModel;
use fqmon::Mon;
use serde_json::json;

fn main() {
    fqmon::run("C23", "distinct (parameters, horizon) moment queries and simulated steps", body)
}

/// E[sqrt X] for X = c * noncentral chi2(l, e) from its Laplace transform:
/// E sqrt X = 1/sqrt(pi) * Int (1 - L(e^{2y})) e^{-y} dy.
fn sqrt_moment(c: f64, l: f64, e: f64) -> f64 {
    let mu = c * (l + e);
    let y0 = -0.5 * mu.ln();
    let h = 0.02;
    let mut s = 0.0;
    for i in -2100..2100 {
        let y = y0 + h * i as f64;
        let u = (2.0 * y).exp();
        // spelled to stay accurate for tiny u
        let lnl = -0.5 * l * (2.0 * c * u).ln_1p() - c * u * e / (1.0 + 2.0 * c * u);
        s += -lnl.exp_m1() * (-y).exp();
    }
    s * h / (2.0 * std::f64::consts::PI.sqrt()) * 2.0
}

fn body(m: &mut Mon) {
    m.section("moments");
    for _ in 0..m.scale(6000, 120_000) {
        let k = m.rng.lf(0.02, 8.0);
        let th = m.rng.lf(1e-3, 1.0);
        let g = if m.rng.chance(0.05) { 0.0 } else if m.rng.chance(0.1) { m.rng.lf(1e-13, 0.01) } else { m.rng.lf(0.01, 2.0) };
        let s0 = if m.rng.chance(0.1) { 0.0 } else { m.rng.lf(1e-4, 2.0) };
        let p = CirProcess { kappa: k, theta: th, gamma: g, sigma_0: s0 };
        let t = match m.rng.n(6) {
            0 => 0.0,
            1 => -m.rng.f(0.0, 1.0),
            2 => m.rng.lf(1e-6, 1e-2),
            3 => m.rng.f(20.0, 200.0),
            _ => m.rng.f(0.0, 20.0),
        };
        let info = || format!("{p:?} t {t:e}");
        // moments from the defining equations m' = k(th - m), v' = g^2 m - 2kv
        let (mut me, mut va) = (s0, 0.0);
        if t > 0.0 {
            let e = (-k * t).exp();
            let q = -(-k * t).exp_m1();
            me = s0 * e + th * q;
            // integral of g^2 m(s) e^{-2k(t-s)}
            va = fqmon::num::integrate(|s| g * g * (s0 * (-k * s).exp() + th * -(-k * s).exp_m1()) * (-2.0 * k * (t - s)).exp(), (t - 25.0 / k).max(0.0), t, 12);
        }
        let Some((a, b)) = m.guard("panic/moments", info, || (p.mean(t), p.variance(t))) else { continue };
        m.close("mean", a, me, 1e-13, 4e-16 * (s0 + th), info);
        m.close("variance", b, va, 1e-8, 1e-13 * g * g * (s0 + th) / k, info);
        // exactly on the boundary the condition holds
        let (b, d) = (2f64.powi(m.rng.i(-4, 3) as i32), 2f64.powi(m.rng.i(-6, 1) as i32));
        let edge = CirProcess { kappa: 0.5 * b * b / d, theta: d, gamma: b, sigma_0: s0 };
        m.check(edge.feller_satisfied(), "feller", || format!("{edge:?}"));
        m.check(p.feller_satisfied() == (2.0 * k * th >= g * g), "feller", info);
        let (t2, tol) = (t, *m.rng.pick(&[0.0, 1e-10, 1e-14]));
        let Some(x) = m.guard("panic/sqrt", info, || if tol == 0.0 { p.sqrt_mean(t2) } else { p.sqrt_mean_tol(t2, tol) }) else { continue };
        if t <= 0.0 {
            m.check(x == s0.sqrt(), "sqrt at zero", || format!("{x}: {}", info()));
            m.count("at_zero");
        } else if g == 0.0 {
            m.close("sqrt deterministic", x, me.sqrt(), 1e-13, 4e-16 * (s0 + th) / me.sqrt(), info);
            m.count("deterministic");
        } else {
            let q = -(-k * t).exp_m1();
            let c = g * g * q / (4.0 * k);
            let l = 4.0 * k * th / (g * g);
            let e = 4.0 * k * s0 * (-k * t).exp() / (g * g * q);
            // the transform is evaluated with the noise kept relative to
            // the mean; for a nearly deterministic law use the expansion
            let small = l > 1e7;
            let want = if small { me.sqrt() * (1.0 - va / (8.0 * me * me)) } else { sqrt_moment(c, l, e) };
            if small {
                m.count("nearly_deterministic");
            }
            // beyond a non-centrality of 500 the documented second-order
            // expansion applies: its next term is O(1/(l+e)^2)
            let rt = if e > 500.0 || l > 1e6 { 4.0 / (l + e).powi(2) + 1e-11 } else { 1e-11 + l * (1.0 + l).ln() * 4e-16 + if tol == 1e-10 { 2e-10 * (1.0 + e) } else { 0.0 } };
            m.close(if e > 500.0 { "sqrt expansion" } else { "sqrt series" }, x, want, rt + 6e-16 / q, 0.0, info);
            m.check(x <= me.sqrt() * (1.0 + 1e-11 + 6e-16 / q) && x > 0.0, "jensen", || format!("{x} {}: {}", me.sqrt(), info()));
            m.count(if e > 500.0 { "expansion" } else { "series" });
            if 2.0 * k * th < g * g {
                m.count("feller_violated");
            }
            let inf = m.guard("panic/inf", info, || (p.sqrt_mean_infinity(), p.sqrt_mean_proxy()));
            if let Some((i, pr)) = inf {
                let wi = if small { (th * (1.0 - 1.0 / (2.0 * l))).sqrt() } else { sqrt_moment(g * g / (4.0 * k), l, 0.0) };
                m.close("sqrt limit", i, wi, 1e-11 + if l > 1e6 { 1e-11 } else { l * (1.0 + l).ln() * 4e-16 }, 0.0, info);
                m.close("proxy start", pr.eval(0.0), s0.sqrt(), 1e-13, 1e-15 + 1e-15 * wi, info);
                m.close("proxy end", pr.eval(1e6 / k), i, 1e-13, 0.0, info);
                m.close("proxy", pr.eval(t), i + (s0.sqrt() - i) * (-k * t).exp(), 1e-12, 1e-14, info);
            }
        }
        m.case((k.to_bits(), th.to_bits(), g.to_bits(), t.to_bits()));
    }
    m.section("steps");
    let (mut n, mut s1, mut s2, mut lag) = (0.0, 0.0, 0.0, 0.0);
    for _ in 0..m.scale(600, 6000) {
        let p = CirProcess { kappa: m.rng.lf(0.05, 8.0), theta: m.rng.lf(1e-3, 0.5), gamma: m.rng.lf(0.05, 2.5), sigma_0: m.rng.lf(1e-3, 0.5) };
        let seed = m.rng.next();
        // a twin with the same seed and no drift reveals each normal draw
        let flat = CirProcess { kappa: 0.0, theta: 0.0, gamma: 1.0, sigma_0: 1e6 };
        let (mut a, mut b, mut again) = (CirSimulator::new(p, seed), CirSimulator::new(flat, seed), CirSimulator::new(p, seed));
        let mut x = a.initial_state();
        m.check(x == p.sigma_0, "initial", || format!("{p:?} {x}"));
        let mut t = 0.0;
        let mut prev = 0.0;
        for _ in 0..120 {
            let dt = m.rng.lf(1e-4, 0.5);
            let z = (b.step(&1e6, t, dt) - 1e6) / (1e3 * dt.sqrt());
            let start = if m.rng.chance(0.02) { -m.rng.f(0.0, 0.1) } else { x };
            let y = a.step(&start, t, dt);
            let w = again.step(&start, t, dt);
            m.check(y == w, "reproducible", || format!("{p:?} seed {seed} t {t}: {y} {w}"));
            let s = start.max(0.0);
            let want = (s + p.kappa * (p.theta - s) * dt + p.gamma * s.sqrt() * dt.sqrt() * z).max(0.0);
            m.close("step", y, want, 1e-9, 1e-8 * p.gamma * (s * dt).sqrt() / dt.sqrt().min(1.0) + 1e-12, || format!("{p:?} seed {seed} t {t} dt {dt} from {start} z {z}"));
            if want == 0.0 {
                m.count("truncated");
            }
            n += 1.0;
            s1 += z;
            s2 += z * z;
            lag += z * prev;
            prev = z;
            x = y;
            t += dt;
            m.count("steps");
        }
        m.case(("path", seed));
    }
    let r = |v: f64| v / n;
    m.check(r(s1).abs() < 6.0 / f64::sqrt(n) && (r(s2) - 1.0).abs() < 6.0 * (2.0 / n).sqrt() && r(lag).abs() < 6.0 / f64::sqrt(n), "noise law", || format!("mean {} var {} lag {}", r(s1), r(s2), r(lag)));
    m.sample(json!({"draws": n, "mean": r(s1), "variance": r(s2)}));
    for (k, c) in [("series", 1500), ("expansion", 500), ("deterministic", 100), ("at_zero", 500), ("feller_violated", 500), ("steps", 50_000), ("truncated", 50), ("nearly_deterministic", 100)] {
        m.need(k, c);
    }
}
