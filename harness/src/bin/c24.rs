//! C24: Hull-White factors, affine bond prices and simulator steps.
use finquant::models::common::simulation::SimulationModel;
use finquant::models::interestrate::hull_white::{HullWhite1F, HullWhiteSimulator};
use fqmon::Mon;
use fqmon::num::{integrate, npdf};
use serde_json::json;

fn main() {
    fqmon::run("C24", "distinct (parameters, dates) queries and simulated steps", body)
}

/// Smooth random initial curve: f(0,t) = a + b e^{-ct} + d t e^{-gt}.
struct Curve {
    a: f64,
    b: f64,
    c: f64,
    d: f64,
    g: f64,
}
impl Curve {
    fn random(m: &mut Mon) -> Self {
        let r = &mut m.rng;
        Curve { a: r.f(-0.01, 0.07), b: r.f(-0.03, 0.03), c: r.lf(0.05, 2.0), d: r.f(-0.02, 0.02), g: r.lf(0.1, 2.0) }
    }
    fn f(&self, t: f64) -> f64 {
        self.a + self.b * (-self.c * t).exp() + self.d * t * (-self.g * t).exp()
    }
    fn df(&self, t: f64) -> f64 {
        -self.b * self.c * (-self.c * t).exp() + self.d * (1.0 - self.g * t) * (-self.g * t).exp()
    }
    fn p(&self, t: f64) -> f64 {
        (-integrate(|s| self.f(s), 0.0, t, 4)).exp()
    }
}

fn body(m: &mut Mon) {
    m.section("factors");
    for _ in 0..m.scale(20_000, 400_000) {
        let lam = match m.rng.n(8) {
            0 => 0.0,
            1 => m.rng.lf(1e-16, 1e-6),
            2 => m.rng.lf(1e-6, 1e-2),
            _ => m.rng.lf(1e-2, 4.0),
        };
        let eta = m.rng.lf(1e-4, 0.3);
        let hw = HullWhite1F { mean_reversion: lam, sigma: eta };
        let t = if m.rng.chance(0.1) { 0.0 } else { m.rng.lf(1e-3, 40.0) };
        let s = t + if m.rng.chance(0.1) { 0.0 } else { m.rng.lf(1e-3, 30.0) };
        let big = s + if m.rng.chance(0.2) { 0.0 } else { m.rng.lf(1e-3, 30.0) };
        let info = || format!("{hw:?} t {t} s {s} T {big}");
        let dur = |u: f64, v: f64| integrate(|x| (-lam * (v - x)).exp(), u, v, 3 + (lam * (v - u)) as usize);
        let rnd = 1e-15 * big;
        let Some((b, v, w)) = m.guard("panic/factors", info, || (hw.b(t, big), hw.short_rate_variance(t, s), hw.bond_log_variance(t, s, big))) else { continue };
        // d B / dt = 1 + lambda B, B(T,T) = 0
        m.close("duration", b, -dur(t, big), 1e-12 * (1.0 + big), rnd, info);
        let n = 3 + (2.0 * lam * (s - t)) as usize;
        let vw = eta * eta * integrate(|x| (-2.0 * lam * (s - x)).exp(), t, s, n);
        m.close("rate variance", v, vw, 1e-11 + 2e-12 * s, eta * eta * rnd, info);
        let q = |x: f64| {
            let d = if lam == 0.0 { big - x } else { -(-lam * (big - x)).exp_m1() / lam };
            eta * eta * d * d
        };
        let ww = integrate(q, t, s, 4 + (2.0 * lam * (s - t)) as usize);
        m.close("bond variance", w, ww, 2e-9, 3e-12 * eta * eta * (big - t).powi(3), info);
        // conditional variance is additive through an intermediate time
        let mid = t + (s - t) * m.rng.u();
        let (v1, v2, w1, w2) = (hw.short_rate_variance(t, mid), hw.short_rate_variance(mid, s), hw.bond_log_variance(t, mid, big), hw.bond_log_variance(mid, s, big));
        m.close("variance tower", v2 + v1 * (-2.0 * lam * (s - mid)).exp(), v, 1e-9, eta * eta * rnd, || format!("mid {mid} {}", info()));
        m.close("bond variance additive", w1 + w2, w, 2e-9, 1e-13 * eta * eta * (big - t).powi(3), || format!("mid {mid} {}", info()));
        m.check(hw.short_rate_variance(s, t) == 0.0 && hw.bond_log_variance(t, t, big) == 0.0, "empty interval", info);
        m.count(if lam == 0.0 { "ho_lee" } else if lam < 1e-2 { "slow" } else { "ordinary" });
        if big == s {
            m.count("to_maturity");
        }
        m.case((lam.to_bits(), t.to_bits(), s.to_bits(), big.to_bits()));
    }

    m.section("bonds");
    for _ in 0..m.scale(8000, 120_000) {
        let lam = match m.rng.n(6) {
            0 => 0.0,
            1 => m.rng.lf(1e-16, 1e-3),
            _ => m.rng.lf(1e-3, 2.0),
        };
        let hw = HullWhite1F { mean_reversion: lam, sigma: m.rng.lf(1e-4, 0.05) };
        let c = Curve::random(m);
        let t = if m.rng.chance(0.15) { 0.0 } else { m.rng.lf(1e-2, 20.0) };
        let big = t + if m.rng.chance(0.1) { 0.0 } else { m.rng.lf(1e-2, 20.0) };
        let (p0, p1, f) = (c.p(t), c.p(big), c.f(t));
        let info = || format!("{hw:?} t {t} T {big} f {f} p {p0} {p1}");
        let Some(at) = m.guard("panic/bond", info, || hw.discount_affine(t, big, f, p0, p1, f)) else { continue };
        // under the t-forward measure r(t) ~ N(f(0,t), Var), and the bond
        // deflated by P(.,t) is a martingale
        let sd = (hw.sigma * hw.sigma * integrate(|x| (-2.0 * lam * (t - x)).exp(), 0.0, t, 3 + (2.0 * lam * t) as usize)).sqrt();
        let b = if lam == 0.0 { big - t } else { -(-lam * (big - t)).exp_m1() / lam };
        let sh = b * sd;
        let e = integrate(|z| npdf(z) * hw.discount_affine(t, big, f + sd * z, p0, p1, f), -12.0 - sh, 12.0, 12 + sh as usize);
        m.close("forward-measure martingale", e, p1 / p0, 1e-9, 0.0, info);
        if t == 0.0 {
            m.close("curve at zero", at, p1, 1e-13, 0.0, info);
            m.count("at_zero");
        }
        if big == t {
            m.close("bond at maturity", at, 1.0, 1e-13, 0.0, info);
            m.count("matured");
        }
        let r = f + m.rng.f(-0.1, 0.1);
        let x = hw.discount_affine(t, big, r, p0, p1, f);
        m.close("rate sensitivity", (x / at).ln(), -b * (r - f), 1e-9, 1e-13, || format!("r {r} {}", info()));
        m.check(x > 0.0, "positive", info);
        // no-arbitrage equation in calendar time: the bond ratio of two
        // maturities at rate r solves dA/dt, checked through the forward:
        // -d ln P(t,T)/dT at T -> t is r itself
        let h = 1e-5;
        let y = hw.discount_affine(t, t + h, r, p0, p0 * (-h * c.f(t + 0.5 * h)).exp(), f);
        m.close("short end yields r", -y.ln() / h, r, 1e-6, 2e-5 * (1.0 + hw.sigma), info);
        m.count("bonds");
        m.case((lam.to_bits(), t.to_bits(), big.to_bits(), f.to_bits()));
    }

    m.section("steps");
    let (mut n, mut s1, mut s2, mut lag) = (0.0, 0.0, 0.0, 0.0);
    for _ in 0..m.scale(400, 4000) {
        let hw = HullWhite1F { mean_reversion: m.rng.lf(1e-3, 3.0), sigma: m.rng.lf(1e-4, 0.1) };
        let seed = m.rng.next();
        let (r0, th, amp, w) = (m.rng.f(-0.02, 0.1), m.rng.f(-0.02, 0.1), m.rng.f(0.0, 0.05), m.rng.f(0.1, 6.0));
        let timed = m.rng.b();
        let target = move |t: f64| if timed { th + amp * (w * t).sin() } else { th };
        let mk = |model, r0| {
            let s = HullWhiteSimulator::new_constant_theta(model, r0, th, seed);
            if timed { s.with_theta_fn(target) } else { s }
        };
        let (mut a, mut again) = (mk(hw, r0), mk(hw, r0));
        let mut z0 = HullWhiteSimulator::new_constant_theta(HullWhite1F { mean_reversion: 0.0, sigma: 1.0 }, 0.0, 0.0, seed);
        m.check(a.initial_state() == r0, "initial", || format!("{hw:?} {r0}"));
        let (mut x, mut t, mut prev) = (r0, 0.0, 0.0);
        for _ in 0..100 {
            let dt = m.rng.lf(1e-4, 1.0);
            let z = z0.step(&0.0, t, dt) / dt.sqrt();
            let y = a.step(&x, t, dt);
            let y2 = again.step(&x, t, dt);
            m.check(y == y2, "reproducible", || format!("{hw:?} seed {seed} t {t}: {y} {y2}"));
            let want = x + hw.mean_reversion * (target(t) - x) * dt + hw.sigma * dt.sqrt() * z;
            m.close("step", y, want, 1e-12, 1e-14, || format!("{hw:?} seed {seed} theta({t}) {} dt {dt} from {x} z {z}", target(t)));
            n += 1.0;
            s1 += z;
            s2 += z * z;
            lag += z * prev;
            prev = z;
            x = y;
            t += dt;
            m.count("steps");
        }
        m.case(("path", seed));
    }
    let r = |v: f64| v / n;
    m.check(r(s1).abs() < 6.0 / f64::sqrt(n) && (r(s2) - 1.0).abs() < 6.0 * f64::sqrt(2.0 / n) && r(lag).abs() < 6.0 / f64::sqrt(n), "noise law", || format!("mean {} var {} lag {}", r(s1), r(s2), r(lag)));
    m.sample(json!({"draws": n, "mean": r(s1), "variance": r(s2), "lag": r(lag)}));

    m.section("repricing");
    // theta fitted to the curve: the discounted model bond averages to the curve
    for _ in 0..m.scale(6, 60) {
        let hw = HullWhite1F { mean_reversion: m.rng.lf(0.05, 1.0), sigma: m.rng.lf(2e-3, 0.02) };
        let c = Curve::random(m);
        let (t, big) = (m.rng.f(0.5, 2.0), m.rng.f(2.5, 10.0));
        let (l, s) = (hw.mean_reversion, hw.sigma);
        let (c2, c3) = ([c.a, c.b, c.c, c.d, c.g], [c.a, c.b, c.c, c.d, c.g]);
        let of = |v: [f64; 5]| Curve { a: v[0], b: v[1], c: v[2], d: v[3], g: v[4] };
        let theta = move |u: f64| {
            let k = of(c2);
            k.f(u) + k.df(u) / l + s * s / (2.0 * l * l) * -(-2.0 * l * u).exp_m1()
        };
        let k = of(c3);
        let mut sim = HullWhiteSimulator::new_constant_theta(hw, c.f(0.0), 0.0, m.rng.next()).with_theta_fn(theta);
        let (paths, steps) = (3000, 200);
        let h = t / steps as f64;
        let (mut sum, mut sq) = (0.0, 0.0);
        let (p0, p1, f) = (k.p(t), k.p(big), k.f(t));
        for _ in 0..paths {
            let (mut x, mut acc) = (sim.initial_state(), 0.0);
            for i in 0..steps {
                let y = sim.step(&x, i as f64 * h, h);
                acc += 0.5 * h * (x + y);
                x = y;
            }
            let v = (-acc).exp() * hw.discount_affine(t, big, x, p0, p1, f) / p1;
            sum += v;
            sq += v * v;
        }
        let mean = sum / paths as f64;
        let se = ((sq / paths as f64 - mean * mean) / paths as f64).sqrt();
        m.close("reprices curve", mean, 1.0, 0.0, 6.0 * se + 2.0 * s * h + 0.05 * h, || format!("{hw:?} t {t} T {big} se {se}"));
        m.count("repriced");
        m.case(("reprice", big.to_bits()));
    }
    for (k, c) in [("ho_lee", 200), ("slow", 500), ("to_maturity", 300), ("at_zero", 200), ("matured", 100), ("bonds", 2000), ("steps", 30_000), ("repriced", 6)] {
        m.need(k, c);
    }
}
