//! C26: FX Heston/Hull-White forward characteristic function.
use finquant::models::common::cos_pricer::ForwardChf;
use finquant::models::forex::fx_hhw1_chf::FxHhw1ForwardChf;
use finquant::models::forex::fx_hhw::FxHhwParams;
use fqmon::{Mon, fxm};
use num_complex::Complex64;
use serde_json::json;

fn main() {
    fqmon::run("C26", "distinct (parameters, horizon, argument) evaluations", body)
}

const I: Complex64 = Complex64 { re: 0.0, im: 1.0 };

/// Independent solution of the coefficient equations by RK4 in time to
/// maturity; `e` holds the mean volatility at calendar times T - i*h/2.
fn ode(p: &FxHhwParams, tau: f64, n: usize, e: &[f64], u: Complex64) -> (Complex64, Complex64) {
    let h = tau / n as f64;
    let rho = &p.correlations;
    let (k, th, g) = (p.heston.kappa, p.heston.theta, p.heston.gamma);
    let dur = |l: f64, s: f64| if l == 0.0 { -s } else { (-l * s).exp_m1() / l };
    let iu = I * u;
    let q = u * u + iu;
    let dc = |c: Complex64| -0.5 * q - (k - g * rho.rho_xi_sigma * iu) * c + 0.5 * g * g * c * c;
    let da = |i: usize, c: Complex64| {
        let s = i as f64 * h / 2.0;
        let ev = e[i];
        // bond volatilities of the two curves at this calendar time
        let (vd, vf) = (p.domestic.sigma * dur(p.domestic.mean_reversion, s), p.foreign.sigma * dur(p.foreign.mean_reversion, s));
        // variance rate of the log forward beyond sigma itself
        let extra = vd * vd + vf * vf - 2.0 * rho.rho_d_f * vd * vf + 2.0 * ev * (rho.rho_xi_f * vf - rho.rho_xi_d * vd);
        // drift of sigma under the T-forward measure and its covariation with the rates
        let drift = k * th + g * ev * (rho.rho_sigma_d * vd * (1.0 - iu) + rho.rho_sigma_f * vf * iu);
        drift * c - 0.5 * q * extra
    };
    let (mut a, mut c) = (Complex64::new(0.0, 0.0), Complex64::new(0.0, 0.0));
    for j in 0..n {
        let (k1, a1) = (dc(c), da(2 * j, c));
        let c2 = c + k1 * (h / 2.0);
        let (k2, a2) = (dc(c2), da(2 * j + 1, c2));
        let c3 = c + k2 * (h / 2.0);
        let (k3, a3) = (dc(c3), da(2 * j + 1, c3));
        let c4 = c + k3 * h;
        let (k4, a4) = (dc(c4), da(2 * j + 2, c4));
        c += (k1 + 2.0 * k2 + 2.0 * k3 + k4) * (h / 6.0);
        a += (a1 + 2.0 * a2 + 2.0 * a3 + a4) * (h / 6.0);
    }
    (a, c)
}

fn body(m: &mut Mon) {
    m.section("law");
    for _ in 0..m.scale(8000, 60_000) {
        let mut p = fxm::hhw(&mut m.rng);
        let mode = m.rng.n(8);
        let r = &mut m.rng;
        match mode {
            0 => {
                p.domestic.sigma = 0.0;
                p.foreign.sigma = 0.0;
            }
            1 => {
                p.domestic.sigma = 0.0;
                p.foreign.sigma = 0.0;
                p.heston.gamma = 0.0;
                p.heston.sigma_0 = p.heston.theta;
            }
            2 => p.heston.gamma = r.lf(1e-9, 1e-3),
            3 => {
                // strong rates
                p.domestic.sigma = r.f(0.02, 0.06);
                p.foreign.sigma = r.f(0.02, 0.06);
            }
            4 => {
                p.domestic.mean_reversion = if r.b() { 0.0 } else { r.lf(1e-9, 1e-4) };
                if r.b() {
                    p.foreign.mean_reversion = if r.b() { 0.0 } else { r.lf(1e-9, 1e-4) };
                }
            }
            _ => {}
        }
        let t = m.rng.lf(0.02, 12.0);
        let n_s = if m.rng.b() { 128 } else { 2 * (64 + m.rng.n(100)) };
        let info = || format!("{p:?} T {t} simpson {n_s}");
        let x = if n_s == 128 { FxHhw1ForwardChf::new(&p, t) } else { FxHhw1ForwardChf::with_simpson_steps(&p, t, n_s) };
        let fwd = p.fx_0 * ((p.rd_0 - p.rf_0) * t).exp();
        let Some(one) = m.guard("panic/chf", info, || x.evaluate(Complex64::new(0.0, 0.0))) else { continue };
        m.close("one at zero", one.re, 1.0, 0.0, 1e-13, info);
        m.close("one at zero imag", one.im, 0.0, 0.0, 1e-13, info);
        let f = x.evaluate(-I);
        m.close("forward", f.re, fwd, 1e-11, 0.0, info);
        m.close("forward imag", f.im / fwd, 0.0, 0.0, 1e-11, info);
        m.close("log forward", x.log_forward(), fwd.ln(), 1e-12, 1e-12, info);
        m.check(x.expiry() == t && x.typical_variance() > 0.0, "expiry", info);
        // a mean total variance sets the scale of interesting arguments
        let v = p.heston.mean(0.5 * t).max(1e-4);
        let sd = (v * t).sqrt();
        let n = 240 + (60.0 * t) as usize;
        let e: Vec<f64> = (0..=2 * n).map(|i| p.heston.sqrt_mean(t - i as f64 * t / (2 * n) as f64)).collect();
        // how well the quadrature grids resolve the mean volatility itself
        let simpson = |k: usize, g: &dyn Fn(usize) -> f64| -> f64 { (0..=k).map(|i| g(i) * if i == 0 || i == k { 1.0 } else if i % 2 == 1 { 4.0 } else { 2.0 }).sum::<f64>() * t / k as f64 / 3.0 };
        let rough = (simpson(n_s, &|i| p.heston.sqrt_mean(t * i as f64 / n_s as f64)) - simpson(2 * n, &|i| e[i])).abs();
        let bv = (p.domestic.sigma.abs() + p.foreign.sigma.abs()) * t;
        for i in 0..4 {
            let mut u = Complex64::new(m.rng.lf(0.02, 4.0) / sd * if m.rng.b() { 1.0 } else { -1.0 }, 0.0);
            if i == 3 {
                u.im = m.rng.f(-1.2, 0.5);
            }
            let d = || format!("u {u} {}", info());
            let Some((y, z)) = m.guard("panic/eval", d, || (x.evaluate(u), x.components(u, t))) else { break };
            let w = x.evaluate(-u.conj());
            m.check((w - y.conj()).norm() <= 1e-12 * y.norm(), "hermitian", d);
            let (a, c) = ode(&p, t, n, &e, u);
            let sc = (u.norm() * u.norm() + u.norm()) * t;
            m.check(z.b == I * u, "linear in log", d);
            // the quadrature of A is fourth order in its step
            let step = (p.heston.kappa + p.heston.gamma * u.norm() + 1.0) * t / n_s.min(n) as f64;
            let ta = 2e-8 * sc * v + 0.06 * step.powi(4) * (1.0 + sc) * v + 1e-13 + 4.0 * rough * bv * (sc / t + p.heston.gamma * c.norm() * (2.0 + u.norm()));
            m.close("C real", z.c.re, c.re, 1e-7, 1e-10 * sc, d);
            m.close("C imag", z.c.im, c.im, 1e-7, 1e-10 * sc, d);
            m.close("A real", z.a.re, a.re, 1e-6, ta, d);
            m.close("A imag", z.a.im, a.im, 1e-6, ta, d);
            let want = (a + I * u * fwd.ln() + c * p.heston.sigma_0).exp();
            m.close("value", (y - want).norm() / want.norm(), 0.0, 0.0, 4.0 * ta + 1e-6 * a.norm() + 1e-7 * c.norm() * p.heston.sigma_0 + 1e-10 + 1e-12 * u.norm(), d);
            // without rate volatility the law is exact
            if i < 3 && mode <= 1 {
                m.check(y.norm() <= 1.0 + 1e-12, "bounded", d);
            }
            if mode == 1 {
                let bs = (I * u * (fwd.ln()) - 0.5 * (u * u + I * u) * p.heston.theta * t).exp();
                m.close("black-scholes limit", (y - bs).norm() / bs.norm(), 0.0, 0.0, 1e-11 * (1.0 + u.norm()) + ta, d);
                m.count("black_scholes_limit");
            }
            // partial elapsed time
            let tau = match m.rng.n(4) {
                0 => t * (1.0 - m.rng.lf(1e-6, 0.1)),
                1 => t * m.rng.lf(1e-4, 0.1),
                _ => t * m.rng.u(),
            };
            let zt = x.components(u, tau);
            let e2: Vec<f64> = (0..=2 * n).map(|j| p.heston.sqrt_mean(t - j as f64 * tau / (2 * n) as f64)).collect();
            if i == 0 {
                let (a2, c2) = ode(&p, tau, n, &e2, u);
                let dd = || format!("tau {tau} {}", d());
                m.close("partial C real", zt.c.re, c2.re, 1e-7, 1e-10 * sc, dd);
                m.close("partial A real", zt.a.re, a2.re, 1e-6, ta, dd);
                m.close("partial A imag", zt.a.im, a2.im, 1e-6, ta, dd);
                m.count("partial");
            }
            m.count(["heston_limit", "bs_mode", "small_volvol", "strong_rates", "slow_rates", "generic", "generic", "generic"][mode]);
            m.case((u.re.to_bits(), u.im.to_bits(), t.to_bits()));
        }
        // start of the equations
        let z0 = x.components(Complex64::new(1.0 / sd, 0.0), 0.0);
        m.check(z0.a.norm() == 0.0 && z0.c.norm() == 0.0, "zero elapsed time", info);
        // second moment: small-argument curvature is the mean variance of the log forward
        let du = 1e-3 / sd;
        let lg = (x.evaluate(Complex64::new(du, 0.0)) * (-I * du * fwd.ln()).exp()).norm().ln();
        let rho = &p.correlations;
        let var = fqmon::num::integrate(
            |s| {
                let dur = |l: f64| if l == 0.0 { s - t } else { (-l * (t - s)).exp_m1() / l };
                let (vd, vf, q) = (p.domestic.sigma * dur(p.domestic.mean_reversion), p.foreign.sigma * dur(p.foreign.mean_reversion), p.heston.sqrt_mean(s));
                p.heston.mean(s) + vd * vd + vf * vf - 2.0 * rho.rho_d_f * vd * vf + 2.0 * q * (rho.rho_xi_f * vf - rho.rho_xi_d * vd)
            },
            0.0,
            t,
            6,
        );
        // the variance of the accumulated drift (terms in gamma) adds to it
        if p.heston.gamma <= 1e-3 {
            m.close("variance", -2.0 * lg / (du * du), var, 2e-2, 0.0, info);
            m.count("second_moment");
        }
        if m.rng.chance(0.02) {
            m.sample(json!({"expiry": t, "forward": fwd, "variance": var}));
        }
    }
    for (k, c) in [("heston_limit", 100), ("black_scholes_limit", 100), ("small_volvol", 100), ("strong_rates", 100), ("slow_rates", 100), ("generic", 300), ("partial", 300), ("second_moment", 50)] {
        m.need(k, c);
    }
}
