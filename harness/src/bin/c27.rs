//! C27: FX Libor-market-model and forward-market-model characteristic functions.
use finquant::models::common::cir::CirProcess;
use finquant::models::common::cos_pricer::ForwardChf;
use finquant::models::forex::fx_fmm::{self, FmmSide, FxFmmCorrelations, FxFmmParams};
use finquant::models::forex::fx_fmm1_chf::FxFmm1ForwardChf;
use finquant::models::forex::fx_hlmm::{self, DdSvLmm, FxHlmmCorrelations, FxHlmmParams, LiborTenor};
use finquant::models::forex::fx_hlmm1_chf::FxHlmm1ForwardChf;
use finquant::models::interestrate::fmm::{FmmTenor, LinearDecay};
use fqmon::{Mon, fxm};
use num_complex::Complex64;
use serde_json::json;

fn main() {
    fqmon::run("C27", "distinct (model, parameters, horizon, argument) evaluations", body)
}

const I: Complex64 = Complex64 { re: 0.0, im: 1.0 };
const Z: Complex64 = Complex64 { re: 0.0, im: 0.0 };

/// Plain description of either model: everything the equations need.
struct Spec {
    heston: CirProcess,
    rho: f64,
    dates: Vec<f64>,
    // frozen-rate weights before decay, variance parameters (lambda, eta, v0)
    psi_d: Vec<f64>,
    psi_f: Vec<f64>,
    var_d: (f64, f64, f64),
    var_f: (f64, f64, f64),
    corr: Vec<Vec<f64>>,
    decays: bool,
}

impl Spec {
    fn n(&self) -> usize {
        self.psi_d.len()
    }
    /// weight of rate j (0-based) at calendar time t
    fn w(&self, j: usize, t: f64) -> f64 {
        let (lo, hi) = (self.dates[j], self.dates[j + 1]);
        if self.decays {
            ((hi - t) / (hi - lo)).clamp(0.0, 1.0)
        } else if t <= lo {
            1.0
        } else {
            0.0
        }
    }
    /// correlation indices: 0 = FX, 1.. domestic, n+1.. foreign
    fn a(&self, t: f64, foreign: bool) -> f64 {
        let (p, o) = if foreign { (&self.psi_f, 1 + self.n()) } else { (&self.psi_d, 1) };
        let mut s = 0.0;
        for i in 0..self.n() {
            for j in 0..self.n() {
                s += p[i] * p[j] * self.w(i, t) * self.w(j, t) * self.corr[o + i][o + j];
            }
        }
        s
    }
    fn phi(&self, t: f64) -> (f64, f64, f64) {
        let side = |v: (f64, f64, f64)| CirProcess { kappa: v.0, theta: v.2, gamma: v.1, sigma_0: v.2 }.sqrt_mean(t);
        (self.heston.sqrt_mean(t), side(self.var_d), side(self.var_f))
    }
    fn f(&self, t: f64) -> f64 {
        let (x, d, f) = self.phi(t);
        let n = self.n();
        let mut s = 0.0;
        for i in 0..n {
            s += 2.0 * x * d * self.psi_d[i] * self.w(i, t) * self.corr[0][1 + i];
            s -= 2.0 * x * f * self.psi_f[i] * self.w(i, t) * self.corr[0][1 + n + i];
            for j in 0..n {
                s -= 2.0 * d * f * self.psi_d[i] * self.w(i, t) * self.psi_f[j] * self.w(j, t) * self.corr[1 + i][1 + n + j];
            }
        }
        s
    }
    /// breakpoints in time to maturity
    fn breaks(&self, big: f64) -> Vec<f64> {
        let mut v: Vec<f64> = self.dates.iter().map(|d| big - d).filter(|x| *x > 1e-13 && *x < big - 1e-13).collect();
        v.push(big);
        v.sort_by(|a, b| a.total_cmp(b));
        v
    }
    /// RK4 on the Riccati system; f is integrated separately by Gauss.
    /// `frozen` = pieces per period on which the decaying rates are held at
    /// the middle of the piece (0 = continuous).
    fn solve(&self, u: Complex64, big: f64, cuts: &[f64], frozen: usize, int_f: f64) -> [Complex64; 4] {
        let q = u * u + I * u;
        let (k, th, g) = (self.heston.kappa, self.heston.theta, self.heston.gamma);
        let (vd, vf) = (self.var_d, self.var_f);
        let mut y = [Z; 4]; // C, Dd, Df, A
        let mut lo = 0.0;
        for &hi in cuts {
            let pieces = frozen.max(1);
            for i in 0..pieces {
                let (a, b) = (lo + (hi - lo) * i as f64 / pieces as f64, lo + (hi - lo) * (i + 1) as f64 / pieces as f64);
                let mid = (self.a(big - 0.5 * (a + b), false), self.a(big - 0.5 * (a + b), true));
                let n = 12 + (40.0 * (b - a) * (1.0 + k + g * u.norm() + vd.0 + vf.0)) as usize;
                y = fqmon::num::rk4(y, a, b, n.min(4000), |s, y| {
                    let (ad, af) = if frozen > 0 { mid } else { (self.a(big - s, false), self.a(big - s, true)) };
                    [
                        -0.5 * q - (k - g * self.rho * I * u) * y[0] + 0.5 * g * g * y[0] * y[0],
                        -0.5 * ad * q - vd.0 * y[1] + 0.5 * vd.1 * vd.1 * y[1] * y[1],
                        -0.5 * af * q - vf.0 * y[2] + 0.5 * vf.1 * vf.1 * y[2] * y[2],
                        k * th * y[0] + vd.0 * vd.2 * y[1] + vf.0 * vf.2 * y[2],
                    ]
                });
            }
            lo = hi;
        }
        y[3] -= 0.5 * q * int_f;
        y
    }
}

fn body(m: &mut Mon) {
    m.section("law");
    for _ in 0..m.scale(500, 12_000) {
        let r = &mut m.rng;
        let decays = r.b();
        let n = if r.chance(0.08) { 6 + r.n(9) } else { 1 + r.n(5) };
        let mut dates = vec![if !decays && r.chance(0.2) { r.f(0.1, 0.5) } else { 0.0 }];
        for i in 0..n {
            let d = dates[i] + r.lf(0.1, 1.5);
            dates.push(d);
        }
        let rates: Vec<f64> = (0..n).map(|_| r.f(0.002, 0.09)).collect();
        let mut heston = fxm::heston(r);
        heston.gamma = heston.gamma.max(0.1);
        let mode = r.n(6);
        let mut corr = fxm::correlation(r, 1 + 2 * n, 3);
        let mut vols = |r: &mut fqmon::Rng| -> Vec<f64> { (0..n).map(|_| if mode == 0 { 0.0 } else if decays { r.lf(3e-3, 0.05) } else { r.lf(0.05, 0.6) }).collect() };
        let (sd, sf) = (vols(r), vols(r));
        if mode == 1 {
            // independent blocks: the law is exact
            for i in 0..1 + 2 * n {
                for j in 0..1 + 2 * n {
                    let blk = |x: usize| if x == 0 { 0 } else { 1 + (x > n) as usize };
                    if blk(i) != blk(j) {
                        corr[i][j] = 0.0;
                    }
                }
            }
        }
        let side = |r: &mut fqmon::Rng| (r.lf(0.1, 3.0), r.lf(0.05, 1.0), r.lf(0.3, 2.0));
        let (var_d, var_f) = (side(r), side(r));
        let rho = r.f(-0.9, 0.9);
        let fx_0 = r.lf(0.01, 300.0);
        let sub = |o: usize| -> Vec<Vec<f64>> { (0..n).map(|i| (0..n).map(|j| corr[o + i][o + j]).collect()).collect() };
        let cross: Vec<Vec<f64>> = (0..n).map(|i| (0..n).map(|j| corr[1 + i][1 + n + j]).collect()).collect();
        let (xd, xf) = (corr[0][1..=n].to_vec(), corr[0][n + 1..].to_vec());
        let psi = |s: &[f64]| -> Vec<f64> {
            (0..n)
                .map(|i| {
                    let t = dates[i + 1] - dates[i];
                    t * s[i] * if decays { 1.0 } else { rates[i] } / (1.0 + t * rates[i])
                })
                .collect()
        };
        let spec = Spec { heston, rho, dates: dates.clone(), psi_d: psi(&sd), psi_f: psi(&sf), var_d, var_f, corr: corr.clone(), decays };
        let tn = dates[n];
        let big = match r.n(5) {
            0 => tn,
            1 => dates[1 + r.n(n)],
            2 if !decays => tn + r.f(0.01, 2.0),
            3 => r.lf(2e-3, 0.3) * tn,
            _ => r.f(0.05, 1.0) * tn,
        };
        let info = || format!("decays {decays} dates {dates:?} rates {rates:?} vols {sd:?} {sf:?} heston {heston:?} rho {rho} var {var_d:?} {var_f:?} T {big} corr {corr:.3?}");
        let cuts = spec.breaks(big);
        // the cross term, by accurate quadrature on each smooth piece;
        // quadratic spacing resolves the square-root behaviour at time zero
        let int_f = {
            let mut s = 0.0;
            let mut lo = 0.0;
            for &hi in &cuts {
                let (t0, t1): (f64, f64) = (big - hi, big - lo);
                s += fqmon::num::integrate(|y| 2.0 * y * spec.f(y * y), t0.max(0.0).sqrt(), t1.sqrt(), 2);
                lo = hi;
            }
            s
        };
        // what the code's own Simpson grid makes of the same cross term
        let rough = |pieces: usize, k: usize| -> f64 {
            let mut s = 0.0;
            let mut lo = 0.0;
            for &hi in &cuts {
                for p in 0..pieces {
                    let (a, b) = (lo + (hi - lo) * p as f64 / pieces as f64, lo + (hi - lo) * (p + 1) as f64 / pieces as f64);
                    for i in 0..=k {
                        let mut t = big - (a + (b - a) * i as f64 / k as f64);
                        // stay on this side of a tenor date
                        if i == 0 {
                            t -= 1e-12;
                        } else if i == k {
                            t += 1e-12;
                        }
                        s += spec.f(t.max(0.0)) * if i == 0 || i == k { 1.0 } else if i % 2 == 1 { 4.0 } else { 2.0 } * (b - a) / k as f64 / 3.0;
                    }
                }
                lo = hi;
            }
            s
        };
        let mut us = vec![];
        let scale = (heston.mean(0.5 * big).max(1e-4) * big).sqrt();
        for i in 0..3 {
            let mut u = Complex64::new(m.rng.lf(0.05, 4.0) / scale * if m.rng.b() { 1.0 } else { -1.0 }, 0.0);
            if i == 2 {
                u.im = m.rng.f(-1.2, 0.5);
            }
            us.push(u);
        }
        let (ns, nf) = (if decays { *m.rng.pick(&[1usize, 1, 2, 4, 48]) } else { 1 }, *m.rng.pick(&[32usize, 32, 64]));
        let evals: Vec<(Complex64, [Complex64; 4], Complex64)>;
        let (at0, atf, herm, lf): (Complex64, Complex64, Vec<Complex64>, f64);
        if decays {
            let tenor = FmmTenor::new(dates.clone(), rates.clone());
            let fs = |s: &[f64], v: (f64, f64, f64), o: usize| FmmSide { sigmas: s.to_vec(), lambda: v.0, eta: v.1, v_0: v.2, rate_corr: sub(o), decay: LinearDecay };
            let p = FxFmmParams {
                fx_0,
                heston,
                tenor,
                domestic: fs(&sd, var_d, 1),
                foreign: fs(&sf, var_f, 1 + n),
                correlations: FxFmmCorrelations { rho_xi_sigma: rho, rho_xi_d: xd.clone(), rho_xi_f: xf.clone(), rho_sigma_d: vec![0.0; n], rho_sigma_f: vec![0.0; n], cross_rate_corr: cross.clone() },
            };
            m.check(p.validate().is_ok(), "valid parameters accepted", info);
            // invalid ones are refused
            let mut bad = p.clone();
            match m.rng.n(8) {
                0 => bad.domestic.sigmas.push(0.01),
                1 => bad.foreign.eta = 0.0,
                2 => bad.domestic.rate_corr[0][0] = 0.5,
                3 => bad.correlations.rho_xi_d[0] = 1.2,
                4 => bad.correlations.cross_rate_corr[n - 1][0] = -1.3,
                5 => bad.foreign.sigmas[0] = -0.01,
                6 => bad.correlations.rho_sigma_f.pop().map_or((), |_| ()),
                _ => bad.domestic.lambda = -0.1,
            }
            m.check(bad.validate().is_err(), "invalid parameters refused", || format!("{bad:?}"));
            // deterministic coefficients
            for _ in 0..3 {
                let t = m.rng.f(0.0, tn * 0.999);
                let e = p.tenor.eta(t);
                let want = (1..=n).find(|j| dates[*j] >= t).unwrap_or(n + 1);
                m.check(e == want, "current period", || format!("{t} {e} {}", info()));
                m.close("A domestic", fx_fmm::compute_a_d(&p, t, e), spec.a(t, false), 1e-11, 1e-18, || format!("{t} {}", info()));
                m.close("A foreign", fx_fmm::compute_a_f(&p, t, e), spec.a(t, true), 1e-11, 1e-18, || format!("{t} {}", info()));
                m.close("cross term", fx_fmm::compute_f_linearised(&p, t, e), spec.f(t), 1e-10, 1e-13, || format!("{t} {}", info()));
                let v = fx_fmm::psi_at(&p.domestic, &p.tenor, t);
                for j in 0..n {
                    m.close("weights", v[j], spec.psi_d[j] * spec.w(j, t), 1e-12, 1e-18, || format!("{t} {j} {}", info()));
                }
                m.count("coefficients");
            }
            let Some(x) = m.guard("panic/fmm", info, || if ns == 1 && nf == 32 { FxFmm1ForwardChf::new(&p, big) } else { FxFmm1ForwardChf::with_resolution(&p, big, ns, nf) }) else { continue };
            evals = us.iter().map(|u| { let z = x.components(*u); (x.evaluate(*u), [z.c, z.d_d, z.d_f, z.a], z.b) }).collect();
            herm = us.iter().map(|u| x.evaluate(-u.conj())).collect();
            at0 = x.evaluate(Z);
            atf = x.evaluate(-I);
            lf = x.log_forward();
            m.check(x.expiry() == big, "expiry", info);
            m.count("forward_market_model");
        } else {
            let tenor = LiborTenor::new(dates.clone(), rates.clone());
            let fs = |s: &[f64], v: (f64, f64, f64), o: usize| DdSvLmm { sigmas: s.to_vec(), betas: vec![0.9; n], lambda: v.0, eta: v.1, v_0: v.2, libor_corr: sub(o) };
            let p = FxHlmmParams {
                fx_0,
                heston,
                tenor,
                domestic: fs(&sd, var_d, 1),
                foreign: fs(&sf, var_f, 1 + n),
                correlations: FxHlmmCorrelations { rho_xi_sigma: rho, rho_xi_d: xd.clone(), rho_xi_f: xf.clone(), libor_cross_corr: cross.clone() },
            };
            m.check(p.validate().is_ok(), "valid parameters accepted", info);
            let mut bad = p.clone();
            match m.rng.n(7) {
                0 => bad.domestic.sigmas.push(0.01),
                1 => bad.foreign.eta = 0.0,
                2 => bad.domestic.libor_corr[0][0] = 0.5,
                3 => bad.correlations.rho_xi_d[0] = 1.2,
                4 => bad.correlations.libor_cross_corr[n - 1][0] = -1.3,
                5 => bad.foreign.betas.push(1.0),
                _ => bad.foreign.v_0 = 0.0,
            }
            m.check(bad.validate().is_err(), "invalid parameters refused", || format!("{bad:?}"));
            for _ in 0..3 {
                let t = m.rng.f(0.0, tn * 1.1);
                let e = p.tenor.m(t);
                let want = (0..=n).find(|j| t <= dates[*j]).unwrap_or(n);
                m.check(e == want && p.tenor.active(t).eq(want + 1..=n), "current period", || format!("{t} {e} {}", info()));
                m.close("A domestic", fx_hlmm::compute_a_d(&p, e + 1), spec.a(t, false), 1e-11, 1e-18, || format!("{t} {}", info()));
                m.close("A foreign", fx_hlmm::compute_a_f(&p, e + 1), spec.a(t, true), 1e-11, 1e-18, || format!("{t} {}", info()));
                m.close("cross term", fx_hlmm::compute_f_linearised(&p, t, e + 1), spec.f(t), 1e-10, 1e-13, || format!("{t} {}", info()));
                let v = p.foreign.psi(&p.tenor);
                for j in 0..n {
                    m.close("weights", v[j], spec.psi_f[j], 1e-12, 1e-18, || format!("{j} {}", info()));
                }
                m.count("coefficients");
            }
            let Some(x) = m.guard("panic/hlmm", info, || if nf == 32 { FxHlmm1ForwardChf::new(&p, big) } else { FxHlmm1ForwardChf::with_simpson_steps(&p, big, nf) }) else { continue };
            evals = us.iter().map(|u| { let z = x.components(*u); (x.evaluate(*u), [z.c, z.d_d, z.d_f, z.a], z.b) }).collect();
            herm = us.iter().map(|u| x.evaluate(-u.conj())).collect();
            at0 = x.evaluate(Z);
            atf = x.evaluate(-I);
            lf = x.log_forward();
            m.check(x.expiry() == big, "expiry", info);
            m.count("libor_market_model");
            if big > tn {
                m.count("beyond_last_date");
            }
        }
        if n > 5 {
            m.count("many_periods");
        }
        m.close("one at zero", (at0 - 1.0).norm(), 0.0, 0.0, 1e-11, info);
        m.close("forward", (atf / fx_0 - 1.0).norm(), 0.0, 0.0, 1e-10, info);
        m.close("log forward", lf, fx_0.ln(), 1e-12, 1e-12, info);
        let x0 = fx_0.ln();
        let df = (rough(ns, nf) - int_f).abs() * 3.0 + 1e-10 * int_f.abs();
        let (dd, ff) = (var_d, var_f);
        for (i, u) in us.iter().enumerate() {
            let d = || format!("u {u} pieces {ns} simpson {nf} {}", info());
            let (v, z, b) = &evals[i];
            let q = u.norm() * (u.norm() + 1.0);
            m.check(*b == I * u, "linear in log", d);
            m.check((herm[i] - v.conj()).norm() <= 1e-9 * v.norm(), "hermitian", d);
            let w = spec.solve(*u, big, &cuts, ns, int_f);
            // rounding of the closed forms, which divide by the squared vol-of-vol
            let noise = 3e-14 * (1.0 + heston.kappa * heston.theta / heston.gamma.powi(2) + dd.0 * dd.2 / dd.1.powi(2) + ff.0 * ff.2 / ff.1.powi(2)) * (1.0 + big) * (cuts.len() * ns) as f64;
            let lim = |x: Complex64| 2e-6 * x.norm() + 1e-9 * q * scale * scale + noise;
            m.close("C", (z[0] - w[0]).norm(), 0.0, 0.0, 2e-6 * w[0].norm() + 1e-12, d);
            m.close("D domestic", (z[1] - w[1]).norm(), 0.0, 0.0, 1e-7 * w[1].norm() + noise, d);
            m.close("D foreign", (z[2] - w[2]).norm(), 0.0, 0.0, 1e-7 * w[2].norm() + noise, d);
            let ta = lim(w[3]) + 0.5 * q * df;
            m.close("A", (z[3] - w[3]).norm(), 0.0, 0.0, ta, d);
            let want = (w[3] + I * u * x0 + w[0] * heston.sigma_0 + w[1] * dd.2 + w[2] * ff.2).exp();
            m.close("value", (v - want).norm() / want.norm(), 0.0, 0.0, 2.0 * ta + 4e-6 * (w[0].norm() * heston.sigma_0 + w[1].norm() * dd.2 + w[2].norm() * ff.2) + 1e-12 * u.norm() * (1.0 + x0.abs()) + 1e-9, d);
            if decays && ns == 48 {
                // fine resolution converges to the continuous equations
                let c = spec.solve(*u, big, &cuts, 0, int_f);
                let h = cuts.iter().scan(0.0, |p, x| { let g = x - *p; *p = *x; Some(g) }).fold(0.0, f64::max) / 48.0;
                let tot = (c[1].norm() * dd.2 + c[2].norm() * ff.2) * (1.0 + big);
                m.close("continuous limit", (z[3] + z[1] * dd.2 + z[2] * ff.2 - c[3] - c[1] * dd.2 - c[2] * ff.2).norm(), 0.0, 0.0, ta + lim(c[3]) + 40.0 * (h / cuts.iter().fold(big, |a, b| a.min(*b)).max(h * 4.0)).powi(2).min(0.05) * tot + noise, d);
                m.count("continuous_limit");
            }
            if i < 2 && mode <= 1 {
                m.check(v.norm() <= 1.0 + 1e-9, "bounded", d);
                m.count("bounded");
            }
            if mode == 0 {
                // rates deterministic: pure square-root variance model
                m.check(z[1].norm() + z[2].norm() <= 10.0 * noise, "heston limit", d);
                m.count("heston_limit");
            }
            m.case((u.re.to_bits(), u.im.to_bits(), big.to_bits()));
        }
        if m.rng.chance(0.02) {
            m.sample(json!({"decaying": decays, "periods": n, "expiry": big, "cross_integral": int_f}));
        }
    }
    for (k, c) in [("forward_market_model", 150), ("libor_market_model", 150), ("beyond_last_date", 20), ("continuous_limit", 60), ("bounded", 200), ("heston_limit", 100), ("many_periods", 15), ("coefficients", 1000)] {
        m.need(k, c);
    }
}
