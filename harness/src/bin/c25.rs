//! C25: Fourier-cosine option prices against the distribution they are given.
use finquant::models::common::cos_pricer::{CosPricer, ForwardChf};
use fqmon::Mon;
use fqmon::num::black;
use num_complex::Complex64;
use serde_json::json;
use std::cell::RefCell;

fn main() {
    fqmon::run("C25", "distinct (distribution, strike, discount, truncation) pricings", body)
}

/// Poisson-weighted or fixed mixture of lognormals: weight, mean of the
/// lognormal, standard deviation of the log.
struct Mix {
    comp: Vec<(f64, f64, f64)>,
    t: f64,
    log_forward: f64,
    var: f64,
    asked: RefCell<Vec<f64>>,
}
impl ForwardChf for Mix {
    fn evaluate(&self, u: Complex64) -> Complex64 {
        self.asked.borrow_mut().push(u.re);
        let iu = Complex64::new(0.0, 1.0) * u;
        self.comp.iter().map(|(w, f, s)| *w * (iu * (f.ln() - 0.5 * s * s) - 0.5 * s * s * u * u).exp()).sum()
    }
    fn expiry(&self) -> f64 {
        self.t
    }
    fn log_forward(&self) -> f64 {
        self.log_forward
    }
    fn typical_variance(&self) -> f64 {
        self.var
    }
}
impl Mix {
    fn price(&self, k: f64, call: bool) -> f64 {
        self.comp.iter().map(|(w, f, s)| w * black(*f, k, 1.0, *s, call)).sum()
    }
    fn forward(&self) -> f64 {
        self.comp.iter().map(|(w, f, _)| w * f).sum()
    }
}

fn body(m: &mut Mon) {
    m.section("prices");
    for _ in 0..m.scale(9000, 60_000) {
        let t = m.rng.lf(1e-3, 15.0);
        let f = m.rng.lf(1e-2, 300.0);
        let kind = m.rng.n(3);
        let (mut comp, sd, name);
        match kind {
            0 => {
                let v = m.rng.lf(0.02, 0.8).min(1.5 / t.sqrt());
                sd = v * t.sqrt();
                comp = vec![(1.0, f, sd)];
                name = "lognormal";
            }
            1 => {
                // two equally centred or separated lognormals, mean f
                let s = m.rng.lf(0.02, 0.5).min(1.0 / t.sqrt()) * t.sqrt();
                let (w, r, d) = (m.rng.f(0.1, 0.9), m.rng.f(0.5, 2.0), m.rng.f(-2.0, 2.0) * s);
                let (f1, f2) = (f * d.exp(), f * (-d).exp());
                let n = f / (w * f1 + (1.0 - w) * f2);
                comp = vec![(w, f1 * n, s), (1.0 - w, f2 * n, (s * r).min(1.3))];
                sd = s.min(comp[1].2);
                name = "mixture";
            }
            _ => {
                let s = m.rng.lf(0.05, 0.5).min(0.8 / t.sqrt()) * t.sqrt();
                let (li, mj, sj) = (m.rng.lf(0.05, 3.0), m.rng.f(-2.0, 1.0) * s, m.rng.f(0.2, 1.5) * s);
                let kappa = (mj + 0.5 * sj * sj).exp() - 1.0;
                let mut w = (-li).exp();
                comp = vec![];
                for n in 0..40 {
                    if n > 0 {
                        w *= li / n as f64;
                    }
                    let nf = n as f64;
                    comp.push((w, f * (nf * (mj + 0.5 * sj * sj) - li * kappa).exp(), (s * s + nf * sj * sj).sqrt()));
                }
                // renormalise the truncated Poisson weights
                let tot: f64 = comp.iter().map(|c| c.0).sum();
                comp.iter_mut().for_each(|c| c.0 /= tot);
                comp.retain(|c| c.0 > 1e-19);
                sd = s;
                name = "jumps";
            }
        }
        let mean: f64 = comp.iter().map(|(w, f, s)| w * (f.ln() - 0.5 * s * s)).sum();
        let var: f64 = comp.iter().map(|(w, f, s)| w * (s * s + (f.ln() - 0.5 * s * s - mean).powi(2))).sum();
        let total = var.sqrt();
        // the centre handed to the pricer: the log forward, or the mean of the
        // log, about which a lognormal is symmetric (odd cosine terms vanish)
        let centre = if kind == 0 && m.rng.chance(0.3) { mean } else { f.ln() };
        if centre == mean {
            m.count("symmetric");
        }
        let x = Mix { comp, t, log_forward: centre, var: var / t, asked: RefCell::new(vec![]) };
        // lower and upper tails that carry any visible mass
        let lo = x.comp.iter().filter(|c| c.0 > 1e-15).map(|(_, f, s)| f.ln() - 0.5 * s * s - 9.0 * s).fold(f64::INFINITY, f64::min);
        let hi = x.comp.iter().filter(|c| c.0 > 1e-15).map(|(_, f, s)| f.ln() + 0.5 * s * s + 9.0 * s).fold(f64::NEG_INFINITY, f64::max);
        let default = kind == 0 && m.rng.b();
        let (a, b) = if default { (centre - 10.0 * total, centre + 10.0 * total) } else { (lo - m.rng.f(0.0, 2.0) * total, hi + m.rng.f(0.0, 2.0) * total) };
        let need = 11.0 * (b - a) / (std::f64::consts::PI * sd);
        let n = if default { 128 } else { need as usize + 2 + m.rng.n(50) };
        if n > 2500 {
            m.count("too_wide");
            continue;
        }
        let info = || format!("{name} {:?} t {t} range {a} {b} n {n} default {default}", &x.comp[..x.comp.len().min(4)]);
        let pr = CosPricer::new(&x);
        m.check((pr.range.0 - (centre - 10.0 * total)).abs() <= 1e-9 * (1.0 + centre.abs()) + 1.1e-5 && (pr.range.1 - (centre + 10.0 * total)).abs() <= 1e-9 * (1.0 + centre.abs()) + 1.1e-5 && pr.n_terms == 128, "default truncation", || format!("{:?} {}: {}", pr.range, pr.n_terms, info()));
        let pr = if default { pr } else { pr.with_n_terms(n).with_range(a, b) };
        let disc = if m.rng.chance(0.3) { 1.0 } else { m.rng.f(0.3, 1.1) };
        let mut ks: Vec<f64> = (0..5).map(|_| f * (m.rng.normal() * 1.5 * total).exp()).collect();
        ks.push(f);
        // far wings, inside and beyond the truncation range
        ks.push((a + m.rng.f(-1.5, 0.3) * (b - a)).exp());
        ks.push((b + m.rng.f(-0.3, 1.5) * (b - a)).exp());
        ks.sort_by(|p, q| p.total_cmp(q));
        let fwd = x.forward();
        let mut last: Option<(f64, f64)> = None;
        let mut slope = f64::NEG_INFINITY;
        for k in ks {
            let Some((c, p)) = m.guard("panic/price", || format!("k {k} {}", info()), || (pr.call(k, disc), pr.put(k, disc))) else { break };
            let asked = x.asked.take();
            m.add("frequencies_observed", asked.len() as u64);
            let d = || format!("k {k} disc {disc} {}", info());
            // rounding in the cosine sums grows with the payoff at the far end
            let tc = disc * (1e-13 * (b.exp() + k.max(fwd)) * (n as f64).sqrt() + 1e-11 * fwd.max(k));
            let (wc, wp) = (disc * x.price(k, true), disc * x.price(k, false));
            m.close("call", c, wc, 1e-9, tc, d);
            m.close("put", p, wp, 1e-9, tc, d);
            m.close("parity", c - p, disc * (fwd - k), 1e-10, 4.0 * tc, d);
            if let Some((k0, c0)) = last {
                m.check(c <= c0 + 2.0 * tc && c >= c0 - disc * (k - k0) - 2.0 * tc, "monotone", d);
                if k - k0 > 1e-4 * k {
                    let s = (c - c0) / (k - k0);
                    let err = 4.0 * tc / (k - k0);
                    m.check(s >= slope - err, "convex", || format!("slope {s} after {slope}: {}", d()));
                    slope = s - err;
                }
            }
            last = Some((k, c));
            if k.ln() < a || k.ln() > b {
                m.count("strike_outside_range");
            }
            m.count(name);
            if default {
                m.count("default_settings");
            }
            m.case((k.to_bits(), f.to_bits(), t.to_bits()));
        }
        if m.rng.chance(0.002) {
            m.sample(json!({"kind": name, "forward": f, "expiry": t, "stdev": total, "terms": n}));
        }
    }
    for (k, c) in [("lognormal", 3000), ("mixture", 1500), ("jumps", 1500), ("strike_outside_range", 1000), ("default_settings", 1000), ("symmetric", 100)] {
        m.need(k, c);
    }
}
