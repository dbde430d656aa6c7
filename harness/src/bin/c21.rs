//! C21: normal distribution, Black and Bachelier formulas, implied vol.
use finquant::math::normal::{cdf, inverse_cdf, pdf};
use finquant::models::common::bachelier::*;
use finquant::models::common::black_scholes::*;
use fqmon::Mon;
use fqmon::num::*;
use serde_json::json;

fn main() {
    fqmon::run("C21", "distinct argument tuples of the distribution functions, pricing formulas and implied-volatility inversions", body)
}

const TAIL: f64 = 1e-8;

fn body(m: &mut Mon) {
    m.section("normal distribution");
    let mut prev = (f64::NEG_INFINITY, 0.0);
    for i in 0..m.scale(200_000, 2_000_000) {
        let n = m.scale(200_000, 2_000_000) as f64;
        let x = -38.0 + 76.0 * i as f64 / n;
        let c = cdf(x);
        m.close("cdf", c, ncdf(x), 1e-9, 2e-11, || format!("x {x}"));
        if (-37.0..-5.0).contains(&x) {
            // Mills ratio by continued fraction, relative all the way down
            let z = -x;
            let ratio = 1.0 / (1..200).rev().fold(z, |a, k| z + k as f64 / a);
            m.close("cdf tail", c / (npdf(x) * ratio), 1.0, TAIL, 0.0, || format!("x {x} {c:e}"));
        }
        m.close("cdf symmetry", c + cdf(-x), 1.0, 0.0, 1e-14, || format!("x {x}"));
        m.close("pdf", pdf(x), npdf(x), 1e-12, 1e-300, || format!("x {x}"));
        m.check(c >= prev.1 - 1e-15 && (0.0..=1.0).contains(&c), "cdf monotone", || format!("x {x}: {c} after {prev:?}"));
        prev = (x, c);
    }
    for _ in 0..m.scale(60_000, 600_000) {
        let p = match m.rng.n(4) {
            0 => m.rng.lf(1e-12, 0.5),
            3 => m.rng.lf(1e-300, 1e-10),
            1 => 1.0 - m.rng.lf(1e-12, 0.5),
            _ => m.rng.f(1e-9, 1.0 - 1e-9),
        };
        if let Some(x) = m.guard("panic/inverse", || format!("{p:e}"), || inverse_cdf(p)) {
            if p < 1e-10 {
                let z = -x;
                let ratio = 1.0 / (1..200).rev().fold(z, |a, k| z + k as f64 / a);
                m.close("inverse tail", npdf(x) * ratio / p, 1.0, 1e-6, 0.0, || format!("p {p:e} x {x}"));
            }
            m.close("inverse", ncdf(x), p, 0.0, 1e-9 * p.min(1.0 - p) + 2e-11, || format!("p {p:e} x {x}"));
            m.case(p.to_bits());
        }
    }
    for p in [0.0, 1.0, -0.1, 1.1, f64::NAN] {
        m.check(Mon::attempt(|| inverse_cdf(p)).is_err(), "inverse domain", || format!("{p}"));
    }
    m.section("Black");
    for i in 0..m.scale(80_000, 2_000_000) {
        let f = m.rng.lf(1e-4, 1e4);
        let t = if m.rng.chance(0.1) { m.rng.lf(1e-10, 1e-4) } else { m.rng.lf(1e-4, 60.0) };
        let v = match m.rng.n(8) {
            0 => 0.0,
            1 => -m.rng.f(0.0, 1.0),
            2 => m.rng.lf(1e-6, 1e-3),
            _ => m.rng.lf(5e-3, 2.5),
        };
        let t = if m.rng.chance(0.03) { *m.rng.pick(&[0.0, -1.0]) } else { t };
        let s = if v > 0.0 && t > 0.0 { v * t.sqrt() } else { 0.0 };
        let k = match m.rng.n(4) {
            0 => f,
            1 => f * m.rng.lf(0.02, 50.0),
            _ => f * (s.min(3.0) * m.rng.f(-4.0, 4.0)).exp(),
        };
        let df = m.rng.lf(0.1, 1.5);
        let info = || format!("F {f:e} K {k:e} vol {v:e} T {t:e} DF {df}");
        let (Some(c), Some(p)) = (
            m.guard("panic/call", info, || bs_call_forward(f, k, v, t, df)),
            m.guard("panic/put", info, || bs_put_forward(f, k, v, t, df)),
        ) else { continue };
        let sc = df * f.max(k);
        m.close("call", c, df * black(f, k, 1.0, s, true), 1e-10, 1e-10 * sc, info);
        m.close("put", p, df * black(f, k, 1.0, s, false), 1e-10, 1e-10 * sc, info);
        m.close("parity", c - p, df * (f - k), 1e-12, 1e-13 * sc, info);
        m.check(
            c >= df * (f - k).max(0.0) - 1e-13 * sc && c <= df * f * (1.0 + 1e-13) && p >= df * (k - f).max(0.0) - 1e-13 * sc && p <= df * k * (1.0 + 1e-13),
            "bounds",
            || format!("{c} {p}: {}", info()),
        );
        m.case((f.to_bits(), k.to_bits(), v.to_bits()));
        if i % 40 == 0 && s > 0.01 && s < 4.0 {
            // price as an integral over the lognormal law
            let lo = ((k / f).ln() / s + 0.5 * s).clamp(-12.0, 12.0);
            let q = df * integrate(|x| (f * (s * x - 0.5 * s * s).exp() - k) * npdf(x), lo, lo.max(s) + 14.0, 40);
            m.close("call integral", c, q, 1e-9, 1e-10 * sc, info);
            m.count("integrals");
        }
        // monotone and convex in strike
        let h = k * 1e-3 * m.rng.f(0.1, 10.0);
        let (a, b) = (bs_call_forward(f, k - h, v, t, df), bs_call_forward(f, k + h, v, t, df));
        m.check(a >= c - 1e-13 * sc && c >= b - 1e-13 * sc && a - 2.0 * c + b >= -4e-13 * sc && a - b <= 2.0 * h * df + 1e-13 * sc, "strike shape", || format!("{a} {c} {b}: {}", info()));
    }
    m.section("implied volatility");
    for _ in 0..m.scale(40_000, 800_000) {
        let f = m.rng.lf(0.3, 200.0);
        let t = m.rng.lf(0.01, 30.0);
        let v = match m.rng.n(5) {
            0 => m.rng.lf(1e-3, 0.03),
            2 if m.rng.chance(0.4) => m.rng.lf(1e-7, 1e-3),
            1 => m.rng.f(1.0, 4.5),
            _ => m.rng.f(0.03, 1.0),
        };
        let s = v * t.sqrt();
        let k = f * (s.min(2.0) * m.rng.f(-2.5, 2.5)).exp();
        let df = m.rng.lf(0.3, 1.2);
        let call = m.rng.b();
        let tol = *m.rng.pick(&[1e-8, 1e-8, 1e-10, 1e-12]);
        let target = df * black(f, k, t, v, call);
        let info = || format!("F {f:e} K {k:e} vol {v:e} T {t:e} DF {df} call {call} tol {tol:e} target {target:e}");
        let got = if tol == 1e-8 {
            m.guard("panic/iv", info, || bs_implied_vol(target, f, k, t, df, call))
        } else {
            m.guard("panic/iv", info, || bs_implied_vol_tol(target, f, k, t, df, call, tol))
        };
        let sc = df * f.max(k);
        match got {
            Some(Some(x)) => {
                m.close("reprice", df * black(f, k, t, x, call), target, 0.0, 1.0001 * tol + 2e-10 * sc, info);
                let d1 = (f / k).ln() / s + 0.5 * s;
                let vega = df * f * npdf(d1) * t.sqrt();
                if vega > 1e-2 * sc {
                    m.close("invert", x, v, 1e-6, 4.0 * (tol + 2e-10 * sc) / vega, info);
                    m.count("inverted");
                }
                m.check((0.0..=5.0).contains(&x), "iv range", || format!("{x} {}", info()));
            }
            Some(None) => m.violate("iv lost", info()),
            None => {}
        }
        // prices no volatility explains
        let top = df * black(f, k, t, 5.0, call);
        let low = df * (if call { f - k } else { k - f }).max(0.0);
        let e = sc * m.rng.lf(1e-6, 1.0) + 10.0 * tol;
        for (bad, tag) in [(top + e, "above"), (low - e, "below")] {
            if let Some(r) = m.guard("panic/iv", info, || bs_implied_vol_tol(bad, f, k, t, df, call, tol)) {
                m.check(r.is_none(), "iv invented", || format!("{tag} {bad:e} -> {r:?}: {}", info()));
                m.count("unattainable");
            }
        }
        m.case(("iv", f.to_bits(), k.to_bits(), v.to_bits(), call));
    }
    m.section("Bachelier");
    for i in 0..m.scale(80_000, 2_000_000) {
        let unit = m.rng.lf(1e-4, 1e3);
        let f = m.rng.f(-3.0, 3.0) * unit;
        let v = match m.rng.n(6) {
            0 => 0.0,
            1 => -m.rng.f(0.0, 1.0),
            2 => (unit * m.rng.lf(1e-9, 1e-3)).powi(2),
            _ => (unit * m.rng.lf(1e-3, 5.0)).powi(2),
        };
        let s = v.max(0.0).sqrt();
        let k = if m.rng.chance(0.2) { f } else { f + m.rng.f(-5.0, 5.0) * s.max(0.1 * unit) };
        let info = || format!("F {f:e} K {k:e} V {v:e}");
        let (c, p, g) = (bachelier_call(f, k, v), bachelier_put(f, k, v), bachelier_vega_variance(f, k, v));
        let sc = s + (f - k).abs();
        m.close("n call", c, bachelier(f, k, 1.0, s, true), 1e-10, 1e-10 * sc, info);
        m.close("n put", p, bachelier(f, k, 1.0, s, false), 1e-10, 1e-10 * sc, info);
        m.close("n parity", c - p, f - k, 1e-12, 1e-13 * sc, info);
        m.check(c >= (f - k).max(0.0) - 1e-13 * sc && p >= (k - f).max(0.0) - 1e-13 * sc, "n bounds", || format!("{c} {p}: {}", info()));
        let want = if s > 0.0 { npdf((f - k) / s) / (2.0 * s) } else { 0.0 };
        m.close("n vega", g, want, 1e-11, 0.0, info);
        if s > 0.0 && (f - k).abs() < 3.0 * s {
            let h = v * 1e-4;
            let fd = (bachelier(f, k, 1.0, (v + h).sqrt(), true) - bachelier(f, k, 1.0, (v - h).sqrt(), true)) / (2.0 * h);
            m.close("n vega slope", g, fd, 1e-5, 1e-7 / s, info);
        }
        if i % 40 == 0 && s > 0.0 {
            let lo = ((k - f) / s).clamp(-12.0, 12.0);
            let q = integrate(|x| (f - k + s * x) * npdf(x), lo, 14.0, 40);
            m.close("n call integral", c, q, 1e-9, 1e-10 * sc, info);
            m.count("integrals");
        }
        m.case(("n", f.to_bits(), k.to_bits(), v.to_bits()));
    }
    m.sample(json!({"cdf grid": "-38..38"}));
    for (k, n) in [("inverted", 10_000), ("unattainable", 20_000), ("integrals", 1000)] {
        m.need(k, n);
    }
}
