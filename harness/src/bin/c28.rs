//! C28: SABR smile expansion and effective parameters.
use finquant::models::forex::sabr::{SabrParams, hagan_atm_vol, hagan_implied_vol};
use finquant::models::forex::sabr_effective::{PiecewiseConstant as Pc, effective_correlation, effective_term_structure, effective_vol_vol};
use fqmon::num::integrate;
use fqmon::{Mon, Rng};
use serde_json::json;

fn main() {
    fqmon::run("C28", "distinct (parameters, forward, strike, expiry) smile points and schedules", body)
}

fn body(m: &mut Mon) {
    m.section("smile");
    let n = m.scale(60_000, 1_500_000);
    for _ in 0..n {
        smile(m);
    }
    m.section("continuity through the money");
    let n = m.scale(3000, 60_000);
    for _ in 0..n {
        continuity(m);
    }
    m.section("schedules");
    let n = m.scale(6000, 100_000);
    for _ in 0..n {
        lookup(m);
    }
    m.section("effective parameters");
    let n = m.scale(6000, 60_000);
    for _ in 0..n {
        effective(m);
    }
    m.section("rejections");
    rejections(m);
    m.need("smile points", 20_000);
    m.need("near the money", 2000);
    m.need("zero vol-of-vol", 1000);
    m.need("lognormal", 1000);
    m.need("normal", 1000);
    m.need("varying schedules", 500);
    m.need("constant schedules", 100);
    m.need("expiries beyond 30 years", 20);
    m.need("small vol-of-vol schedules", 50);
    m.assume("strikes within |nu*log-moneyness/vol| <= 100, where the expansion's own logarithm is representable to the stated tolerance");
}

fn params(r: &mut Rng) -> (SabrParams, f64) {
    let f = r.lf(0.3, 200.0);
    let beta = match r.n(4) {
        0 => 1.0,
        1 => 0.0,
        2 => 0.5,
        _ => r.u(),
    };
    let sigma = r.lf(0.01, 0.6);
    let rho = if r.chance(0.1) { *r.pick(&[-0.999, 0.999, 0.0]) } else { r.f(-0.97, 0.97) };
    let nu = if r.chance(0.1) { 0.0 } else { r.lf(0.01, 2.0) };
    (SabrParams::new(sigma * f.powf(1.0 - beta), beta, rho, nu), f)
}

/// Independent evaluation of Hagan et al. (2002), eq. A.69.
fn hagan(p: &SabrParams, f: f64, k: f64, t: f64) -> f64 {
    let b = 1.0 - p.beta;
    let l = f.ln() - k.ln();
    let fk = (0.5 * b * (f.ln() + k.ln())).exp();
    let z = p.nu / p.alpha * fk * l;
    let s = (1.0 - p.rho * p.rho).sqrt();
    let ratio = if z.abs() < 1e-4 {
        // x(z) = int_0^z dy / sqrt(1 - 2 rho y + y^2)
        1.0 / (1.0 + p.rho * z / 2.0 + (3.0 * p.rho * p.rho - 1.0) * z * z / 6.0)
    } else {
        let x = ((z - p.rho) / s).asinh() + (p.rho / s).asinh();
        z / x
    };
    let geo = fk * (1.0 + b * b * l * l / 24.0 + (b * l).powi(4) / 1920.0);
    let c = b * b / 24.0 * (p.alpha / fk).powi(2) + p.rho * p.beta * p.nu * p.alpha / (4.0 * fk) + (2.0 - 3.0 * p.rho * p.rho) / 24.0 * p.nu * p.nu;
    p.alpha / geo * ratio * (1.0 + c * t)
}

/// What rounding in the published formula itself can do to it.
fn noise(p: &SabrParams, f: f64, k: f64) -> f64 {
    let z = (p.nu / p.alpha * (f * k).powf(0.5 * (1.0 - p.beta)) * (f / k).ln()).abs();
    // the logarithm's argument is 1 + O(z) near the money and a difference of
    // O(z) numbers far below it, magnified by 1/(1-rho)
    let near = if z < 0.99e-8 { 1e-14 } else { 6e-15 / z / (1.0 - p.rho.abs()) };
    let far = 1e-15 * (1.0 + z * z) / (1.0 - p.rho * p.rho);
    1e-12 + near + far
}

fn smile(m: &mut Mon) {
    let mut r = Rng::new(m.rng.next());
    let (p, f) = params(&mut r);
    let sig = p.alpha * f.powf(p.beta - 1.0);
    let t = r.lf(0.005, 20.0);
    let near = r.chance(0.1);
    let l = if near { r.normal() * r.lf(1e-12, 1e-3) } else { r.normal() * (0.02 + sig * t.sqrt() * 1.5).min(1.2) };
    if p.nu / sig * l.abs() > 100.0 {
        m.trivial();
        return;
    }
    let k = f * l.exp();
    let ctx = || format!("{p:?} F={f} K={k} t={t}");
    m.case((p.alpha.to_bits(), p.rho.to_bits(), k.to_bits()));
    m.count("smile points");
    if near {
        m.count("near the money");
    }
    if p.nu == 0.0 {
        m.count("zero vol-of-vol");
    }
    if p.beta == 1.0 {
        m.count("lognormal");
    }
    if p.beta == 0.0 {
        m.count("normal");
    }
    let Some(v) = m.guard("hagan-panics", ctx, || hagan_implied_vol(&p, f, k, t)) else { return };
    let want = hagan(&p, f, k, t);
    m.close("hagan-formula", v, want, noise(&p, f, k), 1e-15, ctx);
    // exact reflection: swapping F and K while flipping rho leaves the vol
    // unchanged up to the rho*beta*nu time term, hence for rho = 0 or beta = 0
    if p.rho == 0.0 || p.beta == 0.0 {
        let q = SabrParams::new(p.alpha, p.beta, -p.rho, p.nu);
        let w = hagan_implied_vol(&q, k, f, t);
        m.close("reflection", w, v, noise(&p, f, k) + noise(&q, k, f), 1e-15, ctx);
    }
    // units: rescaling the currency rescales alpha only
    let c = r.lf(0.01, 100.0);
    let q = SabrParams::new(p.alpha * c.powf(1.0 - p.beta), p.beta, p.rho, p.nu);
    m.close("unit-invariance", hagan_implied_vol(&q, f * c, k * c, t), v, 2.0 * noise(&p, f, k) + 1e-11, 1e-15, || format!("{} scale={c}", ctx()));
    // at the money
    let a = hagan_atm_vol(&p, f, t);
    m.close("atm-formula", a, hagan(&p, f, f, t), 1e-12, 1e-15, ctx);
    m.close("atm-limit", hagan_implied_vol(&p, f, f, t), a, 1e-12, 1e-15, ctx);
    // no vol-of-vol, lognormal: constant vol
    if p.nu == 0.0 && p.beta == 1.0 {
        m.close("black-limit", v, p.alpha, 1e-13, 0.0, ctx);
    }
    m.sample(json!({"alpha": p.alpha, "beta": p.beta, "rho": p.rho, "nu": p.nu, "F": f, "K": k, "t": t, "vol": v}));
}

fn continuity(m: &mut Mon) {
    let mut r = Rng::new(m.rng.next());
    let (p, f) = params(&mut r);
    let t = r.lf(0.01, 10.0);
    m.case(("cont", p.alpha.to_bits(), p.nu.to_bits()));
    let a = hagan_atm_vol(&p, f, t);
    // slope bound of the smile at the money, from the independent formula
    let sig = p.alpha * f.powf(p.beta - 1.0);
    for e in [1e-3, 1e-5, 1e-7, 1e-9, 1e-11, 1e-13] {
        for s in [-1.0, 1.0] {
            let k = f * f64::exp(s * e);
            let v = hagan_implied_vol(&p, f, k, t);
            let slope = (p.nu / sig + 1.0) * (1.0 + p.nu / sig * e) * 4.0 * a.abs().max(sig) * (1.0 + t);
            m.close("continuous-through-the-money", v, a, 0.0, slope * e + noise(&p, f, k) * a.abs().max(sig) + 1e-15, || format!("{p:?} F={f} K={k} t={t}"));
        }
    }
    // shape: with rho = 0 and beta = 1 the smile is symmetric and convex
    let q = SabrParams::new(sig, 1.0, 0.0, p.nu);
    let w = |l: f64| hagan_implied_vol(&q, f, f * l.exp(), t);
    let h = r.lf(0.01, 0.5);
    if q.nu > 0.05 && q.nu / sig * h < 50.0 {
        m.check(w(h) > w(0.0) && w(-h) > w(0.0) && w(2.0 * h) > w(h), "smile-convex", || format!("{q:?} F={f} h={h} t={t}"));
    }
}

fn schedule(r: &mut Rng, knots: &[f64], lo: f64, hi: f64, constant: bool) -> Vec<f64> {
    let v = r.lf(lo, hi);
    (1..knots.len()).map(|_| if constant { v } else { r.lf(lo, hi) }).collect()
}

fn knots(r: &mut Rng) -> Vec<f64> {
    let many = r.chance(0.06);
    let n = 1 + if many { 7 + r.n(40) } else { r.n(7) };
    let mut v = vec![0.0];
    let stretch = if many { r.f(0.05, 0.5) } else if r.chance(0.15) { r.f(1.0, 15.0) } else { 1.0 };
    for _ in 0..n {
        let d = r.lf(0.02, 3.0) * stretch;
        v.push(v.last().unwrap() + d);
    }
    v
}

fn lookup(m: &mut Mon) {
    let mut r = Rng::new(m.rng.next());
    let k = knots(&mut r);
    let vals: Vec<f64> = (1..k.len()).map(|_| r.f(-1.0, 1.0)).collect();
    let ctx = || format!("knots={k:?} values={vals:?}");
    let Some(p) = m.guard("schedule-panics", ctx, || Pc::new(k.clone(), vals.clone())) else { return };
    m.check(p.n_segments() == vals.len() && p.final_time() == *k.last().unwrap(), "schedule-shape", ctx);
    let seg = r.n(vals.len());
    let t = k[seg] + (k[seg + 1] - k[seg]) * r.f(1e-6, 1.0);
    m.case(("lookup", t.to_bits()));
    for (tt, want) in [(t, vals[seg]), (k[seg + 1], vals[seg]), (0.0, vals[0])] {
        if let Some(v) = m.guard("schedule-panics", ctx, || p.at(tt)) {
            m.check(v == want, "schedule-lookup", || format!("{} t={tt} got {v} want {want}", ctx()));
        }
    }
    let c = Pc::constant(t, vals[0]);
    m.check(c.at(0.0) == vals[0] && c.at(t) == vals[0] && c.at(t * 0.37) == vals[0] && c.n_segments() == 1 && c.final_time() == t, "schedule-constant", || format!("t={t}"));
}

fn effective(m: &mut Mon) {
    let mut r = Rng::new(m.rng.next());
    let k = knots(&mut r);
    let small = r.chance(0.15);
    let (glo, ghi) = if small { (1e-3, 3e-2) } else { (0.05, 1.5) };
    let constant = r.chance(0.25);
    let const_w = constant && r.chance(0.7) || r.chance(0.1);
    let g = schedule(&mut r, &k, glo, ghi, constant);
    let w = schedule(&mut r, &k, 0.03, 0.5, const_w);
    let rho: Vec<f64> = if r.chance(0.3) { vec![r.f(-0.95, 0.95); k.len() - 1] } else { (1..k.len()).map(|_| r.f(-0.95, 0.95)).collect() };
    let seg = 1 + r.n(k.len() - 1);
    let big_t = k[seg];
    let total: f64 = (0..seg).map(|i| g[i] * g[i] * (k[i + 1] - k[i])).sum();
    if total > 12.0 {
        m.trivial();
        return;
    }
    let (pg, pw, pr) = (Pc::new(k.clone(), g.clone()), Pc::new(k.clone(), w.clone()), Pc::new(k.clone(), rho.clone()));
    let ctx = || format!("knots={k:?} gamma={g:?} omega={w:?} rho={rho:?} expiry={big_t}");
    m.case((g[0].to_bits(), w[0].to_bits(), seg));
    let Some(ge) = m.guard("effective-panics", ctx, || effective_vol_vol(&pg, &pw, big_t)) else { return };
    let Some(we) = m.guard("effective-panics", ctx, || effective_term_structure(&pg, &pw, big_t)) else { return };
    let Some(re) = m.guard("effective-panics", ctx, || effective_correlation(&pg, &pw, &pr, big_t)) else { return };
    if big_t > 30.0 {
        m.count("expiries beyond 30 years");
    }
    if small {
        m.count("small vol-of-vol schedules");
    }
    // the averaging integrals by quadrature of their definitions
    let acc = |t: f64| -> f64 { (0..seg).map(|i| g[i] * g[i] * (t.clamp(k[i], k[i + 1]) - k[i])).sum() };
    let per = |f: &dyn Fn(f64, usize) -> f64, up: f64| -> f64 { (0..seg).filter(|i| k[*i] < up).map(|i| integrate(|t| f(t, i), k[i], k[i + 1].min(up), 2)).sum() };
    let i1 = per(&|t, i| w[i] * w[i] * acc(t).exp(), big_t);
    // inner: exp(6 G(s) + G(t) - G(s))
    let lhs = per(&|t, i| w[i] * w[i] * acc(t).exp() * per(&|s, j| w[j] * w[j] * (5.0 * acc(s)).exp(), t), big_t);
    let x = ge * ge * big_t;
    // sum_n x^n (6^n - 6)/(6 n!) = e^{6x}/6 - e^x + 5/6, evaluated as a series when small
    let inner = if x < 0.3 {
        let (mut s, mut term) = (0.0, 1.0);
        for n in 1..40 {
            term *= x / n as f64;
            s += term * (6f64.powi(n) - 6.0) / 6.0;
        }
        s
    } else {
        (6.0 * x).exp() / 6.0 - x.exp() + 5.0 / 6.0
    };
    let rhs = if x == 0.0 { 0.5 * i1 * i1 } else { 0.2 * (i1 / x.exp_m1()).powi(2) * inner };
    // gamma~^2 is solved to 1e-14 absolutely
    m.close("vol-vol-equation", rhs, lhs, 1e-9 + 1e-11 * big_t, 0.0, || format!("{} got gamma~={ge}", ctx()));
    let we2 = if x < 1e-12 { i1 / big_t } else { ge * ge * i1 / x.exp_m1() };
    m.close("term-structure-equation", we * we, we2, 2e-6f64.min(1e-10 + x), 0.0, || format!("{} got omega~={we} gamma~={ge}", ctx()));
    let ri: f64 = (0..seg).map(|i| rho[i] * g[i] / w[i] * (k[i + 1] - k[i])).sum();
    if ge > 1e-12 {
        m.close("correlation-equation", re, we / (ge * big_t) * ri, 1e-9, 1e-12, || format!("{} got rho~={re}", ctx()));
    }
    // constants come back
    let noise = 1e-13 / (x / big_t) / big_t.min(1.0) / total.min(1.0) + 1e-9;
    if constant && const_w {
        m.count("constant schedules");
        m.close("constant-vol-vol", ge, g[0], noise, 0.0, ctx);
        {
            m.close("constant-term-structure", we, w[0], 1e-6f64.min(noise + 1e-7), 0.0, ctx);
            if rho[..seg].iter().all(|q| *q == rho[0]) {
                m.close("constant-correlation", re, rho[0], 2.0 * noise + 1e-6, 0.0, ctx);
            }
        }
    } else {
        m.count("varying schedules");
    }
    let vv = |a: &Pc, b: &Pc, t: f64| Mon::attempt(|| effective_vol_vol(a, b, t)).unwrap_or(f64::NAN);
    let ts = |a: &Pc, b: &Pc, t: f64| Mon::attempt(|| effective_term_structure(a, b, t)).unwrap_or(f64::NAN);
    let ec = |a: &Pc, b: &Pc, c: &Pc, t: f64| Mon::attempt(|| effective_correlation(a, b, c, t)).unwrap_or(f64::NAN);
    // schedule beyond the expiry is irrelevant
    let cut = |v: &[f64]| Pc::new(k[..=seg].to_vec(), v[..seg].to_vec());
    let eq = |a: f64, b: f64| (a - b).abs() <= (20.0 * noise + 1e-8) * b.abs() + 1e-12;
    m.check(eq(vv(&cut(&g), &cut(&w), big_t), ge) && eq(ts(&cut(&g), &cut(&w), big_t), we) && eq(ec(&cut(&g), &cut(&w), &cut(&rho), big_t), re), "future-irrelevant", ctx);
    // splitting a segment, rescaling omega and rescaling time
    let s = r.n(seg);
    let mut k2 = k.clone();
    k2.insert(s + 1, k[s] + (k[s + 1] - k[s]) * r.f(0.1, 0.9));
    let dup = |v: &[f64]| {
        let mut u = v.to_vec();
        u.insert(s, v[s]);
        Pc::new(k2.clone(), u)
    };
    let tol = 20.0 * noise + 1e-8;
    m.close("split-vol-vol", vv(&dup(&g), &dup(&w), big_t), ge, tol, 0.0, ctx);
    m.close("split-term-structure", ts(&dup(&g), &dup(&w), big_t), we, tol.min(1e-6), 0.0, ctx);
    let c = r.lf(0.1, 10.0);
    let wc = Pc::new(k.clone(), w.iter().map(|v| v * c).collect());
    m.close("scale-vol-vol", vv(&pg, &wc, big_t), ge, tol, 0.0, ctx);
    m.close("scale-term-structure", ts(&pg, &wc, big_t), c * we, tol.min(1e-6), 0.0, ctx);
    let kt: Vec<f64> = k.iter().map(|v| v * c).collect();
    let gt = Pc::new(kt.clone(), g.iter().map(|v| v / c.sqrt()).collect());
    let wt = Pc::new(kt.clone(), w.clone());
    m.close("clock-vol-vol", vv(&gt, &wt, big_t * c) * c.sqrt(), ge, 10.0 * tol * (1.0 + c), 0.0, || format!("{} c={c}", ctx()));
}

fn rejections(m: &mut Mon) {
    let mut r = Rng::new(m.rng.next());
    for _ in 0..200 {
        let bad: Vec<(&str, Box<dyn FnOnce()>)> = vec![
            ("alpha<=0", Box::new(|| drop(SabrParams::new(0.0, 0.5, 0.0, 0.3)))),
            ("beta>1", Box::new({ let b = 1.0 + r.lf(1e-9, 3.0); move || drop(SabrParams::new(0.1, b, 0.0, 0.3)) })),
            ("beta<0", Box::new({ let b = -r.lf(1e-9, 3.0); move || drop(SabrParams::new(0.1, b, 0.0, 0.3)) })),
            ("rho=1", Box::new(|| drop(SabrParams::new(0.1, 0.5, 1.0, 0.3)))),
            ("rho=-1", Box::new(|| drop(SabrParams::new(0.1, 0.5, -1.0, 0.3)))),
            ("nu<0", Box::new({ let b = -r.lf(1e-9, 3.0); move || drop(SabrParams::new(0.1, 0.5, 0.0, b)) })),
            ("unsorted knots", Box::new({ let a = r.f(0.1, 1.0); move || drop(Pc::new(vec![0.0, a, a * 0.9], vec![1.0, 2.0])) })),
            ("duplicate knots", Box::new({ let a = r.f(0.1, 1.0); move || drop(Pc::new(vec![0.0, a, a], vec![1.0, 2.0])) })),
            ("first knot", Box::new({ let a = r.f(0.1, 1.0); move || drop(Pc::new(vec![a, 2.0 * a], vec![1.0])) })),
            ("length", Box::new(|| drop(Pc::new(vec![0.0, 1.0], vec![1.0, 2.0])))),
            ("no segment", Box::new(|| drop(Pc::new(vec![0.0], vec![])))),
            ("beyond schedule", Box::new({ let a = r.f(0.1, 1.0); move || { Pc::constant(a, 1.0).at(a + 0.01); } })),
            ("expiry off knot", Box::new({ let a = r.f(0.1, 0.9); move || { let p = Pc::constant(1.0, 0.3); effective_vol_vol(&p, &p, a); } })),
            ("knots differ", Box::new({ let a = r.f(0.1, 0.9); move || {
                let p = Pc::constant(1.0, 0.3);
                let q = Pc::new(vec![0.0, a, 1.0], vec![0.2, 0.2]);
                effective_vol_vol(&p, &q, 1.0);
            } })),
        ];
        for (what, f) in bad {
            m.check(Mon::attempt(f).is_err(), "invalid-accepted", || what.to_string());
            m.count("invalid inputs");
        }
    }
}
