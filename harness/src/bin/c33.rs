//! C33: forward-market-model bonds and bank account on observed paths.
use finquant::models::interestrate::fmm::{FlatCurve, Fmm, FmmPath, FmmSimulator, FmmTenor, InitialDiscountCurve, LinearDecay, back_stub_forward_bond, bank_account, bond_price, front_stub_bond};
use fqmon::{Mon, Rng, fxm};
use serde_json::json;

fn main() {
    fqmon::run("C33", "distinct (model, path state, maturity) evaluations", body)
}

fn body(m: &mut Mon) {
    m.section("bonds along paths");
    for _ in 0..m.scale(12_000, 250_000) {
        paths(m);
    }
    m.section("separable reconstruction from free states");
    for _ in 0..m.scale(60_000, 1_000_000) {
        states(m);
    }
    m.section("local risklessness");
    for _ in 0..m.scale(300, 4000) {
        riskless(m);
    }
    m.section("deflated bonds");
    for _ in 0..m.scale(8, 60) {
        deflated(m);
    }
    m.need("bond evaluations", 50_000);
    m.need("front stub read", 10_000);
    m.need("back stub read", 10_000);
    m.need("bank account at tenor date", 1000);
    m.need("martingale estimates", 30);
    m.assume("the tenor starts at T_0 = 0 and the initial rates are those of the initial curve");
    m.assume("statistical comparisons use bands of 6 standard errors plus the first-order step-size bias");
}

/// Smooth non-flat initial curve.
#[derive(Clone, Debug)]
struct Curve {
    a: f64,
    b: f64,
    c: f64,
}
impl InitialDiscountCurve for Curve {
    fn p0(&self, t: f64) -> f64 {
        (-(self.a * t + self.b * t * t + self.c * (t * 1.3).sin())).exp()
    }
}

fn setup(r: &mut Rng, vol: (f64, f64)) -> (Fmm, Curve) {
    let n = if r.chance(0.05) { 6 + r.n(19) } else { 1 + r.n(5) };
    let mut d = vec![0.0];
    for i in 0..n {
        d.push(d[i] + if r.b() { *r.pick(&[0.25, 0.5, 1.0]) } else { r.f(0.08, 1.2) });
    }
    let c = Curve { a: r.f(-0.01, 0.06), b: r.f(-0.002, 0.004), c: r.f(-0.004, 0.004) };
    let rates = (0..n).map(|i| (c.p0(d[i]) / c.p0(d[i + 1]) - 1.0) / (d[i + 1] - d[i])).collect();
    let mut f = Fmm::new(FmmTenor::new(d, rates), (0..n).map(|_| r.lf(vol.0, vol.1)).collect(), fxm::correlation(r, n, 2), LinearDecay);
    if r.chance(0.2) {
        f = f.with_betas((0..n).map(|_| r.u()).collect());
    }
    (f, c)
}

fn active(t: &FmmTenor, x: f64) -> usize {
    (1..=t.m()).find(|j| t.dates[*j] >= x).unwrap_or(t.m() + 1)
}
fn g(t: &FmmTenor, j: usize, a: f64, b: f64) -> f64 {
    let h = |x: f64| ((t.dates[j] - x) / (t.dates[j] - t.dates[j - 1])).clamp(0.0, 1.0);
    h(a) - h(b)
}

/// log P(t,T) by the separable one-factor-per-period reconstruction: inside
/// a period the forward curve is displaced by (x, y) from its shape at the
/// period start, which itself is displaced by (X, Y) from today's shape,
/// where X is pinned by the period's forward rate.
fn log_bond(f: &Fmm, p: &FmmPath, big: f64, c: &dyn InitialDiscountCurve) -> f64 {
    let t = &f.tenor;
    let lp = |x: f64| c.p0(x).ln();
    let one = |k: usize, rate: f64| (1.0 + t.tau(k) * rate).ln();
    // price at the period start of the part of period k up to s
    let part = |k: usize, s: f64, rate: f64, y: f64| {
        let lo = t.dates[k - 1];
        let w = g(t, k, lo, s);
        // X from the full period: -log(1+tau R) = lp(hi)-lp(lo) - X - Y/2
        let x = one(k, rate) + lp(t.dates[k]) - lp(lo) - 0.5 * y;
        lp(s) - lp(lo) - w * x - 0.5 * w * w * y
    };
    let a = active(t, p.t);
    let b = active(t, big);
    let start = t.dates[a - 1];
    let mut s = 0.0;
    if p.t > start {
        // running period
        let end = big.min(t.dates[a]);
        let (r0, y0) = (p.rates_at_start[a - 1], p.y_at_start[a - 1]);
        let w = g(t, a, p.t, end);
        s += part(a, end, r0, y0) - part(a, p.t, r0, y0);
        s += -w * p.x_active - 0.5 * w * w * (p.y_diag[a - 1] - y0);
        if b == a {
            return s;
        }
    } else if b == a {
        return part(a, big, p.rates[a - 1], p.y_diag[a - 1]);
    } else {
        s -= one(a, p.rates[a - 1]);
    }
    for k in a + 1..b {
        s -= one(k, p.rates[k - 1]);
    }
    s + part(b, big, p.rates[b - 1], p.y_diag[b - 1])
}

fn check_bond(m: &mut Mon, r: &mut Rng, f: &Fmm, p: &FmmPath, c: &Curve) {
    let t = &f.tenor;
    let end = t.dates[t.m()];
    let ctx = || format!("{f:?} {p:?} {c:?}");
    if p.t > end {
        return;
    }
    for _ in 0..3 {
        let mut big = p.t + (end - p.t) * r.u();
        if r.chance(0.3) {
            big = *r.pick(&t.dates);
            if big < p.t {
                big = end;
            }
        }
        let info = || format!("T={big} {}", ctx());
        let Some(got) = m.guard("bond-panics", info, || bond_price(f, p, big, c)) else { return };
        m.count("bond evaluations");
        m.case((p.t.to_bits(), big.to_bits(), p.x_active.to_bits()));
        m.close("bond-price", got.ln(), log_bond(f, p, big, c), 1e-9, 1e-11, info);
        m.check(got > 0.0 && got.is_finite(), "bond-positive", info);
        // grid bonds compound the forward rates
        let (a, b) = (active(t, p.t), active(t, big));
        if a <= t.m() {
            let whole = bond_price(f, p, t.dates[a], c);
            for k in a + 1..=t.m() {
                let near = bond_price(f, p, t.dates[k - 1], c);
                let far = bond_price(f, p, t.dates[k], c);
                m.close("forward-rate-definition", (near / far - 1.0) / t.tau(k), p.rates[k - 1], 1e-9, 1e-11, info);
            }
            let chain: f64 = (a + 1..b).map(|k| 1.0 / (1.0 + t.tau(k) * p.rates[k - 1])).product();
            if b > a {
                m.count("back stub read");
                let (lo, hi) = (t.dates[b - 1], t.dates[b]);
                let stub = back_stub_forward_bond(f, p, b, big, c.p0(big) / c.p0(lo), c.p0(hi) / c.p0(lo));
                m.close("decomposition", got, whole * chain * stub, 1e-11, 0.0, info);
                m.close("back-stub-whole-period", back_stub_forward_bond(f, p, b, hi, c.p0(hi) / c.p0(lo), c.p0(hi) / c.p0(lo)), 1.0 / (1.0 + t.tau(b) * p.rates[b - 1]), 1e-11, 0.0, info);
            } else if p.t > t.dates[a - 1] + 1e-9 && big > p.t + 1e-9 {
                m.count("front stub read");
                let stub = front_stub_bond(f, p, big, c.p0(big) / c.p0(p.t), c.p0(t.dates[a]) / c.p0(t.dates[a - 1]));
                m.close("front-stub", got, stub, 1e-11, 0.0, info);
            }
        }
        // continuity across a grid date in T
        if b < t.m() && t.dates[b] > p.t + 1e-6 {
            let d = t.dates[b];
            m.close("continuous-in-maturity", bond_price(f, p, d + 1e-9, c), bond_price(f, p, d, c), 1e-7, 0.0, info);
        }
    }
    m.check(bond_price(f, p, p.t, c) == 1.0, "bond-at-maturity", ctx);
    // the bank account is the rolled-up rates times the running period's bond
    let a = active(t, p.t).min(t.m());
    let grown: f64 = (1..=a).map(|k| 1.0 + t.tau(k) * p.rates[k - 1]).product();
    let want = grown * log_bond(f, p, t.dates[a], c).exp();
    m.close("bank-account", bank_account(f, p, c), want, 1e-10, 0.0, ctx);
    let early = Mon::attempt(|| bond_price(f, p, p.t - 0.01, c));
    m.check(p.t < 0.01 || early.is_err(), "maturity-before-now-accepted", ctx);
    let late = Mon::attempt(|| bond_price(f, p, end + 0.01, c));
    m.check(late.is_err(), "maturity-past-tenor-accepted", ctx);
}

fn paths(m: &mut Mon) {
    let mut r = Rng::new(m.rng.next());
    let (f, c) = setup(&mut r, (1e-3, 0.06));
    let t = f.tenor.clone();
    let n = t.m();
    let Ok(mut sim) = FmmSimulator::new(f.clone(), r.next()) else { return };
    let mut p = sim.initial_path();
    // today: the curve itself, whatever the maturity
    for _ in 0..4 {
        let big = t.dates[n] * r.u();
        m.close("reprices-initial-curve", bond_price(&f, &p, big, &c), c.p0(big), 1e-11, 0.0, || format!("T={big} {f:?} {c:?}"));
    }
    for d in &t.dates {
        m.close("reprices-initial-curve", bond_price(&f, &p, *d, &c), c.p0(*d), 1e-11, 0.0, || format!("T={d} {f:?} {c:?}"));
    }
    m.close("bank-account-starts-at-one", bank_account(&f, &p, &c), 1.0, 1e-12, 0.0, || format!("{f:?} {c:?}"));
    let (s, u) = (t.dates[n] * r.u(), t.dates[n] * r.u());
    m.close("forward-discount", c.p0_fwd(s, u), c.p0(u) / c.p0(s), 1e-13, 0.0, || format!("{s} {u}"));
    let fc = FlatCurve { rate: r.f(-0.02, 0.1) };
    m.close("flat-curve", fc.p0(u), (-fc.rate * u).exp(), 1e-13, 0.0, || format!("{fc:?} {u}"));
    let steps = 2 + r.n(3);
    let mut log_b = 1.0;
    for k in 1..=n {
        let dt = t.tau(k) / steps as f64;
        for i in 0..steps {
            let h = if i + 1 == steps { t.dates[k] - p.t } else { dt };
            sim.step(&mut p, h);
            if p.rates.iter().any(|x| x.abs() > 1.0) {
                m.trivial();
                return;
            }
            check_bond(m, &mut r, &f, &p, &c);
        }
        log_b *= 1.0 + t.tau(k) * p.rates[k - 1];
        if p.t == t.dates[k] {
            m.count("bank account at tenor date");
            m.close("bank-account-grows-by-realised-rates", bank_account(&f, &p, &c), log_b, 1e-11, 0.0, || format!("T_{k} {f:?} {p:?}"));
        }
    }
    sim.step(&mut p, r.f(0.01, 0.5));
    m.close("bank-account-after-the-tenor", bank_account(&f, &p, &c), log_b, 1e-11, 0.0, || format!("{f:?} {p:?}"));
    if r.chance(0.001) {
        m.sample(json!({"M": n, "rates": p.rates, "bank account": log_b}));
    }
}

/// Hand-made states, far from what a few Monte Carlo steps reach.
fn states(m: &mut Mon) {
    let mut r = Rng::new(m.rng.next());
    let (f, c) = setup(&mut r, (1e-3, 0.06));
    let t = &f.tenor;
    let n = t.m();
    let rnd = |r: &mut Rng, a: f64, b: f64| (0..n).map(|_| r.f(a, b)).collect::<Vec<f64>>();
    let now = if r.chance(0.2) { *r.pick(&t.dates) } else { t.dates[n] * r.u() };
    let y0 = rnd(&mut r, 0.0, 0.01);
    let p = FmmPath {
        rates: rnd(&mut r, -0.05, 0.2),
        y_diag: y0.iter().map(|y| y + r.f(0.0, 0.01)).collect(),
        rates_at_start: rnd(&mut r, -0.05, 0.2),
        y_at_start: y0,
        x_active: r.f(-0.1, 0.1),
        t: now,
    };
    check_bond(m, &mut r, &f, &p, &c);
}

/// Over one short step the bank account carries no noise: the spread of its
/// growth over many draws from one state is of higher order in the step.
fn riskless(m: &mut Mon) {
    let mut r = Rng::new(m.rng.next());
    let (f, c) = setup(&mut r, (0.01, 0.06));
    let t = f.tenor.clone();
    let Ok(mut sim) = FmmSimulator::new(f.clone(), r.next()) else { return };
    let mut p = sim.initial_path();
    let target = if r.chance(0.3) { 0.0 } else { r.f(0.0, 0.95) * t.dates[t.m()] };
    while p.t < target {
        let h = 0.05f64.min(target - p.t).max(1e-6);
        sim.step(&mut p, h);
    }
    if p.rates.iter().any(|x| x.abs() > 0.5) {
        return;
    }
    let a = active(&t, p.t);
    if a > t.m() || t.dates[a] - p.t < 0.01 {
        return;
    }
    let h = 1e-4;
    let b0 = bank_account(&f, &p, &c);
    let tau = t.tau(a);
    let lvl = f.adapted_vol(a, p.t, p.rates[a - 1]).abs();
    // volatility of 1/(1+tau R): what a mismatch would leave in B
    let raw = lvl * tau / (1.0 + tau * p.rates[a - 1]);
    let mut grow = vec![];
    for _ in 0..200 {
        let mut q = p.clone();
        sim.step(&mut q, h);
        grow.push(bank_account(&f, &q, &c) / b0 - 1.0);
    }
    let mu = grow.iter().sum::<f64>() / 200.0;
    let sd = (grow.iter().map(|x| (x - mu).powi(2)).sum::<f64>() / 199.0).sqrt();
    // two remainders: discretisation of x (raw^2 h) and drift of x (raw h^1.5 / tau)
    let band = 6.0 * (raw * raw * h + raw * h.powf(1.5) / tau) + 1e-13;
    let ctx = || format!("step {h} from {p:?} of {f:?} mean growth {mu:e}");
    m.close("bank-account-noise", sd, 0.0, 0.0, band, ctx);
    m.check(band < 0.3 * raw * h.sqrt() + 1e-12, "noise-band-informative", ctx);
    // and its growth rate is the model's instantaneous forward rate
    let e = 1e-5;
    let end = t.dates[a];
    if end - p.t > 0.02 {
        let short = -(bond_price(&f, &p, p.t + e, &c).ln()) / e;
        m.close("bank-account-growth", mu / h, short, 0.0, 0.02 * (short.abs() + raw * raw / tau + 0.01) + 6.0 * band / h / 14.0, ctx);
    }
    m.count("short steps");
    m.case((p.t.to_bits(), p.x_active.to_bits(), a));
}

fn mean(m: &mut Mon, key: &str, x: &[f64], want: f64, extra: f64, ctx: &dyn Fn() -> String) {
    let n = x.len() as f64;
    let mu = x.iter().sum::<f64>() / n;
    let sd = (x.iter().map(|v| (v - mu).powi(2)).sum::<f64>() / n / n).sqrt();
    m.count("martingale estimates");
    m.close(key, mu, want, 0.0, 6.0 * sd + extra + 1e-9, || format!("mean of {n} draws, standard error {sd:e}: {}", ctx()));
}

fn deflated(m: &mut Mon) {
    let mut r = Rng::new(m.rng.next());
    let n = 2 + r.n(2);
    let tau = *r.pick(&[0.5, 1.0]);
    let c = Curve { a: r.f(0.0, 0.06), b: r.f(-0.002, 0.004), c: r.f(-0.004, 0.004) };
    let d: Vec<f64> = (0..=n).map(|i| i as f64 * tau).collect();
    let rates = (0..n).map(|i| (c.p0(d[i]) / c.p0(d[i + 1]) - 1.0) / tau).collect();
    let s = r.f(0.05, 0.1);
    let f = Fmm::new(FmmTenor::new(d.clone(), rates), vec![s; n], fxm::correlation(&mut r, n, 2), LinearDecay);
    let seed = r.next();
    let mut sim = FmmSimulator::new(f.clone(), seed).unwrap();
    let per = 32;
    let dt = tau / per as f64;
    let looks = [per / 4, per / 2, per + per / 2, n * per - per / 4];
    let big: Vec<f64> = looks.iter().map(|l| (*l as f64 * dt + r.u() * (d[n] - *l as f64 * dt)).min(d[n])).collect();
    let mut inv = vec![vec![]; looks.len()];
    let mut bond = vec![vec![]; looks.len()];
    for _ in 0..12_000 {
        let mut p = sim.initial_path();
        for i in 1..=n * per {
            sim.step(&mut p, dt);
            if let Some(k) = looks.iter().position(|l| *l == i) {
                let b = bank_account(&f, &p, &c);
                inv[k].push(1.0 / b);
                bond[k].push(bond_price(&f, &p, big[k].max(p.t), &c) / b);
            }
        }
    }
    let ctx = || format!("{f:?} {c:?} seed={seed} dt={dt}");
    let bias = 2.0 * s * s * dt * n as f64 * tau;
    for (k, l) in looks.iter().enumerate() {
        let t = *l as f64 * dt;
        mean(m, "bank-account-inverse", &inv[k], c.p0(t), bias, &|| format!("t={t} {}", ctx()));
        mean(m, "deflated-bond", &bond[k], c.p0(big[k].max(t)), bias, &|| format!("t={t} T={} {}", big[k], ctx()));
    }
    m.case(("deflated", seed));
}
