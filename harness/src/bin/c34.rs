//! C34: Dupire local volatility and the stochastic-local-volatility particle simulator.
use finquant::models::forex::dupire_local_vol::{self, DupireLocalVol};
use finquant::models::forex::sabr::SabrState;
use finquant::models::forex::sabr_effective::PiecewiseConstant as Pc;
use finquant::models::forex::sabr_slv::TimeDependentSabrSlvSimulator;
use finquant::models::forex::sabr_time_dependent::TimeDependentSabrParams;
use fqmon::num::black;
use fqmon::{Mon, Rng, fxm};
use serde_json::json;

fn main() {
    fqmon::run("C34", "distinct (surface, node or query) evaluations and particle steps", body)
}

fn body(m: &mut Mon) {
    m.section("local variance at the nodes");
    for _ in 0..m.scale(6_000, 100_000) {
        nodes(m);
    }
    m.section("convergence to the analytic local variance");
    for _ in 0..m.scale(400, 6000) {
        converge(m);
    }
    m.section("interpolation");
    for _ in 0..m.scale(10_000, 150_000) {
        interpolation(m);
    }
    m.section("particle steps");
    for _ in 0..m.scale(1_500, 20_000) {
        particles(m);
    }
    m.section("particle limits");
    for _ in 0..m.scale(400, 5000) {
        limits(m);
    }
    m.section("smile repricing");
    for _ in 0..m.scale(5, 40) {
        reprice(m);
    }
    m.section("noise law");
    for _ in 0..m.scale(4, 20) {
        noise(m);
    }
    m.need("nodes from the formula", 20_000);
    m.need("nodes from the fallback", 500);
    m.need("nodes clamped", 100);
    m.need("queries inside", 5000);
    m.need("queries outside", 5000);
    m.need("analytic nodes", 2000);
    m.need("particle steps", 50_000);
    m.need("prices compared", 30);
    m.assume("the particle simulator's noise is recovered from a same-seed twin with constant local volatility");
    m.assume("forward equals spot in the particle model (equal deterministic rates), as its documentation states");
}

struct Grid {
    t: Vec<f64>,
    k: Vec<f64>,
    v: Vec<Vec<f64>>,
    spot: f64,
    rd: f64,
    rf: f64,
}

fn rough_grid(r: &mut Rng) -> Grid {
    let spot = *r.pick(&[1.0, 1.1, 150.0, 0.009]);
    let (nt, nk) = if r.chance(0.04) { (3 + r.n(18), 3 + r.n(35)) } else { (3 + r.n(5), 3 + r.n(8)) };
    let mut t = vec![if r.chance(0.1) { r.lf(0.002, 0.02) } else { r.f(0.02, 0.5) }];
    for i in 1..nt {
        t.push(t[i - 1] + r.lf(0.05, 1.5));
    }
    let mut k = vec![spot * r.f(0.5, 0.95)];
    for i in 1..nk {
        k.push(k[i - 1] + spot * r.lf(0.01, 0.2));
    }
    let base = r.lf(0.04, 0.6);
    let (tilt, curve, rough) = (r.f(-0.3, 0.3), r.f(0.0, 0.5), if r.chance(0.3) { 0.15 } else { 0.0 });
    let v = t.iter().map(|_| k.iter().map(|x| { let y = (x / spot).ln(); base * (1.0 + tilt * y + curve * y * y) * (1.0 + rough * r.f(-1.0, 1.0)) }).map(|x: f64| x.max(0.01)).collect()).collect();
    Grid { t, k, v, spot, rd: r.f(-0.02, 0.1), rf: r.f(-0.02, 0.1) }
}

fn call(g: &Grid, i: usize, j: usize) -> f64 {
    let t = g.t[i];
    (-g.rd * t).exp() * black(g.spot * ((g.rd - g.rf) * t).exp(), g.k[j], t, g.v[i][j], true)
}

/// Slope of the parabola through three points, and its curvature.
fn curvature(x: [f64; 3], y: [f64; 3]) -> f64 {
    let s = |a: usize, b: usize| (y[b] - y[a]) / (x[b] - x[a]);
    2.0 * (s(1, 2) - s(0, 1)) / (x[2] - x[0])
}

/// Divided difference over the neighbours of i that exist.
fn slope(x: &[f64], y: &dyn Fn(usize) -> f64, i: usize) -> f64 {
    let (a, b) = (i.saturating_sub(1), (i + 1).min(x.len() - 1));
    (y(b) - y(a)) / (x[b] - x[a])
}

fn nodes(m: &mut Mon) {
    let mut r = Rng::new(m.rng.next());
    let g = rough_grid(&mut r);
    let ctx = || format!("t {:?} k {:?} vols {:?} spot {} rd {} rf {}", g.t, g.k, g.v, g.spot, g.rd, g.rf);
    let Some(d) = m.guard("build-panics", ctx, || dupire_local_vol::build(&g.t, &g.k, &g.v, g.spot, g.rd, g.rf)) else { return };
    m.check(d.expiries == g.t && d.strikes == g.k && d.variance.len() == g.t.len(), "grid-kept", ctx);
    for i in 0..g.t.len() {
        for j in 0..g.k.len() {
            let k = g.k[j];
            let ct = slope(&g.t, &|a| call(&g, a, j), i);
            let ck = slope(&g.k, &|b| call(&g, i, b), j);
            let c = j.clamp(1, g.k.len() - 2);
            let ckk = curvature([g.k[c - 1], g.k[c], g.k[c + 1]], [call(&g, i, c - 1), call(&g, i, c), call(&g, i, c + 1)]);
            let numer = ct + (g.rd - g.rf) * k * ck + g.rf * call(&g, i, j);
            let denom = k * k * ckk;
            // the price cancels to about this relative precision
            let h = (g.k[c + 1] - g.k[c]).min(g.k[c] - g.k[c - 1]);
            let dt = if i + 1 < g.t.len() { g.t[i + 1] - g.t[i] } else { g.t[i] - g.t[i - 1] };
            let e = 3e-11 * g.spot;
            let (en, ed) = (e / dt + e * k / h, k * k * 8.0 * e / (h * h));
            if numer.abs() < 50.0 * en || denom.abs() < 50.0 * ed || (denom - 1e-8).abs() < 1e-10 + ed {
                m.trivial();
                continue;
            }
            let formula = denom > 1e-8 && numer > 0.0;
            let raw = if formula { 2.0 * numer / denom } else { g.v[i][j] * g.v[i][j] };
            let want = raw.clamp(1e-4, 4.0);
            m.count(if formula { "nodes from the formula" } else { "nodes from the fallback" });
            if want != raw {
                m.count("nodes clamped");
            }
            let tol = 1e-8 + en / numer.abs() + ed / denom.abs();
            m.close("node-variance", d.variance[i][j], want, tol, 0.0, || format!("node {i},{j} numer {numer:e} denom {denom:e} {}", ctx()));
            m.case((g.t[i].to_bits(), g.k[j].to_bits(), g.v[i][j].to_bits()));
        }
    }
    m.check(d.variance.iter().flatten().all(|v| *v >= 1e-4 - 1e-15 && *v <= 4.0 + 1e-12), "variance-band", ctx);
    // malformed grids are refused
    let mut b = Grid { t: g.t.clone(), k: g.k.clone(), v: g.v.clone(), ..g };
    match r.n(6) {
        0 => b.t.swap(0, 1),
        1 => b.k[1] = b.k[0],
        2 => {
            b.v[1].pop();
        }
        3 => b.spot = 0.0,
        4 => {
            b.t.truncate(2);
            b.v.truncate(2);
        }
        _ => {
            b.v.pop();
        }
    }
    m.check(Mon::attempt(|| dupire_local_vol::build(&b.t, &b.k, &b.v, b.spot, b.rd, b.rf)).is_err(), "malformed-grid-accepted", || format!("{:?} {:?} {:?} {}", b.t, b.k, b.v, b.spot));
}

/// Fine grid of a smooth surface with total variance
/// w(y, T) = T (a + b y + c y^2 + d T)^2, y = log(K / F_T).
fn converge(m: &mut Mon) {
    let mut r = Rng::new(m.rng.next());
    let (a, b, c, d) = (r.f(0.08, 0.35), r.f(-0.06, 0.06), r.f(0.0, 0.12), r.f(-0.01, 0.02));
    let (spot, rd, rf) = (*r.pick(&[1.0, 110.0, 0.01]), r.f(-0.01, 0.08), r.f(-0.01, 0.08));
    let w = |y: f64, t: f64| t * (a + b * y + c * y * y + d * t).powi(2);
    let n = |v: f64, lo: f64, hi: f64, k: usize| -> Vec<f64> { (0..k).map(|i| lo + (hi - lo) * i as f64 / (k - 1) as f64 * v).collect() };
    let t0 = r.f(0.5, 1.5);
    let ts = n(1.0, t0 - 0.04, t0 + 0.04, 5);
    let s = a * t0.sqrt();
    let f0 = spot * ((rd - rf) * t0).exp();
    let mid = f0 * (s * r.f(-1.0, 1.0)).exp();
    let h = 0.02 * s * mid;
    // uneven spacing: the second difference must still be consistent
    let uneven = if r.b() { 1.0 } else { 1.02 };
    let ks = vec![mid - 2.0 * h, mid - h, mid, mid + h * uneven, mid + 2.0 * h * uneven];
    let vols: Vec<Vec<f64>> = ts.iter().map(|t| ks.iter().map(|k| (w((k / (spot * ((rd - rf) * t).exp())).ln(), *t) / t).sqrt()).collect()).collect();
    let ctx = || format!("w = T({a} + {b} y + {c} y^2 + {d} T)^2 spot {spot} rd {rd} rf {rf} T {t0} K {mid}");
    let Some(sf) = m.guard("build-panics", ctx, || dupire_local_vol::build(&ts, &ks, &vols, spot, rd, rf)) else { return };
    let y = (mid / f0).ln();
    let q = a + b * y + c * y * y + d * t0;
    let q1 = b + 2.0 * c * y;
    let (ww, w_t) = (t0 * q * q, q * q + 2.0 * t0 * q * d);
    let (w1, w2) = (2.0 * t0 * q * q1, 2.0 * t0 * (q1 * q1 + q * 2.0 * c));
    let den = 1.0 - y / ww * w1 + 0.25 * (-0.25 - 1.0 / ww + y * y / (ww * ww)) * w1 * w1 + 0.5 * w2;
    if den < 0.2 || w_t <= 0.0 {
        m.trivial();
        return;
    }
    let want = w_t / den;
    if !(2e-4..3.9).contains(&want) {
        m.trivial();
        return;
    }
    m.count("analytic nodes");
    for _ in 0..9 {
        m.count("analytic nodes");
    }
    m.case((a.to_bits(), y.to_bits(), t0.to_bits()));
    m.close("analytic-local-variance", sf.variance[2][2], want, 0.01, 0.0, ctx);
    m.close("local-volatility", sf.local_vol(t0, mid), sf.local_variance(t0, mid).sqrt(), 1e-13, 0.0, ctx);
    if r.chance(0.02) {
        m.sample(json!({"T": t0, "K": mid, "observed": sf.variance[2][2], "analytic": want}));
    }
}

fn random_surface(r: &mut Rng) -> DupireLocalVol {
    let (nt, nk) = if r.chance(0.04) { (1 + r.n(30), 1 + r.n(50)) } else { (1 + r.n(5), 1 + r.n(6)) };
    let mut t = vec![r.f(0.0, 0.5)];
    for i in 1..nt {
        t.push(t[i - 1] + r.lf(0.01, 1.5));
    }
    let mut k = vec![r.f(0.5, 1.0)];
    for i in 1..nk {
        k.push(k[i - 1] + r.lf(0.01, 0.3));
    }
    let variance = t.iter().map(|_| k.iter().map(|_| r.lf(1e-3, 0.5)).collect()).collect();
    DupireLocalVol { expiries: t, strikes: k, variance }
}

/// Weights of a clamped piecewise-linear hat basis.
fn hats(x: &[f64], q: f64) -> Vec<f64> {
    let q = q.clamp(x[0], x[x.len() - 1]);
    (0..x.len())
        .map(|i| {
            if x[i] == q {
                1.0
            } else if i > 0 && q > x[i - 1] && q < x[i] {
                (q - x[i - 1]) / (x[i] - x[i - 1])
            } else if i + 1 < x.len() && q > x[i] && q < x[i + 1] {
                (x[i + 1] - q) / (x[i + 1] - x[i])
            } else {
                0.0
            }
        })
        .collect()
}

fn local(d: &DupireLocalVol, t: f64, k: f64) -> f64 {
    let (a, b) = (hats(&d.expiries, t), hats(&d.strikes, k));
    (0..a.len()).map(|i| (0..b.len()).map(|j| a[i] * b[j] * d.variance[i][j]).sum::<f64>()).sum()
}

fn interpolation(m: &mut Mon) {
    let mut r = Rng::new(m.rng.next());
    let d = random_surface(&mut r);
    let (t1, k1) = (*d.expiries.last().unwrap(), *d.strikes.last().unwrap());
    m.check(d.t_range() == (d.expiries[0], t1) && d.k_range() == (d.strikes[0], k1), "ranges", || format!("{d:?}"));
    for _ in 0..6 {
        let pick = |r: &mut Rng, x: &[f64]| match r.n(4) {
            0 => *r.pick(x),
            1 => x[0] - r.f(0.0, 1.0),
            2 => x[x.len() - 1] + r.f(0.0, 2.0),
            _ => r.f(x[0], x[x.len() - 1]),
        };
        let (t, k) = (pick(&mut r, &d.expiries), pick(&mut r, &d.strikes));
        let ctx = || format!("t={t} k={k} {d:?}");
        let inside = t >= d.expiries[0] && t <= t1 && k >= d.strikes[0] && k <= k1;
        m.count(if inside { "queries inside" } else { "queries outside" });
        let Some(v) = m.guard("query-panics", ctx, || d.local_variance(t, k)) else { return };
        m.case((t.to_bits(), k.to_bits()));
        m.close("bilinear", v, local(&d, t, k), 1e-11, 0.0, ctx);
        m.close("local-volatility", d.local_vol(t, k), v.sqrt(), 1e-13, 0.0, ctx);
    }
}

// -------------------------------------------------------------- particles --

fn td(r: &mut Rng, horizon: f64, nu_hi: f64) -> TimeDependentSabrParams {
    let n = 1 + r.n(4);
    let mut k = vec![0.0];
    for i in 0..n {
        k.push(k[i] + r.f(0.2, 1.0));
    }
    let s = horizon / k[n] * r.f(1.01, 1.5);
    let k: Vec<f64> = k.iter().map(|x| x * s).collect();
    let a = Pc::new(k.clone(), (0..n).map(|_| r.lf(0.05, 0.8)).collect());
    let rho = Pc::new(k.clone(), (0..n).map(|_| r.f(-0.95, 0.95)).collect());
    let nu = Pc::new(k, (0..n).map(|_| if r.chance(0.1) { 0.0 } else { r.lf(0.05, nu_hi) }).collect());
    TimeDependentSabrParams::new(a, rho, nu, *r.pick(&[0.0, 0.3, 0.5, 1.0]), *r.pick(&[1.0, 1.2, 130.0]))
}

fn constant(v: f64) -> DupireLocalVol {
    DupireLocalVol { expiries: vec![0.0, 1.0], strikes: vec![0.5, 2.0], variance: vec![vec![v; 2]; 2] }
}

/// Population after each step: lock-step paths, so a shorter run with the
/// same seed is a prefix of a longer one.
fn history(p: &TimeDependentSabrParams, d: &DupireLocalVol, seed: u64, bins: usize, dt: f64, steps: usize, n: usize) -> Vec<Vec<SabrState>> {
    (1..=steps).map(|k| TimeDependentSabrSlvSimulator::new(p.clone(), d.clone(), seed).with_bins(bins).simulate(dt * k as f64, k, n)).collect()
}

/// Standard normals of every step and path, from the constant-volatility twin.
fn draws(seed: u64, dt: f64, steps: usize, n: usize) -> Vec<Vec<(f64, f64)>> {
    let k = vec![0.0, 100.0];
    let one = |x: f64| Pc::new(k.clone(), vec![x]);
    let p = TimeDependentSabrParams::new(one(0.2), one(0.0), one(0.1), 1.0, 1.0);
    let (s, nu) = (0.02 / dt.sqrt(), 0.1);
    // one particle per bin: the compensator is exact
    let h = history(&p, &constant(s * s), seed, n, dt, steps, n);
    let mut last = vec![SabrState { forward: 1.0, vol: 0.2 }; n];
    h.into_iter()
        .map(|now| {
            let z = (0..n).map(|i| ((now[i].forward / last[i].forward - 1.0) / (s * dt.sqrt()), ((now[i].vol / last[i].vol).ln() + 0.5 * nu * nu * dt) / (nu * dt.sqrt()))).collect();
            last = now;
            z
        })
        .collect()
}

fn expected(p: &TimeDependentSabrParams, d: &DupireLocalVol, bins: usize, now: &[SabrState], t_mid: f64, dt: f64, z: &[(f64, f64)]) -> Vec<(f64, f64)> {
    let n = now.len();
    let q = p.at(t_mid);
    let mut order: Vec<usize> = (0..n).collect();
    order.sort_by(|a, b| now[*a].forward.total_cmp(&now[*b].forward));
    let size = n.div_ceil(bins);
    let mut e = vec![0.0; n];
    for bin in order.chunks(size) {
        let mu = bin.iter().map(|i| now[*i].vol.powi(2)).sum::<f64>() / bin.len() as f64;
        for i in bin {
            e[*i] = mu;
        }
    }
    (0..n)
        .map(|i| {
            let (f, v) = (now[i].forward, now[i].vol);
            let sd = (local(d, t_mid, f) / e[i]).sqrt() * v;
            let dz = q.rho * z[i].0 + (1.0 - q.rho * q.rho).sqrt() * z[i].1;
            ((f * (1.0 + sd * dt.sqrt() * z[i].0)).max(0.0), v * (-0.5 * q.nu * q.nu * dt + q.nu * dt.sqrt() * dz).exp())
        })
        .collect()
}

fn particles(m: &mut Mon) {
    let mut r = Rng::new(m.rng.next());
    let steps = if r.chance(0.03) { 5 + r.n(20) } else { 1 + r.n(4) };
    let dt = r.lf(0.01, 0.4);
    let p = td(&mut r, dt * steps as f64, 1.0 / dt.sqrt());
    let mut d = random_surface(&mut r);
    let f0 = p.forward_0;
    for x in &mut d.strikes {
        *x *= f0;
    }
    let n = if r.chance(0.03) { 60 + r.n(500) } else { 2 + r.n(60) };
    let bins = 2 + r.n(n + 4);
    let seed = r.next();
    let ctx = || format!("{p:?} {d:?} seed {seed} bins {bins} paths {n} dt {dt}");
    let Some(h) = m.guard("particle-panics", ctx, || history(&p, &d, seed, bins, dt, steps, n)) else { return };
    let z = draws(seed, dt, steps, n);
    let mut now = vec![SabrState { forward: f0, vol: p.alpha.at(0.0) }; n];
    for k in 0..steps {
        let mid = dt * (k as f64 + 0.5);
        if p.alpha.knots.iter().any(|x| (x - mid).abs() < 1e-12) || now.iter().any(|s| s.forward <= 1e-9 * f0) {
            return;
        }
        // the compensator's floor must not bind
        let least = now.iter().map(|s| s.vol * s.vol * s.forward.powf(2.0 * p.beta - 2.0)).fold(f64::INFINITY, f64::min);
        if least < 1e-11 {
            return;
        }
        m.check(h[k].len() == n, "population-size", ctx);
        let want = expected(&p, &d, bins, &now, mid, dt, &z[k]);
        for i in 0..n {
            m.count("particle steps");
            let info = || format!("step {k} path {i} from {:?} to {:?} z {:?} {}", now[i], h[k][i], z[k][i], ctx());
            m.close("particle-forward", h[k][i].forward, want[i].0, 1e-9, 1e-9 * f0, info);
            m.close("particle-volatility", h[k][i].vol, want[i].1, 1e-9, 0.0, info);
        }
        now = h[k].clone();
    }
    m.case((seed, bins, n));
    let again = history(&p, &d, seed, bins, dt, steps, n);
    m.check(again == h, "seed-reproducible", ctx);
    let other = history(&p, &d, seed ^ 3, bins, dt, steps, n);
    m.check(other != h, "paths-differ", ctx);
    m.check(Mon::attempt(|| TimeDependentSabrSlvSimulator::new(p.clone(), d.clone(), 1).with_bins(1)).is_err(), "single-bin-accepted", ctx);
}

/// The level of the volatility schedule cancels in the compensator, and with
/// no volatility of volatility the model is the pure local-volatility model.
fn limits(m: &mut Mon) {
    let mut r = Rng::new(m.rng.next());
    let (steps, dt, n) = (1 + r.n(4), r.lf(0.01, 0.2), 2 + r.n(40));
    let p = td(&mut r, dt * steps as f64, 1.0);
    let mut d = random_surface(&mut r);
    for x in &mut d.strikes {
        *x *= p.forward_0;
    }
    let seed = r.next();
    let bins = 2 + r.n(n);
    let c = r.lf(0.3, 3.0);
    let mut q = p.clone();
    for a in &mut q.alpha.values {
        *a *= c;
    }
    let ctx = || format!("{p:?} {d:?} seed {seed} bins {bins} scale {c}");
    let run = |p: &TimeDependentSabrParams, b: usize| TimeDependentSabrSlvSimulator::new(p.clone(), d.clone(), seed).with_bins(b).simulate(dt * steps as f64, steps, n);
    let (x, y) = (run(&p, bins), run(&q, bins));
    let mut flat = p.clone();
    flat.nu.values.iter_mut().for_each(|v| *v = 0.0);
    let mut other = flat.clone();
    other.beta = *r.pick(&[0.0, 0.5, 1.0]);
    other.rho.values.iter_mut().for_each(|v| *v = -*v);
    let (u, w) = (run(&flat, bins), run(&other, 2));
    if x.iter().chain(&u).any(|s| s.forward < 1e-3 * p.forward_0) {
        return;
    }
    m.case((seed, n, bins));
    for i in 0..n {
        m.close("level-invariance", y[i].forward, x[i].forward, 1e-8, 0.0, ctx);
        m.close("pure-local-volatility", u[i].forward, w[i].forward, 1e-8, 0.0, ctx);
        m.close("frozen-volatility", u[i].vol, p.alpha.at(0.0), 1e-12, 0.0, ctx);
    }
}

/// Displaced lognormal marginals have the local volatility s (F + a) / F;
/// the particle model must reprice them whatever its own volatility does.
fn reprice(m: &mut Mon) {
    let mut r = Rng::new(m.rng.next());
    let (s, a) = (r.f(0.08, 0.25), r.f(-0.3, 1.0));
    let t_end = r.f(0.5, 1.5);
    let ks: Vec<f64> = (0..400).map(|i| 0.3 * (1.0 + i as f64 * 0.02).powf(1.0)).collect();
    let row: Vec<f64> = ks.iter().map(|k| (s * (k + a) / k).powi(2)).collect();
    let d = DupireLocalVol { expiries: vec![0.0, 10.0], strikes: ks, variance: vec![row.clone(), row] };
    let mut p = td(&mut r, t_end, 0.7);
    p.forward_0 = 1.0;
    let seed = r.next();
    let n = 40_000;
    let steps = 40;
    let out = TimeDependentSabrSlvSimulator::new(p.clone(), d, seed).with_bins(60).simulate(t_end, steps, n);
    let ctx = || format!("s {s} a {a} T {t_end} {p:?} seed {seed}");
    for z in [-1.5, -1.0, -0.5, 0.0, 0.5, 1.0, 1.5] {
        let k = (1.0 + a) * (z * s * t_end.sqrt()).exp() - a;
        if k < 0.35 {
            continue;
        }
        let want = black(1.0 + a, k + a, t_end, s, k >= 1.0);
        let pay: Vec<f64> = out.iter().map(|x| if k >= 1.0 { (x.forward - k).max(0.0) } else { (k - x.forward).max(0.0) }).collect();
        let mu = pay.iter().sum::<f64>() / n as f64;
        let se = (pay.iter().map(|x| (x - mu).powi(2)).sum::<f64>() / n as f64 / n as f64).sqrt();
        // finite bins and steps: about two percent of the volatility
        let vega = (black(1.0 + a, k + a, t_end, 1.02 * s, k >= 1.0) - want).abs();
        m.count("prices compared");
        m.close("market-price", mu, want, 0.0, 6.0 * se + vega, || format!("strike {k} {}", ctx()));
    }
    let mu = out.iter().map(|x| x.forward).sum::<f64>() / n as f64;
    let sd = (out.iter().map(|x| (x.forward - mu).powi(2)).sum::<f64>() / n as f64 / n as f64).sqrt();
    m.close("forward-martingale", mu, 1.0, 0.0, 6.0 * sd, ctx);
    m.case(("reprice", seed));
}

fn noise(m: &mut Mon) {
    let mut r = Rng::new(m.rng.next());
    let dt = r.f(0.01, 0.5);
    let z = draws(r.next(), dt, 2, 30_000);
    let a: Vec<f64> = z.iter().flatten().map(|x| x.0).collect();
    let b: Vec<f64> = z.iter().flatten().map(|x| x.1).collect();
    fxm::white(m, &format!("forward noise dt={dt}"), &a);
    fxm::white(m, &format!("volatility noise dt={dt}"), &b);
    fxm::correlated(m, "independent-drivers", "forward and volatility", &a, &b, 0.0);
    fxm::correlated(m, "independent-steps", "step one and two", &a[..30_000], &a[30_000..], 0.0);
    m.case(("noise", dt.to_bits()));
}
