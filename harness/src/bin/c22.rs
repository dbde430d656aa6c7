//! C22: the simplex minimiser, observed through its objective callback.
use finquant::math::optimize::{NelderMeadOptions, nelder_mead};
use fqmon::{Mon, Rng};
use serde_json::json;
use std::cell::RefCell;

fn main() {
    fqmon::run("C22", "distinct (objective, start, options) minimisations, each with its full evaluation log", body)
}

#[derive(Clone, Debug)]
struct Obj {
    kind: usize,
    c: Vec<f64>,
    w: Vec<f64>,
    q: Vec<Vec<f64>>,
}
impl Obj {
    fn random(r: &mut Rng, kind: usize, n: usize) -> Obj {
        // random rotation by Gram-Schmidt
        let mut q: Vec<Vec<f64>> = vec![];
        while q.len() < n {
            let mut v: Vec<f64> = (0..n).map(|_| r.normal()).collect();
            for u in &q {
                let d: f64 = u.iter().zip(&v).map(|(a, b)| a * b).sum();
                v.iter_mut().zip(u).for_each(|(a, b)| *a -= d * b);
            }
            let l = v.iter().map(|a| a * a).sum::<f64>().sqrt();
            if l > 0.1 {
                q.push(v.iter().map(|a| a / l).collect());
            }
        }
        Obj { kind, c: (0..n).map(|_| r.f(-3.0, 3.0)).collect(), w: (0..n).map(|_| r.lf(1.0, 30.0)).collect(), q }
    }
    fn f(&self, x: &[f64]) -> f64 {
        let y: Vec<f64> = self.q.iter().map(|u| u.iter().zip(x).zip(&self.c).map(|((a, b), c)| a * (b - c)).sum()).collect();
        let quad: f64 = y.iter().zip(&self.w).map(|(a, w)| w * a * a).sum();
        match self.kind {
            0 => quad,
            1 => quad + (0.5 * y.iter().sum::<f64>()).cosh() - 1.0,
            2 => quad.sqrt() * (1.5 + (7.0 * y[0]).sin()),
            3 => y.iter().map(|a| a.abs()).sum(),
            4 => if y[0] < -0.5 { f64::INFINITY } else { quad },
            5 => (quad * 4.0).floor(),
            6 => 1.0,
            7 => -(1.0 + quad).ln(),
            8 => if quad > 4.0 { 1e10 } else { quad },
            _ => (x.iter().map(|a| (a * 12.9898).sin() * 43758.5453).sum::<f64>()).fract(),
        }
    }
}

#[derive(Debug)]
enum Trace {
    /// moves explained, simplices (iterations) completed, shrink moves seen
    Explained { moves: [u64; 5], iterations: usize },
    /// the simplex became too small, or two vertices tie, to tell moves apart
    Ambiguous { moves: [u64; 5] },
    Unexplained { at: usize, simplex: Vec<(Vec<f64>, f64)> },
}

/// Online checker of the simplex's trace specification: from the first n+1
/// evaluations on, every evaluated point is the documented move (reflection 1,
/// expansion 2, contraction 1/2, shrink 1/2) of the simplex built from the
/// points and values observed so far.
fn trace(log: &[(Vec<f64>, f64)], n: usize) -> Trace {
    let mut moves = [0u64; 5];
    if log.len() <= n {
        return Trace::Explained { moves, iterations: 0 };
    }
    let mut s: Vec<(Vec<f64>, f64)> = log[..=n].to_vec();
    let same = |a: &[f64], b: &[f64]| a.iter().zip(b).all(|(x, y)| (x - y).abs() <= 1e-11 * (1.0 + x.abs()));
    let mix = |c: &[f64], v: &[f64], t: f64| -> Vec<f64> { c.iter().zip(v).map(|(c, v)| c + t * (v - c)).collect() };
    let mut k = n + 1;
    let mut iterations = 0;
    while k < log.len() {
        let diameter = (0..n)
            .map(|j| s.iter().map(|v| v.0[j]).fold(f64::NEG_INFINITY, f64::max) - s.iter().map(|v| v.0[j]).fold(f64::INFINITY, f64::min))
            .fold(0.0, f64::max);
        let size = s.iter().flat_map(|v| &v.0).fold(1.0, |a: f64, b| a.max(b.abs()));
        if diameter < 1e-7 * size || s.iter().flat_map(|v| &v.0).any(|x| !x.is_finite()) {
            return Trace::Ambiguous { moves };
        }
        let hi = s.iter().map(|v| v.1).fold(f64::NEG_INFINITY, f64::max);
        let lo = s.iter().map(|v| v.1).fold(f64::INFINITY, f64::min);
        let centroid = |w: usize| -> Vec<f64> {
            (0..n).map(|j| s.iter().enumerate().filter(|(i, _)| *i != w).map(|(_, v)| v.0[j]).sum::<f64>() / n as f64).collect()
        };
        let (x, f) = &log[k];
        let cand: Vec<usize> = (0..=n).filter(|w| s[*w].1 == hi && same(x, &mix(&centroid(*w), &s[*w].0, -1.0))).collect();
        if cand.len() > 1 {
            return Trace::Ambiguous { moves };
        }
        let Some(&w) = cand.first() else { return Trace::Unexplained { at: k, simplex: s } };
        moves[0] += 1;
        iterations += 1;
        k += 1;
        let second = s.iter().enumerate().filter(|(i, _)| *i != w).map(|(_, v)| v.1).fold(f64::NEG_INFINITY, f64::max);
        let c = centroid(w);
        if *f >= lo && *f < second {
            s[w] = (x.clone(), *f);
            continue;
        }
        let Some((y, g)) = log.get(k) else { return Trace::Unexplained { at: k, simplex: s } };
        if *f < lo {
            if !same(y, &mix(&c, x, 2.0)) {
                return Trace::Unexplained { at: k, simplex: s };
            }
            moves[1] += 1;
            k += 1;
            s[w] = if g < f { (y.clone(), *g) } else { (x.clone(), *f) };
            continue;
        }
        if !same(y, &mix(&c, &s[w].0, 0.5)) && !same(y, &mix(&c, x, 0.5)) {
            return Trace::Unexplained { at: k, simplex: s };
        }
        moves[2] += 1;
        k += 1;
        if *g < hi {
            s[w] = (y.clone(), *g);
            continue;
        }
        // every vertex but the best moves half-way towards the best
        moves[3] += 1;
        let Some(seen) = log.get(k..k + n) else { return Trace::Unexplained { at: k, simplex: s } };
        let fits: Vec<(usize, Vec<usize>)> = (0..=n)
            .filter(|b| s[*b].1 == lo)
            .filter_map(|b| {
                let mut left: Vec<usize> = (0..=n).filter(|i| *i != b).collect();
                let mut hit = vec![];
                for e in seen {
                    let p = left.iter().position(|i| same(&e.0, &mix(&s[b].0, &s[*i].0, 0.5)))?;
                    hit.push(left.remove(p));
                }
                Some((b, hit))
            })
            .collect();
        match fits.len() {
            0 => return Trace::Unexplained { at: k, simplex: s },
            1 => {
                for (e, i) in seen.iter().zip(&fits[0].1) {
                    s[*i] = e.clone();
                    moves[4] += 1;
                }
                k += n;
            }
            _ => return Trace::Ambiguous { moves },
        }
    }
    Trace::Explained { moves, iterations }
}

fn body(m: &mut Mon) {
    for it in 0..m.scale(20_000, 400_000) {
        let kind = if m.rng.chance(0.4) { m.rng.n(2) } else { m.rng.n(10) };
        // now and then many variables (moves are still checked one by one)
        let n = if m.rng.chance(0.06) { m.rng.i(7, 16) } else { m.rng.i(1, if kind < 2 { 4 } else { 6 }) } as usize;
        let o = Obj::random(&mut m.rng, kind, n);
        let x0: Vec<f64> = (0..n)
            .map(|_| match m.rng.n(6) {
                2 if it % 3 == 0 => m.rng.lf(1e-9, 1e-3) * *m.rng.pick(&[-1.0, 1.0]),
                0 => 0.0,
                1 => 1e-13,
                _ => m.rng.f(-4.0, 4.0),
            })
            .collect();
        let strict = kind < 2 && n <= 4 && m.rng.chance(0.7);
        m.add("many_variables", (n > 6) as u64);
        let endless = m.rng.chance(0.004);
        let opts = if strict {
            NelderMeadOptions { max_iter: 4000 * n, ftol: 1e-13, xtol: 1e-9, step_frac: m.rng.f(0.05, 0.5) }
        } else {
            NelderMeadOptions {
                max_iter: if endless { m.rng.i(5_000, 12_000) as usize } else { *m.rng.pick(&[0usize, 1, 2, 3, 7, 20, 60, 150, 500]) },
                ftol: if endless { 1e-300 } else { m.rng.lf(1e-14, 1e-1) },
                xtol: m.rng.lf(1e-14, 1e-1),
                step_frac: m.rng.lf(1e-5, 1.0),
            }
        };
        let log: RefCell<Vec<(Vec<f64>, f64)>> = RefCell::new(vec![]);
        let info = || format!("kind {kind} obj {o:?} x0 {x0:?} opts {opts:?}");
        let Some(r) = m.guard("panic/minimise", info, || {
            nelder_mead(
                |x| {
                    let v = o.f(x);
                    log.borrow_mut().push((x.to_vec(), v));
                    v
                },
                &x0,
                opts,
            )
        }) else { continue };
        let log = log.into_inner();
        m.add("evaluations_observed", log.len() as u64);
        m.check(log.iter().all(|e| e.0.len() == n && e.0.iter().all(|v| v.is_finite())), "finite points", info);
        m.check(r.x.len() == n && o.f(&r.x) == r.f, "value at point", || format!("{r:?} f(x) {}: {}", o.f(&r.x), info()));
        // the first simplex: the guess, and one step along each coordinate
        let first = &log[..(n + 1).min(log.len())];
        let mut stepped = vec![0; n];
        let mut base = 0;
        for (x, _) in first {
            let moved: Vec<usize> = (0..n).filter(|i| x[*i] != x0[*i]).collect();
            match moved[..] {
                [] => base += 1,
                [i] => {
                    let want = opts.step_frac * x0[i].abs();
                    let got = x[i] - x0[i];
                    if x0[i].abs() < 1e-10 || (got - want).abs() <= 1e-9 * want + 1e-15 * x0[i].abs() {
                        stepped[i] += 1;
                    }
                }
                _ => {}
            }
        }
        m.check(base == 1 && stepped.iter().all(|s| *s == 1), "first simplex", || format!("{first:?}: {}", info()));
        match trace(&log, n) {
            Trace::Explained { moves, iterations } => {
                m.count("traces_explained");
                for (k, v) in ["reflections", "expansions", "contractions", "shrinks", "shrunk_vertices"].iter().zip(moves) {
                    m.add(k, v);
                }
                m.check((iterations..=iterations + 1).contains(&r.iterations), "iterations consumed", || format!("{iterations} observed, {r:?}: {}", info()));
            }
            Trace::Ambiguous { moves } => {
                m.count("traces_ambiguous");
                for (k, v) in ["reflections", "expansions", "contractions", "shrinks", "shrunk_vertices"].iter().zip(moves) {
                    m.add(k, v);
                }
            }
            Trace::Unexplained { at, simplex } => m.violate("simplex move", format!("evaluation {at} of {} ({:?}) is no move of {simplex:?}: {}", log.len(), log.get(at), info())),
        }
        let best = log.iter().map(|e| e.1).fold(f64::INFINITY, f64::min);
        m.check(r.f == best, "best seen", || format!("reported {} best {best}: {}", r.f, info()));
        m.check(log.iter().any(|e| e.0 == r.x), "point evaluated", || format!("{r:?}: {}", info()));
        m.check(log.iter().any(|e| e.0 == x0), "start evaluated", info);
        m.check(r.f <= o.f(&x0), "no worse than start", || format!("{r:?}: {}", info()));
        m.check(r.iterations <= opts.max_iter, "iteration cap", || format!("{r:?}: {}", info()));
        m.check(log.len() <= (n + 1) + r.iterations * (n + 2), "evaluation budget", || format!("{} evaluations, {r:?}: {}", log.len(), info()));
        m.check(r.converged || r.iterations == opts.max_iter, "stopped early", || format!("{r:?}: {}", info()));
        if r.converged {
            m.count("converged");
            // a converged simplex is small: n other evaluated points lie
            // within the tolerances of the reported one
            let mut near: Vec<&Vec<f64>> = log
                .iter()
                .filter(|e| (e.1 - r.f).abs() < opts.ftol && e.0.iter().zip(&r.x).all(|(a, b)| (a - b).abs() < opts.xtol))
                .map(|e| &e.0)
                .collect();
            near.sort_by(|a, b| a.iter().zip(b.iter()).map(|(x, y)| x.total_cmp(y)).find(|o| o.is_ne()).unwrap_or(std::cmp::Ordering::Equal));
            near.dedup();
            // degenerate simplices may repeat a vertex bit for bit
            let total = log.iter().filter(|e| (e.1 - r.f).abs() < opts.ftol && e.0.iter().zip(&r.x).all(|(a, b)| (a - b).abs() < opts.xtol)).count();
            m.check(total > n, "converged claim", || format!("{} nearby evaluations, {r:?}: {}", total, info()));
        } else {
            m.count("capped");
        }
        if strict {
            // smooth convex: solved (a stalled simplex may be restarted, as callers do)
            let mut cur = r.clone();
            let mut tries = 0;
            while o.f(&cur.x) > 1e-8 && tries < 2 {
                tries += 1;
                m.count("restarted");
                match m.guard("panic/minimise", info, || nelder_mead(|x| o.f(x), &cur.x, opts)) {
                    Some(c) => cur = c,
                    None => break,
                }
            }
            m.check(o.f(&cur.x) <= 1e-8 && cur.x.iter().zip(&o.c).all(|(a, b)| (a - b).abs() < 1e-3), "solved", || format!("{cur:?}: {}", info()));
            m.count("convex");
        }
        m.case((it, kind, n));
    }
    m.sample(json!({"objectives": ["rotated quadratics", "quadratic+cosh", "rippled", "L1", "infinite penalty", "staircase", "constant", "unbounded concave", "cliff", "noise"]}));
    for (k, n) in [("converged", 1000), ("capped", 500), ("many_variables", 300), ("convex", 700), ("traces_explained", 500), ("expansions", 1000), ("contractions", 1000), ("shrinks", 500), ("evaluations_observed", 100_000)] {
        m.need(k, n);
    }
}
