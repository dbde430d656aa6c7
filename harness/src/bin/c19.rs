//! C19: delta-quoted FX volatility surfaces.
use finquant::markets::forex::quotes::volsurface::{FXDeltaVolPillar, FXVolQuote, FXVolSurface};
use fqmon::dates::*;
use fqmon::fx::*;
use fqmon::num::ncdf;
use fqmon::Mon;
use serde_json::json;

fn main() {
    fqmon::run("C19", "distinct (valuation date, expiry, strike, smile) volatility queries", body)
}

fn body(m: &mut Mon) {
    m.section("surfaces");
    for _ in 0..m.scale(10000, 200000) {
        let val = m.rng.i(days_from_civil(1995, 1, 1), days_from_civil(2075, 1, 1));
        let n = m.rng.i(1, 7);
        let mut e = val;
        let mut smiles = vec![];
        let mut pillars = vec![];
        for _ in 0..n {
            e += match m.rng.n(3) {
                0 => m.rng.i(1, 8),
                1 => m.rng.i(20, 40),
                _ => m.rng.i(60, 900),
            };
            let f = m.rng.lf(0.4, 200.0);
            let (s, p) = random_smile(&mut m.rng, val, e, f);
            smiles.push(s);
            pillars.push(p);
        }
        let sane = smiles.iter().all(|s| s.monotone());
        if smiles.iter().any(|s| s.gap() < 1e-9) {
            m.count("undecided_gap");
            continue;
        }
        let shuffled = {
            let mut p = pillars.clone();
            m.rng.shuffle(&mut p);
            p
        };
        let info0 = || format!("val {} pillars {pillars:?}", date(val));
        let surf = match m.guard("panic/new", info0, || FXVolSurface::new(date(val), shuffled)) {
            Some(Ok(s)) => {
                m.check(sane, "accepted crossing strikes", info0);
                if !sane {
                    continue;
                }
                s
            }
            Some(Err(er)) => {
                m.check(!sane, "rejected", || format!("{er}: {}", info0()));
                m.count("crossing_rejected");
                continue;
            }
            None => continue,
        };
        for _ in 0..10 {
            let si = m.rng.n(smiles.len());
            let s = &smiles[si];
            let k = match m.rng.n(6) {
                0 | 1 => s.kv[m.rng.n(s.kv.len())].0,
                2 => s.f,
                3 => s.kv[0].0 * m.rng.lf(0.2, 1.0),
                4 => s.kv[s.kv.len() - 1].0 * m.rng.lf(1.0, 5.0),
                _ => m.rng.f(s.kv[0].0, s.kv[s.kv.len() - 1].0),
            };
            let exp = match m.rng.n(6) {
                0 | 1 => s.exp,
                2 => m.rng.i(val + 1, smiles[0].exp),
                3 => e + m.rng.i(0, 2000),
                _ => m.rng.i(smiles[0].exp, e),
            };
            let info = || format!("expiry {} strike {k:e}: {}", date(exp), info0());
            let want = surface_vol(&smiles, val, exp, k);
            let Some(r) = m.guard("panic/query", info, || surf.volatility(date(exp), k)) else { continue };
            let got = match r {
                Ok(v) => v,
                Err(er) => {
                    m.violate("error", format!("{er}: {}", info()));
                    continue;
                }
            };
            // a squared wing far outside its quotes may be undefined; the
            // reference then says NaN as well
            let amp = smiles.iter().map(|s| s.kv.iter().map(|p| p.1).fold(0.0, f64::max)).fold(0.0, f64::max);
            // conditioning of the quadratic through nearly equal abscissae
            let mut width: f64 = 1.0;
            for s in &smiles {
                let x = |k: f64| ncdf((s.f / k).ln() / (1.5 * s.atm * s.t.sqrt()));
                let n = s.kv.len() - 1;
                let (a, b, c) = (x(s.kv[0].0), x(s.kv[s.ai].0), x(s.kv[n].0));
                width = width.min((a - b).abs()).min((b - c).abs());
            }
            let tol = 1e-9 * amp / (width * width).max(1e-12);
            if tol > 1e-4 * amp {
                m.count("ill_conditioned");
                continue;
            }
            let small = want < 0.05 * amp && smiles.len() > 1;
            if want.is_nan() || small {
                m.count("wing_beyond_model");
                continue;
            }
            m.close("vol", got, want, 1e-8, tol, info);
            if smiles.iter().any(|s| s.exp == exp && s.kv.iter().any(|p| p.0 == k)) {
                let q = smiles.iter().find(|s| s.exp == exp).unwrap().kv.iter().find(|p| p.0 == k).unwrap().1;
                m.close("quote", got, q, 1e-8, tol, info);
                m.count("on_quote");
            }
            m.count(if exp < smiles[0].exp { "before_first" } else if exp > e { "after_last" } else { "between" });
            m.case((val, exp, k.to_bits(), si));
        }
        // past and degenerate queries are errors
        for (d, k) in [(val, 1.0), (val - m.rng.i(1, 400), 1.0), (val + 30, 0.0), (val + 30, -m.rng.lf(1e-3, 10.0))] {
            if let Some(r) = m.guard("panic/query", info0, || surf.volatility(date(d), k)) {
                m.check(r.is_err(), "bad query accepted", || format!("{} {k}: {}", date(d), info0()));
                m.count("bad_query");
            }
        }
    }
    m.section("rejected quote sets");
    for _ in 0..m.scale(4000, 40000) {
        let val = m.rng.i(days_from_civil(1995, 1, 1), days_from_civil(2075, 1, 1));
        let exp = val + m.rng.i(20, 700);
        let f = m.rng.lf(0.4, 100.0);
        let (_, mut good) = random_smile(&mut m.rng, val, exp, f);
        let other = {
            let f = m.rng.lf(0.4, 100.0);
            random_smile(&mut m.rng, val, exp + 30, f).1
        };
        let kind = m.rng.n(9);
        let mut list = vec![];
        match kind {
            0 => good.quotes.retain(|q| !matches!(q, FXVolQuote::Atm(_))),
            1 => {
                // a second ATM, even one that says the same
                let same = good.quotes.iter().find_map(|q| if let FXVolQuote::Atm(v) = q { Some(*v) } else { None }).unwrap();
                good.quotes.push(FXVolQuote::Atm(if m.rng.b() { same } else { m.rng.f(0.05, 0.2) }));
            }
            2 => {
                good.quotes.push(match m.rng.n(4) {
                    0 => FXVolQuote::Call { delta: 0.45, vol: 0.1 },
                    1 => FXVolQuote::Put { delta: 0.45, vol: 0.1 },
                    2 => FXVolQuote::RiskReversal { delta: 0.45, vol: 0.001 },
                    _ => FXVolQuote::Butterfly { delta: 0.45, vol: 0.001 },
                });
            }
            3 => {
                let d = *m.rng.pick(&[0.0, 0.5, -0.25, 0.75, 1.0, 25.0]);
                good.quotes.push(FXVolQuote::RiskReversal { delta: d, vol: 0.001 });
                good.quotes.push(FXVolQuote::Butterfly { delta: d, vol: 0.001 });
            }
            4 => good.quotes.retain(|q| matches!(q, FXVolQuote::Atm(_))),
            5 => good.forward = *m.rng.pick(&[0.0, -1.0]),
            6 => good.expiry = date(val - m.rng.i(0, 30)),
            7 => good.quotes.push(FXVolQuote::Call { delta: 0.45, vol: 0.1 }),
            _ => {}
        }
        if kind == 7 {
            // a call completed by a butterfly is no smile either
            good.quotes.push(FXVolQuote::Butterfly { delta: 0.45, vol: 0.001 });
        }
        if kind != 8 {
            list.push(good.clone());
            if m.rng.b() {
                list.push(other);
            }
            m.rng.shuffle(&mut list);
        }
        let info = || format!("kind {kind} val {} {list:?}", date(val));
        let l2: Vec<FXDeltaVolPillar> = list.clone();
        if let Some(r) = m.guard("panic/new", info, || FXVolSurface::new(date(val), l2)) {
            m.check(r.is_err(), "bad quotes accepted", info);
            m.count("rejected");
            m.case(("bad", kind, val, exp));
        }
    }
    m.sample(json!({"quote formats": ["ATM", "Call/Put", "RR/BF", "both"]}));
    for (k, n) in [("on_quote", 1000), ("before_first", 500), ("after_last", 500), ("between", 5000), ("rejected", 2000), ("bad_query", 4000)] {
        m.need(k, n);
    }
}
