//! C10: yield-curve queries.
use finquant::markets::interestrate::market_context::IrMarketContext;
use finquant::markets::termstructures::yieldcurve::{InterpolationMethodEnum as I, YieldTermStructure};
use finquant::time::calendars::UnitedKingdom;
use finquant::time::daycounters::actual360::Actual360;
use finquant::time::period::Period as P;
use fqmon::dates::*;
use fqmon::rates::*;
use fqmon::{Mon, biz};
use serde_json::json;

fn body(m: &mut Mon) {
    let _ = &biz::ALL;
    m.assume("a query date reads the curve at the end of that day (the behaviour the repository's own reference values pin)");
    for k in 0..m.scale(6_000, 400_000) {
        let val = m.rng.i(days_from_civil(1990, 1, 1), days_from_civil(2080, 1, 1));
        let hidden = m.rng.chance(0.4);
        let sc = random_pillars(&mut m.rng, val, hidden);
        let rf = Curve::of(val, &sc);
        m.section(&format!("curve {k} of {} pillars from {}", sc.len(), date(val)));
        // calendar and day counter of the container do not influence the reading
        let c = if m.rng.b() {
            yts(val, &sc)
        } else {
            YieldTermStructure::new(Box::<UnitedKingdom>::default(), Box::new(Actual360), date(val), sc.clone())
        };
        if k < 8 {
            m.sample(json!({"valuation": date(val), "pillars": rf.p.len(), "hidden": sc.len() - rf.p.len()}));
        }
        let last = rf.p.last().unwrap().0;
        let first = rf.p[0].0;
        for q in 0..25 {
            let n = match q {
                0 => val,
                1 => first - 1,
                2 => last - 1,
                3 => last,
                4 => last + m.rng.i(1, 8000),
                5..=10 => rf.p[m.rng.n(rf.p.len())].0 + m.rng.i(-2, 2),
                _ => m.rng.i(val, last + 400),
            }
            .max(val);
            let d = date(n);
            let who = || format!("curve {:?} at {d}", rf.p.iter().map(|x| (date(x.0), x.1)).collect::<Vec<_>>());
            let z0 = rf.zero(n);
            m.case((k, n));
            for meth in [I::StepFunctionForward, I::PiecewiseLinearContinuous] {
                let Some(Ok(z)) = m.guard("panic/zero", who, || c.zero_rate(d, &meth)) else {
                    m.violate("zero/error", who());
                    continue;
                };
                m.close("zero-rate", z, z0, 1e-12, 1e-15, who);
                let lo = rf.p.iter().map(|p| p.1).fold(f64::INFINITY, f64::min);
                let hi = rf.p.iter().map(|p| p.1).fold(f64::NEG_INFINITY, f64::max);
                m.check(z >= lo - 1e-12 && z <= hi + 1e-12, "zero-outside-quotes", || format!("{} {z}", who()));
                let Some(Ok(df)) = m.guard("panic/discount", who, || c.discount(d, &meth)) else {
                    m.violate("discount/error", who());
                    continue;
                };
                m.close("discount", df, rf.df(n), 1e-12, 0.0, who);
                m.close("discount-zero-identity", -df.ln(), z * rf.t(n), 1e-11, 1e-13, who);
                if n == val {
                    m.check(df == 1.0, "discount-at-reference", || format!("{} {df}", who()));
                    m.count("reference");
                }
                let bp = m.rng.f(-300.0, 300.0);
                if let Some(Ok(s)) = m.guard("panic/shifted", who, || c.shifted_discount(d, &meth, bp)) {
                    m.close("shifted-discount", s, rf.df_shift(n, bp), 1e-12, 0.0, who);
                } else {
                    m.violate("shifted/error", who());
                }
                if let Some(Ok(s)) = m.guard("panic/shifted", who, || c.shifted_discount(d, &meth, 0.0)) {
                    m.close("shift-by-zero", s, df, 1e-15, 0.0, who);
                }
                // forward over a random tenor
                let p = match m.rng.n(4) {
                    0 => P::Days(m.rng.i(1, 400)),
                    1 => P::Weeks(m.rng.i(1, 30)),
                    2 => P::Months(m.rng.i(1, 36) as u32),
                    _ => P::Years(m.rng.i(1, 40) as u32),
                };
                let e = match p {
                    P::Days(x) => n + x,
                    P::Weeks(x) => n + 7 * x,
                    P::Months(x) => num(add_months(d, x as i64)),
                    P::Years(x) => num(add_months(d, 12 * x as i64)),
                    _ => unreachable!(),
                };
                if let Some(Ok(f)) = m.guard("panic/forward", who, || c.forward_rate(d, p, &meth)) {
                    let tau = (e - n) as f64 / 365.0;
                    let w = (rf.zero(e) * rf.t(e) - rf.zero(n) * rf.t(n)) / tau;
                    m.close("forward-rate", f, w, 1e-10, 1e-11, || format!("{} {p:?}", who()));
                    m.close("forward-compounds", rf.df(n) * (-f * tau).exp(), rf.df(e), 1e-10, 0.0, || format!("{} {p:?}", who()));
                } else {
                    m.violate("forward/error", format!("{} {p:?}", who()));
                }
            }
            if rf.p.iter().any(|p| p.0 == n + 1) {
                m.count("on_pillar");
            }
            m.count(if n + 1 <= first { "before_first" } else if n + 1 > last { "beyond_last" } else { "inside" });
        }
        // bump equivalence: moving every pillar is the same as a shifted read
        let bp = m.rng.f(-200.0, 200.0);
        let bumped: Vec<_> = sc
            .iter()
            .map(|s| {
                let mut s = *s;
                s.zero_rate += bp * 1e-4;
                s
            })
            .collect();
        let cb = yts(val, &bumped);
        for _ in 0..4 {
            let n = m.rng.i(val, last + 100);
            let d = date(n);
            if let Some((Ok(a), Ok(b))) = m.guard("panic/bump", || format!("{d}"), || {
                (cb.discount(d, &I::StepFunctionForward), c.shifted_discount(d, &I::StepFunctionForward, bp))
            }) {
                m.close("bump-equivalence", b, a, 1e-12, 0.0, || format!("curve {k} {d} {bp}bp"));
            }
        }
        // the market context reads the same curve
        let ctx = IrMarketContext::new(date(val), iso_currency::Currency::USD, c, None);
        for _ in 0..3 {
            let n = m.rng.i(val, last + 100);
            let d = date(n);
            if let Some((Ok(r), Ok(df), cv)) =
                m.guard("panic/context", || format!("{d}"), || (ctx.rate(d), ctx.discount(d), ctx.caplet_vol(d, 0.01)))
            {
                m.close("context-rate", r, rf.zero(n), 1e-12, 1e-15, || format!("{d}"));
                m.close("context-discount", df, rf.df(n), 1e-12, 0.0, || format!("{d}"));
                m.check(cv.is_err(), "context-vol-invented", || format!("{cv:?}"));
            } else {
                m.violate("context/error", format!("{d}"));
            }
        }
        if hidden && sc.iter().any(|s| s.hidden_pillar) {
            m.count("curves_with_hidden_pillars");
        }
    }
    for c in ["reference", "on_pillar", "before_first", "beyond_last", "inside", "curves_with_hidden_pillars"] {
        m.need(c, 500);
    }
}

fn main() {
    fqmon::run("C10", "distinct (curve, query date) readings", body)
}
