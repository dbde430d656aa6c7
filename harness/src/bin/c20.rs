//! C20: the FX market context answers from its inputs.
use finquant::markets::forex::market_context::FxMarketContext;
use finquant::markets::interestrate::interestrateindex::InterestRateIndex;
use finquant::markets::termstructures::yieldcurve::YieldTermMarketData;
use finquant::markets::termstructures::yieldcurve::oisratehelper::OISRate;
use finquant::markets::forex::quotes::volsurface::{FXVolQuote, FXVolSurface};
use finquant::time::businessdayconvention::BusinessDayConvention as B;
use finquant::time::calendars::{Calendar, Japan, Target};
use finquant::time::daycounters::DayCounters;
use finquant::time::daycounters::actual360::Actual360;
use finquant::time::daycounters::actual365fixed::Actual365Fixed;
use finquant::time::period::Period as P;
use fqmon::dates::*;
use fqmon::fx::*;
use fqmon::rates::*;
use fqmon::{Mon, Rng};
use iso_currency::Currency;
use serde_json::json;

fn main() {
    fqmon::run("C20", "distinct (pair, valuation date, date queried) questions answered by a context", body)
}

fn deposits(r: &mut Rng) -> Vec<(u32, f64)> {
    let base = r.f(-0.01, 0.08);
    let mut t = 0;
    (0..r.i(1, 7))
        .map(|_| {
            t += r.i(1, 7) as u32;
            (t, base + r.f(-0.01, 0.01))
        })
        .collect()
}
fn market(val: i64, q: &[(u32, f64)]) -> YieldTermMarketData {
    let cash = q
        .iter()
        .map(|(t, v)| OISRate {
            value: *v,
            interest_rate_index: InterestRateIndex {
                period: P::Months(*t),
                settlement_days: 2,
                currency: Currency::EUR,
                calendar: Box::new(Target),
                convention: B::ModifiedFollowing,
                day_counter: counter(0).1,
                end_of_month: false,
            },
        })
        .collect();
    YieldTermMarketData::new(date(val), cash, vec![], vec![])
}

fn body(m: &mut Mon) {
    for _ in 0..m.scale(8000, 150000) {
        let known = !m.rng.chance(0.12);
        let name = *m.rng.pick(PAIRS);
        let u = pair(name);
        let val = m.rng.i(days_from_civil(2000, 1, 1), days_from_civil(2070, 1, 1));
        let mut spot = if name.ends_with("JPY") { m.rng.f(60.0, 200.0) } else { m.rng.lf(0.4, 60.0) };
        let sc = spot * points(name) * 0.03;
        let quotes = match m.rng.n(12) {
            0 => vec![],
            _ => standard_quotes(&mut m.rng, sc),
        };
        // an unlisted pair: the inverted listed one
        let ccy = if known { (u.dom_currency(), u.frn_currency()) } else { (u.frn_currency(), u.dom_currency()) };
        let cal = u.calendar();
        let l = if known { lag(name) } else { 2 };
        let dated: Vec<(i64, f64)> = quotes.iter().map(|q| (settle(&cal, val, l, q.tenor), q.value)).collect();
        let (qd, qf) = (deposits(&mut m.rng), deposits(&mut m.rng));
        let kind = m.rng.n(3);
        let mut smiles = vec![];
        let mut pillars = vec![];
        let mut e = val;
        for _ in 0..m.rng.i(1, 4) {
            e += m.rng.i(20, 500);
            let (s, p) = random_smile(&mut m.rng, val, e, spot);
            if s.monotone() && s.gap() > 1e-6 {
                smiles.push(s);
                pillars.push(p);
            }
        }
        let info = || format!("{name} known {known} kind {kind} val {} spot {spot} {quotes:?} dom {qd:?} frn {qf:?} pillars {pillars:?}", date(val));
        let strip = |m: &mut Mon, q: &[(u32, f64)]| match m.guard("panic/strip", info, || market(val, q).get_stripped_curve()) {
            Some(Ok(s)) => Some(s),
            _ => None,
        };
        let (Some(sd), Some(sf)) = (strip(m, &qd), strip(m, &qf)) else {
            m.violate("strip", info());
            continue;
        };
        let (dom, frn) = (Curve::of(val, &sd), Curve::of(val, &sf));
        let helper = || if known { u.forward_helper(date(val), spot, quotes.clone()) } else { finquant::markets::forex::quotes::forwardpoints::FXForwardHelper::new(date(val), spot, quotes.clone()) };
        let bad_pillars = kind != 1 && (smiles.is_empty() || m.rng.chance(0.1));
        let mut use_pillars = pillars.clone();
        if bad_pillars && !smiles.is_empty() {
            let k = m.rng.n(use_pillars.len());
            use_pillars[k].quotes.retain(|q| !matches!(q, FXVolQuote::Atm(_)));
        }
        let built = match kind {
            0 => m.guard("panic/raw", info, || {
                FxMarketContext::from_raw_quotes(
                    date(val), spot, ccy, market(val, &qd), market(val, &qf), quotes.clone(), use_pillars.clone(),
                    Box::new(Target), Box::new(Japan), Box::<Actual365Fixed>::default(), Box::<Actual360>::default(),
                )
            }),
            1 => m.guard("panic/linear", info, || FxMarketContext::for_linear(date(val), spot, ccy, yts(val, &sd), yts(val, &sf), helper())),
            _ => m.guard("panic/new", info, || {
                FXVolSurface::new(date(val), use_pillars.clone()).map(|s| FxMarketContext::new(date(val), spot, ccy, yts(val, &sd), yts(val, &sf), helper(), s))
            }),
        };
        let mut ctx = match built {
            Some(Ok(c)) => {
                if !m.check(!bad_pillars, "bad surface accepted", info) {
                    continue;
                }
                c
            }
            Some(Err(er)) => {
                m.check(bad_pillars, "rejected", || format!("{er}: {}", info()));
                m.count("bad_surface_rejected");
                continue;
            }
            None => continue,
        };
        m.check(
            ctx.valuation_date == date(val) && ctx.spot == spot && ctx.pair == ccy && ctx.forwards.spot_ref == spot && ctx.forwards.valuation_date == date(val)
                && ctx.domestic_curve.valuation_date == date(val) && ctx.foreign_curve.valuation_date == date(val),
            "inputs held",
            info,
        );
        if kind == 0 {
            // each curve carries its own market's conventions
            let js = |c: Box<dyn Calendar>, d: Box<dyn DayCounters>| (serde_json::to_string(&c).ok(), serde_json::to_string(&d).ok());
            let of = |y: &finquant::markets::termstructures::yieldcurve::YieldTermStructure| (serde_json::to_string(&y.calendar).ok(), serde_json::to_string(&y.day_counter).ok());
            let d = of(&ctx.domestic_curve) == js(Box::new(Target), Box::<Actual365Fixed>::default());
            let f = of(&ctx.foreign_curve) == js(Box::new(Japan), Box::<Actual360>::default());
            m.check(d && f, "curve conventions", info);
        }
        for round in 0..2 {
            if round == 1 {
                // a live context follows its own spot and ladder
                spot *= m.rng.lf(0.7, 1.4);
                ctx.spot = spot;
                m.count("spot_moved");
            }
            for _ in 0..6 {
                let t = if m.rng.chance(0.3) && !dated.is_empty() { m.rng.pick(&dated).0 + m.rng.i(-1, 1) } else { val + m.rng.i(-10, 4200) };
                let i2 = || format!("query {} spot now {spot}: {name} known {known} kind {kind} val {} {quotes:?} dom {qd:?} frn {qf:?} pillars {pillars:?}", date(t), date(val));
                match m.guard("panic/forward", i2, || ctx.forward_at(date(t), &cal)) {
                    Some(Ok(f)) => match (known, ladder(val, &dated, t)) {
                        (true, Ladder::OneOf(v)) | (true, Ladder::Line(v)) => {
                            let best = v.iter().map(|p| spot + p / points(name)).min_by(|a, b| (a - f).abs().total_cmp(&(b - f).abs())).unwrap();
                            m.close("forward", f, best, 1e-12, 0.0, i2);
                            m.count("forward");
                        }
                        (_, l) => m.violate("forward invented", format!("{f} ladder {l:?}: {}", i2())),
                    },
                    Some(Err(er)) => {
                        m.check(!known || ladder(val, &dated, t) == Ladder::Nothing, "forward lost", || format!("{er}: {}", i2()));
                        m.count("forward_missing");
                    }
                    None => {}
                }
                if t >= val {
                    for (tag, got, want) in [
                        ("rate_d", ctx.rate_d(date(t)), dom.zero(t)),
                        ("rate_f", ctx.rate_f(date(t)), frn.zero(t)),
                        ("discount_d", ctx.discount_d(date(t)), dom.df(t)),
                        ("discount_f", ctx.discount_f(date(t)), frn.df(t)),
                    ] {
                        match got {
                            Ok(g) => {
                                m.close(tag, g, want, 1e-12, 1e-15, i2);
                            }
                            Err(er) => m.violate(tag, format!("{er}: {}", i2())),
                        }
                    }
                }
                if t > val {
                    let k = spot * m.rng.lf(0.8, 1.25);
                    let want = if kind == 1 { 0.1 } else { surface_vol(&smiles, val, t, k) };
                    let sane = kind == 1 || (want.is_finite() && want > 0.02 && smiles.iter().all(|s| {
                        let w = (s.kv[s.kv.len() - 1].0 / s.kv[0].0).ln();
                        w > 1e-3
                    }));
                    if sane {
                        match m.guard("panic/vol", i2, || ctx.implied_vol(date(t), k)) {
                            Some(Ok(v)) => {
                                m.close("vol", v, want, 1e-6, 1e-6, || format!("strike {k}: {}", i2()));
                                m.count("vol");
                            }
                            Some(Err(er)) => m.violate("vol", format!("{er}: {}", i2())),
                            None => {}
                        }
                    }
                } else {
                    if let Some(r) = m.guard("panic/vol", i2, || ctx.implied_vol(date(t), spot)) {
                        m.check(r.is_err(), "past vol invented", i2);
                        m.count("past_vol");
                    }
                }
                m.case((name, val, t, kind, known));
            }
        }
    }
    m.sample(json!({"constructors": ["from_raw_quotes", "for_linear", "new"]}));
    for (k, n) in [("forward", 5000), ("forward_missing", 500), ("vol", 5000), ("bad_surface_rejected", 50), ("past_vol", 20), ("spot_moved", 500)] {
        m.need(k, n);
    }
}
