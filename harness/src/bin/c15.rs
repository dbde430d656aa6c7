//! C15: caplet-volatility surfaces interpolate their nodes and strip
//! consistently from cap quotes.
use finquant::derivatives::basic::{BasicInfo, Direction, Style};
use finquant::derivatives::interestrate::basic::*;
use finquant::derivatives::interestrate::cap::CapFloor;
use finquant::derivatives::interestrate::swap::InterestRateSchedulePeriod;
use finquant::markets::interestrate::interestrateindex::InterestRateIndex;
use finquant::markets::interestrate::market_context::IrMarketContext;
use finquant::markets::interestrate::volsurface::{CapQuote, CapletVolPillar, IRCapMarketData, IRNormalVolSurface};
use finquant::markets::termstructures::yieldcurve::YieldTermMarketData;
use finquant::markets::termstructures::yieldcurve::oisratehelper::OISRate;
use finquant::time::businessdayconvention::BusinessDayConvention as B;
use finquant::time::calendars::Target;
use finquant::time::daycounters::actual365fixed::Actual365Fixed;
use finquant::time::period::Period as P;
use fqmon::caps::*;
use fqmon::dates::*;
use fqmon::rates::*;
use fqmon::{Mon, Rng};
use iso_currency::Currency;
use serde_json::json;

fn queries(m: &mut Mon, k: usize) {
    let r = &mut m.rng;
    let val = days_from_civil(r.i(1990, 2060) as i32, 1, 1) + r.i(0, 364);
    let n = if r.chance(0.05) { r.i(11, 60) } else { r.i(1, 10) } as usize;
    let mut e = val + r.i(-5, 5);
    let mut ps: Vec<(i64, Vec<(f64, f64)>)> = vec![];
    for _ in 0..n {
        e += if r.chance(0.2) { 1 } else { r.i(1, 900) };
        let mut kk = r.f(-0.06, 0.04);
        let nodes = (0..if r.chance(0.05) { r.i(10, 50) } else { r.i(1, 9) })
            .map(|_| {
                kk += r.lf(1e-5, 0.02);
                (kk, r.lf(1e-4, 0.05))
            })
            .collect();
        ps.push((e, nodes));
    }
    let s = IRNormalVolSurface {
        valuation_date: date(val),
        pillars: ps.iter().map(|(e, n)| CapletVolPillar { expiry: date(*e), nodes: n.clone() }).collect(),
    };
    let ctx = IrMarketContext::new(
        date(val),
        Currency::EUR,
        yts(val, &[pillar(val, val + 365, 0.02, val, false)]),
        Some(IRNormalVolSurface { valuation_date: date(val), pillars: s.pillars.clone() }),
    );
    let who = |t: i64, x: f64| format!("t {} k {x} on {ps:?}", date(t));
    let ask = |m: &mut Mon, t: i64, x: f64| -> f64 {
        match Mon::attempt(|| (s.caplet_volatility(date(t), x).unwrap(), ctx.caplet_vol(date(t), x).unwrap())) {
            Ok((a, b)) => {
                m.check(a == b, "context-differs", || who(t, x));
                a
            }
            Err(p) => {
                m.violate("query/error", format!("{p} {}", who(t, x)));
                f64::NAN
            }
        }
    };
    m.section(&format!("queries {k}"));
    // every node is returned on its own coordinates and holds back to the
    // previous pillar; flat beyond the grid
    for i in 0..n {
        let lo = if i == 0 { val - 400 } else { ps[i - 1].0 + 1 };
        let hi = ps[i].0;
        let days = [hi, lo, m.rng.i(lo, hi)];
        let nodes = ps[i].1.clone();
        for t in days {
            for (x, v) in &nodes {
                let g = ask(m, t, *x);
                m.close("node", g, *v, 1e-12, 0.0, || who(t, *x));
            }
            let (a, z) = (nodes[0], nodes[nodes.len() - 1]);
            let d = m.rng.lf(1e-6, 0.5);
            let g = ask(m, t, a.0 - d);
            m.close("flat-low", g, a.1, 0.0, 0.0, || who(t, a.0 - d));
            let g = ask(m, t, z.0 + d);
            m.close("flat-high", g, z.1, 0.0, 0.0, || who(t, z.0 + d));
            for w in nodes.windows(2) {
                let u = m.rng.u();
                let x = w[0].0 + u * (w[1].0 - w[0].0);
                let g = ask(m, t, x);
                m.close("between-strikes", g, w[0].1 * (1.0 - u) + w[1].1 * u, 1e-9, 0.0, || who(t, x));
                m.count("between");
            }
            m.case((k, i, t));
        }
    }
    let t = ps[n - 1].0 + m.rng.i(1, 20000);
    let (x, v) = ps[n - 1].1[0];
    let g = ask(m, t, x);
    m.close("flat-late", g, v, 0.0, 0.0, || who(t, x));
}

#[derive(Clone, Debug)]
struct Column {
    k: f64,
    /// (number of caplets, true sigma of the segment ending there)
    segs: Vec<(usize, f64)>,
}

fn quote(cap: &Cap, npv: f64) -> CapQuote {
    CapQuote {
        strike: cap.k,
        notional: cap.n,
        direction: if cap.buy { Direction::Buy } else { Direction::Sell },
        kind: if cap.cap { CapFloorKind::Cap } else { CapFloorKind::Floor },
        style: if cap.forward { CapStyle::ForwardLooking } else { CapStyle::BackwardCompounded },
        currency: Currency::EUR,
        schedule: sched(cap),
        accrual_day_counter: counter(cap.dc).1,
        market_npv: npv,
    }
}
fn sched(cap: &Cap) -> Vec<InterestRateSchedulePeriod> {
    cap.rows
        .iter()
        .map(|(s, e, p)| InterestRateSchedulePeriod::new(date(*s), date(*e), date(*p), date(*s), 0.0, cap.n))
        .collect()
}
fn deal(cap: &Cap, val: i64) -> CapFloor {
    CapFloor {
        basic_info: BasicInfo {
            trade_date: date(val),
            style: Style::IRSwap,
            direction: if cap.buy { Direction::Buy } else { Direction::Sell },
            expiry_date: date(val),
            delivery_date: date(val),
        },
        kind: if cap.cap { CapFloorKind::Cap } else { CapFloorKind::Floor },
        style: if cap.forward { CapStyle::ForwardLooking } else { CapStyle::BackwardCompounded },
        currency: Currency::EUR,
        notional: cap.n,
        strike: cap.k,
        valuation_date: date(val),
        schedule: sched(cap),
        accrual_day_counter: counter(cap.dc).1,
    }
}

fn strips(m: &mut Mon, k: usize) {
    let r: &mut Rng = &mut m.rng;
    let val = days_from_civil(r.i(2000, 2050) as i32, 1, 3) + r.i(0, 300);
    // the curve comes from deposits so that the full quote-to-context route runs
    let base = r.f(-0.005, 0.06);
    let slope = r.f(-0.002, 0.004);
    let ois = || -> Vec<OISRate> {
        [1u32, 3, 6, 12, 24, 60, 120]
            .iter()
            .enumerate()
            .map(|(i, n)| OISRate {
                value: base + slope * i as f64,
                interest_rate_index: InterestRateIndex {
                    period: P::Months(*n),
                    settlement_days: 2,
                    currency: Currency::EUR,
                    calendar: Box::new(Target),
                    convention: B::ModifiedFollowing,
                    day_counter: counter(0).1,
                    end_of_month: false,
                },
            })
            .collect()
    };
    let md = YieldTermMarketData::new(date(val), ois(), vec![], vec![]);
    let Ok(Ok(sc)) = Mon::attempt(|| md.get_stripped_curve()) else {
        m.violate("curve/error", format!("{val}"));
        return;
    };
    let c = Curve::of(val, &sc);
    let maxn = r.i(2, 20) as usize;
    let start = if r.chance(0.15) { val - r.i(0, 25) } else { val + r.i(1, 40) };
    let rows = strip(r, start, maxn);
    let rect = r.chance(0.6);
    let mixed = r.chance(0.4);
    let dc = r.n(4);
    let forward = r.b();
    let mut ends: Vec<usize> = (0..r.i(1, 5)).map(|_| r.i(1, maxn as i64) as usize).collect();
    ends.sort();
    ends.dedup();
    let nk = r.i(1, 5);
    // strikes a hair apart and volatilities near the ends of the solver's range
    let (near, wide) = (r.chance(0.12), r.chance(0.2));
    let mut kk = base + slope * 3.0 - r.f(0.0, 0.012);
    let mut cols: Vec<Column> = vec![];
    for _ in 0..nk {
        let mut e = ends.clone();
        if !rect {
            e = (0..r.i(1, 5)).map(|_| r.i(1, maxn as i64) as usize).collect();
            e.sort();
            e.dedup();
        }
        let (lo, hi) = if wide { (0.0004, 0.09) } else { (0.003, 0.03) };
        cols.push(Column { k: kk, segs: e.iter().map(|n| (*n, if wide { r.lf(lo, hi) } else { r.f(lo, hi) })).collect() });
        kk += if near { r.lf(1e-7, 1e-4) } else { r.f(0.0005, 0.006) };
    }
    // quotes priced by the independent formula on each column's true vols
    let mut quotes: Vec<(usize, usize, Cap, f64)> = vec![];
    for (ci, col) in cols.iter().enumerate() {
        // now and then both the cap and the floor of one maturity are quoted
        let both: Vec<usize> = (0..col.segs.len()).flat_map(|i| vec![i; if r.chance(0.15) { 2 } else { 1 }]).collect();
        for si in both {
            let n = &col.segs[si].0;
            // caps of one column may pay at different frequencies: a cap of
            // merged periods can have fewer of them than a shorter cap
            let f = if mixed { *r.pick(&[1usize, 2, 3, 6]) } else { 1 };
            let mut own: Vec<(i64, i64, i64)> = vec![];
            let mut at = *n as i64 - 1;
            while at >= 0 {
                let z = (at as usize + f).min(maxn) - 1;
                own.push((rows[at as usize].0, rows[z].1, rows[z].2));
                at -= f as i64;
            }
            own.reverse();
            let cap = Cap { cap: r.b(), forward, buy: r.b(), n: r.lf(1e4, 1e9), k: col.k, dc, rows: own };
            let sig = |d: i64| {
                let j = rows.iter().position(|x| x.0 == d).unwrap();
                col.segs.iter().find(|s| j < s.0).unwrap().1
            };
            let v = cap.value(&c, &sig, 0.0, 0.0).0;
            // a quote without time value determines no volatility
            let last = if si == 0 { 0 } else { col.segs[si - 1].0 };
            let dead = |d: i64| if rows.iter().position(|x| x.0 == d).unwrap() >= last { 1e-5 } else { sig(d) };
            if (v - cap.value(&c, &dead, 0.0, 0.0).0).abs() < 1e-9 * cap.n {
                m.trivial();
                return;
            }
            quotes.push((ci, si, cap, v));
        }
    }
    r.shuffle(&mut quotes);
    let who = || format!("val {} rect {rect} cols {cols:?} rows {rows:?} {c:?}", date(val));
    m.section(&format!("strip {k}"));
    let capmd = IRCapMarketData::new(date(val), quotes.iter().map(|q| quote(&q.2, q.3)).collect());
    let mut s = IRNormalVolSurface::new(date(val - 3));
    m.check(s.caplet_volatility(date(val), 0.0).is_err(), "unstripped-is-error", who);
    match m.guard("panic/rebuild", who, || s.rebuild(&yts(val, &sc), &capmd)) {
        Some(Ok(())) => {}
        o => {
            m.violate("strip/error", format!("{o:?} {}", who()));
            return;
        }
    }
    m.case((k, val, quotes.len()));
    m.check(s.valuation_date == date(val), "surface-date", who);
    // expected pillars: all segment ends, each strike represented by its most
    // recent segment
    let mut exp: Vec<i64> = cols.iter().flat_map(|c| c.segs.iter().map(|s| rows[s.0 - 1].0)).collect();
    exp.sort();
    exp.dedup();
    if !m.check(s.pillars.iter().map(|p| num(p.expiry)).collect::<Vec<_>>() == exp, "pillar-dates", who) {
        return;
    }
    for p in &s.pillars {
        let e = num(p.expiry);
        let want: Vec<(f64, f64)> = cols
            .iter()
            .filter_map(|c| c.segs.iter().rfind(|s| rows[s.0 - 1].0 <= e).map(|s| (c.k, s.1)))
            .collect();
        let ks: Vec<f64> = p.nodes.iter().map(|n| n.0).collect();
        if !m.check(ks == want.iter().map(|w| w.0).collect::<Vec<_>>(), "pillar-strikes", || format!("{p:?} want {want:?} {}", who())) {
            return;
        }
    }
    // columns recover the volatilities that produced the quotes, wherever the
    // quote determines them
    let mut weak = vec![f64::INFINITY; cols.len()];
    let vega = |ci: usize, si: usize, cap: &Cap, v: f64| {
        let at = |tweak: f64| {
            let s = |d: i64| {
                let j = rows.iter().position(|x| x.0 == d).unwrap();
                let i = cols[ci].segs.iter().position(|s| j < s.0).unwrap();
                cols[ci].segs[i].1 + if i == si { tweak } else { 0.0 }
            };
            ((cap.value(&c, &s, 0.0, 0.0).0 - v) / tweak).abs()
        };
        at(1e-4).min(at(-1e-4))
    };
    for (ci, si, cap, v) in &quotes {
        weak[*ci] = weak[*ci].min(vega(*ci, *si, cap, *v) / cap.n);
    }
    for (ci, si, cap, v) in &quotes {
        let col = &cols[*ci];
        let vega = vega(*ci, *si, cap, *v);
        let e = rows[col.segs[*si].0 - 1].0;
        let p = s.pillars.iter().find(|p| num(p.expiry) == e).unwrap();
        let got = p.nodes.iter().find(|n| n.0 == col.k).unwrap().1;
        if vega > 1e-2 * cap.n {
            m.close("stripped-vol", got, col.segs[*si].1, 0.0, 1e-7, || format!("col {ci} seg {si} {}", who()));
            m.count("identified_vols");
        }
        // of two quotes of one maturity only one is solved for, and it bears on
        // the other as far as it determines the volatilities
        let twins = quotes.iter().filter(|q| q.0 == *ci && q.1 == *si).count() > 1;
        if rect && twins {
            m.count("cap_and_floor_of_one_maturity");
        }
        if rect && (!twins || weak[*ci] > 1e-2) {
            let ctx = IrMarketContext::new(date(val), Currency::EUR, yts(val, &sc), Some(IRNormalVolSurface { valuation_date: s.valuation_date, pillars: s.pillars.clone() }));
            match Mon::attempt(|| deal(cap, val).mtm(&ctx)) {
                Ok(Ok(x)) => {
                    m.close("reprices", x.value / cap.n, v / cap.n, 0.0, 5e-11, || format!("cap {cap:?} {}", who()));
                    m.count("repriced");
                }
                o => m.violate("reprice/error", format!("{o:?}")),
            }
        }
    }
    // the raw-quote route ends on the same surface
    match m.guard("panic/context", who, || {
        IrMarketContext::from_raw_quotes(
            date(val),
            Currency::EUR,
            YieldTermMarketData::new(date(val), ois(), vec![], vec![]),
            Some(IRCapMarketData::new(date(val), quotes.iter().map(|q| quote(&q.2, q.3)).collect())),
            Box::new(Target),
            Box::<Actual365Fixed>::default(),
        )
    }) {
        Some(Ok(x)) => {
            let same = x.cap_surface.as_ref().is_some_and(|y| {
                y.pillars.len() == s.pillars.len() && y.pillars.iter().zip(&s.pillars).all(|(a, b)| a.expiry == b.expiry && a.nodes == b.nodes)
            });
            m.check(same, "context-surface", who);
        }
        o => m.violate("context/error", format!("{:?} {}", o.is_some(), who())),
    }
    // a premium below intrinsic has no volatility: it must be refused
    let (_, _, cap, v) = &quotes[0];
    let mut bad = cap.clone();
    bad.buy = true;
    let v = v.abs();
    let low = bad.value(&c, &|_| 1e-5, 0.0, 0.0).0;
    let bq = IRCapMarketData::new(date(val), vec![quote(&bad, low - 1e-4 * (v + bad.n * 1e-3))]);
    let mut t = IRNormalVolSurface::new(date(val));
    let res = m.guard("panic/impossible", who, || t.rebuild(&yts(val, &sc), &bq));
    m.check(matches!(res, Some(Err(_))), "impossible-premium", || format!("accepted {:?} {}", t.pillars, who()));
    m.count(if rect { "rectangular" } else { "ragged" });
    let crossed = quotes.iter().any(|a| quotes.iter().any(|b| a.0 == b.0 && a.1 < b.1 && a.2.rows.len() > b.2.rows.len()));
    if crossed {
        m.count("longer_cap_with_fewer_periods");
    }
    if k < 4 {
        m.sample(json!({"valuation": date(val), "columns": format!("{cols:?}"), "pillars": s.pillars.len()}));
    }
}

fn body(m: &mut Mon) {
    m.assume("caps quoted at one strike draw their accrual dates from one grid (at their own frequency); quotes are priced with normal vols between 4 and 900 bp");
    for k in 0..m.scale(6_000, 200_000) {
        queries(m, k);
    }
    for k in 0..m.scale(2_500, 60_000) {
        strips(m, k);
    }
    m.need("between", 20_000);
    m.need("identified_vols", 1500);
    m.need("repriced", 1000);
    m.need("ragged", 100);
    m.need("longer_cap_with_fewer_periods", 60);
}

fn main() {
    fqmon::run("C15", "distinct surface cells queried and distinct quote sets stripped", body)
}
