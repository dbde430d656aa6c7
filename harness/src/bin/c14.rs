//! C14: caps and floors are sums of normal-model optionlets.
use finquant::derivatives::basic::{BasicInfo, Direction, Style};
use finquant::derivatives::interestrate::basic::*;
use finquant::derivatives::interestrate::cap::CapFloor;
use finquant::derivatives::interestrate::swap::InterestRateSchedulePeriod;
use finquant::markets::interestrate::market_context::IrMarketContext;
use finquant::markets::interestrate::volsurface::{CapletVolPillar, IRNormalVolSurface};
use fqmon::Mon;
use fqmon::caps::*;
use fqmon::dates::*;
use fqmon::rates::*;
use iso_currency::Currency;
use serde_json::json;

type Pillars = Vec<(i64, Vec<(f64, f64)>)>;

fn read(p: &Pillars, start: i64, k: f64) -> f64 {
    let nodes = &p.iter().find(|x| x.0 >= start).unwrap_or(&p[p.len() - 1]).1;
    if k <= nodes[0].0 {
        return nodes[0].1;
    }
    for w in nodes.windows(2) {
        if k <= w[1].0 {
            return w[0].1 + (w[1].1 - w[0].1) * (k - w[0].0) / (w[1].0 - w[0].0);
        }
    }
    nodes[nodes.len() - 1].1
}

fn build(c: &Cap, val: i64) -> CapFloor {
    let (a, b) = (c.rows[0].0, c.rows[c.rows.len() - 1]);
    CapFloor {
        basic_info: BasicInfo {
            trade_date: date(val),
            style: Style::IRSwap,
            direction: if c.buy { Direction::Buy } else { Direction::Sell },
            expiry_date: date(a.max(val)),
            delivery_date: date(b.2),
        },
        kind: if c.cap { CapFloorKind::Cap } else { CapFloorKind::Floor },
        style: if c.forward { CapStyle::ForwardLooking } else { CapStyle::BackwardCompounded },
        currency: Currency::USD,
        notional: c.n,
        strike: c.k,
        valuation_date: date(val),
        schedule: c
            .rows
            .iter()
            .map(|(s, e, p)| InterestRateSchedulePeriod::new(date(*s), date(*e), date(*p), date(*s), 0.0, c.n))
            .collect(),
        accrual_day_counter: counter(c.dc).1,
    }
}

fn one(m: &mut Mon, k: usize) {
    let r = &mut m.rng;
    let val = days_from_civil(r.i(1995, 2055) as i32, 1, 1) + r.i(0, 364);
    let base = r.f(-0.01, 0.07);
    let sc = if r.chance(0.3) {
        random_pillars(r, val, true)
    } else {
        let sl = r.f(-0.0008, 0.0015);
        [30, 182, 365, 1095, 2555, 5475, 10950].iter().enumerate().map(|(i, d)| pillar(val, val + d, base + sl * i as f64, val, false)).collect()
    };
    let c = Curve::of(val, &sc);
    let np = r.i(1, 6);
    let mut e = val;
    let mut ps: Pillars = vec![];
    for _ in 0..np {
        e += r.i(20, 1500);
        let mut kk = base - r.f(0.0, 0.05);
        let nodes = (0..if r.chance(0.05) { r.i(7, 40) } else { r.i(1, 6) })
            .map(|_| {
                kk += r.f(0.001, 0.02);
                (kk, if r.chance(0.02) { 0.0 } else if r.chance(0.08) { r.f(0.03, 0.2) } else { r.lf(0.0005, 0.03) })
            })
            .collect();
        ps.push((e, nodes));
    }
    let n = if r.chance(0.04) { r.i(25, 130) } else { r.i(1, 24) } as usize;
    // some strips have a first period already in accrual
    let start = if r.chance(0.25) { val - r.i(1, 29) } else { val + r.i(0, 600) };
    let mut rows = strip(r, start, n);
    if r.chance(0.06) {
        // the first accrual is over, its payment still to come
        let back = rows[0].1 - val + r.i(0, rows[0].2 - rows[0].1);
        rows.iter_mut().for_each(|x| *x = (x.0 - back, x.1 - back, x.2 - back));
    }
    let ended = rows[0].1 <= val;
    let start = rows[0].0;
    let mut cap = Cap {
        cap: r.b(),
        forward: r.b(),
        buy: r.b(),
        n: r.lf(1.0, 1e9),
        k: if r.chance(0.2) { r.f(-0.05, 0.2) } else { base + r.f(-0.02, 0.02) },
        dc: r.n(4),
        rows,
    };
    if r.chance(0.15) {
        cap.k = cap.fwd(r.n(n), &c, 0.0);
    }
    if r.chance(0.1) {
        let j = r.n(ps.len());
        let i = r.n(ps[j].1.len());
        cap.k = ps[j].1[i].0;
    }
    let who = || format!("val {} {cap:?} vols {ps:?} {c:?}", date(val));
    m.section(&format!("cap {k}"));
    let s = |d: i64| read(&ps, d, cap.k);
    let (v, mag) = cap.value(&c, &s, 0.0, 0.0);
    if !mag.is_finite() || mag > 1e30 {
        m.trivial();
        return;
    }
    let surf = IRNormalVolSurface {
        valuation_date: date(val),
        pillars: ps.iter().map(|(e, n)| CapletVolPillar { expiry: date(*e), nodes: n.clone() }).collect(),
    };
    let mk = IrMarketContext::new(date(val), Currency::USD, yts(val, &sc), Some(surf));
    let mut deal = build(&cap, val);
    if m.rng.chance(0.3) {
        // dealt a while ago
        deal.basic_info.trade_date = date(val - m.rng.i(1, 900));
    }
    m.case((k, n, val));
    let pv = match m.guard("panic/mtm", who, || deal.mtm(&mk)) {
        Some(Ok(x)) => {
            m.check(x.currency == Currency::USD, "currency", who);
            x.value
        }
        o => {
            m.violate("mtm/error", format!("{o:?} {}", who()));
            return;
        }
    };
    const T: f64 = 5e-10;
    m.close("pv", pv / mag, v / mag, 0.0, T, who);
    // never below intrinsic (from the holder's side)
    let mut intr = 0.0;
    let mut fwdleg = 0.0;
    for j in 0..n {
        let a = cap.n * cap.tau(j) * c.df(cap.rows[j].2);
        let d = cap.fwd(j, &c, 0.0) - cap.k;
        intr += a * (if cap.cap { d } else { -d }).max(0.0);
        fwdleg += a * d;
    }
    let long = if cap.buy { pv } else { -pv };
    m.check(long >= intr - T * mag, "below-intrinsic", || format!("{long} < {intr} {}", who()));
    let mut twin = cap.clone();
    twin.cap = !cap.cap;
    if let Ok(Ok(x)) = Mon::attempt(|| build(&twin, val).mtm(&mk)) {
        let sign = if cap.buy { 1.0 } else { -1.0 };
        let d = if cap.cap { pv - x.value } else { x.value - pv };
        m.close("cap-floor-parity", d / mag, sign * fwdleg / mag, 0.0, T, who);
    } else {
        m.violate("twin/error", who());
    }
    let mut neg = cap.clone();
    neg.buy = !cap.buy;
    if let Ok(Ok(x)) = Mon::attempt(|| build(&neg, val).mtm(&mk)) {
        m.close("direction", x.value / mag, -pv / mag, 0.0, 1e-13, who);
    } else {
        m.violate("neg/error", who());
    }
    // sensitivities
    let (up, mu) = cap.value(&c, &s, 1.0, 0.0);
    if let Some(Ok(d)) = m.guard("panic/dv01", who, || deal.dv01(&mk)) {
        m.close("dv01", d / (mag + mu), (up - v) / (mag + mu), 0.0, T, who);
        if v.abs() > 1e-5 * mag && v.abs() > 1e-9 {
            match m.guard("panic/duration", who, || deal.modified_duration(&mk)) {
                Some(Ok(x)) => {
                    m.close("modified-duration", x, -(up - v) * 1e4 / v, 1e-5, 0.3, who);
                }
                o => m.violate("duration/error", format!("{o:?}")),
            }
        }
    } else {
        m.violate("dv01/error", who());
    }
    let bp = if m.rng.chance(0.15) { -m.rng.f(1.0, 60.0) } else { m.rng.f(1.0, 60.0) };
    let (a, ma) = cap.value(&c, &s, bp, 0.0);
    let (b, mb) = cap.value(&c, &s, -bp, 0.0);
    match m.guard("panic/gamma", who, || deal.gamma(&mk, bp, RateShiftMode::Zeros)) {
        Some(Ok(g)) => {
            let t = mag + ma + mb;
            m.close("gamma", g / t, (a + b - 2.0 * v) / t, 0.0, T, who);
        }
        o => m.violate("gamma/error", format!("{o:?}")),
    }
    for mode in [RateShiftMode::Instruments, RateShiftMode::Forwards, RateShiftMode::Swaps] {
        m.check(matches!(Mon::attempt(|| deal.gamma(&mk, bp, mode)), Ok(Err(_))), "unsupported-mode", || format!("{mode:?}"));
    }
    let vb = if m.rng.b() { 1.0 } else { m.rng.f(-4.0, 40.0) };
    let (w, mw) = cap.value(&c, &s, 0.0, vb);
    match m.guard("panic/vega", who, || deal.vega(&mk, vb)) {
        Some(Ok(g)) => {
            m.close("vega", g / (mag + mw), (w - v) / (mag + mw), 0.0, T, who);
        }
        o => m.violate("vega/error", format!("{o:?}")),
    }
    if k % 16 == 0 {
        let bare = IrMarketContext::new(date(val), Currency::USD, yts(val, &sc), None);
        let e = Mon::attempt(|| (deal.mtm(&bare).is_err(), deal.dv01(&bare).is_err(), deal.vega(&bare, 1.0).is_err()));
        m.check(e == Ok((true, true, true)), "missing-surface", || format!("{e:?}"));
    }
    if v.abs() > 1e-6 * mag {
        m.count("with_value");
    }
    if start < val {
        m.count("in_accrual");
    }
    if ended {
        m.count("accrual_over");
    }
    m.add("optionlets", n as u64);
    if k < 4 {
        m.sample(json!({"valuation": date(val), "deal": format!("{cap:?}"), "pv": pv}));
    }
}

fn body(m: &mut Mon) {
    m.assume("payments fall on or after the valuation date, accruals have a positive year fraction, shifted vols stay non-negative");
    m.section("total variance");
    for _ in 0..m.scale(40_000, 2_000_000) {
        let r = &mut m.rng;
        let f = r.b();
        let ts = if r.chance(0.1) { 0.0 } else { r.f(-2.0, 30.0) };
        let te = ts + r.lf(0.001, 2.0);
        let s = if r.chance(0.05) { 0.0 } else { r.lf(1e-6, 0.2) };
        let style = if f { CapStyle::ForwardLooking } else { CapStyle::BackwardCompounded };
        let got = caplet_total_variance(style, s, ts, te);
        let want = variance(f, s, ts, te);
        m.close("total-variance", got, want, 1e-12, 0.0, || format!("{style:?} {s} {ts} {te}"));
        m.count("variances");
    }
    for k in 0..m.scale(12_000, 400_000) {
        one(m, k);
    }
    m.need("optionlets", 10_000);
    m.need("with_value", 1500);
    m.need("in_accrual", 300);
    m.need("accrual_over", 200);
}

fn main() {
    fqmon::run("C14", "distinct caps and floors valued on distinct markets", body)
}
