//! C13: a swap is worth the discounted sum of its cash flows.
use finquant::derivatives::basic::Direction;
use finquant::derivatives::interestrate::basic::{IRDerivatives, RateShiftMode};
use finquant::derivatives::interestrate::swap::*;
use finquant::markets::interestrate::interestrateindex::InterestRateIndex;
use finquant::markets::interestrate::market_context::IrMarketContext;
use finquant::markets::termstructures::yieldcurve::StrippedCurve;
use finquant::time::businessdayconvention::BusinessDayConvention as B;
use finquant::time::calendars::{Calendar, Target, UnitedKingdom, UnitedStates};
use finquant::time::frequency::Frequency as F;
use finquant::time::period::Period as P;
use fqmon::dates::*;
use fqmon::rates::*;
use fqmon::{Mon, Rng, biz};
use iso_currency::Currency;
use serde_json::json;

fn cal(k: usize) -> Box<dyn Calendar> {
    match k % 3 {
        0 => Box::<Target>::default(),
        1 => Box::<UnitedStates>::default(),
        _ => Box::<UnitedKingdom>::default(),
    }
}

#[derive(Clone, Debug)]
struct Leg {
    fixed: Option<f64>,
    spread: f64,
    buy: bool,
    n: f64,
    ccy: usize,
    dc: usize,
    c: usize,
    lag: i64,
    pay: i64,
    b: B,
    step: u32,
    count: u32,
    /// explicit periods: start, end, pay, balance
    rows: Option<Vec<(i64, i64, i64, f64)>>,
}

const CCY: [Currency; 4] = [Currency::EUR, Currency::USD, Currency::GBP, Currency::JPY];

fn periods(l: &Leg, val: i64) -> Vec<(i64, i64, i64, f64)> {
    if let Some(r) = &l.rows {
        return r.clone();
    }
    let k = cal(l.c);
    let eff = biz::walk(k.as_ref(), val, l.lag, l.b);
    let mut a = eff;
    (1..=l.count)
        .map(|j| {
            let e = biz::tenor(k.as_ref(), eff, P::Months(j * l.step), l.b);
            let row = (a, e, biz::walk(k.as_ref(), e, l.pay, l.b), l.n);
            a = e;
            row
        })
        .collect()
}

fn build(legs: &[Leg]) -> InterestRateSwap {
    InterestRateSwap::new(
        legs.iter()
            .map(|l| {
                let f = match l.step {
                    1 => F::Monthly,
                    3 => F::Quarterly,
                    6 => F::Semiannual,
                    _ => F::Annual,
                };
                InterestRateSwapLeg::new(
                    match l.fixed {
                        Some(coupon) => InterestRateSwapLegType::Fixed { coupon },
                        None => InterestRateSwapLegType::Float { spread: l.spread },
                    },
                    if l.buy { Direction::Buy } else { Direction::Sell },
                    InterestRateIndex {
                        period: P::Months(3),
                        settlement_days: l.lag,
                        currency: CCY[l.ccy],
                        calendar: cal(l.c),
                        convention: l.b,
                        day_counter: counter(0).1,
                        end_of_month: false,
                    },
                    l.n,
                    ScheduleDetail::new(
                        f,
                        P::Months(l.step),
                        P::Months(l.step * l.count),
                        counter(l.dc).1,
                        cal(l.c),
                        l.b,
                        l.lag,
                        l.pay,
                        0,
                    ),
                    l.rows
                        .as_ref()
                        .map(|r| {
                            r.iter()
                                .map(|(a, e, p, bal)| InterestRateSchedulePeriod::new(date(*a), date(*e), date(*p), date(*a), 0.0, *bal))
                                .collect()
                        })
                        .unwrap_or_default(),
                )
            })
            .collect(),
    )
}

/// Sum of signed discounted flows and the sum of their magnitudes.
fn value(legs: &[Leg], val: i64, c: &Curve, bp: f64) -> (f64, f64) {
    let (mut v, mut mag) = (0.0, 0.0);
    for l in legs {
        let s = if l.buy { 1.0 } else { -1.0 };
        let yf = counter(l.dc).2;
        let rows = periods(l, val);
        let d = |n| c.df_shift(n, bp);
        for (a, e, p, bal) in &rows {
            let t = yf(*a, *e);
            let cf = match l.fixed {
                Some(k) => k * t,
                None => d(*a) / d(*e) - 1.0 + l.spread * t,
            };
            v += s * bal * cf * d(*p);
            mag += (bal * cf * d(*p)).abs();
        }
        if let Some((_, _, p, bal)) = rows.last() {
            v += s * bal * d(*p);
            mag += (bal * d(*p)).abs();
        }
    }
    (v, mag)
}

fn gen_leg(r: &mut Rng, val: i64) -> Leg {
    let step = *r.pick(&[1u32, 3, 6, 12]);
    let life = if r.chance(0.2) { 40 } else { 10 };
    let count = r.i(1, (life * 12 / step as i64).min(60)) as u32;
    let b = *r.pick(&[B::ModifiedFollowing, B::Following, B::Preceding]);
    let n = r.lf(1.0, 1e9);
    let rows = if r.chance(0.35) {
        let mut a = val + r.i(0, 400);
        let mut bal = n;
        Some(
            (0..r.i(1, 40))
                .map(|_| {
                    let e = a + if r.chance(0.1) { r.i(1, 5) } else { r.i(20, 400) };
                    let row = (a, e, e + r.i(0, 10), bal);
                    a = e + if r.chance(0.1) { r.i(0, 30) } else { 0 };
                    bal *= r.f(0.7, 1.15);
                    row
                })
                .collect(),
        )
    } else {
        None
    };
    Leg {
        fixed: if r.b() { Some(r.f(-0.02, 0.12)) } else { None },
        spread: if r.b() { r.f(-0.01, 0.01) } else { 0.0 },
        buy: r.b(),
        n,
        ccy: r.n(4),
        dc: r.n(4),
        c: r.n(3),
        lag: r.i(0, 3),
        pay: r.i(0, 3),
        b,
        step,
        count,
        rows,
    }
}

fn ctx(val: i64, sc: &[StrippedCurve]) -> IrMarketContext {
    IrMarketContext::new(date(val), Currency::EUR, yts(val, sc), None)
}

fn one(m: &mut Mon, k: usize) {
    let r = &mut m.rng;
    let val = days_from_civil(r.i(1990, 2060) as i32, 1, 1) + r.i(0, 364);
    let sc = if r.chance(0.5) { random_pillars(r, val, true) } else { plausible(r, val) };
    let nl = *r.pick(&[1usize, 2, 2, 2, 3]);
    let mut legs: Vec<Leg> = (0..nl).map(|_| gen_leg(r, val)).collect();
    if nl == 2 && r.chance(0.7) {
        // matched vanilla swap
        let (n, lag, c, buy) = (legs[0].n, legs[0].lag, legs[0].c, legs[0].buy);
        legs[1].n = n;
        legs[1].lag = lag;
        legs[1].c = c;
        legs[1].buy = !buy;
        legs[0].fixed = Some(r.f(-0.02, 0.12));
        legs[1].fixed = None;
    }
    if legs.iter().any(|l| periods(l, val).iter().any(|p| counter(l.dc).2(p.0, p.1) <= 0.0)) {
        m.trivial();
        return;
    }
    let c = Curve::of(val, &sc);
    let who = || format!("val {} legs {legs:?} curve {c:?}", date(val));
    m.section(&format!("swap {k}"));
    let (v, mag) = value(&legs, val, &c, 0.0);
    if !mag.is_finite() || mag > 1e30 {
        m.trivial();
        return;
    }
    let s = build(&legs);
    let kinds = s.legs.len() == nl && s.legs.iter().zip(&legs).all(|(a, b)| a.is_fixe_leg() == b.fixed.is_some() && a.get_reference_rate() == b.fixed.unwrap_or(b.spread));
    m.check(kinds, "leg-kind-and-rate", who);
    let Some(Ok(npv)) = m.guard("panic/npv", who, || s.npv(date(val), &mut yts(val, &sc))) else {
        m.violate("npv/error", who());
        return;
    };
    m.case((k, nl, val));
    m.close("npv", npv / mag, v / mag, 0.0, 2e-12, who);
    let mk = ctx(val, &sc);
    match m.guard("panic/mtm", who, || s.mtm(&mk)) {
        Some(Ok(x)) => {
            m.close("mtm", x.value / mag, v / mag, 0.0, 2e-12, who);
            m.check(x.currency == CCY[legs[0].ccy], "mtm-currency", || format!("{:?} {}", x.currency, who()));
        }
        o => m.violate("mtm/error", format!("{o:?} {}", who())),
    }
    // sensitivities are repricings on the bumped curve
    let (up, m2) = value(&legs, val, &c, 1.0);
    if let Some(Ok(d)) = m.guard("panic/dv01", who, || s.dv01(&mk)) {
        m.close("dv01", d / (mag + m2), (up - v) / (mag + m2), 0.0, 2e-12, who);
        if let Some(Ok(x)) = m.guard("panic/duration", who, || s.modified_duration(&mk)) {
            if v.abs() > 1e-6 * mag && v.abs() > 1e-9 {
                m.close("modified-duration", x, -(up - v) * 1e4 / v, 1e-6, 1e-3, who);
                m.count("durations");
            }
            m.check(x.is_finite(), "duration-finite", who);
        } else {
            m.violate("duration/error", who());
        }
    } else {
        m.violate("dv01/error", who());
    }
    let bp = if m.rng.chance(0.15) { -m.rng.f(0.5, 50.0) } else { m.rng.f(0.5, 50.0) };
    let (a, ma) = value(&legs, val, &c, bp);
    let (b, mb) = value(&legs, val, &c, -bp);
    if let Some(Ok(g)) = m.guard("panic/gamma", who, || s.gamma(&mk, bp, RateShiftMode::Zeros)) {
        let t = mag + ma + mb;
        m.close("gamma", g / t, (a + b - 2.0 * v) / t, 0.0, 2e-12, who);
    } else {
        m.violate("gamma/error", who());
    }
    for mode in [RateShiftMode::Instruments, RateShiftMode::Forwards, RateShiftMode::Swaps] {
        m.check(matches!(Mon::attempt(|| s.gamma(&mk, bp, mode)), Ok(Err(_))), "unsupported-mode", || format!("{mode:?}"));
    }
    let vb = m.rng.f(-10.0, 10.0);
    m.check(matches!(Mon::attempt(|| s.vega(&mk, vb)), Ok(Ok(x)) if x == 0.0), "vega-zero", who);
    // symmetry, linearity, additivity, fair rate on the observed code itself
    let mut neg = legs.clone();
    neg.iter_mut().for_each(|l| l.buy = !l.buy);
    let mut scaled = legs.clone();
    let f = m.rng.lf(0.01, 100.0);
    for l in &mut scaled {
        l.n *= f;
        if let Some(r) = &mut l.rows {
            r.iter_mut().for_each(|x| x.3 *= f);
        }
    }
    let run = |m: &mut Mon, ls: &[Leg], key: &str| -> Option<f64> {
        match Mon::attempt(|| build(ls).mtm(&mk)) {
            Ok(Ok(x)) => Some(x.value),
            o => {
                m.violate(key, format!("{o:?}"));
                None
            }
        }
    };
    if let Some(x) = run(m, &neg, "error/neg") {
        m.close("pay-receive", x / mag, -npv / mag, 0.0, 2e-12, who);
    }
    if let Some(x) = run(m, &scaled, "error/scaled") {
        m.close("notional-linear", x / f / mag, npv / mag, 0.0, 2e-12, who);
    }
    let mut sum = 0.0;
    for l in &legs {
        sum += run(m, std::slice::from_ref(l), "error/leg").unwrap_or(f64::NAN);
    }
    m.close("legs-add-up", sum / mag, npv / mag, 0.0, 2e-12, who);
    if let Some(j) = legs.iter().position(|l| l.fixed.is_some()) {
        let mut z = legs.clone();
        z[j].fixed = Some(0.0);
        let (v0, _) = value(&z, val, &c, 0.0);
        z[j].fixed = Some(1.0);
        let (v1, _) = value(&z, val, &c, 0.0);
        let fair = -v0 / (v1 - v0);
        if fair.abs() < 1e3 {
            z[j].fixed = Some(fair);
            let (_, fm) = value(&z, val, &c, 0.0);
            if let Some(x) = run(m, &z, "error/fair") {
                m.close("fair-rate", x / fm, 0.0, 0.0, 1e-10, || format!("fair {fair} {}", who()));
                m.count("fair_rates");
            }
        }
    }
    if k < 4 {
        m.sample(json!({"val": date(val), "legs": nl, "npv": npv}));
    }
    m.add("legs", nl as u64);
    if legs.iter().any(|l| l.rows.is_some()) {
        m.count("explicit_schedules");
    }
}

fn plausible(r: &mut Rng, val: i64) -> Vec<StrippedCurve> {
    let base = r.f(-0.01, 0.06);
    let slope = r.f(-0.001, 0.002);
    [30, 91, 182, 365, 730, 1825, 3650, 7300, 10950]
        .iter()
        .map(|d| pillar(val, val + d, base + slope * (*d as f64 / 365.0).sqrt(), val, false))
        .collect()
}

fn body(m: &mut Mon) {
    m.assume("payments fall on or after the valuation date; every accrual period has a positive year fraction");
    m.section("no legs");
    let r = Mon::attempt(|| build(&[]).mtm(&ctx(18000, &[pillar(18000, 18365, 0.02, 18000, false)])));
    m.check(matches!(r, Ok(Err(_))), "no-legs-is-error", || format!("{r:?}"));
    for k in 0..m.scale(4_000, 200_000) {
        one(m, k);
    }
    m.need("legs", 5000);
    m.need("fair_rates", 1500);
    m.need("durations", 1500);
    m.need("explicit_schedules", 1000);
}

fn main() {
    fqmon::run("C13", "distinct swaps valued on distinct curves", body)
}
