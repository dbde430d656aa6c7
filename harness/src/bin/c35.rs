//! C35: serialised objects come back the same.
use finquant::derivatives::basic::{BasicInfo, Direction, Style};
use finquant::derivatives::forex::basic::{CurrencyValue, FXDerivatives, FXUnderlying};
use finquant::derivatives::forex::forward::FXForward;
use finquant::derivatives::forex::option::{FXVanillaOption, OptionType};
use finquant::derivatives::interestrate::basic::{CapFloorKind, CapStyle, IRDerivatives, RateShiftMode};
use finquant::derivatives::interestrate::cap::CapFloor;
use finquant::derivatives::interestrate::swap::*;
use finquant::markets::forex::quotes::forwardpoints::FXForwardQuote;
use finquant::markets::interestrate::futures::InterestRateFutures;
use finquant::markets::interestrate::interestrateindex::{InterestRateIndex, InterestRateIndexEnum};
use finquant::markets::interestrate::market_context::IrMarketContext;
use finquant::markets::interestrate::volsurface::{CapletVolPillar, IRNormalVolSurface};
use finquant::markets::termstructures::yieldcurve::oisratehelper::OISRate;
use finquant::markets::termstructures::yieldcurve::ratehelper::FuturesRate;
use finquant::markets::termstructures::yieldcurve::*;
use finquant::time::businessdayconvention::BusinessDayConvention as B;
use finquant::time::calendars::{Calendar, JointCalendar};
use finquant::time::daycounters::DayCounters;
use finquant::time::daycounters::actual360::Actual360;
use finquant::time::daycounters::actual364::Actual364;
use finquant::time::daycounters::actual365fixed::Actual365Fixed;
use finquant::time::daycounters::actual366::Actual366;
use finquant::time::daycounters::actualactual::{ActualActual, ActualActualMarket};
use finquant::time::daycounters::business252::Business252;
use finquant::time::daycounters::thirty360::{Thirty360, Thirty360Market};
use finquant::time::daycounters::thirty365::Thirty365;
use finquant::time::frequency::Frequency as F;
use finquant::time::period::Period as P;
use fqmon::dates::*;
use fqmon::rates::*;
use fqmon::{Mon, Rng, biz, fx, markets};
use iso_currency::Currency;
use serde::Serialize;
use serde::de::DeserializeOwned;
use serde_json::json;
use std::fmt::Debug;
use std::str::FromStr;

fn main() {
    fqmon::run("C35", "distinct serialised documents whose copies were queried", body)
}

fn body(m: &mut Mon) {
    m.section("calendars");
    let n = m.scale(4, 60);
    for _ in 0..n {
        calendars(m);
    }
    m.section("day counters");
    let n = m.scale(40, 600);
    for _ in 0..n {
        counters(m);
    }
    m.section("enumerations");
    enums(m);
    m.section("currency pairs");
    pairs(m);
    m.section("rate quotes");
    let n = m.scale(400, 8000);
    for _ in 0..n {
        quotes(m);
    }
    m.section("curves");
    for _ in 0..n {
        curves(m);
    }
    m.section("swaps");
    for _ in 0..n {
        swaps(m);
    }
    m.section("caps");
    for _ in 0..n {
        caps(m);
    }
    m.section("FX deals");
    for _ in 0..n {
        deals(m);
    }
    for (k, c) in [("calendars", 300), ("joint calendars", 40), ("day counters", 300), ("plain values", 500), ("names", 17), ("garbled codes", 200), ("pairs", 50), ("cash quotes", 200), ("futures", 200), ("indices", 200), ("curves", 300), ("swaps", 300), ("caps", 300), ("FX forwards", 150), ("FX options", 150), ("queries answered", 20_000)] {
        m.need(k, c);
    }
    m.assume("documents are JSON, numbers parsed with exact round-trip precision");
    m.assume("numeric fields are finite, JSON has no notation for the others");
}

/// The object read back through each form of JSON; all must look and
/// serialise the same.
fn copies<T: Serialize + DeserializeOwned + Debug>(m: &mut Mon, kind: &str, x: &T) -> Vec<T> {
    let text = format!("{x:?}");
    let Ok(v) = serde_json::to_value(x) else {
        m.violate(&format!("{kind}: not serialisable"), text);
        return vec![];
    };
    let forms: Vec<(&str, Result<T, String>)> = vec![
        ("text", serde_json::to_string(x).map_err(|e| e.to_string()).and_then(|s| serde_json::from_str(&s).map_err(|e| e.to_string()))),
        ("pretty text", serde_json::to_vec_pretty(x).map_err(|e| e.to_string()).and_then(|s| serde_json::from_reader(&s[..]).map_err(|e| e.to_string()))),
        ("value", serde_json::from_value(v.clone()).map_err(|e| e.to_string())),
    ];
    let mut out = vec![];
    for (form, r) in forms {
        match r {
            Ok(c) => {
                let same = serde_json::to_value(&c).ok() == Some(v.clone());
                m.check(same, &format!("{kind}: second serialisation differs"), || format!("{form}: {v} became {:?}", serde_json::to_value(&c)));
                m.check(format!("{c:?}") == text, &format!("{kind}: copy differs"), || format!("{form}: {text} became {c:?}"));
                out.push(c);
            }
            Err(e) => m.violate(&format!("{kind}: not readable"), format!("{form}: {e}: {v}")),
        }
    }
    m.case(v.to_string());
    if m.rng.chance(0.001) {
        m.sample(json!({"kind": kind, "document": v.to_string().chars().take(300).collect::<String>()}));
    }
    out
}

/// Same question to the original and every copy.
fn ask<T, A: Debug>(m: &mut Mon, kind: &str, x: &T, cs: &[T], q: impl Fn(&T) -> A) {
    let run = |t: &T| match Mon::attempt(|| format!("{:?}", q(t))) {
        Ok(s) => s,
        Err(e) => format!("panic {e}"),
    };
    let want = run(x);
    for c in cs {
        let got = run(c);
        m.check(got == want, &format!("{kind}: answers differ"), || format!("original {want} copy {got}"));
        m.count("queries answered");
    }
}

fn all_calendars() -> Vec<Box<dyn Calendar>> {
    markets::markets().into_iter().map(|x| x.1).collect()
}

fn calendars(m: &mut Mon) {
    for (name, c) in markets::markets() {
        let cs = copies(m, &format!("calendar {name}"), &c);
        calendar_questions(m, name, &c, &cs);
        m.count("calendars");
    }
    for _ in 0..20 {
        let k = m.rng.i(0, 4);
        let pick = |r: &mut Rng| {
            let mut a = all_calendars();
            let i = r.n(a.len());
            a.swap_remove(i)
        };
        let mut v: Vec<Box<dyn Calendar>> = (0..k).map(|_| pick(&mut m.rng)).collect();
        if m.rng.chance(0.2) {
            let inner = vec![pick(&mut m.rng), pick(&mut m.rng)];
            v.push(Box::new(JointCalendar::new(inner)));
        }
        let c: Box<dyn Calendar> = Box::new(JointCalendar::new(v));
        let cs = copies(m, "joint calendar", &c);
        calendar_questions(m, "joint", &c, &cs);
        m.count("joint calendars");
    }
}

fn calendar_questions(m: &mut Mon, name: &str, c: &Box<dyn Calendar>, cs: &[Box<dyn Calendar>]) {
    let a = m.rng.i(days_from_civil(1950, 1, 1), days_from_civil(2090, 1, 1));
    ask(m, &format!("calendar {name}"), c, cs, |c| (a..a + 1500).map(|n| if c.is_business_day(date(n)) { '1' } else { '0' }).collect::<String>());
    for _ in 0..3 {
        let d = date(m.rng.i(days_from_civil(1950, 1, 1), days_from_civil(2090, 1, 1)));
        let (b, k, p) = (*m.rng.pick(&biz::ALL), m.rng.i(1, 200), fx::tenor(&mut m.rng));
        ask(m, &format!("calendar {name}"), c, cs, |c| {
            let x = d + chrono::Days::new(k as u64);
            (c.adjust(d, b), c.advance(d, p, b, Some(k % 2 == 0)).ok(), c.business_days_between(d, x, Some(true), Some(k % 3 == 0)), c.end_of_month(d), c.is_holiday(d))
        });
    }
}

fn dcs(r: &mut Rng) -> Vec<(&'static str, Box<dyn DayCounters>)> {
    let mut v: Vec<(&'static str, Box<dyn DayCounters>)> = vec![
        ("act360", Box::new(Actual360)),
        ("act364", Box::new(Actual364)),
        ("act366", Box::new(Actual366)),
        ("30/365", Box::new(Thirty365)),
        ("act365", Box::new(Actual365Fixed::default())),
        ("act365 standard", Box::new(serde_json::from_value::<Actual365Fixed>(json!({"market": "Standard"})).unwrap())),
        ("act365 no leap", Box::new(serde_json::from_value::<Actual365Fixed>(json!({"market": "NoLeap"})).unwrap())),
        ("actact default", Box::new(ActualActual { market: None })),
        ("actact isda", Box::new(ActualActual { market: Some(ActualActualMarket::Isda) })),
        ("actact euro", Box::new(ActualActual { market: Some(ActualActualMarket::Euro) })),
    ];
    let term = date(r.i(9000, 25_000));
    for (n, k) in [("30/360 usa", Thirty360Market::USA), ("30/360 european", Thirty360Market::European), ("30/360 italian", Thirty360Market::Italian), ("30/360 isma", Thirty360Market::ISMA), ("30/360 isda", Thirty360Market::ISDA(term)), ("30/360 german", Thirty360Market::German(term)), ("30/360 nasd", Thirty360Market::NASD)] {
        v.push((n, Box::new(Thirty360::new(k))));
    }
    let mut a = all_calendars();
    let i = r.n(a.len());
    let doc = serde_json::to_value(a.swap_remove(i)).unwrap();
    v.push(("business252", Box::new(serde_json::from_value::<Business252>(json!({"calendar": doc})).unwrap())));
    v
}

fn counters(m: &mut Mon) {
    for (name, c) in dcs(&mut m.rng) {
        let cs = copies(m, &format!("day counter {name}"), &c);
        for _ in 0..12 {
            // month ends and leap days are where the variants part
            let y = m.rng.i(1980, 2060) as i32;
            let mo = m.rng.i(1, 12) as u32;
            let a = if m.rng.b() { ymd(y, mo, dim(y, mo)) } else { date(days_from_civil(y, mo, 1) + m.rng.i(0, 27)) };
            let b = date(num(a) + m.rng.i(0, 1200));
            let t = m.rng.f(0.0, 3.0);
            ask(m, &format!("day counter {name}"), &c, &cs, |c| (c.day_count(a, b).ok(), c.year_fraction(a, b).ok(), c.year_fraction_to_date(a, t).ok()));
        }
        m.count("day counters");
    }
}

macro_rules! plain {
    ($m:expr, $k:literal, [$($x:expr),* $(,)?]) => {{ $( copies($m, $k, &$x); $m.count("plain values"); )* }};
}

fn enums(m: &mut Mon) {
    plain!(m, "frequency", [F::NoFrequency, F::Once, F::Annual, F::Semiannual, F::EveryFourthMonth, F::Quarterly, F::Bimonthly, F::Monthly, F::EveryFourthWeek, F::Biweekly, F::Weekly, F::Daily, F::OtherFrequency]);
    for f in [F::NoFrequency, F::Once, F::Annual, F::Semiannual, F::EveryFourthMonth, F::Quarterly, F::Bimonthly, F::Monthly, F::EveryFourthWeek, F::Biweekly, F::Weekly, F::Daily, F::OtherFrequency] {
        let s = f.to_string();
        m.check(F::from_str(&s).is_ok_and(|g| g == f), "frequency name", || s.clone());
    }
    plain!(m, "style", [Style::FXForward, Style::FXCall, Style::FXPut, Style::IRSwap]);
    plain!(m, "direction", [Direction::Buy, Direction::Sell]);
    plain!(m, "option type", [OptionType::Call, OptionType::Put]);
    plain!(m, "cap kind", [CapFloorKind::Cap, CapFloorKind::Floor]);
    plain!(m, "cap style", [CapStyle::ForwardLooking, CapStyle::BackwardCompounded]);
    plain!(m, "shift mode", [RateShiftMode::Zeros, RateShiftMode::Instruments, RateShiftMode::Forwards, RateShiftMode::Swaps]);
    plain!(m, "quote kind", [InterestRateQuoteEnum::OIS, InterestRateQuoteEnum::Futures, InterestRateQuoteEnum::Swap]);
    plain!(m, "index name", [InterestRateIndexEnum::AONIA, InterestRateIndexEnum::EONIA, InterestRateIndexEnum::ESTR, InterestRateIndexEnum::SONIA, InterestRateIndexEnum::SOFR]);
    for b in biz::ALL {
        let c = copies(m, "convention", &b);
        m.check(c.iter().all(|x| *x == b), "convention: copy differs", || format!("{b:?}"));
        m.count("plain values");
    }
    for b in biz::ALL {
        m.check(B::from_code(b.name()) == Some(b), "convention: name does not lead back", || format!("{b:?} {}", b.name()));
        m.check(B::from_code(&format!("{b:?}")) == Some(b), "convention: code does not lead back", || format!("{b:?}"));
        m.check(biz::ALL.iter().all(|c| *c == b || c.name() != b.name()), "convention: two share a name", || format!("{b:?}"));
        m.count("names");
    }
    // The frequencies with a regular period: name, code and period agree with the count a year.
    for (f, per) in [(F::Annual, 1), (F::Semiannual, 2), (F::EveryFourthMonth, 3), (F::Quarterly, 4), (F::Bimonthly, 6), (F::Monthly, 12), (F::EveryFourthWeek, 13), (F::Biweekly, 26), (F::Weekly, 52), (F::Daily, 365)] {
        m.check(F::from_code(f.name()).as_ref() == Some(&f) && F::from_code(&format!("{f:?}")).as_ref() == Some(&f), "frequency: name or code does not lead back", || format!("{f:?}"));
        let fits = match f.period() {
            Some(P::Years(n)) => n * per == 1,
            Some(P::Months(n)) => n * per == 12,
            Some(P::Weeks(n)) => n as u32 * per == 52,
            Some(P::Days(n)) => n as u32 * per == 365,
            _ => false,
        };
        m.check(fits, "frequency: period does not fit the count a year", || format!("{f:?} {:?}", f.period()));
        m.count("names");
    }
    for _ in 0..200 {
        // A name with one letter changed is nobody's name.
        let b = *m.rng.pick(&biz::ALL);
        let mut s: Vec<char> = b.name().chars().collect();
        let i = m.rng.n(s.len());
        s[i] = if s[i] == 'q' { 'z' } else { 'q' };
        let s: String = s.into_iter().collect();
        m.check(B::from_code(&s).is_none() && F::from_code(&s).is_none() && F::from_str(&s).is_err(), "garbled code accepted", || s.clone());
        m.count("garbled codes");
    }
    for _ in 0..300 {
        let p = match m.rng.n(8) {
            0 => P::ON,
            1 => P::TN,
            2 => P::SPOT,
            3 => P::SN,
            4 => P::Days(m.rng.i(-400, 400)),
            5 => P::Weeks(m.rng.i(-60, 60)),
            6 => P::Months(m.rng.i(0, 500) as u32),
            _ => P::Years(m.rng.i(0, 60) as u32),
        };
        let c = copies(m, "period", &p);
        m.check(c.iter().all(|x| *x == p), "period: copy differs", || format!("{p:?}"));
        let (c1, c2) = (InterestRateIndexEnum::EUIBOR(p), InterestRateIndexEnum::CDOR(p));
        plain!(m, "index name", [c1, c2]);
        let q = FXForwardQuote { tenor: p, value: m.rng.f(-500.0, 500.0) };
        copies(m, "forward quote", &q);
        let r = &mut m.rng;
        let mut o = |r: &mut Rng| if r.chance(0.3) { None } else { Some(r.f(-1e6, 1e6)) };
        let cf = InterestRateCashflow { day_counts: if r.b() { None } else { Some(r.i(-10, 400)) }, notional: o(r), principal: o(r), reset_rate: o(r), payment: o(r), discount: o(r), present_value: o(r) };
        let c = copies(m, "cash flow", &cf);
        m.check(c.iter().all(|x| *x == cf), "cash flow: copy differs", || format!("{cf:?}"));
        let v = CurrencyValue { currency: *m.rng.pick(&[Currency::USD, Currency::EUR, Currency::JPY, Currency::BRL, Currency::CNY]), value: m.rng.normal() * 1e6 };
        let c = copies(m, "money", &v);
        m.check(c.iter().all(|x| *x == v), "money: copy differs", || format!("{v:?}"));
        m.add("plain values", 4);
    }
}

fn pairs(m: &mut Mon) {
    for name in fx::PAIRS {
        let u = fx::pair(name);
        let cs = copies(m, "pair", &u);
        m.check(u.to_string() == *name && FXUnderlying::from_str(&u.to_string()).is_ok(), "pair name", || name.to_string());
        for _ in 0..4 {
            let d = date(m.rng.i(days_from_civil(2000, 1, 1), days_from_civil(2060, 1, 1)));
            let p = fx::tenor(&mut m.rng);
            ask(m, "pair", &u, &cs, |u| (u.dom_currency(), u.frn_currency(), u.settles(), u.cutoff_utc(), u.forward_points_converter(), u.settlement_date(p, d).ok(), u.day_count().year_fraction(d, date(num(d) + 100)).ok()));
        }
        m.count("pairs");
    }
}

fn index(r: &mut Rng) -> InterestRateIndex {
    let mut i = loop {
        let p = P::Months(*r.pick(&[1, 3, 6, 12]));
        let e = match r.n(7) {
            0 => InterestRateIndexEnum::AONIA,
            1 => InterestRateIndexEnum::CDOR(p),
            2 => InterestRateIndexEnum::EONIA,
            3 => InterestRateIndexEnum::ESTR,
            4 => InterestRateIndexEnum::EUIBOR(p),
            5 => InterestRateIndexEnum::SONIA,
            _ => InterestRateIndexEnum::SOFR,
        };
        if let Some(i) = InterestRateIndex::from_enum(e) {
            break i;
        }
    };
    if r.b() {
        let mut a = all_calendars();
        let k = r.n(a.len());
        i.calendar = a.swap_remove(k);
        let mut d = dcs(r);
        let k = r.n(d.len());
        i.day_counter = d.swap_remove(k).1;
        i.convention = *r.pick(&biz::ALL);
        i.end_of_month = r.b();
        i.settlement_days = r.i(0, 3);
        i.period = fx::tenor(r);
    }
    i
}

fn quotes(m: &mut Mon) {
    let i = index(&mut m.rng);
    let (a, k, p) = (date(m.rng.i(8000, 30_000)), m.rng.i(1, 700), i.period);
    let cs = copies(m, "index", &i);
    ask(m, "index", &i, &cs, |i| (i.period, i.settlement_days, i.currency, i.convention, i.end_of_month, i.calendar.advance(a, p, i.convention, Some(i.end_of_month)).ok(), i.day_counter.year_fraction(a, date(num(a) + k)).ok()));
    m.count("indices");
    let q = OISRate { value: m.rng.f(-0.02, 0.15), interest_rate_index: i };
    let cs = copies(m, "cash quote", &q);
    ask(m, "cash quote", &q, &cs, |q| (q.settle_date(a).ok(), q.maturity_date(a).ok(), q.zero_rate(a).ok(), q.discount(a).ok(), q.yts_type()));
    m.count("cash quotes");
    let r = &mut m.rng;
    let code = format!("{}{}", *r.pick(&["F", "G", "H", "J", "K", "M", "N", "Q", "U", "V", "X", "Z"]), r.n(10));
    let mut spec = InterestRateFutures::new(P::Months(*r.pick(&[1, 3])));
    spec.end_of_month = r.b();
    spec.convention = *r.pick(&biz::ALL);
    let f = FuturesRate { value: r.f(85.0, 101.0), imm_code: code, convexity_adjustment: r.f(0.0, 0.5), futures_spec: spec, interest_rate_index: index(r) };
    let sc = random_pillars(r, num(a), false);
    let cs = copies(m, "futures", &f);
    ask(m, "futures", &f, &cs, |f| (f.settle_date(a).ok(), f.maturity_date(a).ok(), f.implied_quote(), f.zero_rate(a, &sc).ok(), f.discount(a, &sc).ok(), f.yts_type()));
    m.count("futures");
}

fn curves(m: &mut Mon) {
    let r = &mut m.rng;
    let val = r.i(8000, 30_000);
    let sc = random_pillars(r, val, true);
    for p in sc.iter().take(3) {
        let c = copies(m, "pillar", p);
        m.check(c.iter().all(|x| x == p), "pillar: copy differs", || format!("{p:?}"));
    }
    let r = &mut m.rng;
    let mut a = all_calendars();
    let k = r.n(a.len());
    let mut d = dcs(r);
    let j = r.n(d.len());
    let y = YieldTermStructure::new(a.swap_remove(k), d.swap_remove(j).1, date(val), sc);
    let cs = copies(m, "curve", &y);
    for _ in 0..5 {
        let t = date(val + m.rng.i(1, 14_000));
        let s = m.rng.f(-100.0, 100.0);
        let me = if m.rng.b() { InterpolationMethodEnum::StepFunctionForward } else { InterpolationMethodEnum::PiecewiseLinearContinuous };
        ask(m, "curve", &y, &cs, |y| (y.zero_rate(t, &me).ok(), y.discount(t, &me).ok(), y.shifted_discount(t, &me, s).ok(), y.forward_rate(t, P::Months(3), &me).ok()));
    }
    m.count("curves");
}

fn swaps(m: &mut Mon) {
    let r = &mut m.rng;
    let val = r.i(9000, 25_000);
    let n = r.i(1, 3);
    let ccy = *r.pick(&[Currency::EUR, Currency::USD, Currency::GBP]);
    let legs = (0..n)
        .map(|_| {
            let mut i = index(r);
            i.currency = ccy;
            let (f, step) = *r.pick(&[(0, 1u32), (1, 3), (2, 6), (3, 12)]);
            let f = [F::Monthly, F::Quarterly, F::Semiannual, F::Annual].into_iter().nth(f).unwrap();
            let mut a = all_calendars();
            let k = r.n(a.len());
            let mut d = dcs(r);
            let j = r.n(d.len());
            let det = ScheduleDetail::new(f, P::Months(step), P::Months(step * r.i(1, 12) as u32), d.swap_remove(j).1, a.swap_remove(k), *r.pick(&biz::ALL), r.i(0, 3), r.i(0, 3), r.i(0, 2));
            let mut x = val + r.i(1, 40);
            let rows = if r.chance(0.4) { 0 } else { r.i(1, 10) };
            let sched = (0..rows)
                .map(|_| {
                    let s = x;
                    x += r.i(20, 200);
                    InterestRateSchedulePeriod::new(date(s), date(x), date(x + r.i(0, 3)), date(s - 2), r.f(0.0, 1e3), r.f(1e3, 1e6))
                })
                .collect();
            InterestRateSwapLeg::new(
                if r.b() { InterestRateSwapLegType::Fixed { coupon: r.f(-0.01, 0.1) } } else { InterestRateSwapLegType::Float { spread: r.f(-0.01, 0.02) } },
                if r.b() { Direction::Buy } else { Direction::Sell },
                i,
                r.lf(1.0, 1e8),
                det,
                sched,
            )
        })
        .collect();
    let s = InterestRateSwap::new(legs);
    let sc = random_pillars(r, val, true);
    let cs = copies(m, "swap", &s);
    let v = date(val);
    ask(m, "swap", &s, &cs, |s| {
        let mk = IrMarketContext::new(v, ccy, yts(val, &sc), None);
        (s.settle_date(v).ok(), s.maturity_date(v).ok(), s.npv(v, &mut yts(val, &sc)).ok(), s.mtm(&mk).ok(), s.dv01(&mk).ok(), s.gamma(&mk, 10.0, RateShiftMode::Zeros).ok(), s.currency().ok())
    });
    ask(m, "swap", &s, &cs, |s| s.legs.iter().map(|l| (l.is_fixe_leg(), l.get_reference_rate(), l.effective_date(v).ok(), l.generate_schedule(v).ok())).collect::<Vec<_>>());
    if let Some(l) = s.legs.first() {
        copies(m, "swap leg", l);
        copies(m, "schedule detail", &l.schedule_detail);
        for p in l.schedule.iter().take(2) {
            let c = copies(m, "schedule period", p);
            m.check(c.iter().all(|x| x == p), "schedule period: copy differs", || format!("{p:?}"));
        }
    }
    m.count("swaps");
}

fn info(r: &mut Rng, val: i64, style: Style, e: i64) -> BasicInfo {
    BasicInfo { trade_date: date(val - r.i(0, 50)), style, direction: if r.b() { Direction::Buy } else { Direction::Sell }, expiry_date: date(e), delivery_date: date(e + r.i(0, 4)) }
}

fn caps(m: &mut Mon) {
    let r = &mut m.rng;
    let val = r.i(9000, 25_000);
    let sc = random_pillars(r, val, true);
    let start = val + r.i(1, 300);
    let k = r.i(1, 10) as usize;
    let rows = fqmon::caps::strip(r, start, k);
    let mut d = dcs(r);
    let j = r.n(d.len());
    let c = CapFloor {
        basic_info: info(r, val, Style::IRSwap, rows[0].0),
        kind: if r.b() { CapFloorKind::Cap } else { CapFloorKind::Floor },
        style: if r.b() { CapStyle::ForwardLooking } else { CapStyle::BackwardCompounded },
        currency: *r.pick(&[Currency::EUR, Currency::USD, Currency::GBP]),
        notional: r.lf(1.0, 1e8),
        strike: r.f(-0.01, 0.08),
        valuation_date: date(val),
        schedule: rows.iter().map(|(s, e, p)| InterestRateSchedulePeriod::new(date(*s), date(*e), date(*p), date(*s), 0.0, 1.0)).collect(),
        accrual_day_counter: d.swap_remove(j).1,
    };
    let vols: Vec<(i64, f64)> = (0..3).map(|i| (val + 200 + 400 * i, r.lf(0.001, 0.02))).collect();
    let cs = copies(m, "cap", &c);
    ask(m, "cap", &c, &cs, |c| {
        let surf = IRNormalVolSurface { valuation_date: date(val), pillars: vols.iter().map(|(e, v)| CapletVolPillar { expiry: date(*e), nodes: vec![(0.0, *v), (0.05, v * 1.3)] }).collect() };
        let mk = IrMarketContext::new(date(val), c.currency, yts(val, &sc), Some(surf));
        (c.mtm(&mk).ok(), c.dv01(&mk).ok(), c.gamma(&mk, 10.0, RateShiftMode::Zeros).ok(), c.vega(&mk, 1.0).ok(), c.modified_duration(&mk).ok())
    });
    copies(m, "deal header", &c.basic_info);
    m.count("caps");
}

fn deals(m: &mut Mon) {
    let Some(desk) = fx::Desk::random(m) else { return };
    let r = &mut m.rng;
    let t = desk.pick_date(r);
    let u = fx::pair(desk.name);
    let ccy = if r.b() { u.frn_currency() } else { u.dom_currency() };
    let (n, k) = (r.lf(1.0, 1e8), desk.spot * r.f(0.8, 1.2));
    if r.b() {
        let f = FXForward { basic_info: info(r, desk.val, Style::FXForward, t), asset: u, notional_currency: ccy, notional_amounts: n, strike: k };
        let cs = copies(m, "FX forward", &f);
        ask(m, "FX forward", &f, &cs, |f| (f.mtm(&desk.ctx).ok(), f.delta(&desk.ctx).ok(), f.gamma(&desk.ctx).ok(), f.vega(&desk.ctx).ok()));
        m.count("FX forwards");
    } else {
        let call = r.b();
        let o = FXVanillaOption { basic_info: info(r, desk.val, if call { Style::FXCall } else { Style::FXPut }, t), asset: u, option_type: if call { OptionType::Call } else { OptionType::Put }, notional_currency: ccy, notional_amounts: n, strike: k, volatility: r.lf(0.01, 0.6) };
        let cs = copies(m, "FX option", &o);
        ask(m, "FX option", &o, &cs, |f| (f.mtm(&desk.ctx).ok(), f.delta(&desk.ctx).ok(), f.gamma(&desk.ctx).ok(), f.vega(&desk.ctx).ok()));
        m.count("FX options");
    }
}
