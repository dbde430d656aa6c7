//! C37: rate indices carry the conventions of their market.
use finquant::markets::interestrate::interestrateindex::{InterestRateIndex, InterestRateIndexEnum as E};
use finquant::time::businessdayconvention::BusinessDayConvention as B;
use finquant::time::calendars::unitedkingdom::UnitedKingdomMarket;
use finquant::time::calendars::unitedstates::UnitedStatesMarket;
use finquant::time::calendars::{Australia, Calendar, Canada, Target, UnitedKingdom, UnitedStates};
use finquant::time::period::Period as P;
use fqmon::dates::*;
use fqmon::{Mon, biz};
use iso_currency::Currency as C;
use serde_json::json;

struct W {
    name: &'static str,
    code: Box<dyn Fn(P) -> E>,
    ccy: C,
    cal: Box<dyn Calendar>,
    basis: f64,
    lag: i64,
    term: bool,
}

fn table() -> Vec<W> {
    fn w(name: &'static str, code: impl Fn(P) -> E + 'static, ccy: C, cal: Box<dyn Calendar>, basis: f64, lag: i64, term: bool) -> W {
        W { name, code: Box::new(code), ccy, cal, basis, lag, term }
    }
    let uk = || Box::new(UnitedKingdom { market: Some(UnitedKingdomMarket::Exchange) });
    let us = || Box::new(UnitedStates { market: Some(UnitedStatesMarket::SOFR) });
    vec![
        w("AONIA", |_| E::AONIA, C::AUD, Box::<Australia>::default(), 365.0, 0, false),
        w("CDOR", E::CDOR, C::CAD, Box::<Canada>::default(), 365.0, 0, true),
        w("EONIA", |_| E::EONIA, C::EUR, Box::new(Target), 360.0, 0, false),
        w("ESTR", |_| E::ESTR, C::EUR, Box::new(Target), 360.0, 0, false),
        w("EURIBOR", E::EUIBOR, C::EUR, Box::new(Target), 360.0, 2, true),
        w("SONIA", |_| E::SONIA, C::GBP, uk(), 365.0, 0, false),
        w("SOFR", |_| E::SOFR, C::USD, us(), 360.0, 0, false),
    ]
}

fn body(m: &mut Mon) {
    let periods: Vec<P> = (1..=30)
        .map(P::Days)
        .chain((1..=8).map(P::Weeks))
        .chain((1..=24).map(P::Months))
        .chain((1..=5).map(P::Years))
        .collect();
    let (lo, hi) = (days_from_civil(2000, 1, 1), days_from_civil(2049, 12, 31));
    for w in table() {
        m.section(w.name);
        let use_p: Vec<P> = if w.term { periods.clone() } else { vec![P::SPOT] };
        for (j, p) in use_p.iter().enumerate() {
            let who = || format!("{} {p:?}", w.name);
            let Some(Some(ix)) = m.guard("panic/from_enum", who, || InterestRateIndex::from_enum((w.code)(*p))) else {
                m.violate("missing-index", who());
                continue;
            };
            m.check(ix.currency == w.ccy, "currency", || format!("{} {:?}", who(), ix.currency));
            m.check(ix.settlement_days == w.lag, "settlement-lag", || format!("{} {}", who(), ix.settlement_days));
            m.check(ix.period == *p, "tenor", || format!("{} {:?}", who(), ix.period));
            let conv = match p {
                P::Days(_) | P::Weeks(_) if w.name == "EURIBOR" => B::Following,
                _ => B::ModifiedFollowing,
            };
            m.check(ix.convention == conv, "convention", || format!("{} {:?}", who(), ix.convention));
            m.check(!ix.end_of_month, "end-of-month", who);
            let days = if j == 0 { (lo..=hi).collect::<Vec<_>>() } else { (0..400).map(|_| m.rng.i(lo, hi)).collect() };
            for n in days {
                m.check(biz::open(ix.calendar.as_ref(), n) == biz::open(w.cal.as_ref(), n), "fixing-calendar", || {
                    format!("{} {}", who(), date(n))
                });
                m.case((w.name, j, n));
            }
            m.count("indices");
            for _ in 0..m.scale(200, 20_000) {
                let a = m.rng.i(lo, hi);
                let b = a + m.rng.i(0, 2000);
                let yf = ix.day_counter.year_fraction(date(a), date(b));
                match yf {
                    Ok(y) => {
                        m.close("accrual-basis", y, (b - a) as f64 / w.basis, 1e-13, 0.0, || format!("{} {} {}", who(), date(a), date(b)));
                    }
                    Err(e) => m.violate("accrual-basis", format!("{} {e:?}", who())),
                }
                m.count("accruals");
            }
        }
        m.sample(json!({"index": w.name, "currency": format!("{:?}", w.ccy), "basis": w.basis, "lag": w.lag}));
    }
    m.exhaustive();
    m.need("indices", 100);
    m.need("accruals", 10_000);
}

fn main() {
    fqmon::run("C37", "index x tenor x day", body)
}
