//! Random curves and an independent reading of them.
use crate::Rng;
use crate::dates::*;
use finquant::markets::termstructures::yieldcurve::{InterestRateQuoteEnum as Q, StrippedCurve, YieldTermStructure};
use finquant::time::calendars::Target;
use finquant::time::daycounters::DayCounters;
use finquant::time::daycounters::actual360::Actual360;
use finquant::time::daycounters::actual365fixed::Actual365Fixed;
use finquant::time::daycounters::actualactual::{ActualActual, ActualActualMarket};
use finquant::time::daycounters::thirty360::{Thirty360, Thirty360Market};

/// Reference curve: pillars (day number, zero rate), visible ones only.
#[derive(Clone, Debug)]
pub struct Curve {
    pub val: i64,
    pub p: Vec<(i64, f64)>,
}

impl Curve {
    pub fn of(val: i64, sc: &[StrippedCurve]) -> Self {
        Curve { val, p: sc.iter().filter(|s| !s.hidden_pillar).map(|s| (num(s.date), s.zero_rate)).collect() }
    }
    /// Continuously compounded zero rate applying to cash on day `n` (the
    /// curve is read at the end of that day): linear between pillars, flat
    /// outside.
    pub fn zero(&self, n: i64) -> f64 {
        let t = n + 1;
        let p = &self.p;
        if t <= p[0].0 {
            return p[0].1;
        }
        for w in p.windows(2) {
            if t <= w[1].0 {
                let a = (t - w[0].0) as f64 / (w[1].0 - w[0].0) as f64;
                return w[0].1 + a * (w[1].1 - w[0].1);
            }
        }
        p[p.len() - 1].1
    }
    pub fn t(&self, n: i64) -> f64 {
        (n - self.val) as f64 / 365.0
    }
    pub fn df(&self, n: i64) -> f64 {
        (-self.zero(n) * self.t(n)).exp()
    }
    pub fn df_shift(&self, n: i64, bp: f64) -> f64 {
        (-(self.zero(n) + bp * 1e-4) * self.t(n)).exp()
    }
}

pub fn pillar(settle: i64, n: i64, z: f64, val: i64, hidden: bool) -> StrippedCurve {
    StrippedCurve {
        first_settle_date: date(settle),
        date: date(n),
        market_rate: z,
        zero_rate: z,
        discount: (-z * (n - val) as f64 / 365.0).exp(),
        source: Q::OIS,
        hidden_pillar: hidden,
    }
}

/// Random strictly increasing pillars; negative, flat, humped, wild, jumpy.
pub fn random_pillars(r: &mut Rng, val: i64, hidden: bool) -> Vec<StrippedCurve> {
    let n = match r.n(20) {
        0 | 1 => 1,
        2 => r.i(19, 90),
        _ => r.i(2, 18),
    };
    let shape = r.n(5);
    let base = r.f(-0.02, 0.09);
    let mut d = val;
    let mut out = vec![];
    for k in 0..n {
        d += match r.n(6) {
            0 => 1,
            1 => r.i(1, 7),
            2 => r.i(20, 40),
            3 => r.i(80, 100),
            _ => r.i(150, 1200),
        };
        let z = match shape {
            0 => base,
            1 => base + 0.002 * k as f64,
            2 => base - 0.003 * k as f64,
            3 => base + r.f(-0.01, 0.01),
            _ => r.f(-0.3, 0.5),
        };
        let h = hidden && n > 1 && r.chance(0.25);
        out.push(pillar(val + r.i(0, 3), d, z, val, h));
    }
    if out.iter().all(|s| s.hidden_pillar) {
        let k = r.n(out.len());
        out[k].hidden_pillar = false;
    }
    out
}

pub fn yts(val: i64, sc: &[StrippedCurve]) -> YieldTermStructure {
    YieldTermStructure::new(Box::new(Target), Box::<Actual365Fixed>::default(), date(val), sc.to_vec())
}

/// A day counter plus its independent year fraction (valid for a <= b).
pub fn counter(k: usize) -> (&'static str, Box<dyn DayCounters>, fn(i64, i64) -> f64) {
    match k % 4 {
        0 => ("act360", Box::new(Actual360), |a, b| (b - a) as f64 / 360.0),
        1 => ("act365", Box::<Actual365Fixed>::default(), |a, b| (b - a) as f64 / 365.0),
        2 => ("30E/360", Box::new(Thirty360::new(Thirty360Market::European)), thirty_bond),
        _ => ("actact isda", Box::new(ActualActual { market: Some(ActualActualMarket::Isda) }), act_isda),
    }
}
fn thirty_bond(a: i64, b: i64) -> f64 {
    let (y1, m1, mut d1) = civil_from_days(a);
    let (y2, m2, mut d2) = civil_from_days(b);
    if d1 == 31 {
        d1 = 30;
    }
    if d2 == 31 {
        d2 = 30;
    }
    (360 * (y2 - y1) as i64 + 30 * (m2 as i64 - m1 as i64) + d2 as i64 - d1 as i64) as f64 / 360.0
}
fn act_isda(a: i64, b: i64) -> f64 {
    let mut s = 0.0;
    let mut x = a;
    while x < b {
        let y = civil_from_days(x).0;
        let e = days_from_civil(y + 1, 1, 1).min(b);
        s += (e - x) as f64 / if is_leap(y) { 366.0 } else { 365.0 };
        x = e;
    }
    s
}
