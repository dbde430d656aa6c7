//! Independent currency-pair conventions, forward ladders and smiles.
use crate::dates::*;
use crate::num::{npdf, ncdf};
use crate::rates::*;
use crate::{Mon, Rng, biz};
use chrono::NaiveDate;
use finquant::derivatives::forex::basic::FXUnderlying;
use finquant::markets::forex::quotes::forwardpoints::FXForwardQuote;
use finquant::markets::forex::quotes::volsurface::{FXDeltaVolPillar, FXVolQuote};
use finquant::time::calendars::Calendar;
use finquant::time::period::Period as P;
use std::str::FromStr;

pub const PAIRS: &[&str] = &[
    "EURGBP", "EURUSD", "EURCAD", "EURJPY", "EURCHF", "EURNOK", "EURSEK", "EURAUD", "EURNZD", "EURDKK", "EURPLN",
    "EURHUF", "EURCZK", "EURRON", "GBPUSD", "GBPCAD", "GBPJPY", "GBPAUD", "GBPNZD", "GBPCHF", "GBPNOK", "GBPSEK",
    "AUDUSD", "NZDUSD", "USDCHF", "USDNOK", "USDSEK", "USDJPY", "USDSGD", "USDHKD", "USDCNY", "USDPLN", "USDHUF",
    "USDCZK", "USDZAR", "USDKRW", "USDINR", "USDBRL", "USDDKK", "USDIDR", "USDTWD", "USDTHB", "USDILS", "USDRON",
    "USDCAD", "USDMXN", "USDTRY", "USDRUB", "AUDNZD", "AUDCAD", "AUDCHF", "AUDJPY", "AUDSGD", "NZDCAD", "NZDCHF",
    "NZDJPY", "NZDSGD", "CADJPY", "CHFJPY", "CADCHF",
];
pub fn lag(name: &str) -> i64 {
    if ["USDCAD", "USDMXN", "USDTRY", "USDRUB"].contains(&name) { 1 } else { 2 }
}
pub fn points(name: &str) -> f64 {
    if name.ends_with("JPY") { 100.0 } else { 10000.0 }
}
pub fn pair(name: &str) -> FXUnderlying {
    FXUnderlying::from_str(name).expect("known pair")
}
pub fn raw_settle(val: i64, lag: i64, p: P) -> i64 {
    let base = match p {
        P::ON => val,
        P::TN => val + 1,
        _ => val + lag,
    };
    match p {
        P::ON | P::TN | P::SN => base + 1,
        P::SPOT => base,
        P::Days(k) => base + k,
        P::Weeks(k) => base + 7 * k,
        P::Months(k) => num(add_months(date(base), k as i64)),
        P::Years(k) => num(add_months(date(base), 12 * k as i64)),
    }
}
pub fn settle(cal: &dyn Calendar, val: i64, lag: i64, p: P) -> i64 {
    let raw = raw_settle(val, lag, p);
    let e = biz::last_open(cal, raw);
    if raw >= e { e } else { biz::fwd(cal, raw) }
}
pub fn tenor(r: &mut Rng) -> P {
    match r.n(12) {
        0 => P::ON,
        1 => P::TN,
        2 => P::SPOT,
        3 => P::SN,
        4 => P::Days(r.i(1, 90)),
        5 | 6 => P::Weeks(r.i(1, 8)),
        7..=9 => P::Months(r.i(1, 23) as u32),
        _ => P::Years(r.i(1, 10) as u32),
    }
}
/// What the ladder says for a date: nothing, or one of the listed values.
#[derive(Debug, Clone, PartialEq)]
pub enum Ladder {
    Nothing,
    OneOf(Vec<f64>),
    /// between two dates; several combinations only when dates are shared
    Line(Vec<f64>),
}
pub fn ladder(val: i64, dated: &[(i64, f64)], t: i64) -> Ladder {
    if t <= val || dated.len() < 2 {
        return Ladder::Nothing;
    }
    let on: Vec<f64> = dated.iter().filter(|d| d.0 == t).map(|d| d.1).collect();
    if !on.is_empty() {
        return Ladder::OneOf(on);
    }
    let lo = dated.iter().map(|d| d.0).filter(|d| *d < t).max();
    let hi = dated.iter().map(|d| d.0).filter(|d| *d > t).min();
    let (Some(lo), Some(hi)) = (lo, hi) else { return Ladder::Nothing };
    let mut out = vec![];
    for a in dated.iter().filter(|d| d.0 == lo) {
        for b in dated.iter().filter(|d| d.0 == hi) {
            let w = (t - lo) as f64 / (hi - lo) as f64;
            out.push(a.1 * (1.0 - w) + b.1 * w);
        }
    }
    Ladder::Line(out)
}
/// A ladder that surely covers the range up to `years` with distinct dates.
pub fn standard_quotes(r: &mut Rng, scale: f64) -> Vec<FXForwardQuote> {
    let mut out = vec![];
    let slope = r.f(-1.0, 1.0) * scale;
    for (p, t) in [
        (P::ON, 0.003), (P::Weeks(1), 0.02), (P::Weeks(2), 0.04), (P::Months(1), 0.083), (P::Months(2), 0.166),
        (P::Months(3), 0.25), (P::Months(6), 0.5), (P::Months(9), 0.75), (P::Years(1), 1.0), (P::Years(2), 2.0),
        (P::Years(5), 5.0), (P::Years(10), 10.0),
    ] {
        if matches!(p, P::ON | P::Years(10)) || r.chance(0.7) {
            out.push(FXForwardQuote { tenor: p, value: slope * t * r.f(0.7, 1.3) });
        }
    }
    r.shuffle(&mut out);
    out
}
/// Everything needed to price one pair on one day.
pub struct Desk {
    pub name: &'static str,
    pub val: i64,
    pub spot: f64,
    pub dom: Curve,
    pub frn: Curve,
    pub quotes: Vec<FXForwardQuote>,
    pub dated: Vec<(i64, f64)>,
    pub ctx: finquant::markets::forex::market_context::FxMarketContext,
}
impl Desk {
    pub fn random(m: &mut Mon) -> Option<Desk> {
        let name = *m.rng.pick(PAIRS);
        let val = m.rng.i(days_from_civil(2000, 1, 1), days_from_civil(2070, 1, 1));
        Desk::build(m, name, val)
    }
    pub fn build(m: &mut Mon, name: &'static str, val: i64) -> Option<Desk> {
        let r = &mut m.rng;
        let spot = if name.ends_with("JPY") { r.f(60.0, 200.0) } else { r.lf(0.4, 60.0) };
        let scale = spot * points(name) * 0.03;
        let quotes = standard_quotes(r, scale);
        let (d, f) = (random_pillars(r, val, true), random_pillars(r, val, true));
        Desk::with(m, name, val, spot, quotes, &d, &f)
    }
    pub fn with(
        m: &mut Mon,
        name: &'static str,
        val: i64,
        spot: f64,
        quotes: Vec<FXForwardQuote>,
        d: &[finquant::markets::termstructures::yieldcurve::StrippedCurve],
        f: &[finquant::markets::termstructures::yieldcurve::StrippedCurve],
    ) -> Option<Desk> {
        let u = pair(name);
        let cal = u.calendar();
        let dated = quotes.iter().map(|q| (settle(&cal, val, lag(name), q.tenor), q.value)).collect();
        let h = u.forward_helper(date(val), spot, quotes.clone());
        let ctx = m.guard("panic/context", || format!("{name} {}", date(val)), || {
            finquant::markets::forex::market_context::FxMarketContext::for_linear(
                date(val),
                spot,
                (u.dom_currency(), u.frn_currency()),
                yts(val, d),
                yts(val, f),
                h,
            )
        })?;
        match ctx {
            Ok(ctx) => Some(Desk { name, val, spot, dom: Curve::of(val, d), frn: Curve::of(val, f), quotes, dated, ctx }),
            Err(e) => {
                m.violate("context", format!("{name} {}: {e}", date(val)));
                None
            }
        }
    }
    pub fn end(&self) -> i64 {
        self.dated.iter().map(|d| d.0).max().unwrap()
    }
    pub fn start(&self) -> i64 {
        self.dated.iter().map(|d| d.0).min().unwrap()
    }
    /// Admissible outright forwards for a settlement date.
    pub fn outright(&self, t: i64) -> Vec<f64> {
        match ladder(self.val, &self.dated, t) {
            Ladder::Nothing => vec![],
            Ladder::OneOf(v) | Ladder::Line(v) => v.iter().map(|p| self.spot + p / points(self.name)).collect(),
        }
    }
    /// A date to trade: inside the ladder mostly, else just outside.
    pub fn pick_date(&self, r: &mut Rng) -> i64 {
        match r.n(12) {
            0 => self.dated[r.n(self.dated.len())].0,
            1 => self.dated[r.n(self.dated.len())].0 + r.i(-1, 1),
            2 => self.val + r.i(-3, 3),
            3 => self.end() + r.i(-1, 400),
            _ => r.i(self.start(), self.end()),
        }
    }
}

// ---------------------------------------------------------------- smiles --
#[derive(Clone, Debug)]
pub struct Smile {
    pub exp: i64,
    pub t: f64,
    pub f: f64,
    pub atm: f64,
    /// (strike, vol), increasing; index of the at-the-money one
    pub kv: Vec<(f64, f64)>,
    pub ai: usize,
}
/// Inverse normal by bisection and Newton on the independent cdf.
pub fn inv(p: f64) -> f64 {
    let (mut lo, mut hi) = (-9.0, 9.0);
    for _ in 0..80 {
        let x = 0.5 * (lo + hi);
        if ncdf(x) < p { lo = x } else { hi = x }
    }
    let x = 0.5 * (lo + hi);
    x - (ncdf(x) - p) / npdf(x)
}
impl Smile {
    /// pairs: (delta, call vol, put vol)
    pub fn new(val: i64, exp: i64, f: f64, atm: f64, pairs: &[(f64, f64, f64)]) -> Smile {
        let t = (exp - val) as f64 / 365.0;
        let mut p = pairs.to_vec();
        p.sort_by(|a, b| a.0.total_cmp(&b.0));
        let mut kv = vec![];
        for q in &p {
            // put: N(-d1) = delta
            let s = q.2 * t.sqrt();
            kv.push((f * (inv(q.0) * s + 0.5 * s * s).exp(), q.2));
        }
        kv.push((f * (0.5 * atm * atm * t).exp(), atm));
        for q in p.iter().rev() {
            let s = q.1 * t.sqrt();
            kv.push((f * (-inv(q.0) * s + 0.5 * s * s).exp(), q.1));
        }
        Smile { exp, t, f, atm, kv, ai: p.len() }
    }
    pub fn monotone(&self) -> bool {
        self.kv.windows(2).all(|w| w[0].0 < w[1].0)
    }
    /// Smallest relative distance between strikes (guards undecidable cases).
    pub fn gap(&self) -> f64 {
        self.kv.windows(2).map(|w| (w[1].0 / w[0].0 - 1.0).abs()).fold(f64::MAX, f64::min)
    }
    fn x(&self, k: f64) -> f64 {
        ncdf((self.f / k).ln() / (1.5 * self.atm * self.t.sqrt()))
    }
    fn quad(&self, k: f64) -> f64 {
        let n = self.kv.len() - 1;
        let a: Vec<(f64, f64)> = [0, self.ai, n].iter().map(|i| (self.x(self.kv[*i].0), self.kv[*i].1)).collect();
        let x = self.x(k);
        let mut s = 0.0;
        for i in 0..3 {
            let mut l = a[i].1;
            for j in 0..3 {
                if i != j {
                    l *= (x - a[j].0) / (a[i].0 - a[j].0);
                }
            }
            s += l;
        }
        s
    }
    pub fn vol(&self, k: f64) -> f64 {
        let n = self.kv.len() - 1;
        let mut s = self.quad(k);
        if k > self.kv[0].0 && k < self.kv[n].0 {
            for w in self.kv.windows(2) {
                if k >= w[0].0 && k <= w[1].0 {
                    let (a, b) = ((w[0].0 / self.f).ln(), (w[1].0 / self.f).ln());
                    let u = ((k / self.f).ln() - a) / (b - a);
                    s += (1.0 - u) * (w[0].1 - self.quad(w[0].0)) + u * (w[1].1 - self.quad(w[1].0));
                    break;
                }
            }
        }
        s
    }
}
pub fn surface_vol(sm: &[Smile], val: i64, exp: i64, k: f64) -> f64 {
    let t = (exp - val) as f64 / 365.0;
    let mut s: Vec<&Smile> = sm.iter().collect();
    s.sort_by_key(|x| x.exp);
    if exp <= s[0].exp {
        return s[0].vol(k);
    }
    if exp >= s[s.len() - 1].exp {
        return s[s.len() - 1].vol(k);
    }
    for w in s.windows(2) {
        if exp == w[0].exp {
            return w[0].vol(k);
        }
        if exp < w[1].exp {
            let (a, b) = (w[0].vol(k), w[1].vol(k));
            let u = (t - w[0].t) / (w[1].t - w[0].t);
            return (((1.0 - u) * a * a * w[0].t + u * b * b * w[1].t) / t).sqrt();
        }
    }
    unreachable!()
}
/// Random smile plus its market quotes in a random format and order.
pub fn random_smile(r: &mut Rng, val: i64, exp: i64, f: f64) -> (Smile, FXDeltaVolPillar) {
    let atm = if r.chance(0.1) { r.lf(0.005, 1.6) } else { r.lf(0.03, 0.45) };
    let nd = if r.chance(0.08) { r.i(5, 8) } else { r.i(1, 4) } as usize;
    let mut ds = vec![0.05, 0.1, 0.15, 0.2, 0.25, 0.3, 0.35, 0.4];
    if r.chance(0.3) {
        ds = (0..8).map(|i| 0.03 + 0.05 * i as f64 + r.f(0.0, 0.03)).collect();
    }
    r.shuffle(&mut ds);
    ds.truncate(nd);
    if r.chance(0.08) {
        // two quoted deltas close together
        let d = ds[0] + r.lf(1e-6, 1e-2);
        ds.push(d);
    }
    // one delta written in two ways, a rounding error apart
    let hair = r.chance(0.1);
    let (rr25, bf25) = (r.f(-0.25, 0.25) * atm, r.f(0.0, 0.1) * atm);
    let mut q = vec![FXVolQuote::Atm(atm)];
    let mut pairs = vec![];
    for d in ds {
        let w = (0.5 - d) / 0.25;
        let (rr, bf) = (rr25 * w, bf25 * w * w * r.f(0.9, 1.1));
        let (c, p) = (atm + bf + 0.5 * rr, atm + bf - 0.5 * rr);
        let e = if hair { d + r.f(-1e-13, 1e-13) } else { d };
        match r.n(4) {
            0 | 1 => {
                q.push(FXVolQuote::RiskReversal { delta: e, vol: rr });
                q.push(FXVolQuote::Butterfly { delta: d, vol: bf });
            }
            2 => {
                q.push(FXVolQuote::Call { delta: d, vol: c });
                q.push(FXVolQuote::Put { delta: e, vol: p });
            }
            _ => {
                // direct quotes override a conflicting RR/BF pair
                q.push(FXVolQuote::Call { delta: d, vol: c });
                q.push(FXVolQuote::Put { delta: d, vol: p });
                q.push(FXVolQuote::RiskReversal { delta: d, vol: rr + 0.01 });
                q.push(FXVolQuote::Butterfly { delta: d, vol: bf + 0.02 });
            }
        }
        pairs.push((d, c, p));
    }
    r.shuffle(&mut q);
    (Smile::new(val, exp, f, atm, &pairs), FXDeltaVolPillar { expiry: date(exp), forward: f, quotes: q })
}
pub fn nd(n: i64) -> NaiveDate {
    date(n)
}
