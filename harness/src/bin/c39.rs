//! C39: every answer depends on the question alone.  The same questions are
//! put in a fresh process, again and again in random order between unrelated
//! questions, and from several threads; the recorded answers are compared.
use chrono::{NaiveTime, Timelike};
use finquant::derivatives::basic::{BasicInfo, Direction, Style};
use finquant::derivatives::forex::basic::FXDerivatives;
use finquant::derivatives::forex::forward::FXForward;
use finquant::derivatives::forex::option::{FXVanillaOption, OptionType};
use finquant::derivatives::interestrate::basic::{CapFloorKind, CapStyle, IRDerivatives, RateShiftMode};
use finquant::derivatives::interestrate::cap::CapFloor;
use finquant::derivatives::interestrate::swap::*;
use finquant::markets::forex::market_context::FxMarketContext;
use finquant::markets::forex::quotes::volsurface::FXVolSurface;
use finquant::markets::interestrate::futures::InterestRateFutures;
use finquant::markets::interestrate::interestrateindex::{InterestRateIndex, InterestRateIndexEnum as IE};
use finquant::markets::interestrate::market_context::IrMarketContext;
use finquant::markets::interestrate::volsurface::{CapQuote, CapletVolPillar, IRCapMarketData, IRNormalVolSurface};
use finquant::markets::termstructures::yieldcurve::oisratehelper::OISRate;
use finquant::markets::termstructures::yieldcurve::{InterpolationMethodEnum as Im, YieldTermMarketData};
use finquant::math::{normal, optimize::NelderMeadOptions};
use finquant::models::common::black_scholes::{bs_call_forward, bs_implied_vol};
use finquant::models::common::calibration::Calibration;
use finquant::models::common::cir::CirSimulator;
use finquant::models::common::cos_pricer::{CosPricer, ForwardChf};
use finquant::models::common::simulation::{BrownianMotion, GeometricBrownianMotion, SimulationModel, simulate_at_dates};
use finquant::models::forex::dupire_local_vol::DupireLocalVol;
use finquant::models::forex::fx_fmm::{compute_a_d as fa_d, compute_f_linearised as ff};
use finquant::models::forex::fx_fmm1_chf::FxFmm1ForwardChf;
use finquant::models::forex::fx_fmm_simulator::{FxFmmSimulator, FxFmmState};
use finquant::models::forex::fx_hhw::FxHhwSimulator;
use finquant::models::forex::fx_hhw1_chf::FxHhw1ForwardChf;
use finquant::models::forex::fx_hhw_stock::{ForeignStock, FxHhwStockSimulator};
use finquant::models::forex::fx_hlmm::{compute_a_f as la_f, compute_f_linearised as lf};
use finquant::models::forex::fx_hlmm1_chf::FxHlmm1ForwardChf;
use finquant::models::forex::market_data::MarketSmileStrip;
use finquant::models::forex::sabr::{SabrParams, SabrSimulator, hagan_atm_vol, hagan_implied_vol};
use finquant::models::forex::sabr_effective::{PiecewiseConstant as Pc, effective_correlation, effective_term_structure, effective_vol_vol};
use finquant::models::forex::sabr_slv::TimeDependentSabrSlvSimulator;
use finquant::models::forex::sabr_time_dependent::{TimeDependentSabrParams, TimeDependentSabrSimulator};
use finquant::models::forex::{fx_fmm_calibrator as fmc, fx_hhw_calibrator as hwc, fx_hlmm_calibrator as lmc, sabr_calibrator as sbc};
use finquant::models::interestrate::fmm::{FlatCurve, Fmm, FmmSimulator, bank_account, bond_price};
use finquant::models::interestrate::hull_white::HullWhiteSimulator;
use finquant::patterns::observer::{Observable, Observer};
use finquant::time::calendars::{Calendar, JointCalendar};
use finquant::time::daycounters::DayCounters;
use finquant::time::daycounters::actual365fixed::Actual365Fixed;
use finquant::time::daycounters::business252::Business252;
use finquant::time::daycounters::thirty360::{Thirty360, Thirty360Market};
use finquant::time::frequency::Frequency as F;
use finquant::time::imm::IMM;
use finquant::time::period::Period as P;
use fqmon::dates::*;
use fqmon::rates::*;
use fqmon::{Mon, Rng, biz, fx, fxm, markets};
use iso_currency::Currency;
use num_complex::Complex64;
use serde_json::json;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::rc::Rc;

fn main() {
    if let Ok(s) = std::env::var("FQMON_BENCH") {
        // reference process: each question once, in order, nothing else
        std::panic::set_hook(Box::new(|i| eprintln!("{i}")));
        let mut b = match s.split_once('/') {
            Some((f, k)) => family(f.parse().unwrap(), k.parse().unwrap()).0,
            None => bench(s.parse().unwrap()),
        };
        let out: Vec<Vec<String>> = b.iter_mut().map(|i| (0..i.rounds()).map(|_| i.ask()).collect()).collect();
        println!("{}", serde_json::to_string(&out).unwrap());
        return;
    }
    fqmon::run("C39", "distinct questions put repeatedly, in distinct orders", body)
}

/// A question can be put any number of times; a session is a live object
/// whose successive answers form a history.
enum Kind {
    Question(Box<dyn Fn() -> String>),
    Session(Box<dyn FnMut() -> String>),
}
struct Item {
    name: &'static str,
    kind: Kind,
}
const ROUNDS: usize = 4;
impl Item {
    fn rounds(&self) -> usize {
        match self.kind {
            Kind::Question(_) => 1,
            Kind::Session(_) => ROUNDS,
        }
    }
    fn ask(&mut self) -> String {
        let r = match &mut self.kind {
            Kind::Question(f) => catch_unwind(AssertUnwindSafe(f)),
            Kind::Session(f) => catch_unwind(AssertUnwindSafe(f)),
        };
        r.unwrap_or_else(|_| "panic".into())
    }
}

struct Bench {
    items: Vec<Item>,
    quick: bool,
}
/// Left out of the families of near twins for their cost.
const SLOW: [&str; 7] = ["paths", "calibration", "stripping", "stripped curve", "convexity", "document", "quotes as stored"];
impl Bench {
    fn q<T: Debug>(&mut self, name: &'static str, f: impl Fn() -> T + 'static) {
        if self.quick && SLOW.iter().any(|s| name.contains(s)) {
            return;
        }
        self.items.push(Item { name, kind: Kind::Question(Box::new(move || format!("{:?}", f()))) });
    }
    fn s<T: Debug>(&mut self, name: &'static str, mut f: impl FnMut() -> T + 'static) {
        if self.quick {
            return;
        }
        self.items.push(Item { name, kind: Kind::Session(Box::new(move || format!("{:?}", f()))) });
    }
}

/// The quick questions of one part of the library, and the number of values
/// drawn for them; `member` > 0 replaces one of those values.
fn family(seed: u64, member: u64) -> (Vec<Item>, u64) {
    let mut r = Rng::twin(seed ^ 0x1539, member.wrapping_sub(1));
    let mut b = Bench { items: vec![], quick: true };
    let val = 15_000;
    match seed % 7 {
        0 => days(&mut b, &mut r, val),
        1 => curves(&mut b, &mut r, val),
        2 => rates(&mut b, &mut r, val),
        3 => forex(&mut b, &mut r, val),
        4 => hybrids(&mut b, &mut r),
        5 => rate_models(&mut b, &mut r),
        _ => smiles(&mut b, &mut r),
    }
    (b.items, r.drawn())
}

fn bench(seed: u64) -> Vec<Item> {
    let mut r = Rng::new(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 39);
    let mut b = Bench { items: vec![], quick: false };
    // benches share markets, pairs and dates on purpose: an answer remembered
    // under too small a key then collides
    let val = r.i(10_957, 10_957 + 40) + 365 * r.i(0, 40);
    match r.n(4) {
        0 => {
            days(&mut b, &mut r, val);
            curves(&mut b, &mut r, val);
        }
        1 => {
            rates(&mut b, &mut r, val);
            curves(&mut b, &mut r, val);
        }
        2 => forex(&mut b, &mut r, val),
        _ => {}
    }
    match r.n(3) {
        0 => hybrids(&mut b, &mut r),
        1 => rate_models(&mut b, &mut r),
        _ => smiles(&mut b, &mut r),
    }
    b.items
}

fn calendar(r: &mut Rng) -> Box<dyn Calendar> {
    let mut a = markets::markets();
    let mut one = |r: &mut Rng| a.swap_remove(r.n(a.len())).1;
    if r.chance(0.3) { Box::new(JointCalendar::new(vec![one(r), one(r)])) } else { one(r) }
}

fn days(b: &mut Bench, r: &mut Rng, val: i64) {
    for _ in 0..4 {
        let c: Rc<dyn Calendar> = calendar(r).into();
        let a = val + r.i(-400, 400);
        let (p, conv, e) = (fx::tenor(r), *r.pick(&biz::ALL), r.b());
        let x = c.clone();
        b.q("business days", move || (a..a + 800).map(|n| if x.is_business_day(date(n)) { '1' } else { '0' }).collect::<String>());
        let x = c.clone();
        b.q("date rolling", move || (x.adjust(date(a), conv), x.advance(date(a), p, conv, Some(e)).ok(), x.business_days_between(date(a), date(a + 300), Some(true), Some(e)), x.end_of_month(date(a))));
        b.q("calendar document", move || serde_json::to_string(&*c).unwrap());
    }
    let term = date(val + 900);
    let cal = serde_json::to_value(calendar(r)).unwrap();
    let b252: Business252 = serde_json::from_value(json!({ "calendar": cal })).unwrap();
    let dcs: Vec<Rc<dyn DayCounters>> = vec![counter(0).1.into(), counter(1).1.into(), counter(2).1.into(), counter(3).1.into(), Rc::new(Thirty360::new(Thirty360Market::ISDA(term))), Rc::new(Thirty360::new(Thirty360Market::USA)), Rc::new(b252)];
    for d in dcs {
        let (x, y) = (date(val + r.i(-400, 400)), date(val + r.i(400, 4000)));
        let t = r.f(0.1, 9.0);
        b.q("day count", move || (d.day_count(x, y).ok(), d.year_fraction(x, y).ok(), d.year_fraction_to_date(x, t).ok()));
    }
    for _ in 0..3 {
        let (d, main) = (date(val + r.i(0, 4000)), r.b());
        b.q("IMM dates", move || {
            let n = IMM.next_date(d, main);
            (n, IMM.code(n), IMM.code(n).and_then(|c| IMM.date(c, Some(d))), IMM.is_imm_date(n, main))
        });
        let p = fx::tenor(r);
        b.q("tenor arithmetic", move || ((d + p).ok(), (d - p).ok()));
        let f = InterestRateFutures::new(P::Months(3));
        b.q("futures maturity", move || f.maturity_date(d).ok());
    }
}

fn index(r: &mut Rng) -> InterestRateIndex {
    loop {
        let e = match r.n(6) {
            0 => IE::SOFR,
            1 => IE::SONIA,
            2 => IE::ESTR,
            _ => IE::EUIBOR(*r.pick(&[P::Months(1), P::Months(3), P::Months(6)])),
        };
        if let Some(i) = InterestRateIndex::from_enum(e) {
            return i;
        }
    }
}

fn par(r: &mut Rng, years: u32) -> InterestRateSwap {
    let leg = |t, dir, f, step, k: &mut Rng| {
        InterestRateSwapLeg::new(t, dir, index(k), 1.0, ScheduleDetail::new(f, P::Months(step), P::Years(years), counter(k.n(4)).1, calendar(k), *k.pick(&biz::ALL), 0, 0, 0), vec![])
    };
    let rate = r.f(0.0, 0.06);
    InterestRateSwap::new(vec![leg(InterestRateSwapLegType::Fixed { coupon: rate }, Direction::Sell, F::Annual, 12, r), leg(InterestRateSwapLegType::Float { spread: 0.0 }, Direction::Buy, F::Semiannual, 6, r)])
}

fn quotes(r: &mut Rng, val: i64) -> YieldTermMarketData {
    let cash = (1..=r.i(2, 6))
        .map(|k| OISRate { value: r.f(-0.005, 0.06), interest_rate_index: InterestRateIndex { period: P::Months(3 * k as u32), settlement_days: r.i(0, 2), currency: Currency::EUR, calendar: calendar(r), convention: biz::ALL[r.n(5)], day_counter: counter(r.n(4)).1, end_of_month: r.b() } })
        .collect();
    let swaps = (2..2 + r.i(0, 2) as u32).map(|y| par(r, y)).collect();
    YieldTermMarketData::new(date(val), cash, vec![], swaps)
}

fn curves(b: &mut Bench, r: &mut Rng, val: i64) {
    let q = Rc::new(quotes(r, val));
    let x = q.clone();
    b.q("stripped curve", move || x.get_stripped_curve().ok());
    b.q("quotes as stored", move || format!("{q:?}"));
    for hidden in [false, true] {
        let y = Rc::new(yts(val, &random_pillars(r, val, hidden)));
        for _ in 0..3 {
            let (t, s, x) = (date(val + r.i(1, 5000)), r.f(-50.0, 50.0), y.clone());
            b.q("curve readings", move || {
                let m = Im::PiecewiseLinearContinuous;
                (x.zero_rate(t, &m).ok(), x.discount(t, &Im::StepFunctionForward).ok(), x.shifted_discount(t, &m, s).ok(), x.forward_rate(t, P::Months(6), &m).ok())
            });
        }
        b.q("curve document", move || serde_json::to_string(&*y).unwrap());
    }
    // a live curve, fed by its quotes between readings
    let mut md = quotes(r, val);
    let y = Rc::new(RefCell::new(yts(val, &[])));
    let o: Rc<RefCell<dyn Observer>> = y.clone();
    md.attach(o.clone());
    let t = date(val + r.i(30, 1500));
    let mut k = 0;
    b.s("observed curve", move || {
        let _keep = &o;
        k += 1;
        if let Some(c) = md.cash_quote.first_mut() {
            c.value += 0.001 * k as f64;
        }
        let ok = md.notify_observers().is_ok();
        let y = y.borrow();
        (ok, y.zero_rate(t, &Im::PiecewiseLinearContinuous).ok(), y.stripped_curves.len())
    });
}

fn rates(b: &mut Bench, r: &mut Rng, val: i64) {
    let v = date(val);
    let sc = random_pillars(r, val, true);
    let vols: Vec<(i64, f64)> = (0..3).map(|i| (val + 200 + 400 * i, r.lf(0.001, 0.02))).collect();
    let surf = IRNormalVolSurface { valuation_date: v, pillars: vols.iter().map(|(e, v)| CapletVolPillar { expiry: date(*e), nodes: vec![(0.0, *v), (0.05, v * 1.3)] }).collect() };
    let mk = Rc::new(IrMarketContext::new(v, Currency::EUR, yts(val, &sc), Some(surf)));
    for _ in 0..2 {
        let y = r.i(1, 6) as u32;
        let s = Rc::new(par(r, y));
        let (x, k) = (s.clone(), mk.clone());
        b.q("swap value", move || (x.mtm(&k).ok(), x.dv01(&k).ok(), x.modified_duration(&k).ok()));
        let (x, k) = (s.clone(), mk.clone());
        b.q("swap convexity", move || [RateShiftMode::Zeros, RateShiftMode::Instruments, RateShiftMode::Forwards, RateShiftMode::Swaps].map(|m| x.gamma(&k, 10.0, m).ok()));
        let x = s.clone();
        b.q("swap schedule", move || x.legs.iter().map(|l| (l.effective_date(v).ok(), l.generate_schedule(v).ok())).collect::<Vec<_>>());
        let (x, c) = (s.clone(), Rc::new(RefCell::new(yts(val, &sc))));
        b.q("swap on a mutable curve", move || {
            let n = x.npv(v, &mut c.borrow_mut()).ok();
            (n, format!("{:?}", c.borrow()))
        });
        b.q("swap document", move || serde_json::to_string(&*s).unwrap());
    }
    let mut cap = |r: &mut Rng| {
        let start = val + r.i(1, 300);
        let k = r.i(1, 8) as usize;
        let rows = fqmon::caps::strip(r, start, k);
        CapFloor {
            basic_info: BasicInfo { trade_date: v, style: Style::IRSwap, direction: if r.b() { Direction::Buy } else { Direction::Sell }, expiry_date: date(rows[0].0), delivery_date: date(rows[0].2) },
            kind: if r.b() { CapFloorKind::Cap } else { CapFloorKind::Floor },
            style: if r.b() { CapStyle::ForwardLooking } else { CapStyle::BackwardCompounded },
            currency: Currency::EUR,
            notional: r.lf(1.0, 1e8),
            strike: r.f(-0.01, 0.08),
            valuation_date: v,
            schedule: rows.iter().map(|(s, e, p)| InterestRateSchedulePeriod::new(date(*s), date(*e), date(*p), date(*s), 0.0, 1.0)).collect(),
            accrual_day_counter: counter(r.n(4)).1,
        }
    };
    for _ in 0..3 {
        let (c, k) = (cap(r), mk.clone());
        b.q("cap value and risks", move || (c.mtm(&k).ok(), c.dv01(&k).ok(), c.gamma(&k, 10.0, RateShiftMode::Zeros).ok(), c.vega(&k, 1.0).ok(), c.modified_duration(&k).ok()));
    }
    let k = mk.clone();
    b.q("rate context", move || format!("{k:?}"));
    let (k, t, s) = (mk.clone(), date(val + r.i(20, 2000)), r.f(0.0, 0.06));
    b.q("context readings", move || (k.rate(t).ok(), k.discount(t).ok(), k.caplet_vol(t, s).ok()));
    // strip a caplet surface from premia
    let c = cap(r);
    let premium = c.mtm(&mk).map_or(0.0, |v| v.value);
    let n = c.schedule.len();
    let md = IRCapMarketData::new(v, vec![CapQuote { strike: c.strike, notional: c.notional, direction: c.basic_info.direction, kind: c.kind, style: c.style, currency: c.currency, schedule: c.schedule, accrual_day_counter: c.accrual_day_counter, market_npv: premium }]);
    let y = yts(val, &sc);
    b.q("caplet stripping", move || {
        let mut s = IRNormalVolSurface::new(v);
        (s.rebuild(&y, &md).is_ok(), s.pillars.len() <= n, format!("{:?}", s.pillars))
    });
}

fn forex(b: &mut Bench, r: &mut Rng, val: i64) {
    let name = *r.pick(&["EURUSD", "USDJPY", "GBPUSD", "USDCAD", "EURGBP"]);
    let u = || keep(fx::pair(name));
    let spot = if name.ends_with("JPY") { r.f(60.0, 200.0) } else { r.lf(0.4, 3.0) };
    let quotes = fx::standard_quotes(r, spot * fx::points(name) * 0.03);
    let (d, f) = (random_pillars(r, val, true), random_pillars(r, val, true));
    let mut pillars = vec![];
    let mut e = val;
    for _ in 0..r.i(1, 3) {
        e += r.i(30, 400);
        pillars.push(fx::random_smile(r, val, e, spot).1);
    }
    let Ok(surface) = FXVolSurface::new(date(val), pillars.clone()) else { return };
    let Ok(surface2) = FXVolSurface::new(date(val), pillars) else { return };
    let ctx = Rc::new(FxMarketContext::new(date(val), spot, (u().dom_currency(), u().frn_currency()), yts(val, &d), yts(val, &f), u().forward_helper(date(val), spot, quotes.clone()), surface));
    let cal = Rc::new(u().calendar());
    for _ in 0..4 {
        let (t, k) = (date(val + r.i(3, 900)), spot * r.f(0.85, 1.2));
        let (c, l) = (ctx.clone(), cal.clone());
        b.q("FX context readings", move || (c.forward_at(t, &*l).ok(), c.rate_d(t).ok(), c.rate_f(t).ok(), c.discount_d(t).ok(), c.discount_f(t).ok(), c.implied_vol(t, k).ok()));
        let n = r.lf(1.0, 1e7);
        let info = |s| BasicInfo { trade_date: date(val), style: s, direction: Direction::Buy, expiry_date: t, delivery_date: t };
        let fwd = FXForward { basic_info: info(Style::FXForward), asset: fx::pair(name), notional_currency: u().frn_currency(), notional_amounts: n, strike: k };
        let opt = FXVanillaOption { basic_info: info(Style::FXCall), asset: fx::pair(name), option_type: if r.b() { OptionType::Call } else { OptionType::Put }, notional_currency: u().dom_currency(), notional_amounts: n, strike: k, volatility: r.lf(0.02, 0.5) };
        let c = ctx.clone();
        b.q("FX forward", move || (fwd.mtm(&c).ok(), fwd.delta(&c).ok()));
        let c = ctx.clone();
        b.q("FX option", move || (opt.mtm(&c).ok(), opt.delta(&c).ok(), opt.gamma(&c).ok(), opt.vega(&c).ok()));
        let (x, p) = (u(), fx::tenor(r));
        let h = NaiveTime::from_hms_opt(0, 0, 0).unwrap().with_hour(r.n(24) as u32).unwrap();
        b.q("pair dates", move || (x.settlement_date(p, t).ok(), x.effective_valuation_date(t, h), x.calendar().is_business_day(t), x.cutoff_utc(), x.settles()));
    }
    let (t, k) = (date(val + r.i(3, 900)), spot * r.f(0.85, 1.2));
    let surface2 = Rc::new(surface2);
    let x = surface2.clone();
    b.q("FX smile", move || x.volatility(t, k).ok());
    for _ in 0..2 {
        let (t, k, x) = (date(val + r.i(3, 900)), spot * r.f(0.85, 1.2), surface2.clone());
        b.q("FX smile", move || x.volatility(t, k).ok());
    }
    let c = ctx.clone();
    b.q("FX context", move || format!("{c:?}"));
    let (mut h, l) = (u().forward_helper(date(val), spot, quotes), u().calendar());
    let y = Rc::new(RefCell::new(yts(val, &d)));
    let o: Rc<RefCell<dyn Observer>> = y.clone();
    h.attach(o.clone());
    b.s("live forward ladder", move || {
        let _keep = &o;
        h.spot_ref *= 1.001;
        for q in &mut h.quotes {
            q.value *= 1.01;
        }
        (h.notify_observers().is_ok(), h.get_forward(t, &l).ok(), y.borrow().valuation_date)
    });
}

fn pc(r: &mut Rng, k: &[f64], a: f64, b: f64) -> Pc {
    Pc::new(k.to_vec(), (1..k.len()).map(|_| r.f(a, b)).collect())
}

fn smiles(b: &mut Bench, r: &mut Rng) {
    let mut k = vec![0.0];
    for i in 0..1 + r.n(4) {
        k.push(k[i] + r.f(0.2, 1.2));
    }
    let end = *k.last().unwrap();
    let (a, nu, rho) = (pc(r, &k, 0.05, 0.4), pc(r, &k, 0.1, 1.0), pc(r, &k, -0.8, 0.8));
    let (x, y, z) = (nu.clone(), a.clone(), rho.clone());
    let w = (x.clone(), y.clone());
    b.q("effective vol of vol", move || effective_vol_vol(&w.0, &w.1, end));
    let w = (x.clone(), y.clone());
    b.q("effective volatility", move || effective_term_structure(&w.0, &w.1, end));
    b.q("effective correlation", move || effective_correlation(&x, &y, &z, end));
    let beta = *r.pick(&[0.0, 0.5, 1.0]);
    let f = r.f(0.7, 1.5);
    let p = SabrParams::new(r.f(0.05, 0.4), beta, r.f(-0.8, 0.8), r.f(0.1, 1.0));
    let ks: Vec<f64> = (0..5).map(|i| f * (0.8 + 0.1 * i as f64)).collect();
    let kk = ks.clone();
    let one = kk[2];
    b.q("smile formula", move || kk.iter().map(|k| hagan_implied_vol(&p, f, *k, end)).collect::<Vec<_>>());
    b.q("smile formula at one strike", move || hagan_implied_vol(&p, f, one * 1.01, end));
    b.q("smile formula at the money", move || hagan_atm_vol(&p, f, end));
    let (fwd, sd, t, v) = (r.lf(0.3, 100.0), r.f(0.5, 1.6), r.f(0.1, 4.0), r.lf(0.02, 0.8));
    b.q("Black call", move || bs_call_forward(fwd, fwd * sd, v, t, 0.9));
    let c = bs_call_forward(fwd, fwd * sd, v, t, 0.9);
    b.q("implied volatility", move || bs_implied_vol(c, fwd, fwd * sd, t, 0.9, true));
    b.q("normal distribution", move || (normal::cdf(sd), normal::inverse_cdf(0.5 * v)));
    let td = TimeDependentSabrParams::new(a, rho, nu, beta, f);
    let seed = r.next();
    let (x, y) = (td.clone(), td.clone());
    b.q("time-dependent paths", move || TimeDependentSabrSimulator::new(x.clone(), seed).simulate(0.9 * end, 8, 3));
    let mut live = TimeDependentSabrSimulator::new(y, seed);
    b.s("time-dependent simulator", move || live.simulate(0.9 * end, 3, 2));
    let mut live = SabrSimulator::new(p, f, seed);
    b.s("smile simulator", move || live.simulate(end, 4, 2));
    b.q("smile paths", move || SabrSimulator::new(p, f, seed).simulate(end, 4, 2));
    let loc = DupireLocalVol { expiries: vec![0.1, 0.5 * end + 0.2, end + 0.3], strikes: vec![0.5 * f, f, 1.8 * f], variance: (0..3).map(|_| (0..3).map(|_| r.lf(0.004, 0.2)).collect()).collect() };
    let (l, q) = (loc.clone(), r.f(0.4, 2.0) * f);
    b.q("local volatility", move || (l.local_variance(0.3 * end, q), l.t_range(), l.k_range()));
    let bins = 2 + r.n(9);
    let (x, l) = (td.clone(), loc.clone());
    b.q("particle paths", move || TimeDependentSabrSlvSimulator::new(x.clone(), l.clone(), seed).with_bins(bins).simulate(0.9 * end, 4, 40));
    let mut live = TimeDependentSabrSlvSimulator::new(td, loc, seed).with_bins(bins);
    b.s("particle simulator", move || live.simulate(0.9 * end, 3, 30));
    let vols: Vec<f64> = ks.iter().map(|k| hagan_implied_vol(&p, f, *k, end)).collect();
    let o = NelderMeadOptions { max_iter: 80, ..NelderMeadOptions::default() };
    let strip = MarketSmileStrip { expiry_yf: end, forward: f, strikes: ks.clone(), vols: vols.clone() };
    let seed_p = SabrParams::new(p.alpha * 1.2, beta, 0.5 * p.rho, p.nu * 0.8);
    b.q("smile calibration", move || {
        let fit = sbc::calibrate(seed_p, f, &sbc::targets_from_grid(&ks, &vols), end, o);
        let d = sbc::SabrSmileCalibrator { initial: seed_p }.calibrate(&strip, o).ok();
        (format!("{fit:?}"), format!("{d:?}"))
    });
}

/// Long-lived parameters for the borrowing characteristic functions.
fn keep<T>(x: T) -> &'static T {
    Box::leak(Box::new(x))
}

fn chf<C: ForwardChf>(c: &C, u: Complex64, f: f64, k: f64) -> (Complex64, f64, f64) {
    let p = CosPricer::new(c);
    (c.evaluate(u), p.call(f * k, 0.97), CosPricer::new(c).with_n_terms(64).put(f * k, 0.97))
}

fn hybrids(b: &mut Bench, r: &mut Rng) {
    let p = fxm::hhw(r);
    let (t, u, k) = (r.f(0.2, 4.0), Complex64::new(r.f(-15.0, 15.0), r.f(-0.5, 0.5)), r.f(0.7, 1.4));
    b.q("hybrid characteristic function", move || {
        let c = FxHhw1ForwardChf::new(&p, t);
        (format!("{:?}", c.components(u, 0.5 * t)), chf(&c, u, p.fx_0, k))
    });
    // one live function, asked again and again
    let c = FxHhw1ForwardChf::new(keep(p), t);
    let c = Rc::new(c);
    for j in 0..3 {
        let (c, u, k) = (c.clone(), u + 0.7 * j as f64, k * (1.0 + 0.03 * j as f64));
        b.q("live hybrid function", move || chf(&*c, u, p.fx_0, k));
    }
    let seed = r.next();
    b.q("hybrid paths", move || FxHhwSimulator::new(p, seed).map(|mut s| s.simulate(t, 6, 2)).ok());
    if let Ok(mut live) = FxHhwSimulator::new(p, seed) {
        b.s("hybrid simulator", move || live.simulate(t, 3, 2));
    }
    let st = ForeignStock { s_0: r.lf(1.0, 5000.0), variance: fxm::heston(r), rho_xi_sf: r.f(-0.5, 0.5), rho_sf_omega: r.f(-0.5, 0.5) };
    b.q("stock paths", move || FxHhwStockSimulator::new(p, st, seed).map(|mut s| s.simulate(t, 6, 2)).ok());
    if let Ok(mut live) = FxHhwStockSimulator::new(p, st, seed) {
        b.s("stock simulator", move || live.simulate(t, 3, 2));
    }
    let (cir, hw) = (fxm::heston(r), fxm::hw(r));
    b.q("square-root process mean", move || cir.mean(t));
    b.q("square-root process variance", move || (cir.variance(t), cir.feller_satisfied()));
    b.q("square-root process mean root", move || cir.sqrt_mean(t));
    b.q("square-root process proxy", move || cir.sqrt_mean_proxy().eval(t));
    b.q("Hull-White loading", move || hw.b(0.1, t));
    b.q("Hull-White rate variance", move || hw.short_rate_variance(0.1, t));
    b.q("Hull-White bond variance", move || hw.bond_log_variance(0.0, 0.1, t));
    let (val, mu, s) = (date(r.i(11_000, 20_000)), r.f(-0.1, 0.1), r.f(0.05, 0.5));
    let req: Vec<_> = (0..3).map(|_| val + chrono::Days::new(r.i(1, 300) as u64)).collect();
    let go = move |seed| {
        let d = Actual365Fixed::default();
        (
            simulate_at_dates(&mut BrownianMotion::new(seed).with_drift(mu).with_volatility(s), val, &req, 2, 30, &d).paths,
            simulate_at_dates(&mut GeometricBrownianMotion::new(1.2, mu, s, seed), val, &req, 2, 30, &d).paths,
            simulate_at_dates(&mut HullWhiteSimulator::new_constant_theta(hw, 0.01, 0.03, seed), val, &req, 2, 30, &d).paths,
            simulate_at_dates(&mut CirSimulator::new(cir, seed), val, &req, 2, 30, &d).paths,
        )
    };
    b.q("dated paths", move || go(seed));
    let mut live = CirSimulator::new(cir, seed);
    let mut x = live.initial_state();
    b.s("square-root simulator", move || {
        x = live.step(&x, 0.0, 0.1);
        x
    });
    let mut w = GeometricBrownianMotion::new(1.2, mu, s, seed);
    let mut x = w.initial_state();
    b.s("lognormal simulator", move || {
        x = w.step(&x, 0.0, 0.1);
        x
    });
    let mut w = BrownianMotion::new(seed);
    let mut x = w.initial_state();
    b.s("brownian simulator", move || {
        x = w.step(&x, 0.0, 0.1);
        x
    });
    let fwd = p.fx_0 * ((p.rd_0 - p.rf_0) * t).exp();
    let (ks, vols) = (vec![0.95 * fwd, fwd, 1.08 * fwd], vec![0.13, 0.12, 0.125]);
    let o = NelderMeadOptions { max_iter: 3, ..NelderMeadOptions::default() };
    if r.chance(0.2) {
        b.q("hybrid calibration", move || format!("{:?}", hwc::calibrate(p, &hwc::targets_from_grid(&ks, &vols), t, 0.1, o)));
    }
    b.q("hybrid option", move || hwc::price_call(&p, t, fwd));
    b.q("hybrid option vols", move || hwc::model_implied_vols(&p, t, &[0.97 * fwd, fwd]));
}

fn rate_models(b: &mut Bench, r: &mut Rng) {
    let (l, f) = fxm::lmm(r);
    let (l, f) = (keep(l), keep(f));
    let end = *f.tenor.dates.last().unwrap();
    let (t, u, k) = (r.f(0.3, 1.0) * end, Complex64::new(r.f(-15.0, 15.0), r.f(-0.5, 0.5)), r.f(0.8, 1.25));
    b.q("libor characteristic function", move || {
        let c = FxHlmm1ForwardChf::new(l, t);
        (format!("{:?}", c.components(u)), chf(&c, u, l.fx_0, k))
    });
    b.q("forward-market characteristic function", move || {
        let c = FxFmm1ForwardChf::new(f, t);
        (format!("{:?}", c.components(u)), chf(&c, u, f.fx_0, k))
    });
    let c = FxHlmm1ForwardChf::new(l, t);
    b.q("live libor function", move || chf(&c, u, l.fx_0, k));
    let c = FxFmm1ForwardChf::new(f, t);
    b.q("live forward-market function", move || chf(&c, u, f.fx_0, k));
    b.q("model sums", move || (la_f(l, 1), l.validate().is_ok(), f.validate().is_ok()));
    b.q("libor linearised sum", move || lf(l, t, 1));
    b.q("forward-market sum", move || fa_d(f, 0.3 * t, 1));
    b.q("forward-market linearised sum", move || ff(f, 0.3 * t, 1));
    b.q("model parameters", move || format!("{l:?} {f:?}"));
    b.q("forward-market option", move || fmc::price_call(f, t, f.fx_0));
    b.q("libor option", move || lmc::price_call(l, t, l.fx_0));
    b.q("forward-market discount", move || fmc::discount_factor(f, t));
    b.q("libor discount", move || lmc::discount_factor(l, t));
    let seed = r.next();
    b.q("cross-currency paths", move || {
        FxFmmSimulator::new(f.clone(), seed)
            .map(|mut s| {
                let mut x = FxFmmState::initial(f);
                for _ in 0..5 {
                    s.step(&mut x, 0.07);
                }
                format!("{x:?}")
            })
            .ok()
    });
    if let Ok(mut live) = FxFmmSimulator::new(f.clone(), seed) {
        let mut x = FxFmmState::initial(f);
        b.s("cross-currency simulator", move || {
            live.step(&mut x, 0.05);
            format!("{x:?}")
        });
    }
    let m = Fmm::new(f.tenor.clone(), f.domestic.sigmas.clone(), f.domestic.rate_corr.clone(), f.domestic.decay);
    let (x, y) = (m.clone(), m.clone());
    let rate = r.f(0.0, 0.05);
    b.q("rate paths and bonds", move || {
        let mut s = FmmSimulator::new(x.clone(), seed).ok()?;
        let mut p = s.initial_path();
        for _ in 0..4 {
            s.step(&mut p, 0.15 * end);
        }
        let c = FlatCurve { rate };
        Some((format!("{p:?}"), bond_price(&x, &p, end, &c), bank_account(&x, &p, &c)))
    });
    if let Ok(mut live) = FmmSimulator::new(y, seed) {
        let mut p = live.initial_path();
        b.s("rate simulator", move || {
            live.step(&mut p, 0.05);
            format!("{p:?}")
        });
    }
}

type Reference<K = u64> = BTreeMap<K, Vec<Vec<String>>>;

fn reference<K: Clone + Ord + ToString>(seeds: &[K]) -> Result<Reference<K>, String> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let mut out = Reference::new();
    for chunk in seeds.chunks(8) {
        let kids: Vec<_> = chunk
            .iter()
            .enumerate()
            .map(|(i, s)| {
                let mut c = std::process::Command::new(&exe);
                // the surroundings differ from process to process
                c.env("FQMON_BENCH", s.to_string()).env("TZ", ["UTC", "Asia/Tokyo", "America/Los_Angeles", "XXX-13:45"][i % 4]).env("LC_ALL", ["C", "de_DE.UTF-8"][i / 4 % 2]);
                (s.clone(), c.stdin(std::process::Stdio::null()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null()).spawn())
            })
            .collect();
        for (s, k) in kids {
            let o = k.map_err(|e| e.to_string())?.wait_with_output().map_err(|e| e.to_string())?;
            let v = serde_json::from_slice(&o.stdout).map_err(|e| format!("bench {}: {:?} {e}", s.to_string(), o.status))?;
            out.insert(s, v);
        }
    }
    Ok(out)
}

/// Everything in one random order: questions several times, sessions to
/// their end, the benches built at random points of the history.
struct Report {
    asked: u64,
    pairs: HashSet<(&'static str, &'static str)>,
    kinds: BTreeMap<&'static str, u64>,
    bad: Vec<(String, String)>,
}

fn history(seeds: &[u64], repeats: usize, order: u64, want: &Reference) -> Report {
    let mut r = Rng::new(order);
    let mut rep = Report { asked: 0, pairs: HashSet::new(), kinds: BTreeMap::new(), bad: vec![] };
    let mut last = "";
    let mut todo: Vec<u64> = seeds.to_vec();
    r.shuffle(&mut todo);
    let mut live: Vec<(u64, Vec<Item>)> = vec![];
    // (bench in `live`, item), one entry per call still to be made
    let mut calls: Vec<(usize, usize)> = vec![];
    let mut done: BTreeMap<(usize, usize), usize> = BTreeMap::new();
    while !todo.is_empty() || !calls.is_empty() {
        if !todo.is_empty() && (live.len() < 3 || calls.len() < 60 || r.chance(0.01)) {
            let s = todo.pop().unwrap();
            let b = bench(s);
            let at = live.len();
            for (i, x) in b.iter().enumerate() {
                let n = if x.rounds() > 1 { x.rounds() } else { repeats };
                calls.extend((0..n).map(|_| (at, i)));
            }
            live.push((s, b));
            continue;
        }
        let c = calls.swap_remove(r.n(calls.len()));
        let (s, b) = &mut live[c.0];
        let x = &mut b[c.1];
        let n = done.entry(c).or_insert(0);
        let k = if x.rounds() > 1 { *n } else { 0 };
        *n += 1;
        let got = x.ask();
        let expected = want.get(s).and_then(|v| v.get(c.1)).and_then(|v| v.get(k));
        rep.asked += 1;
        *rep.kinds.entry(x.name).or_insert(0) += 1;
        rep.pairs.insert((last, x.name));
        last = x.name;
        if expected != Some(&got) && rep.bad.len() < 20 {
            let cut = |t: &str| t.chars().take(300).collect::<String>();
            rep.bad.push((x.name.into(), format!("bench {s} call {n} order {order}: alone {} now {}", expected.map(|e| cut(e)).unwrap_or("(nothing)".into()), cut(&got))));
        }
    }
    rep
}

fn absorb(m: &mut Mon, tag: &str, rep: Report) {
    m.add(&format!("answers compared: {tag}"), rep.asked);
    for (k, n) in rep.kinds {
        m.add(k, n);
    }
    for p in rep.pairs {
        m.case((p.0.to_string(), p.1.to_string()));
    }
    for (name, d) in rep.bad {
        m.violate(&format!("{tag}: {name}"), d);
    }
}

type Twins = (u64, Vec<(&'static str, u64, u64)>, Option<(&'static str, String)>);

fn next_to_each_other(f: u64, js: &[u64], want: &Reference<String>) -> Twins {
    let (mut asked, mut cases) = (0, vec![]);
    let key = format!("{f}/0");
    let mut base = family(f, 0).0;
    for j in js {
        let other = format!("{f}/{j}");
        let mut twin = family(f, *j).0;
        for i in 0..base.len().min(twin.len()) {
            let name = base[i].name;
            if name != twin[i].name {
                break;
            }
            let (a, b) = (&want[&key][i][0], &want[&other][i][0]);
            for (own, w) in [(true, a), (false, b), (true, a)] {
                let got = if own { base[i].ask() } else { twin[i].ask() };
                asked += 1;
                if got != *w {
                    let cut = |t: &str| t.chars().take(300).collect::<String>();
                    return (asked, cases, Some((name, format!("family {other}: alone {} next to its twin {}", cut(w), cut(&got)))));
                }
            }
            if a != b {
                cases.push((name, f, *j));
            }
        }
    }
    (asked, cases, None)
}

/// Families of questions that differ in one input: each member is put next
/// to the others, and every answer is compared with that of a process which
/// was asked that member only.
fn twins(m: &mut Mon) {
    let n = m.scale(42, 900) as u64;
    let at = m.rng.next() >> 20;
    let mut keys = vec![];
    let mut fams = vec![];
    for f in at..at + n {
        let draws = family(f, 0).1;
        let mut js: Vec<u64> = (1..=draws).collect();
        m.rng.shuffle(&mut js);
        js.truncate(60);
        keys.push(format!("{f}/0"));
        keys.extend(js.iter().map(|j| format!("{f}/{j}")));
        fams.push((f, js));
    }
    let want = match reference(&keys) {
        Ok(w) => w,
        Err(e) => return m.violate("reference", e),
    };
    m.add("reference processes for twins", want.len() as u64);
    let w = &want;
    let reps: Vec<_> = std::thread::scope(|sc| {
        let h: Vec<_> = fams.chunks(fams.len().div_ceil(6)).map(|c| sc.spawn(move || c.iter().map(|(f, js)| next_to_each_other(*f, js, w)).collect::<Vec<_>>())).collect();
        h.into_iter().flat_map(|h| h.join().unwrap()).collect()
    });
    for (asked, cases, bad) in reps {
        m.add("answers compared: near twins", asked);
        m.add("twin questions with another answer", cases.len() as u64);
        for c in cases {
            m.case(c);
        }
        if let Some((name, d)) = bad {
            m.violate(&format!("near twins: {name}"), d);
        }
    }
    m.need("twin questions with another answer", 1500);
}

fn body(m: &mut Mon) {
    let n = m.scale(180, 4000);
    let seeds: Vec<u64> = (0..n).map(|_| m.rng.next() >> 16).collect();
    m.section("references");
    let want = match reference(&seeds) {
        Ok(w) => w,
        Err(e) => return m.violate("reference", e),
    };
    m.add("reference processes", want.len() as u64);
    let mut errors = 0;
    for a in want.values().flatten().flatten() {
        errors += (a == "panic") as u64;
    }
    m.add("questions that panic alone", errors);
    m.section("near twins");
    twins(m);
    m.section("one process");
    for _ in 0..2 {
        let o = m.rng.next();
        let rep = history(&seeds, 3, o, &want);
        absorb(m, "random order", rep);
    }
    m.section("threads");
    let jobs: Vec<(Vec<u64>, u64)> = (0..6)
        .map(|_| {
            let mut s = seeds.clone();
            m.rng.shuffle(&mut s);
            s.truncate(n / 2);
            (s, m.rng.next())
        })
        .collect();
    let w = &want;
    let reps: Vec<Report> = std::thread::scope(|sc| {
        let h: Vec<_> = jobs.iter().map(|(s, o)| sc.spawn(move || history(s, 2, *o, w))).collect();
        h.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for rep in reps {
        absorb(m, "several threads", rep);
    }
    let k = want.keys().next().unwrap();
    m.sample(json!({"bench": k, "first answer alone": want[k][0][0].chars().take(200).collect::<String>()}));
    m.assume("an answer is compared through its Debug form, which tells every finite double apart");
    m.assume("time zone and locale of the reference processes differ from the monitor's own");
    m.need("answers compared: random order", 5000);
    m.need("answers compared: several threads", 3000);
    for k in ["business days", "date rolling", "day count", "stripped curve", "curve readings", "observed curve", "swap value", "cap value and risks", "caplet stripping", "FX context readings", "FX option", "live forward ladder", "effective correlation", "time-dependent simulator", "particle simulator", "smile calibration", "live hybrid function", "hybrid simulator", "dated paths", "live libor function", "live forward-market function", "cross-currency simulator", "rate simulator"] {
        m.need(k, 20);
    }
}
