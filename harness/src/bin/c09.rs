//! C09: generated swap schedules.
use chrono::NaiveDate;
use finquant::derivatives::basic::Direction;
use finquant::derivatives::interestrate::swap::*;
use finquant::markets::interestrate::interestrateindex::InterestRateIndex;
use finquant::markets::termstructures::yieldcurve::InterestRateQuote;
use finquant::time::businessdayconvention::BusinessDayConvention as B;
use finquant::time::calendars::Calendar;
use finquant::time::daycounters::actual360::Actual360;
use finquant::time::frequency::Frequency as F;
use finquant::time::period::Period as P;
use fqmon::dates::*;
use fqmon::markets::markets;
use fqmon::synth::{STYLES, Synth};
use fqmon::{Mon, Rng, biz};
use serde_json::json;

#[derive(Clone, Debug)]
struct Case {
    val: i64,
    bdc: B,
    lag: i64,
    pay: i64,
    reset: i64,
    n: i64,
    freq: usize,
    tenor: P,
    life: P,
    dir: Direction,
    notional: f64,
    eom: bool,
}

/// (frequency, step in months, step in days)
const FREQ: [(u8, i64, i64); 9] = [(0, 12, 0), (1, 6, 0), (2, 4, 0), (3, 3, 0), (4, 2, 0), (5, 1, 0), (6, 0, 28), (7, 0, 14), (8, 0, 7)];
fn freq(k: usize) -> F {
    [F::Annual, F::Semiannual, F::EveryFourthMonth, F::Quarterly, F::Bimonthly, F::Monthly, F::EveryFourthWeek, F::Biweekly, F::Weekly]
        .into_iter()
        .nth(k)
        .unwrap()
}

fn gen_case(r: &mut Rng, val: i64) -> Case {
    let k = r.n(9);
    let (_, mo, da) = FREQ[k];
    let most = if mo > 0 { 360 / mo } else { 60 };
    let n = if r.chance(0.1) {
        1
    } else if r.chance(0.01) {
        r.i(1, if mo > 0 { 600 / mo } else { 500 })
    } else {
        r.i(1, most).min(80)
    };
    let as_months = |r: &mut Rng, x: i64| if x % 12 == 0 && r.b() { P::Years((x / 12) as u32) } else { P::Months(x as u32) };
    let as_days = |r: &mut Rng, x: i64| if r.b() { P::Weeks(x / 7) } else { P::Days(x) };
    let (tenor, life) = if mo > 0 {
        (as_months(r, mo), as_months(r, mo * n))
    } else {
        (as_days(r, da), as_days(r, da * n))
    };
    Case {
        val,
        bdc: *r.pick(&biz::ALL),
        lag: *r.pick(&[0, 1, 2, 2, 3, 10]),
        pay: if r.chance(0.05) { r.i(0, 40) } else { *r.pick(&[0, 0, 1, 2, 5]) },
        reset: if r.chance(0.05) { r.i(0, 40) } else { *r.pick(&[0, 0, 1, 2, 5]) },
        n,
        freq: k,
        tenor,
        life,
        dir: if r.b() { Direction::Buy } else { Direction::Sell },
        notional: r.lf(1.0, 1e9),
        eom: false,
    }
}

fn leg(c: &Case, cal: Box<dyn Calendar>, cal2: Box<dyn Calendar>, given: Vec<InterestRateSchedulePeriod>) -> InterestRateSwapLeg {
    let idx = InterestRateIndex {
        period: P::Months(3),
        settlement_days: c.lag,
        currency: iso_currency::Currency::EUR,
        calendar: cal2,
        convention: B::Following,
        day_counter: Box::new(Actual360),
        end_of_month: c.eom,
    };
    InterestRateSwapLeg::new(
        InterestRateSwapLegType::Fixed { coupon: 0.03 },
        c.dir,
        idx,
        c.notional,
        ScheduleDetail::new(freq(c.freq), c.tenor, c.life, Box::new(Actual360), cal, c.bdc, c.lag, c.pay, c.reset),
        given,
    )
}

fn one(m: &mut Mon, name: &str, mk: &dyn Fn() -> Box<dyn Calendar>, real: bool) {
    let val = m.rng.i(days_from_civil(1980, 1, 1), days_from_civil(2090, 1, 1));
    // half the month-end schedules start on the last open day of a month
    let eom = real && m.rng.chance(0.25);
    let val = if eom && m.rng.b() { biz::last_open(mk().as_ref(), val) } else { val };
    let mut c = gen_case(&mut m.rng, val);
    c.eom = eom;
    if eom && m.rng.chance(0.7) {
        c.lag = 0;
    }
    let cal = mk();
    let l = leg(&c, mk(), mk(), vec![]);
    let who = || format!("{name} {c:?}");
    let Some(r) = m.guard("panic/generate", who, || l.generate_schedule(date(val))) else { return };
    let Ok(s) = r else {
        m.violate("error", format!("{}: {r:?}", who()));
        return;
    };
    m.case(format!("{name}{c:?}"));
    let eff = biz::walk(cal.as_ref(), val, c.lag, c.bdc);
    if let Some(Ok(Some(e))) = m.guard("panic/effective", who, || l.effective_date(date(val))) {
        m.check(num(e) == eff, "effective-date", || format!("{}: {e} expected {}", who(), date(eff)));
    } else {
        m.violate("effective-date", who());
    }
    if !m.check(s.len() as i64 == c.n, "period-count", || format!("{}: {} periods", who(), s.len())) {
        return;
    }
    let show = |k: usize, p: &InterestRateSchedulePeriod| format!("{name} {c:?} period {k}: {p:?}");
    m.check(num(s[0].accrual_start_date) == eff, "first-start", || show(0, &s[0]));
    let (_, mo, da) = FREQ[c.freq];
    for (k, p) in s.iter().enumerate() {
        let (a, e) = (num(p.accrual_start_date), num(p.accrual_end_date));
        if k > 0 {
            m.check(p.accrual_start_date == s[k - 1].accrual_end_date, "gap-or-overlap", || show(k, p));
        }
        let steps = k as i64 + 1;
        let raw = if mo > 0 { num(add_months(date(eff), mo * steps)) } else { eff + da * steps };
        let want = biz::adjust(cal.as_ref(), raw, c.bdc);
        if c.eom && mo > 0 {
            // from the last open day of a month to the last open day of a month;
            // elsewhere the month end or the plain roll
            let end = biz::last_open(cal.as_ref(), raw);
            let at_end = eff == biz::last_open(cal.as_ref(), eff);
            m.check(e == end || (!at_end && e == want), "month-end roll", || format!("{} expected end {}", show(k, p), date(end)));
            m.count(if at_end { "month-end periods" } else { "month-end rule, other starts" });
        } else {
            m.check(e == want, "roll-date", || format!("{} expected end {}", show(k, p), date(want)));
        }
        if real && mo > 0 && !c.eom {
            m.check(a < e, "not-increasing", || show(k, p));
        } else {
            m.check(a <= e, "not-increasing", || show(k, p));
        }
        let pay = biz::walk(cal.as_ref(), e, c.pay, c.bdc);
        m.check(num(p.pay_date) == pay, "pay-date", || format!("{} expected pay {}", show(k, p), date(pay)));
        let fix = biz::walk(cal.as_ref(), a, -c.reset, c.bdc);
        m.check(num(p.reset_date) == fix, "fixing-date", || format!("{} expected fixing {}", show(k, p), date(fix)));
        m.check(p.balance == c.notional, "balance", || show(k, p));
        m.count("periods");
    }
    // the swap's own start and end
    let long = m.rng.b() && !c.eom;
    let mut c2 = c.clone();
    if long && mo > 0 {
        c2.n += 1;
        c2.life = P::Months((mo * c2.n) as u32);
    }
    let swap = InterestRateSwap::new(vec![leg(&c, mk(), mk(), vec![]), leg(&c2, mk(), mk(), vec![])]);
    let last2 = if long && mo > 0 {
        biz::adjust(cal.as_ref(), num(add_months(date(eff), mo * c2.n)), c.bdc)
    } else {
        num(s.last().unwrap().accrual_end_date)
    };
    if let Some(Ok(x)) = m.guard("panic/settle", who, || swap.settle_date(date(val))) {
        m.check(num(x) == eff, "swap-start", || format!("{}: {x}", who()));
    }
    if let Some(Ok(x)) = m.guard("panic/maturity", who, || swap.maturity_date(date(val))) {
        let w = last2.max(num(s.last().unwrap().accrual_end_date));
        m.check(num(x) == w, "swap-maturity", || format!("{}: {x} expected {}", who(), date(w)));
    }
    // a supplied schedule is used as it is, whatever the details say
    let mut given = s.clone();
    let cut = m.rng.n(given.len()) + 1;
    given.truncate(cut);
    given[0].balance *= 0.5;
    let l3 = leg(&c, mk(), mk(), given.clone());
    let other: NaiveDate = date(val + m.rng.i(0, 400));
    if let Some(Ok(g)) = m.guard("panic/given", who, || l3.generate_schedule(other)) {
        m.check(g == given, "given-schedule", || who());
    }
    let (sw3, w3) = (InterestRateSwap::new(vec![l3]), given.last().unwrap().accrual_end_date);
    if let Some(Ok(x)) = m.guard("panic/maturity", who, || sw3.maturity_date(other)) {
        m.check(x == w3, "given-maturity", || format!("{}: {x}", who()));
    }
    m.count(if mo > 0 { "monthly" } else { "weekly" });
    if real {
        m.count("real_market");
    }
}

fn body(m: &mut Mon) {
    m.assume("tenor, frequency and swap life are consistent: the life is a whole number of tenors");
    let names: Vec<&str> = markets().iter().map(|x| x.0).collect();
    for k in 0..m.scale(6_000, 200_000) {
        let i = k % names.len();
        let mk = move || markets().into_iter().nth(i).unwrap().1;
        m.section(&format!("schedules on {}", names[i]));
        one(m, names[i], &mk, true);
        if k < 6 {
            m.sample(json!({"market": names[i]}));
        }
    }
    for k in 0..m.scale(6_000, 200_000) {
        let (seed, style) = (m.rng.next(), k as u32 % (STYLES + 1));
        let mk = move || -> Box<dyn Calendar> { Box::new(Synth { seed, style }) };
        m.section(&format!("schedules on synth {seed} {style}"));
        one(m, &format!("synth({seed},{style})"), &mk, false);
    }
    m.need("periods", 50_000);
    m.need("real_market", 4_000);
    m.need("weekly", 1_000);
    m.need("month-end periods", 2_000);
}

fn main() {
    fqmon::run("C09", "distinct (calendar, valuation date, tenor, life, convention, lags) schedules", body)
}
