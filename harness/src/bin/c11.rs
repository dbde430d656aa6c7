//! C11: bootstrapped curves reprice their quotes.
use finquant::derivatives::basic::Direction;
use finquant::derivatives::interestrate::swap::*;
use finquant::markets::interestrate::futures::InterestRateFutures;
use finquant::markets::interestrate::interestrateindex::InterestRateIndex;
use finquant::markets::interestrate::market_context::IrMarketContext;
use finquant::markets::termstructures::yieldcurve::oisratehelper::OISRate;
use finquant::markets::termstructures::yieldcurve::ratehelper::FuturesRate;
use finquant::markets::termstructures::yieldcurve::{InterestRateQuoteEnum as Q, StrippedCurve, YieldTermMarketData};
use finquant::time::businessdayconvention::BusinessDayConvention as B;
use finquant::time::calendars::{Calendar, Target, UnitedKingdom, UnitedStates};
use finquant::time::daycounters::actual365fixed::Actual365Fixed;
use finquant::time::frequency::Frequency as F;
use finquant::time::period::Period as P;
use fqmon::dates::*;
use fqmon::rates::*;
use fqmon::{Mon, Rng, biz};
use iso_currency::Currency;
use serde_json::json;

fn cal(k: usize) -> Box<dyn Calendar> {
    match k % 3 {
        0 => Box::<Target>::default(),
        1 => Box::<UnitedStates>::default(),
        _ => Box::<UnitedKingdom>::default(),
    }
}

fn index(p: P, lag: i64, c: usize, dc: usize, b: B, eom: bool) -> InterestRateIndex {
    InterestRateIndex {
        period: p,
        settlement_days: lag,
        currency: Currency::EUR,
        calendar: cal(c),
        convention: b,
        day_counter: counter(dc).1,
        end_of_month: eom,
    }
}

#[derive(Clone, Debug)]
struct Cash {
    q: f64,
    p: P,
    lag: i64,
    c: usize,
    dc: usize,
    b: B,
    eom: bool,
    settle: i64,
    mat: i64,
}
#[derive(Clone, Debug)]
struct Fut {
    price: f64,
    conv: f64,
    code: String,
    months: u32,
    dc: usize,
    settle: i64,
    mat: i64,
}
#[derive(Clone, Debug)]
struct Swap {
    float_first: bool,
    coupon: f64,
    years: u32,
    lag: i64,
    c: usize,
    dcs: [usize; 2],
    steps: [u32; 2],
    pay: i64,
    recv: bool,
    n: f64,
    spread: f64,
    mat: i64,
    eff: i64,
}
#[derive(Clone, Debug)]
struct Set {
    val: i64,
    cash: Vec<Cash>,
    fut: Vec<Fut>,
    swaps: Vec<Swap>,
}

fn third_wed(y: i32, m: u32) -> i64 {
    (15..=21).map(|d| days_from_civil(y, m, d)).find(|n| weekday(*n) == 2).unwrap()
}

fn gen_set(r: &mut Rng) -> Set {
    // reference dates in the first years of a decade: two-character futures
    // codes are then unambiguous
    let y = 10 * r.i(199, 206) as i32 + r.i(0, 5) as i32;
    let t = cal(0);
    let val = biz::fwd(t.as_ref(), days_from_civil(y, 1, 1) + r.i(0, 360));
    let val = if r.chance(0.15) { biz::last_open(t.as_ref(), val) } else { val };
    let base = if r.chance(0.25) {
        if r.chance(0.1) { r.f(-0.05, -0.02) } else { r.f(-0.02, 0.0) }
    } else if r.chance(0.07) {
        r.f(0.09, 0.3)
    } else {
        r.f(0.0, 0.09)
    };
    let noise = *r.pick(&[0.0, 0.001, 0.004]);
    let mut cash: Vec<Cash> = vec![];
    let fam = (r.n(3), r.n(4), *r.pick(&[0i64, 1, 2]));
    for _ in 0..r.i(0, 6) {
        let p = match r.n(4) {
            0 => P::Weeks(r.i(1, 3)),
            1 => P::Days(r.i(1, 10)),
            _ => P::Months(r.i(1, 12) as u32),
        };
        let b = if r.b() { B::ModifiedFollowing } else { B::Following };
        let (c, dc, lag) = if r.chance(0.2) { (r.n(3), r.n(4), r.i(0, 3)) } else { fam };
        let k = cal(c);
        let settle = biz::walk(k.as_ref(), val, lag, b);
        let mut mat = biz::tenor(k.as_ref(), settle, p, b);
        // month-end rule: from the last open day of a month to that of another
        let mut eom = false;
        if let P::Months(n) = p
            && settle == biz::last_open(k.as_ref(), settle)
            && r.b()
        {
            eom = true;
            mat = biz::last_open(k.as_ref(), num(add_months(date(settle), n as i64)));
        }
        cash.push(Cash { q: base + r.f(-noise, noise), p, lag, c, dc, b, eom, settle, mat });
    }
    let mut last = cash.iter().map(|x| x.mat).max().unwrap_or(val);
    let mut fut = vec![];
    if !cash.is_empty() && r.chance(0.6) {
        let monthly = r.chance(0.3);
        let gap = if r.chance(0.2) { r.i(1, 8) } else { 0 };
        let (mut yy, mut mm) = (y, civil_from_days(val).1);
        let (mut made, want) = (0, r.i(1, 10));
        let mut skip = gap;
        while made < want {
            mm += 1;
            if mm > 12 {
                mm = 1;
                yy += 1;
            }
            let s = third_wed(yy, mm);
            if (!monthly && mm % 3 != 0) || s <= val + 3 {
                continue;
            }
            if skip > 0 {
                skip -= 1;
                continue;
            }
            if yy / 10 != y / 10 {
                break;
            }
            let e0 = biz::tenor(t.as_ref(), s, P::Months(3), B::ModifiedFollowing);
            let (ey, em) = biz::month(e0);
            let mat = third_wed(ey, em);
            if mat <= last {
                continue;
            }
            fut.push(Fut {
                price: 100.0 * (1.0 - base - r.f(-noise, noise)),
                conv: r.f(-0.05, 0.0),
                code: format!("{}{}", "FGHJKMNQUVXZ".as_bytes()[mm as usize - 1] as char, yy.rem_euclid(10)),
                months: 3,
                dc: fam.1,
                settle: s,
                mat,
            });
            last = mat;
            made += 1;
        }
    }
    let mut swaps = vec![];
    let mut years = 0;
    let sl = *r.pick(&[0i64, 1, 2, 2]);
    let sc = r.n(3);
    let many = r.chance(0.02);
    // at extreme rates one quote under two conventions is an arbitrage and the
    // set has no curve; such sets keep to one convention
    let same = !(-0.02..=0.09).contains(&base);
    let (dcf, step) = (r.n(4), *r.pick(&[12u32, 6, 3]));
    for _ in 0..if many { r.i(7, 18) } else { r.i(0, 6) } {
        years += if many || same { r.i(1, 3) } else { r.i(1, 6) } as u32;
        if same && years as f64 * base > 1.5 {
            break; // nothing is left to discount
        }
        let k = cal(sc);
        let b = B::ModifiedFollowing;
        let eff = biz::walk(k.as_ref(), val, sl, b);
        let mat = biz::tenor(k.as_ref(), eff, P::Years(years), b);
        if mat < last + 40 {
            continue;
        }
        let s = *r.pick(&[3u32, 6, 12]);
        swaps.push(Swap {
            coupon: base + r.f(-noise, noise),
            years,
            lag: sl,
            c: sc,
            dcs: if same { [dcf, dcf] } else { [r.n(4), r.n(4)] },
            steps: if same { [step, step] } else { [*r.pick(&[12u32, 12, 6, 3]), s] },
            float_first: r.chance(0.3),
            pay: *r.pick(&[0i64, 0, 1, 2]),
            recv: r.b(),
            n: r.lf(1.0, 1e8),
            spread: if !same && r.chance(0.3) { r.f(-0.002, 0.002) } else { 0.0 },
            mat,
            eff,
        });
        last = mat;
    }
    Set { val, cash, fut, swaps }
}

fn build_swap(s: &Swap) -> InterestRateSwap {
    let mk = |k: usize| {
        let ty = if k == 0 {
            InterestRateSwapLegType::Fixed { coupon: s.coupon }
        } else {
            InterestRateSwapLegType::Float { spread: s.spread }
        };
        let step = s.steps[k];
        let f = match step {
            3 => F::Quarterly,
            6 => F::Semiannual,
            _ => F::Annual,
        };
        InterestRateSwapLeg::new(
            ty,
            if (k == 0) == s.recv { Direction::Buy } else { Direction::Sell },
            index(P::Months(3), s.lag, s.c, 0, B::ModifiedFollowing, false),
            s.n,
            ScheduleDetail::new(
                f,
                P::Months(step),
                if step == 12 { P::Years(s.years) } else { P::Months(12 * s.years) },
                counter(s.dcs[k]).1,
                cal(s.c),
                B::ModifiedFollowing,
                s.lag,
                s.pay,
                0,
            ),
            vec![],
        )
    };
    // a 12-month step needs its life in the same unit as its tenor
    InterestRateSwap::new(if s.float_first { vec![mk(1), mk(0)] } else { vec![mk(0), mk(1)] })
}

/// Independent value of the swap on a reference curve, and its magnitude.
fn value(s: &Swap, c: &Curve) -> (f64, f64) {
    let k = cal(s.c);
    let b = B::ModifiedFollowing;
    let (mut v, mut mag) = (0.0, 0.0);
    for l in 0..2 {
        let sign = if (l == 0) == s.recv { 1.0 } else { -1.0 };
        let yf = counter(s.dcs[l]).2;
        let mut a = s.eff;
        let m = 12 * s.years / s.steps[l];
        for j in 1..=m {
            let e = biz::tenor(k.as_ref(), s.eff, P::Months(j * s.steps[l]), b);
            let pay = biz::walk(k.as_ref(), e, s.pay, b);
            let t = yf(a, e);
            let cf = if l == 0 { s.coupon * t } else { c.df(a) / c.df(e) - 1.0 + s.spread * t };
            v += sign * s.n * cf * c.df(pay);
            mag += s.n * cf.abs() * c.df(pay);
            if j == m {
                v += sign * s.n * c.df(pay);
                mag += s.n * c.df(pay);
            }
            a = e;
        }
    }
    (v, mag)
}

fn md(s: &Set, cash_order: &[usize], nsw: usize) -> YieldTermMarketData {
    YieldTermMarketData::new(
        date(s.val),
        cash_order
            .iter()
            .map(|i| {
                let c = &s.cash[*i];
                OISRate { value: c.q, interest_rate_index: index(c.p, c.lag, c.c, c.dc, c.b, c.eom) }
            })
            .collect(),
        s.fut
            .iter()
            .map(|f| FuturesRate {
                value: f.price,
                imm_code: f.code.clone(),
                convexity_adjustment: f.conv,
                futures_spec: InterestRateFutures::new(P::Months(f.months)),
                interest_rate_index: index(P::Months(3), 2, 0, f.dc, B::ModifiedFollowing, false),
            })
            .collect(),
        s.swaps.iter().take(nsw).map(build_swap).collect(),
    )
}

/// The pillar nearest to `t` among the two surrounding it.
fn related(p: &[StrippedCurve], t: i64) -> Vec<f64> {
    // a pillar covers (its start, its date]; the nearer of the first covering
    // pillar and its predecessor, or the end pillar when none covers
    let cov = p.iter().position(|c| num(c.first_settle_date) < t && num(c.date) >= t);
    match cov {
        Some(0) => vec![p[0].zero_rate],
        Some(i) => {
            let (a, b) = (t - num(p[i - 1].date), num(p[i].date) - t);
            if b <= a { vec![p[i].zero_rate] } else { vec![p[i - 1].zero_rate] }
        }
        None => vec![if t > num(p[p.len() - 1].date) { p[p.len() - 1].zero_rate } else { p[0].zero_rate }],
    }
}

fn one(m: &mut Mon, k: usize) {
    let s = gen_set(&mut m.rng);
    if s.cash.len() + s.fut.len() + s.swaps.len() == 0 {
        m.trivial();
        return;
    }
    let who = || format!("{s:?}");
    m.section(&format!("bootstrap {k} {s:?}"));
    let mut order: Vec<usize> = (0..s.cash.len()).collect();
    m.rng.shuffle(&mut order);
    let data = md(&s, &order, s.swaps.len());
    let sc = match m.guard("panic/bootstrap", who, || data.get_stripped_curve()) {
        Some(Ok(x)) => x,
        Some(Err(e)) => {
            m.violate("bootstrap/error", format!("{e:?} {}", who()));
            return;
        }
        None => return,
    };
    m.case((s.val, k, sc.len()));
    if k < 6 {
        m.sample(json!({"valuation": date(s.val), "cash": s.cash.len(), "futures": s.fut.len(), "swaps": s.swaps.len()}));
    }
    if !m.check(sc.len() == s.cash.len() + s.fut.len() + s.swaps.len(), "pillar-per-quote", || {
        format!("{} pillars for {}", sc.len(), who())
    }) {
        return;
    }
    let yf = |a: i64, b: i64| (b - a) as f64 / 365.0;
    // deposits: one pillar per quote, in maturity order
    let nc = s.cash.len();
    m.check(sc[..nc].windows(2).all(|w| w[0].date <= w[1].date), "cash-order", who);
    let mut left: Vec<usize> = (0..nc).collect();
    for p in &sc[..nc] {
        m.check(p.source == Q::OIS, "source", who);
        let hit = left.iter().position(|i| {
            let c = &s.cash[*i];
            c.mat == num(p.date) && c.q == p.market_rate && c.settle == num(p.first_settle_date) && p.hidden_pillar == (c.p == P::Weeks(1)) && {
                let one = (1.0 + c.q * counter(c.dc).2(c.settle, c.mat)) * (-p.zero_rate * yf(c.settle, c.mat)).exp();
                (one - 1.0).abs() < 1e-12
            }
        });
        match hit {
            Some(i) => {
                let j = left.remove(i);
                m.count("cash_quotes");
                if s.cash[j].eom {
                    m.count("month-end deposits");
                }
            }
            None => m.violate("cash-reprice", format!("pillar {p:?} matches no remaining quote of {}", who())),
        }
        m.close("cash-discount", p.discount, (-p.zero_rate * yf(s.val, num(p.date))).exp(), 1e-13, 0.0, who);
    }
    // futures
    for (i, f) in s.fut.iter().enumerate() {
        let p = &sc[nc + i];
        m.check(p.source == Q::Futures && p.market_rate == f.price && !p.hidden_pillar, "futures-pillar", || format!("{p:?} {f:?}"));
        m.check(num(p.first_settle_date) == f.settle && num(p.date) == f.mat, "futures-dates", || {
            format!("{p:?} expected {} {} {f:?}", date(f.settle), date(f.mat))
        });
        let prev = &sc[..nc + i];
        let implied = 1.0 - f.price / 100.0 + f.conv / 100.0;
        let want: Vec<f64> = related(prev, f.settle)
            .iter()
            .map(|z| (-z * yf(s.val, f.settle)).exp() / (1.0 + counter(f.dc).2(f.settle, f.mat) * implied))
            .collect();
        let best = want.iter().cloned().min_by(|a, b| (a - p.discount).abs().total_cmp(&(b - p.discount).abs())).unwrap();
        m.close("futures-reprice", p.discount, best, 1e-12, 0.0, || format!("{p:?} {}", who()));
        let z = -p.discount.ln() / yf(s.val, f.mat);
        if i > 0 {
            m.close("futures-zero", p.zero_rate, z, 1e-11, 1e-13, || format!("{p:?} {}", who()));
        } else {
            // the forward-consistent value of the first contract: the rate the
            // repository's reference numbers pin
            let mut cum = 1.0;
            let mut a = s.val;
            for c in prev {
                cum *= (-c.zero_rate * yf(a, num(c.date))).exp();
                a = num(c.date);
            }
            let w = -(p.discount / cum).ln() / yf(a, f.mat);
            m.close("futures-first-zero", p.zero_rate, w, 1e-9, 1e-11, || format!("{p:?} {}", who()));
            m.check((p.zero_rate - z).abs() < 1e-12, "first-futures-zero-rate", || {
                format!("first futures pillar {p:?}: its own discount factor implies {z}")
            });
        }
        m.count("futures_quotes");
    }
    // swaps: the curve up to and including each pillar prices it at zero
    for (i, w) in s.swaps.iter().enumerate() {
        let j = nc + s.fut.len() + i;
        let p = &sc[j];
        m.check(p.source == Q::Swap && (p.market_rate == w.coupon || w.float_first) && !p.hidden_pillar, "swap-pillar", || format!("{p:?} {w:?}"));
        m.check(num(p.date) == w.mat && num(p.first_settle_date) == w.eff, "swap-dates", || format!("{p:?} {w:?}"));
        m.close("swap-discount", p.discount, (-p.zero_rate * yf(s.val, w.mat)).exp(), 1e-12, 0.0, || format!("{p:?}"));
        let c = Curve::of(s.val, &sc[..=j]);
        let (v, mag) = value(w, &c);
        m.close("swap-reprice", v / mag, 0.0, 0.0, 2e-10, || format!("swap {w:?} on {c:?}"));
        // the complete curve only moves the days after the pillar
        let full = Curve::of(s.val, &sc);
        let (v2, mag2) = value(w, &full);
        if j + 1 < sc.len() {
            let slope = (sc[j + 1].zero_rate - p.zero_rate).abs() / (num(sc[j + 1].date) - w.mat) as f64;
            let days = 1.0 + w.pay as f64 * 2.0 + 6.0;
            let bound = 3.0 * slope * days * yf(s.val, w.mat) + 1e-9;
            m.close("swap-reprice-full", v2 / mag2, 0.0, 0.0, bound, || format!("swap {w:?} on {full:?}"));
        }
        if let Some(Ok(npv)) = m.guard("panic/npv", who, || build_swap(w).npv(date(s.val), &mut yts(s.val, &sc))) {
            m.close("swap-own-npv", npv / mag2, v2 / mag2, 0.0, 1e-12, || format!("swap {w:?} on {full:?}"));
        }
        m.count("swap_quotes");
        if p.zero_rate < 0.0 {
            m.count("negative_swap_pillars");
        }
    }
    // later quotes leave earlier pillars alone; the order of deposits is irrelevant
    let keep = if s.swaps.is_empty() { 0 } else { m.rng.n(s.swaps.len()) };
    if let Some(Ok(sub)) = m.guard("panic/rebuild", who, || md(&s, &order, keep).get_stripped_curve()) {
        let n = sub.len();
        let a: Vec<_> = sub[nc..].iter().zip(&sc[nc..n]).collect();
        m.check(a.iter().all(|(x, y)| x == y), "later-quotes-disturb", who);
    } else {
        m.violate("rebuild/error", who());
    }
    m.rng.shuffle(&mut order);
    if let Some(Ok(sub)) = m.guard("panic/reorder", who, || md(&s, &order, 0).get_stripped_curve()) {
        let ok = sub[..nc].iter().zip(&sc[..nc]).all(|(x, y)| x.date == y.date)
            && sub[..nc].iter().all(|x| sc[..nc].contains(x));
        m.check(ok, "deposit-order-matters", who);
    } else {
        m.violate("reorder/error", who());
    }
    let ctx = m.guard("panic/context", who, || {
        IrMarketContext::from_raw_quotes(
            date(s.val),
            Currency::EUR,
            data,
            None,
            Box::new(finquant::time::calendars::Japan),
            Box::<finquant::time::daycounters::actual360::Actual360>::default(),
        )
    });
    if let Some(Ok(c)) = ctx {
        let cal: Box<dyn finquant::time::calendars::Calendar> = Box::new(finquant::time::calendars::Japan);
        let dc: Box<dyn finquant::time::daycounters::DayCounters> = Box::<finquant::time::daycounters::actual360::Actual360>::default();
        let told = serde_json::to_value(&c.curve.calendar).ok() == serde_json::to_value(&cal).ok() && serde_json::to_value(&c.curve.day_counter).ok() == serde_json::to_value(&dc).ok();
        m.check(told, "context-conventions", who);
        m.check(c.curve.stripped_curves == sc && c.valuation_date == date(s.val), "context-curve", who);
    } else {
        m.violate("context/error", who());
    }
}

fn body(m: &mut Mon) {
    m.assume("futures codes name contracts of the reference date's decade; quotes are supplied with increasing, non-overlapping maturities");
    for k in 0..m.scale(3_000, 150_000) {
        one(m, k);
    }
    m.need("month-end deposits", 50);
    m.need("cash_quotes", 1500);
    m.need("futures_quotes", 1500);
    m.need("swap_quotes", 1500);
    m.need("negative_swap_pillars", 100);
}

fn main() {
    fqmon::run("C11", "distinct quote sets bootstrapped", body)
}
