//! C07: day-count conventions.
use chrono::{Datelike, NaiveDate};
use finquant::time::calendars::Calendar;
use finquant::time::daycounters::DayCounters;
use finquant::time::daycounters::actual360::Actual360;
use finquant::time::daycounters::actual364::Actual364;
use finquant::time::daycounters::actual365fixed::Actual365Fixed;
use finquant::time::daycounters::actual366::Actual366;
use finquant::time::daycounters::actualactual::{ActualActual, ActualActualMarket};
use finquant::time::daycounters::business252::Business252;
use finquant::time::daycounters::thirty360::{Thirty360, Thirty360Market};
use finquant::time::daycounters::thirty365::Thirty365;
use fqmon::dates::*;
use fqmon::markets::markets;
use fqmon::synth::{STYLES, Synth};
use fqmon::{Mon, biz};
use serde_json::json;

fn no_leap_index(n: i64) -> i64 {
    // days elapsed since year 0 ignoring every 29 February
    let (y, m, d) = civil_from_days(n);
    let d = if m == 2 && d == 29 { 28 } else { d };
    let doy: i64 = (1..m).map(|k| dim(2001, k) as i64).sum::<i64>() + d as i64;
    y as i64 * 365 + doy
}
fn isda(a: i64, b: i64) -> f64 {
    if a > b {
        return -isda(b, a);
    }
    // year by year: days of the period falling in that year over its length
    let (y1, y2) = (civil_from_days(a).0, civil_from_days(b).0);
    (y1..=y2)
        .map(|y| {
            let (s, e) = (days_from_civil(y, 1, 1), days_from_civil(y + 1, 1, 1));
            (b.min(e) - a.max(s)) as f64 / (e - s) as f64
        })
        .sum()
}
fn afb(a: i64, b: i64) -> f64 {
    if a > b {
        return -afb(b, a);
    }
    // k-th anniversary counted back from the end date
    let (y2, m2, d2) = civil_from_days(b);
    let back = |k: i32| {
        if k == 0 {
            return b;
        }
        let y = y2 - k;
        if m2 == 2 && d2 >= 28 { days_from_civil(y, 2, dim(y, 2)) } else { days_from_civil(y, m2, d2) }
    };
    let mut k = 0;
    while back(k + 1) >= a {
        k += 1;
    }
    let e = back(k);
    let leap = (civil_from_days(a).0..=civil_from_days(e).0)
        .any(|y| is_leap(y) && a <= days_from_civil(y, 2, 29) && days_from_civil(y, 2, 29) < e);
    k as f64 + (e - a) as f64 / if leap { 366.0 } else { 365.0 }
}
fn thirty(kind: u32, a: NaiveDate, b: NaiveDate, term: NaiveDate) -> i64 {
    let last_feb = |d: NaiveDate| d.month() == 2 && d.day() == dim(d.year(), 2);
    let (mut d1, mut d2) = (a.day() as i64, b.day() as i64);
    let (m1, mut m2) = (a.month() as i64, b.month() as i64);
    match kind {
        0 => {
            // US
            if last_feb(a) {
                if last_feb(b) {
                    d2 = 30;
                }
                d1 = 30;
            }
            if d2 == 31 && d1 >= 30 {
                d2 = 30;
            }
            d1 = d1.min(30);
        }
        1 => {
            d1 = d1.min(30);
            d2 = d2.min(30);
        }
        2 => {
            d1 = if m1 == 2 && d1 >= 28 { 30 } else { d1.min(30) };
            d2 = if m2 == 2 && d2 >= 28 { 30 } else { d2.min(30) };
        }
        3 => {
            d1 = d1.min(30);
            if d1 == 30 {
                d2 = d2.min(30);
            }
        }
        4 | 5 => {
            d1 = if last_feb(a) { 30 } else { d1.min(30) };
            d2 = if last_feb(b) && b != term { 30 } else { d2.min(30) };
        }
        6 => {
            d1 = d1.min(30);
            if d2 == 31 {
                if d1 == 30 {
                    d2 = 30;
                } else {
                    d2 = 1;
                    m2 += 1;
                }
            }
        }
        _ => {}
    }
    360 * (b.year() as i64 - a.year() as i64) + 30 * (m2 - m1) + d2 - d1
}

struct Conv {
    name: &'static str,
    c: Box<dyn DayCounters>,
    days: Box<dyn Fn(NaiveDate, NaiveDate) -> i64>,
    yf: Box<dyn Fn(NaiveDate, NaiveDate) -> f64>,
    anti: bool,
    additive: bool,
}

fn convs(term: NaiveDate) -> Vec<Conv> {
    let act = |a: NaiveDate, b: NaiveDate| num(b) - num(a);
    let nl = |a: NaiveDate, b: NaiveDate| no_leap_index(num(b)) - no_leap_index(num(a));
    let std: Actual365Fixed = serde_json::from_str(r#"{"market":"Standard"}"#).expect("365F");
    let noleap: Actual365Fixed = serde_json::from_str(r#"{"market":"NoLeap"}"#).expect("365NL");
    let mut v = vec![];
    macro_rules! add {
        ($n:expr, $c:expr, $d:expr, $y:expr, $anti:expr, $addv:expr) => {
            v.push(Conv { name: $n, c: Box::new($c), days: Box::new($d), yf: Box::new($y), anti: $anti, additive: $addv })
        };
    }
    add!("Act/360", Actual360, act, move |a, b| act(a, b) as f64 / 360.0, true, true);
    add!("Act/364", Actual364, act, move |a, b| act(a, b) as f64 / 364.0, true, true);
    add!("Act/366", Actual366, act, move |a, b| act(a, b) as f64 / 366.0, true, true);
    add!("Act/365F", Actual365Fixed::default(), act, move |a, b| act(a, b) as f64 / 365.0, true, true);
    add!("Act/365F std", std, act, move |a, b| act(a, b) as f64 / 365.0, true, true);
    add!("Act/365NL", noleap, nl, move |a, b| nl(a, b) as f64 / 365.0, true, true);
    add!("ActAct", ActualActual::default(), act, |a, b| isda(num(a), num(b)), true, true);
    add!("ActAct ISDA", ActualActual { market: Some(ActualActualMarket::Isda) }, act, |a, b| isda(num(a), num(b)), true, true);
    add!("ActAct Euro", ActualActual { market: Some(ActualActualMarket::Euro) }, act, |a, b| afb(num(a), num(b)), true, false);
    add!("30/365", Thirty365, move |a, b| thirty(9, a, b, a), move |a, b| thirty(9, a, b, a) as f64 / 365.0, true, true);
    let ms = [
        ("30/360 US", Thirty360Market::USA, 0u32, false),
        ("30/360 European", Thirty360Market::European, 1, true),
        ("30/360 Italian", Thirty360Market::Italian, 2, true),
        ("30/360 ISMA", Thirty360Market::ISMA, 3, false),
        ("30/360 ISDA", Thirty360Market::ISDA(term), 4, false),
        ("30/360 German", Thirty360Market::German(term), 5, false),
        ("30/360 NASD", Thirty360Market::NASD, 6, false),
    ];
    for (n, mk, k, sym) in ms {
        add!(n, Thirty360::new(mk), move |a, b| thirty(k, a, b, term), move |a, b| thirty(k, a, b, term) as f64 / 360.0, sym, sym);
    }
    add!("30/360 default", Thirty360::default(), move |a, b| thirty(0, a, b, term), move |a, b| thirty(0, a, b, term) as f64 / 360.0, false, false);
    v
}

fn draw(m: &mut Mon) -> i64 {
    let n = m.rng.i(days_from_civil(1901, 1, 2), days_from_civil(2198, 12, 1));
    let (y, _, _) = civil_from_days(n);
    match m.rng.n(8) {
        0 => num(eom(date(n))),
        1 => num(eom(date(n))) - m.rng.i(0, 3),
        2 => days_from_civil(y, 2, 27) + m.rng.i(0, 3),
        3 => days_from_civil(y / 4 * 4, 2, 28) + m.rng.i(0, 2),
        4 => days_from_civil(y, 12, 28) + m.rng.i(0, 7),
        _ => n,
    }
}

fn body(m: &mut Mon) {
    m.section("conventions against their definitions");
    for _ in 0..m.scale(30_000, 900_000) {
        let mut ns = [draw(m), draw(m), draw(m)];
        if m.rng.chance(0.5) {
            ns[1] = ns[0] + m.rng.i(-800, 800);
            ns[2] = ns[1] + m.rng.i(-400, 400);
        }
        if m.rng.chance(0.03) {
            ns[1] = ns[0];
        }
        if m.rng.chance(0.3) {
            ns.sort();
        }
        let [a, b, e] = ns.map(date);
        let term = *m.rng.pick(&[a, b, e]);
        for k in convs(term) {
            let r = m.guard(&format!("panic/{}", k.name), || format!("{a} {b}"), || {
                (k.c.day_count(a, b), k.c.year_fraction(a, b), k.c.year_fraction(b, a), k.c.year_fraction(b, e), k.c.year_fraction(a, e))
            });
            let Some((Ok(d), Ok(y), Ok(r), Ok(y2), Ok(y3))) = r else {
                if r.is_some() {
                    m.violate(&format!("error/{}", k.name), format!("{a} {b}"));
                }
                continue;
            };
            let want = (k.days)(a, b);
            m.check(d == want, &format!("days/{}", k.name), || format!("{a} {b} (term {term}): {d}, definition {want}"));
            let wy = (k.yf)(a, b);
            m.close(&format!("fraction/{}", k.name), y, wy, 1e-12, 1e-12, || format!("{a} {b} (term {term})"));
            if k.anti {
                m.close(&format!("antisymmetric/{}", k.name), r, -y, 1e-12, 1e-12, || format!("{a} {b}"));
            }
            if k.additive {
                m.close(&format!("additive/{}", k.name), y + y2, y3, 1e-12, 1e-11, || format!("{a} {b} {e}"));
            }
            // 30/360 ISDA treats the termination date specially, so the empty
            // period at a February termination date is not zero by definition
            if a == b && want == 0 {
                m.check(d == 0 && y == 0.0, &format!("zero/{}", k.name), || format!("{a}: {d} {y}"));
                m.count("equal_dates");
            }
            m.case((k.name, ns[0], ns[1]));
        }
        m.count(if a > b { "reversed_pairs" } else { "forward_pairs" });
    }
    m.section("business/252");
    let names = markets().len();
    for k in 0..m.scale(500, 12_000) {
        let cal: Box<dyn Calendar> = if m.rng.b() {
            Box::new(Synth { seed: m.rng.next(), style: k as u32 % (STYLES + 1) })
        } else {
            let i = m.rng.n(names);
            markets().swap_remove(i).1
        };
        let js = format!("{{\"calendar\":{}}}", serde_json::to_string(&cal).expect("calendar json"));
        let dc: Business252 = serde_json::from_str(&js).expect("business252 json");
        for _ in 0..6 {
            let n0 = m.rng.i(days_from_civil(1910, 1, 1), days_from_civil(2190, 1, 1));
            let n1 = (n0 + if m.rng.chance(0.02) { m.rng.i(-20_000, 20_000) } else { m.rng.i(-900, 900) })
                .clamp(days_from_civil(1902, 1, 1), days_from_civil(2198, 12, 1));
            let (a, b) = (date(n0), date(n1));
            let r = m.guard("panic/business252", || format!("{js} {a} {b}"), || (dc.day_count(a, b), dc.year_fraction(a, b)));
            let (lo, hi) = (n0.min(n1), n0.max(n1));
            let want = (n1 - n0).signum() * (lo..hi).filter(|n| biz::open(cal.as_ref(), *n)).count() as i64;
            if let Some((Ok(d), Ok(y))) = r {
                m.check(d == want, "days/business252", || format!("{js} {a} {b}: {d}, counted {want}"));
                m.close("fraction/business252", y, want as f64 / 252.0, 1e-13, 1e-13, || format!("{a} {b}"));
            } else {
                m.violate("error/business252", format!("{a} {b}"));
            }
            m.case(("b252", js.clone(), n0, n1));
            m.count("business252");
        }
    }
    m.section("date of a year fraction");
    for _ in 0..m.scale(20_000, 400_000) {
        let n = draw(m);
        let k = m.rng.i(0, 1800);
        let (a, b) = (date(n), date(n + k));
        for c in convs(a).iter().take(5) {
            let r = m.guard("panic/yf-to-date", || format!("{} {a} {b}", c.name), || {
                let t = c.c.year_fraction(a, b)?;
                let d = c.c.year_fraction_to_date(a, t)?;
                Ok::<_, finquant::error::Error>((t, d, c.c.year_fraction(a, d)?))
            });
            match r {
                Some(Ok((t, d, t2))) => {
                    let tol = if c.name.starts_with("Act/365F") { 0 } else { 1 };
                    m.check((num(d) - num(b)).abs() <= tol, "yf-to-date", || {
                        format!("{} {a} + {t} years -> {d} ({t2}), expected {b}", c.name)
                    });
                }
                Some(Err(e)) => m.violate("yf-to-date-error", format!("{a} {b} {e}")),
                None => {}
            }
            m.case(("inv", c.name, n, k));
        }
    }
    m.sample(json!({"conventions": convs(ymd(2030, 1, 1)).iter().map(|c| c.name).collect::<Vec<_>>()}));
    m.need("reversed_pairs", 1000);
    m.need("equal_dates", 500);
    m.need("business252", 1000);
}

fn main() {
    fqmon::run("C07", "distinct (convention, from, to) pairs with month-end / leap-day bias, plus business/252 calendars and inverse queries", body)
}
