//! C04: advancing a date by a tenor.
use chrono::NaiveDate;
use finquant::time::calendars::Calendar;
use finquant::time::period::Period as P;
use fqmon::dates::*;
use fqmon::markets::markets;
use fqmon::synth::{STYLES, Synth};
use fqmon::{Mon, biz};
use serde_json::json;

fn walk(c: &dyn Calendar, mut n: i64, k: i64) -> i64 {
    let s = k.signum();
    let mut left = k.abs();
    while left > 0 {
        n += s;
        if biz::open(c, n) {
            left -= 1;
        }
    }
    n
}

fn one(m: &mut Mon, c: &dyn Calendar, name: &str, n: i64) {
    let d = date(n);
    let b = *m.rng.pick(&biz::ALL);
    let at_end = n == biz::last_open(c, n);
    let kind = m.rng.n(5);
    let (p, raw, months) = match kind {
        0 => {
            let k = if m.rng.chance(0.004) {
                m.rng.i(-6000, 6000)
            } else if m.rng.chance(0.1) {
                m.rng.i(-300, 300)
            } else {
                m.rng.i(-25, 25)
            };
            (P::Days(k), 0, false)
        }
        1 => {
            let k = if m.rng.chance(0.1) { m.rng.i(-2000, 2000) } else { m.rng.i(-60, 60) };
            (P::Weeks(k), n + 7 * k, false)
        }
        2 => {
            let k = if m.rng.chance(0.1) { m.rng.i(0, 540) } else { m.rng.i(0, 180) };
            (P::Months(k as u32), num(add_months(d, k)), true)
        }
        3 => {
            let k = m.rng.i(0, 40);
            (P::Years(k as u32), num(add_months(d, 12 * k)), true)
        }
        _ => {
            let (p, k) = *m.rng.pick(&[(P::ON, 1), (P::TN, 1), (P::SN, 1), (P::SPOT, 0)]);
            (p, n + k, false)
        }
    };
    let eom_flag = *m.rng.pick(&[None, Some(false), Some(true)]);
    let got = m.guard("panic/advance", || format!("{name} {d} {p:?} {b:?} {eom_flag:?}"), || {
        c.advance(d, p, b, eom_flag)
    });
    let got: NaiveDate = match got {
        Some(Ok(Some(x))) => x,
        Some(r) => {
            m.violate("no-date", format!("{name} {d} {p:?} {b:?}: {r:?}"));
            return;
        }
        None => return,
    };
    let g = num(got);
    let show = |w: i64| format!("{name} {d} {p:?} {b:?} eom {eom_flag:?}: {got} expected {}", date(w));
    m.case((name.to_string(), n, format!("{p:?}{b:?}{eom_flag:?}")));
    match p {
        P::Days(k) => {
            let w = if k == 0 { biz::adjust(c, n, b) } else { walk(c, n, k) };
            m.check(g == w, "days", || show(w));
            // the defining count, independently of the walk
            if k > 0 {
                let c1 = (n + 1..=g).filter(|x| biz::open(c, *x)).count() as i64;
                m.check(c1 == k && biz::open(c, g), "days-count", || format!("{name} {d} {p:?} -> {got}: {c1} open days"));
            }
            m.count(if k < 0 { "days_back" } else { "days_forward" });
        }
        _ if months && eom_flag == Some(true) => {
            let w = biz::last_open(c, raw);
            if at_end {
                m.check(g == w, "month-end", || show(w));
                m.count("month_end_starts");
            } else {
                let w2 = biz::adjust(c, raw, b);
                m.check(g == w || g == w2, "month-end-other", || show(w));
            }
        }
        _ => {
            let w = biz::adjust(c, raw, b);
            m.check(g == w, if months { "months" } else { "weeks" }, || show(w));
            m.count(if months { "months" } else { "weeks" });
        }
    }
}

fn body(m: &mut Mon) {
    let per = m.scale(1500, 60_000);
    for (name, c) in markets() {
        m.section(&format!("advance on {name}"));
        let (lo, hi) = (days_from_civil(1945, 1, 1), days_from_civil(2150, 1, 1));
        for _ in 0..per {
            let mut n = m.rng.i(lo, hi);
            if m.rng.chance(0.4) {
                n = biz::last_open(c.as_ref(), n);
            } else if m.rng.chance(0.2) {
                n = num(eom(date(n)));
            }
            one(m, c.as_ref(), name, n);
        }
    }
    for k in 0..m.scale(2000, 60_000) {
        let s = Synth { seed: m.rng.next(), style: k as u32 % (STYLES + 1) };
        let name = format!("{s:?}");
        m.section(&format!("advance on {name}"));
        for _ in 0..20 {
            let mut n = m.rng.i(days_from_civil(1800, 1, 1), days_from_civil(2400, 1, 1));
            if m.rng.chance(0.5) {
                n = biz::last_open(&s, n);
            }
            one(m, &s, &name, n);
        }
        if k < 3 {
            m.sample(json!({"calendar": name, "advances": 20}));
        }
    }
    m.need("month_end_starts", 1000);
    m.need("days_back", 1000);
    m.need("days_forward", 1000);
    m.need("months", 1000);
}

fn main() {
    fqmon::run("C04", "distinct (calendar, start, tenor, convention, end-of-month flag) advances", body)
}
