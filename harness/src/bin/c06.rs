//! C06: tenor arithmetic and FX settlement dates.
use chrono::NaiveDate;
use finquant::time::calendars::Calendar;
use finquant::time::period::{ONE_DAY, Period as P, TWO_DAYS};
use fqmon::dates::*;
use fqmon::markets::markets;
use fqmon::synth::{STYLES, Synth};
use fqmon::{Mon, biz};
use serde_json::json;

fn tenor(m: &mut Mon) -> P {
    match m.rng.n(9) {
        0 => P::ON,
        1 => P::TN,
        2 => P::SN,
        3 => P::SPOT,
        4 => P::Days(if m.rng.chance(0.1) { m.rng.i(0, 25_000) } else { m.rng.i(0, 400) }),
        5 => P::Weeks(if m.rng.chance(0.1) { m.rng.i(0, 3500) } else { m.rng.i(0, 110) }),
        6 => P::Months(m.rng.i(0, 40) as u32),
        7 => P::Months(m.rng.i(0, 600) as u32),
        _ => P::Years(m.rng.i(0, 60) as u32),
    }
}
fn moved(n: i64, p: P, s: i64) -> i64 {
    match p {
        P::ON | P::TN | P::SN => n + s,
        P::SPOT => n,
        P::Days(k) => n + s * k,
        P::Weeks(k) => n + 7 * s * k,
        P::Months(k) => num(add_months(date(n), s * k as i64)),
        P::Years(k) => num(add_months(date(n), 12 * s * k as i64)),
    }
}
/// Settlement of an unadjusted date: the month's last business day when the
/// date falls on or after it, the next business day otherwise.
fn settle(c: &dyn Calendar, raw: i64) -> i64 {
    let e = biz::last_open(c, raw);
    if raw >= e { e } else { biz::fwd(c, raw) }
}

fn settlement(m: &mut Mon, c: &dyn Calendar, name: &str) {
    let t = m.rng.i(days_from_civil(1950, 1, 1), days_from_civil(2120, 1, 1));
    let t = if m.rng.chance(0.4) { num(eom(date(t))) - m.rng.i(0, 4) } else { t };
    let d = date(t);
    let p = tenor(m);
    let base = match p {
        P::ON => t,
        P::TN => t + 1,
        _ => t + 2,
    };
    let want = settle(c, moved(base, p, 1));
    let got: Option<NaiveDate> = match m.guard("panic/settlement", || format!("{name} {d} {p:?}"), || p.settlement_date(d, c)) {
        Some(Ok(x)) => Some(x),
        Some(Err(e)) => {
            m.violate("settlement-error", format!("{name} {d} {p:?}: {e}"));
            None
        }
        None => None,
    };
    if let Some(g) = got {
        m.check(num(g) == want, "settlement", || format!("{name} {d} {p:?}: {g}, expected {}", date(want)));
        m.check(biz::open(c, num(g)), "settlement-closed", || format!("{name} {d} {p:?}: {g}"));
        m.case((name.to_string(), t, format!("{p:?}")));
        m.count("settlements");
        if !biz::open(c, moved(base, p, 1)) {
            m.count("settlement_rolled");
        }
        // monotone in the tenor and never before spot
        if !matches!(p, P::ON | P::TN | P::SPOT) {
            let k = m.rng.i(0, 3);
            let longer = match p {
                P::Days(x) => P::Days(x + k),
                P::Weeks(x) => P::Weeks(x + k),
                P::Months(x) => P::Months(x + k as u32),
                P::Years(x) => P::Years(x + k as u32),
                x => x,
            };
            if let Some((Ok(s), Ok(l))) = m.guard("panic/settlement", || format!("{name} {d}"), || {
                (P::SPOT.settlement_date(d, c), longer.settlement_date(d, c))
            }) {
                m.check(s <= g && g <= l, "settlement-order", || {
                    format!("{name} {d}: spot {s}, {p:?} {g}, {longer:?} {l}")
                });
            }
        }
    }
    let near = match p {
        P::ON => Some(t),
        P::TN => Some(t + 1),
        P::SN => Some(t + 2),
        _ => None,
    }
    .map(|n| date(biz::fwd(c, n)));
    match m.guard("panic/near", || format!("{name} {d} {p:?}"), || p.near_date(d, c)) {
        Some(Ok(g)) => {
            m.check(g == near, "near-date", || format!("{name} {d} {p:?}: {g:?}, expected {near:?}"));
        }
        Some(Err(e)) => m.violate("near-error", format!("{name} {d} {p:?}: {e}")),
        None => {}
    }
}

fn body(m: &mut Mon) {
    m.section("tenor arithmetic");
    m.check(ONE_DAY.num_days() == 1 && TWO_DAYS.num_days() == 2, "day-constants", || format!("{ONE_DAY} {TWO_DAYS}"));
    for _ in 0..m.scale(300_000, 8_000_000) {
        let t = m.rng.i(days_from_civil(1600, 1, 1), days_from_civil(2400, 1, 1));
        let t = if m.rng.chance(0.3) { num(eom(date(t))) } else { t };
        let d = date(t);
        let mut p = tenor(m);
        if m.rng.chance(0.2) {
            p = match p {
                P::Days(k) => P::Days(-k),
                P::Weeks(k) => P::Weeks(-k),
                x => x,
            }
        }
        let r = m.guard("panic/arith", || format!("{d} {p:?}"), || (d + p, d - p));
        if let Some((a, s)) = r {
            match (a, s) {
                (Ok(a), Ok(s)) => {
                    m.check(num(a) == moved(t, p, 1), "add", || format!("{d} + {p:?} = {a}"));
                    m.check(num(s) == moved(t, p, -1), "sub", || format!("{d} - {p:?} = {s}"));
                }
                x => m.violate("arith-error", format!("{d} {p:?}: {x:?}")),
            }
        }
        let k = m.rng.i(0, 20) as u32;
        let want = match p {
            P::Days(x) => P::Days(x * k as i64),
            P::Weeks(x) => P::Weeks(x * k as i64),
            P::Months(x) => P::Months(x * k),
            P::Years(x) => P::Years(x * k),
            x => x,
        };
        if let Some(g) = m.guard("panic/mul", || format!("{k} {p:?}"), || k * p) {
            m.check(g == want, "mul", || format!("{k} * {p:?} = {g:?}"));
        }
        m.case((t, format!("{p:?}")));
        m.count("arithmetic");
    }
    for (name, c) in markets() {
        m.section(&format!("settlement on {name}"));
        for _ in 0..m.scale(400, 20_000) {
            settlement(m, c.as_ref(), name);
        }
    }
    for k in 0..m.scale(2000, 60_000) {
        let s = Synth { seed: m.rng.next(), style: k as u32 % (STYLES + 1) };
        let name = format!("{s:?}");
        m.section(&format!("settlement on {name}"));
        for _ in 0..10 {
            settlement(m, &s, &name);
        }
        if k < 3 {
            m.sample(json!({"calendar": name, "settlements": 10}));
        }
    }
    m.need("settlement_rolled", 3000);
}

fn main() {
    fqmon::run("C06", "distinct (date, tenor) arithmetic and (calendar, trade date, tenor) settlements", body)
}
