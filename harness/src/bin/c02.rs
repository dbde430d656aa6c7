//! C02: joint calendars, Easter, month ends, weekends, holiday complement.
use chrono::{Datelike, NaiveDate};
use finquant::time::calendars::{Calendar, JointCalendar, WeekendsOnly};
use fqmon::dates::*;
use fqmon::markets::markets;
use fqmon::synth::{STYLES, Synth};
use fqmon::{Mon, biz};
use serde_json::json;

fn member(m: &mut Mon, all: usize) -> (Box<dyn Calendar>, String) {
    if m.rng.chance(0.4) {
        let s = Synth { seed: m.rng.next(), style: m.rng.i(0, STYLES as i64) as u32 };
        let t = format!("{s:?}");
        return (Box::new(s), t);
    }
    let i = m.rng.n(all);
    let (n, c) = markets().swap_remove(i);
    (c, n.to_string())
}

fn joint(m: &mut Mon, all: usize, depth: u32) -> (JointCalendar, String, Vec<Box<dyn Calendar>>) {
    // returns the joint calendar plus an independent copy of its flat members
    let k = if m.rng.chance(0.15) { 5 + m.rng.n(8) } else { m.rng.n(5) };
    let mut mine: Vec<Box<dyn Calendar>> = vec![];
    let mut flat: Vec<Box<dyn Calendar>> = vec![];
    let mut name = String::from("{");
    for _ in 0..k {
        if depth > 0 && m.rng.chance(0.25) {
            let (j, n, f) = joint(m, all, depth - 1);
            mine.push(Box::new(j));
            flat.extend(f);
            name += &n;
        } else {
            let (a, n) = member(m, all);
            let js = serde_json::to_string(&a).expect("calendar json");
            flat.push(serde_json::from_str(&js).expect("calendar back"));
            mine.push(a);
            name += &n;
        }
        name.push(' ');
    }
    name.push('}');
    (JointCalendar::new(mine), name, flat)
}

fn body(m: &mut Mon) {
    let all = markets().len();
    m.section("Easter tables against the computus");
    for y in 1901..=2199 {
        let w = WeekendsOnly;
        let jan0 = days_from_civil(y, 1, 1) - 1;
        for (k, want) in [("western", easter_sunday(y)), ("orthodox", orthodox_easter_sunday(y))] {
            let got = m.guard(&format!("easter/{k}"), || format!("{y}"), || {
                if k == "western" { w.easter_monday(y) } else { w.orthodox_easter_monday(y) }
            });
            if let Some(g) = got {
                m.check(jan0 + g as i64 == want + 1, &format!("easter/{k}"), || {
                    format!("{y}: day-of-year {g}, computus Easter Monday is {}", date(want + 1))
                });
            }
            m.case((k, y));
            m.count("easter_years");
        }
    }
    m.section("month-end, weekend and complement queries");
    let cals = markets();
    let step = if m.thorough() { 1 } else { 3 };
    let (lo, hi) = (days_from_civil(1901, 2, 1), days_from_civil(2199, 12, 31));
    for (ci, (name, c)) in cals.iter().enumerate() {
        let mut n = lo + (ci as i64 % step);
        while n <= hi {
            let d = date(n);
            let (y, mo, dd) = civil_from_days(n);
            // complement and weekend on every day, month ends on a few per month
            let r = Mon::attempt(|| (c.is_holiday(d), c.is_business_day(d), c.is_weekend(d), c.naive_date_to_dkmy(d)));
            match r {
                Ok((h, b, w, t)) => {
                    if h == b {
                        m.violate("complement", format!("{name} {d}: is_holiday {h} is_business_day {b}"));
                    }
                    if w != (weekday(n) >= 5) {
                        m.violate("weekend", format!("{name} {d}: is_weekend {w}"));
                    }
                    if (t.0, t.2, t.3) != (dd, mo, y)
                        || t.1.num_days_from_monday() != weekday(n)
                        || t.4 as i64 != n - days_from_civil(y, 1, 1) + 1
                    {
                        m.violate("decompose", format!("{d}: {t:?}"));
                    }
                }
                Err(p) => m.violate("panic/query", format!("{name} {d}: {p}")),
            }
            m.case(("q", ci, n));
            if dd >= 28 || dd <= 2 || (dd as i64 + y as i64) % 9 == 0 {
                let r = Mon::attempt(|| (c.last_day_of_month(d), c.end_of_month(d)));
                match r {
                    Ok((l, e)) => {
                        if l != eom(d) {
                            m.violate("last_day_of_month", format!("{d}: {l}"));
                        }
                        let want = biz::last_open(c.as_ref(), n);
                        if num(e) != want {
                            m.violate("end_of_month", format!("{name} {d}: {e}, last open day {}", date(want)));
                        }
                        m.count("month_ends");
                    }
                    Err(p) => m.violate("panic/month-end", format!("{name} {d}: {p}")),
                }
            }
            n += step;
        }
    }
    m.section("joint calendars");
    for round in 0..m.scale(400, 6000) {
        let (j, name, flat) = joint(m, all, 2);
        let start = m.rng.i(lo, hi - 500);
        let mut closed = 0u32;
        for n in start..start + 400 {
            let d = date(n);
            let want = flat.iter().all(|c| c.is_business_day(d));
            if !want {
                closed += 1;
            }
            let got = m.guard("panic/joint", || format!("{name} {d}"), || (j.is_business_day(d), j.is_holiday(d)));
            if let Some((b, h)) = got {
                m.check(b == want && h != want, "joint", || {
                    format!("{name} {d}: business {b} holiday {h}, members all open = {want}")
                });
            }
        }
        m.case(("joint", round, flat.len(), start));
        m.count(&format!("joint_of_{}", flat.len().min(6)));
        if closed > 0 && closed < 400 {
            m.count("joint_mixed");
        }
        if round < 4 {
            m.sample(json!({"joint": name, "from": date(start).to_string(), "days": 400, "closed": closed}));
        }
    }
    // month ends on hostile synthetic calendars
    m.section("month ends on synthetic calendars");
    for _ in 0..m.scale(20_000, 400_000) {
        let s = Synth { seed: m.rng.next() % 50, style: m.rng.i(0, STYLES as i64 - 1) as u32 };
        let n = m.rng.i(days_from_civil(1, 2, 1), days_from_civil(4000, 1, 1));
        let d = date(n);
        if let Some((l, e)) =
            m.guard("panic/month-end", || format!("{s:?} {d}"), || (s.last_day_of_month(d), s.end_of_month(d)))
        {
            m.check(l == eom(d), "last_day_of_month", || format!("{d}: {l}"));
            let want = biz::last_open(&s, n);
            m.check(num(e) == want, "end_of_month", || format!("{s:?} {d}: {e} vs {}", date(want)));
        }
        m.case(("syn", s.seed, s.style, n));
    }
    let _ = NaiveDate::MIN.year();
    m.need("joint_mixed", 100);
    m.need("month_ends", 100_000);
}

fn main() {
    fqmon::run(
        "C02",
        "distinct (calendar, day) queries, Easter years, and random joint calendars (possibly nested or empty) x 400 consecutive days",
        body,
    )
}
