//! C05: business days between two dates.
use finquant::time::calendars::Calendar;
use fqmon::dates::*;
use fqmon::markets::markets;
use fqmon::synth::{STYLES, Synth};
use fqmon::{Mon, biz};
use serde_json::json;

fn one(m: &mut Mon, c: &dyn Calendar, name: &str, a: i64, b: i64) {
    let (da, db) = (date(a), date(b));
    for f in [None, Some(true), Some(false)] {
        for l in [None, Some(true), Some(false)] {
            let (first, last) = (f.unwrap_or(true), l.unwrap_or(false));
            let (lo, hi) = (a.min(b), a.max(b));
            let got = m.guard("panic/between", || format!("{name} {da} {db} {f:?} {l:?}"), || {
                c.business_days_between(da, db, f, l)
            });
            let Some(got) = got else { continue };
            let inner = (lo + 1..hi).filter(|n| biz::open(c, *n)).count() as i64;
            let (ol, oh) = (biz::open(c, lo) as i64, biz::open(c, hi) as i64);
            let want: Vec<i64> = if a == b {
                // one single day: counted when both ends are included, may be
                // counted when one is
                let v = if first && last { vec![ol] } else { vec![0, if first != last { 0 } else { 0 }] };
                v
            } else {
                // the flags describe the earlier and the later date
                let v = inner + if first { ol } else { 0 } + if last { oh } else { 0 };
                if a < b {
                    vec![v]
                } else {
                    // for a reversed pair the flags may also follow the arguments
                    let w = inner + if first { oh } else { 0 } + if last { ol } else { 0 };
                    vec![-v, -w]
                }
            };
            m.check(want.contains(&got), if a == b { "same-day" } else if a < b { "count" } else { "reversed" }, || {
                format!("{name} {da}..{db} first {f:?} last {l:?}: {got}, counted {want:?}")
            });
            m.case((name.to_string(), a, b, first, last, f.is_some(), l.is_some()));
            m.count(if a == b { "same_day" } else if a < b { "forward" } else { "backward" });
        }
    }
    if let Some((x, y)) = m.guard("panic/between", || format!("{name} {da} {db}"), || {
        (c.business_days_between(da, db, None, None), c.business_days_between(db, da, None, None))
    }) {
        m.check(x == -y, "antisymmetric", || format!("{name} {da} {db}: {x} and {y}"));
    }
}

fn body(m: &mut Mon) {
    let (lo, hi) = (days_from_civil(1905, 1, 1), days_from_civil(2190, 1, 1));
    for (name, c) in markets() {
        m.section(&format!("business_days_between on {name}"));
        for _ in 0..m.scale(60, 3000) {
            let a = m.rng.i(lo, hi);
            let b = a
                + if m.rng.chance(0.15) {
                    0
                } else if m.rng.chance(0.05) {
                    m.rng.i(-20_000, 20_000)
                } else if m.rng.chance(0.5) {
                    m.rng.i(-10, 10)
                } else {
                    m.rng.i(-800, 800)
                };
            let b = b.clamp(days_from_civil(1902, 1, 1), days_from_civil(2198, 12, 1));
            one(m, c.as_ref(), name, a, b);
        }
    }
    for k in 0..m.scale(300, 6000) {
        let s = Synth { seed: m.rng.next(), style: k as u32 % (STYLES + 1) };
        let name = format!("{s:?}");
        m.section(&format!("business_days_between on {name}"));
        for _ in 0..10 {
            let a = m.rng.i(lo, hi);
            let b = a + if m.rng.chance(0.02) { m.rng.i(-5000, 5000) } else { m.rng.i(-40, 40) };
            one(m, &s, &name, a, b);
        }
        if k < 3 {
            m.sample(json!({"calendar": name, "pairs": 10}));
        }
    }
    m.need("same_day", 500);
    m.need("forward", 5000);
    m.need("backward", 5000);
}

fn main() {
    fqmon::run("C05", "distinct (calendar, from, to, inclusion flags) counts", body)
}
