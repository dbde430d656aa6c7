//! C01: every market calendar equals its published holiday rules, every day
//! of 1901-2199.
use fqmon::dates::*;
use fqmon::markets::markets;
use fqmon::{Mon, cal};
use serde_json::json;

fn body(m: &mut Mon) {
    let reference = cal::load();
    let dump = std::env::var("FQMON_DUMP").ok();
    m.assume("holiday rules are those the library documents (QuantLib-family rule set); see ref/calendars.rules");
    let (lo, hi) = (days_from_civil(cal::Y0, 1, 1), days_from_civil(cal::Y1, 12, 31));
    let list = markets();
    m.add("markets", list.len() as u64);
    for (name, cal) in list {
        m.section(&format!("{name} is_business_day over 1901-2199"));
        let r = &reference[name];
        let mut extra = vec![];
        let (mut biz, mut undecided) = (0u64, 0u64);
        for n in lo..=hi {
            let d = date(n);
            let got = match Mon::attempt(|| cal.is_business_day(d)) {
                Ok(g) => g,
                Err(p) => {
                    m.violate(&format!("panic/{name}"), format!("{d}: {p}"));
                    continue;
                }
            };
            if r.undecided.contains(&n) {
                undecided += 1;
                continue;
            }
            let want = r.business(n);
            if want {
                biz += 1;
            }
            // a weekday on which the rules or the code close the market is the
            // non-trivial part of the case space
            if weekday(n) < 5 && (!want || !got) {
                m.case((name, n));
            } else {
                m.trivial();
            }
            if got != want {
                if dump.as_deref() == Some(name) && !got {
                    extra.push(d);
                } else {
                    m.violate(
                        &format!("holiday/{name}"),
                        format!("{d} {:?}: business day {got}, rules say {want}", chrono::Datelike::weekday(&d)),
                    );
                }
            }
        }
        m.add("business_days_seen", biz);
        m.add("days_left_undecided", undecided);
        m.add("days_compared", (hi - lo + 1) as u64);
        m.sample(json!({"market": name, "days": hi - lo + 1, "business_days": biz}));
        if !extra.is_empty() {
            let mut y = 0;
            let mut out = String::new();
            for d in extra {
                use chrono::Datelike;
                if d.year() != y {
                    y = d.year();
                    out += "\ndates";
                }
                out += &format!(" {}-{}-{}", d.year(), d.month(), d.day());
            }
            println!("[{name}]{out}");
        }
    }
    m.exhaustive();
    m.need("days_compared", 5_000_000);
}

fn main() {
    fqmon::run(
        "C01",
        "every calendar day 1901-01-01..2199-12-31 for every market; non-trivial = a Monday-Friday day that the rules or the code treat as a holiday",
        body,
    )
}
