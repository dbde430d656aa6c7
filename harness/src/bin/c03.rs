//! C03: business-day adjustment.
use finquant::time::businessdayconvention::BusinessDayConvention as B;
use finquant::time::calendars::Calendar;
use fqmon::dates::*;
use fqmon::markets::markets;
use fqmon::synth::{STYLES, Synth};
use fqmon::{Mon, biz};
use serde_json::json;

fn one(m: &mut Mon, c: &dyn Calendar, name: &str, n: i64) {
    let d = date(n);
    for b in biz::ALL {
        let want = biz::adjust(c, n, b);
        let got = match m.guard(&format!("panic/{b:?}"), || format!("{name} {d}"), || c.adjust(d, b)) {
            Some(Some(x)) => num(x),
            Some(None) => {
                m.violate(&format!("none/{b:?}"), format!("{name} {d}: no date returned"));
                continue;
            }
            None => continue,
        };
        if want != n {
            m.case((name.len(), name, n, b as u8));
            m.count(&format!("moved/{b:?}"));
            if biz::month(biz::fwd(c, n)) != biz::month(n) || biz::month(biz::back(c, n)) != biz::month(n) {
                m.count("moved_at_month_end");
            }
        } else {
            m.trivial();
        }
        m.check(got == want, &format!("adjust/{b:?}"), || {
            format!("{name} {d}: {} expected {}", date(got), date(want))
        });
        if b != B::Unadjusted {
            m.check(biz::open(c, got), &format!("closed-result/{b:?}"), || format!("{name} {d} -> {}", date(got)));
        }
        if let Some(Some(again)) = m.guard(&format!("panic/{b:?}"), || format!("{name} {d}"), || c.adjust(date(got), b)) {
            m.check(num(again) == got, &format!("idempotent/{b:?}"), || format!("{name} {d} -> {} -> {again}", date(got)));
        }
    }
}

fn body(m: &mut Mon) {
    let years = m.scale(3, 60) as i64;
    for (name, c) in markets() {
        m.section(&format!("adjust on {name}"));
        let y0 = m.rng.i(1902, 2198 - years) as i32;
        let lo = days_from_civil(y0, 1, 1);
        for n in lo..lo + years * 365 {
            one(m, c.as_ref(), name, n);
        }
        let lo = days_from_civil(2015, 1, 1);
        for n in lo..lo + m.scale(1, 15) as i64 * 365 {
            one(m, c.as_ref(), name, n);
        }
        m.count("calendars");
    }
    for k in 0..m.scale(300, 6000) {
        let s = Synth { seed: m.rng.next(), style: k as u32 % STYLES };
        let name = format!("{s:?}");
        m.section(&format!("adjust on {name}"));
        let lo = m.rng.i(days_from_civil(1950, 1, 1), days_from_civil(2100, 1, 1));
        for n in lo..lo + 400 {
            one(m, &s, &name, n);
        }
        m.count("synthetic_calendars");
        if k < 6 {
            m.sample(json!({"calendar": name, "from": date(lo).to_string(), "days": 400}));
        }
    }
    for b in biz::ALL {
        if b != B::Unadjusted {
            m.need(&format!("moved/{b:?}"), 1000);
        }
    }
    m.need("moved_at_month_end", 1000);
    // names and codes of the conventions
    m.section("convention names");
    for b in biz::ALL {
        m.check(B::from_code(b.name()) == Some(b), "code", || format!("{b:?} name {}", b.name()));
        m.check(B::from_code(&format!("{b:?}")) == Some(b), "code", || format!("{b:?}"));
    }
}

fn main() {
    fqmon::run("C03", "adjustments of a closed day (calendar, day, convention) are non-trivial; open days are counted as trivial", body)
}
