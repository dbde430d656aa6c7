//! C36: conventions of currency pairs (calendar, spot lag, cut-off, points).
use chrono::{NaiveTime, Timelike};
use finquant::derivatives::forex::basic::FXUnderlying;
use finquant::time::calendars::Calendar;
use finquant::time::period::Period as P;
use fqmon::dates::*;
use fqmon::markets::markets;
use fqmon::{Mon, biz};
use serde_json::json;
use std::str::FromStr;

/// pair, spot lag, cut-off (minutes UTC)
const PAIRS: &[&str] = &[
    "EURGBP", "EURUSD", "EURCAD", "EURJPY", "EURCHF", "EURNOK", "EURSEK", "EURAUD", "EURNZD", "EURDKK", "EURPLN",
    "EURHUF", "EURCZK", "EURRON", "GBPUSD", "GBPCAD", "GBPJPY", "GBPAUD", "GBPNZD", "GBPCHF", "GBPNOK", "GBPSEK",
    "AUDUSD", "NZDUSD", "USDCHF", "USDNOK", "USDSEK", "USDJPY", "USDSGD", "USDHKD", "USDCNY", "USDPLN", "USDHUF",
    "USDCZK", "USDZAR", "USDKRW", "USDINR", "USDBRL", "USDDKK", "USDIDR", "USDTWD", "USDTHB", "USDILS", "USDRON",
    "USDCAD", "USDMXN", "USDTRY", "USDRUB", "AUDNZD", "AUDCAD", "AUDCHF", "AUDJPY", "AUDSGD", "NZDCAD", "NZDCHF",
    "NZDJPY", "NZDSGD", "CADJPY", "CHFJPY", "CADCHF",
];
const COUNTRY: &[(&str, &str)] = &[
    ("EUR", "Target"), ("GBP", "UnitedKingdom/Settlement"), ("USD", "UnitedStates/Settlement"), ("JPY", "Japan"),
    ("CAD", "Canada/Settlement"), ("AUD", "Australia/Settlement"), ("NZD", "NewZealand/Wellington"),
    ("CHF", "Switzerland"), ("NOK", "Norway"), ("SEK", "Sweden"), ("MXN", "Mexico"), ("TRY", "Turkey"),
    ("RUB", "Russia/Settlement"), ("SGD", "Singapore"), ("HKD", "HongKong"), ("CNY", "China"),
    ("PLN", "Poland/Settlement"), ("HUF", "Hungary"), ("CZK", "CzechRepublic"), ("ZAR", "SouthAfrica"),
    ("KRW", "SouthKorea"), ("INR", "India"), ("BRL", "Brazil/Settlement"), ("DKK", "Denmark"), ("IDR", "Indonesia"),
    ("TWD", "Taiwan"), ("THB", "Thailand"), ("ILS", "Israel/Shir"), ("RON", "Romania"),
];

fn body(m: &mut Mon) {
    let cals = markets();
    let find = |ccy: &str| {
        let c = COUNTRY.iter().find(|x| x.0 == ccy).unwrap().1;
        cals.iter().find(|x| x.0 == c).unwrap().1.as_ref()
    };
    for name in PAIRS {
        m.section(&format!("pair {name}"));
        let u = match m.guard("panic/parse", || name.to_string(), || FXUnderlying::from_str(name)) {
            Some(Ok(u)) => u,
            r => {
                m.violate("parse", format!("{name}: {}", r.is_some()));
                continue;
            }
        };
        let lag = if ["USDCAD", "USDMXN", "USDTRY", "USDRUB"].contains(name) { 1i64 } else { 2 };
        let cut = match *name {
            "USDCAD" | "USDMXN" => (17, 0),
            "USDTRY" => (9, 0),
            "USDRUB" => (9, 30),
            _ => (22, 0),
        };
        let (frn, dom) = (&name[..3], &name[3..]);
        m.check(u.to_string() == *name, "display", || format!("{u} {name}"));
        m.check(u.dom_currency().code() == dom && u.frn_currency().code() == frn, "currency", || format!("{name}: {:?}", u.dom_currency()));
        m.check(u.settles() as i64 == lag, "lag", || format!("{name}: {}", u.settles()));
        let pts = if dom == "JPY" { 100.0 } else { 10000.0 };
        m.check(u.forward_points_converter() == pts, "points", || format!("{name}: {}", u.forward_points_converter()));
        let ct = u.cutoff_utc();
        m.check((ct.hour(), ct.minute(), ct.second()) == (cut.0, cut.1, 0), "cutoff", || format!("{name}: {ct}"));
        let dc = u.day_count();
        let basis = if *name == "EURUSD" || *name == "USDJPY" { 360.0 } else { 365.0 };
        match dc.year_fraction(ymd(2023, 1, 1), ymd(2024, 7, 1)) {
            Ok(y) => {
                m.close("daycount", y, 547.0 / basis, 1e-14, 0.0, || name.to_string());
            }
            Err(e) => m.violate("daycount", format!("{name}: {e}")),
        }
        let (a, b) = (find(frn), find(dom));
        let cal = u.calendar();
        let (lo, hi) = (days_from_civil(1960, 1, 1), days_from_civil(2110, 1, 1));
        let lo2 = days_from_civil(2000, 1, 1);
        for n in lo2..lo2 + m.scale(3, 30) as i64 * 3650 {
            let d = date(n);
            let want = a.is_business_day(d) && b.is_business_day(d);
            let got = cal.is_business_day(d);
            m.check(got == want, "calendar", || format!("{name} {d}: open {got}, both markets open {want}"));
            if !want && weekday(n) < 5 {
                m.case((name, n));
            } else {
                m.trivial();
            }
        }
        // days before and inside the longest closures of the pair
        let mut long: Vec<i64> = vec![];
        let mut shut = 0;
        for n in lo..hi {
            if cal.is_business_day(date(n)) {
                if shut >= 5 {
                    long.extend(n - shut - 4..=n);
                }
                shut = 0;
            } else {
                shut += 1;
                m.add("long_closure_days", (shut == 9) as u64);
            }
        }
        for _ in 0..m.scale(400, 8000) {
            let n = if !long.is_empty() && m.rng.chance(0.2) { *m.rng.pick(&long) } else { m.rng.i(lo, hi) };
            let n = if m.rng.chance(0.3) { num(eom(date(n))) - m.rng.i(0, 3) } else { n };
            let d = date(n);
            let p = *m.rng.pick(&[
                P::ON, P::TN, P::SN, P::SPOT, P::Weeks(1), P::Weeks(2), P::Months(1), P::Months(2), P::Months(3),
                P::Months(6), P::Months(9), P::Years(1), P::Years(2), P::Days(3),
            ]);
            let base = match p {
                P::ON => n,
                P::TN => n + 1,
                _ => n + lag,
            };
            let raw = match p {
                P::ON | P::TN | P::SN => base + 1,
                P::SPOT => base,
                P::Days(k) => base + k,
                P::Weeks(k) => base + 7 * k,
                P::Months(k) => num(add_months(date(base), k as i64)),
                P::Years(k) => num(add_months(date(base), 12 * k as i64)),
            };
            let e = biz::last_open(&cal, raw);
            let want = if raw >= e { e } else { biz::fwd(&cal, raw) };
            match m.guard("panic/settlement", || format!("{name} {d} {p:?}"), || u.settlement_date(p, d)) {
                Some(Ok(g)) => {
                    m.check(num(g) == want, "settlement", || format!("{name} {d} {p:?}: {g}, expected {}", date(want)));
                }
                Some(Err(e)) => m.violate("settlement", format!("{name} {d} {p:?}: {e}")),
                None => {}
            }
            let near = match p {
                P::ON => Some(n),
                P::TN => Some(n + 1),
                P::SN => Some(n + lag),
                _ => None,
            }
            .map(|k| date(biz::fwd(&cal, k)));
            match m.guard("panic/near", || format!("{name} {d} {p:?}"), || u.near_date(p, d)) {
                Some(Ok(g)) => {
                    m.check(g == near, "near", || format!("{name} {d} {p:?}: {g:?}, expected {near:?}"));
                }
                Some(Err(e)) => m.violate("near", format!("{name} {d} {p:?}: {e}")),
                None => {}
            }
            // cut-off: at or after moves to the next common business day
            let secs = (cut.0 * 3600 + cut.1 * 60) as i64
                + *m.rng.pick(&[-1i64, 0, 1, -3600, 3600, 59, -59]);
            let secs = if m.rng.chance(0.2) { m.rng.i(0, 86399) } else { secs };
            let t = NaiveTime::from_num_seconds_from_midnight_opt(secs as u32, 0).unwrap();
            let late = secs >= (cut.0 * 3600 + cut.1 * 60) as i64;
            let want = if late { date(biz::fwd(&cal, n + 1)) } else { d };
            if let Some(g) = m.guard("panic/effective", || format!("{name} {d} {t}"), || u.effective_valuation_date(d, t)) {
                m.check(g == want, "effective", || format!("{name} {d} {t}: {g}, expected {want}"));
            }
            m.case((name, n, format!("{p:?}"), secs));
            m.count(if late { "after_cutoff" } else { "before_cutoff" });
        }
        m.count("pairs");
    }
    m.sample(json!({"pairs": PAIRS.len()}));
    m.need("pairs", 60);
    m.need("after_cutoff", 3000);
    m.need("before_cutoff", 3000);
}

fn main() {
    fqmon::run("C36", "distinct (pair, weekday closed in at least one market) days and (pair, trade date, tenor, time of day) convention queries", body)
}
