//! C08: IMM dates and codes.
use finquant::time::imm::IMM;
use fqmon::Mon;
use fqmon::dates::*;
use serde_json::json;

const LETTERS: &[u8; 12] = b"FGHJKMNQUVXZ";

fn third_wed(y: i32, m: u32) -> i64 {
    (15..=21).map(|d| days_from_civil(y, m, d)).find(|n| weekday(*n) == 2).unwrap()
}

fn body(m: &mut Mon) {
    m.section("every date");
    let (y0, y1) = if m.thorough() { (1901, 2499) } else { (1980, 2130) };
    let (lo, hi) = (days_from_civil(y0, 1, 1), days_from_civil(y1, 12, 31));
    for n in lo..=hi {
        let d = date(n);
        let (y, mo, _) = civil_from_days(n);
        for main in [true, false] {
            let cyc = |k: u32| !main || k % 3 == 0;
            let want = n == third_wed(y, mo) && cyc(mo);
            if let Some(g) = m.guard("panic/is_imm_date", || format!("{d}"), || IMM.is_imm_date(d, main)) {
                m.check(g == want, "is_imm_date", || format!("{d} main {main}: {g}"));
            }
            // first qualifying third Wednesday strictly after d
            let (mut yy, mut mm) = (y, mo);
            let next = loop {
                let t = third_wed(yy, mm);
                if cyc(mm) && t > n {
                    break t;
                }
                mm += 1;
                if mm > 12 {
                    mm = 1;
                    yy += 1;
                }
            };
            if let Some(g) = m.guard("panic/next_date", || format!("{d} main {main}"), || IMM.next_date(d, main)) {
                m.check(num(g) == next, "next_date", || format!("{d} main {main}: {g}, expected {}", date(next)));
            }
            m.case((n, main));
        }
        let code = m.guard("panic/code", || format!("{d}"), || IMM.code(d)).flatten();
        let is = n == third_wed(y, mo);
        let wc = is.then(|| format!("{}{}", LETTERS[mo as usize - 1] as char, y.rem_euclid(10)));
        m.check(code == wc, "code", || format!("{d}: {code:?}, expected {wc:?}"));
        if let Some(c) = wc {
            m.count("imm_dates");
            for (main, ok) in [(true, mo % 3 == 0), (false, true)] {
                if let Some(g) = m.guard("panic/is_imm_code", || c.clone(), || IMM.is_imm_code(c.clone(), main)) {
                    m.check(g == ok, "is_imm_code", || format!("{c} main {main}: {g}"));
                }
            }
            // the code decodes to this very date from any reference date of the
            // preceding part of the decade window
            for _ in 0..4 {
                // reference in the same calendar decade, not after the date
                let dec = days_from_civil(y.div_euclid(10) * 10, 1, 1);
                let r = m.rng.i(dec.max(n - 3600), n);
                let rd = date(r);
                let got = m.guard("panic/date", || format!("{c} from {rd}"), || IMM.date(c.clone(), Some(rd))).flatten();
                m.check(got.map(num) == Some(n), "date", || format!("{c} from {rd}: {got:?}, expected {d}"));
            }
        }
    }
    m.section("every code");
    let mut alphabet: Vec<char> = (0x20u8..0x7f).map(|b| b as char).collect();
    alphabet.extend(['é', 'ß', '٣', '期', 'Ｆ']);
    for a in &alphabet {
        for b in &alphabet {
            let s: String = [*a, *b].iter().collect();
            for main in [true, false] {
                let up = a.to_ascii_uppercase();
                let letter = LETTERS.iter().position(|x| *x as char == up).map(|p| p as u32 + 1);
                let want = b.is_ascii_digit() && letter.map(|p| !main || p % 3 == 0).unwrap_or(false);
                let g = m.guard("panic/is_imm_code", || s.clone(), || IMM.is_imm_code(s.clone(), main));
                if let Some(g) = g {
                    m.check(g == want, "is_imm_code", || format!("{s:?} main {main}: {g}"));
                }
            }
            let letter = LETTERS.iter().position(|x| *x as char == a.to_ascii_uppercase());
            let rd = date(m.rng.i(days_from_civil(1915, 1, 1), days_from_civil(2180, 1, 1)));
            let g = m.guard("panic/date", || format!("{s:?} from {rd}"), || IMM.date(s.clone(), Some(rd)));
            if let Some(g) = g {
                match (letter, b.to_digit(10)) {
                    (Some(p), Some(dg)) => {
                        use chrono::Datelike;
                        let dec = rd.year().div_euclid(10) * 10 + dg as i32;
                        let t = third_wed(dec, p as u32 + 1);
                        let t = if t < num(rd) { third_wed(dec + 10, p as u32 + 1) } else { t };
                        m.check(g.map(num) == Some(t), "decode", || format!("{s} from {rd}: {g:?}, expected {}", date(t)));
                        m.count("codes_decoded");
                    }
                    _ => {
                        m.check(g.is_none(), "decode-invalid", || format!("{s:?} -> {g:?}"));
                    }
                }
            }
            m.case(s);
        }
    }
    for s in ["", "F", "F12", "1F", "日", "é", "F１", "H22", "  "] {
        for main in [true, false] {
            if let Some(g) = m.guard("panic/is_imm_code", || s.into(), || IMM.is_imm_code(s.to_string(), main)) {
                m.check(!g, "is_imm_code", || format!("{s:?} accepted"));
            }
        }
        if let Some(g) = m.guard("panic/date", || s.into(), || IMM.date(s.to_string(), Some(ymd(2024, 5, 1)))) {
            m.check(g.is_none(), "decode-invalid", || format!("{s:?} -> {g:?}"));
        }
    }
    m.section("default reference date");
    for c in ["H0", "M3", "U5", "Z9", "F7", "X2"] {
        let before = chrono::Utc::now().date_naive();
        let g = m.guard("panic/date", || c.into(), || IMM.date(c.to_string(), None)).flatten();
        let after = chrono::Utc::now().date_naive();
        if let Some((x, y)) = m.guard("panic/date", || c.into(), || {
            (IMM.date(c.to_string(), Some(before)), IMM.date(c.to_string(), Some(after)))
        }) {
            m.check(g.is_some() && (g == x || g == y), "decode-today", || format!("{c}: {g:?} vs {x:?}"));
        }
    }
    m.sample(json!({"dates": hi - lo + 1, "cycles": 2, "alphabet": alphabet.len()}));
    m.need("imm_dates", 1000);
    m.need("codes_decoded", 200);
}

fn main() {
    fqmon::run("C08", "every (day, cycle) of the year range and every two-character code over printable ASCII plus decoys", body)
}
