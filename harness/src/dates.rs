//! Independent calendar-date arithmetic (days-from-civil), used by oracles so
//! they do not share code with the implementation under test.
use chrono::NaiveDate;

pub fn ymd(y: i32, m: u32, d: u32) -> NaiveDate {
    NaiveDate::from_ymd_opt(y, m, d).unwrap_or_else(|| panic!("bad date {y}-{m}-{d}"))
}
pub fn is_leap(y: i32) -> bool {
    (y % 4 == 0 && y % 100 != 0) || y % 400 == 0
}
pub fn dim(y: i32, m: u32) -> u32 {
    match m {
        2 => {
            if is_leap(y) {
                29
            } else {
                28
            }
        }
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}
/// Days since 1970-01-01 in the proleptic Gregorian calendar.
pub fn days_from_civil(y: i32, m: u32, d: u32) -> i64 {
    let y = y as i64 - if m <= 2 { 1 } else { 0 };
    let era = if y >= 0 { y } else { y - 399 } / 400;
    let yoe = y - era * 400;
    let mp = (m as i64 + 9) % 12;
    let doy = (153 * mp + 2) / 5 + d as i64 - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    era * 146097 + doe - 719468
}
pub fn civil_from_days(z: i64) -> (i32, u32, u32) {
    let z = z + 719468;
    let era = if z >= 0 { z } else { z - 146096 } / 146097;
    let doe = z - era * 146097;
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let y = yoe + era * 400;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = (doy - (153 * mp + 2) / 5 + 1) as u32;
    let m = if mp < 10 { mp + 3 } else { mp - 9 } as u32;
    ((y + if m <= 2 { 1 } else { 0 }) as i32, m, d)
}
/// 0 = Monday … 6 = Sunday.
pub fn weekday(days: i64) -> u32 {
    (days + 3).rem_euclid(7) as u32
}
pub fn num(d: NaiveDate) -> i64 {
    use chrono::Datelike;
    days_from_civil(d.year(), d.month(), d.day())
}
pub fn date(n: i64) -> NaiveDate {
    let (y, m, d) = civil_from_days(n);
    ymd(y, m, d)
}
/// Add months clamping the day to the target month's length.
pub fn add_months(d: NaiveDate, k: i64) -> NaiveDate {
    use chrono::Datelike;
    let t = d.year() as i64 * 12 + d.month0() as i64 + k;
    let y = t.div_euclid(12) as i32;
    let m = t.rem_euclid(12) as u32 + 1;
    ymd(y, m, d.day().min(dim(y, m)))
}
pub fn eom(d: NaiveDate) -> NaiveDate {
    use chrono::Datelike;
    ymd(d.year(), d.month(), dim(d.year(), d.month()))
}
/// Western (Gregorian) Easter Sunday, Meeus/Jones/Butcher; day number.
pub fn easter_sunday(y: i32) -> i64 {
    let a = y % 19;
    let b = y / 100;
    let c = y % 100;
    let d = b / 4;
    let e = b % 4;
    let f = (b + 8) / 25;
    let g = (b - f + 1) / 3;
    let h = (19 * a + b - d - g + 15) % 30;
    let i = c / 4;
    let k = c % 4;
    let l = (32 + 2 * e + 2 * i - h - k) % 7;
    let m = (a + 11 * h + 22 * l) / 451;
    let month = (h + l - 7 * m + 114) / 31;
    let day = (h + l - 7 * m + 114) % 31 + 1;
    days_from_civil(y, month as u32, day as u32)
}
/// Orthodox (Julian computus) Easter Sunday expressed in the Gregorian
/// calendar; day number.
pub fn orthodox_easter_sunday(y: i32) -> i64 {
    let a = y % 4;
    let b = y % 7;
    let c = y % 19;
    let d = (19 * c + 15) % 30;
    let e = (2 * a + 4 * b - d + 34) % 7;
    let month = (d + e + 114) / 31;
    let day = (d + e + 114) % 31 + 1;
    // Julian calendar date -> day number
    let yy = y as i64 - if month <= 2 { 1 } else { 0 };
    let mp = (month as i64 + 9) % 12;
    let doy = (153 * mp + 2) / 5 + day as i64 - 1;
    let era = yy.div_euclid(4);
    let yoe = yy.rem_euclid(4);
    let jul = era * 1461 + yoe * 365 + doy;
    // Julian 0000-03-01 is two days before Gregorian 0000-03-01.
    jul - 719468 - 2
}
