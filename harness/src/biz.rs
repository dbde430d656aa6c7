//! Brute-force business-day oracle over any calendar's own open/closed
//! predicate; shares no code with the adjustment logic under test.
use crate::dates::*;
use finquant::time::businessdayconvention::BusinessDayConvention as B;
use finquant::time::calendars::Calendar;

pub const ALL: [B; 7] = [
    B::Following,
    B::ModifiedFollowing,
    B::HalfMonthModifiedFollowing,
    B::Preceding,
    B::ModifiedPreceding,
    B::Unadjusted,
    B::Nearest,
];

pub fn open(c: &dyn Calendar, n: i64) -> bool {
    c.is_business_day(date(n))
}
pub fn fwd(c: &dyn Calendar, n: i64) -> i64 {
    (n..).find(|k| open(c, *k)).unwrap()
}
pub fn back(c: &dyn Calendar, n: i64) -> i64 {
    (0..).map(|k| n - k).find(|k| open(c, *k)).unwrap()
}
pub fn month(n: i64) -> (i32, u32) {
    let (y, m, _) = civil_from_days(n);
    (y, m)
}
pub fn adjust(c: &dyn Calendar, n: i64, b: B) -> i64 {
    let (f, p) = (fwd(c, n), back(c, n));
    let day = |k: i64| civil_from_days(k).2;
    match b {
        B::Unadjusted => n,
        B::Following => f,
        B::Preceding => p,
        B::ModifiedFollowing => {
            if month(f) == month(n) { f } else { p }
        }
        B::ModifiedPreceding => {
            if month(p) == month(n) { p } else { f }
        }
        B::HalfMonthModifiedFollowing => {
            if month(f) == month(n) && (day(n) <= 15) == (day(f) <= 15) { f } else { p }
        }
        B::Nearest => {
            if f - n <= n - p { f } else { p }
        }
    }
}
/// Last open day of the month of `n`.
pub fn last_open(c: &dyn Calendar, n: i64) -> i64 {
    let (y, m) = month(n);
    back(c, days_from_civil(y, m, dim(y, m)))
}
/// Moves `k` open days (adjusts when k == 0).
pub fn walk(c: &dyn Calendar, mut n: i64, k: i64, b: B) -> i64 {
    if k == 0 {
        return adjust(c, n, b);
    }
    let s = k.signum();
    let mut left = k.abs();
    while left > 0 {
        n += s;
        if open(c, n) {
            left -= 1;
        }
    }
    n
}
/// n-th multiple of a tenor from `start`, rolled to a business day.
pub fn tenor(c: &dyn Calendar, start: i64, p: finquant::time::period::Period, b: B) -> i64 {
    use finquant::time::period::Period as P;
    let d = date(start);
    let raw = match p {
        P::Days(k) => return walk(c, start, k, b),
        P::Weeks(k) => start + 7 * k,
        P::Months(k) => num(add_months(d, k as i64)),
        P::Years(k) => num(add_months(d, 12 * k as i64)),
        P::ON | P::TN | P::SN => start + 1,
        P::SPOT => start,
    };
    adjust(c, raw, b)
}
