//! Reference holiday rules (ref/calendars.rules) evaluated independently of
//! the code under test: every rule is expanded into explicit dates.
use crate::dates::*;
use std::collections::{HashMap, HashSet};

pub const Y0: i32 = 1901;
pub const Y1: i32 = 2199;

pub struct Market {
    pub holidays: HashSet<i64>,
    pub work: HashSet<i64>,
    /// Days the reference cannot decide (an equinox within minutes of
    /// midnight, outside the era for which exact instants are on record).
    pub undecided: HashSet<i64>,
}

impl Market {
    pub fn business(&self, n: i64) -> bool {
        if self.work.contains(&n) {
            return true;
        }
        weekday(n) < 5 && !self.holidays.contains(&n)
    }
}

fn wd(s: &str) -> u32 {
    ["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"]
        .iter()
        .position(|x| *x == s)
        .unwrap_or_else(|| panic!("weekday {s}")) as u32
}
fn md(s: &str) -> (u32, u32) {
    let (a, b) = s.split_once('/').unwrap();
    (a.parse().unwrap(), b.parse().unwrap())
}
fn dt(s: &str) -> i64 {
    let p: Vec<i64> = s.split('-').map(|x| x.parse().unwrap()).collect();
    days_from_civil(p[0] as i32, p[1] as u32, p[2] as u32)
}

// ---- Hebrew calendar ----------------------------------------------------
fn heb_elapsed(y: i64) -> i64 {
    let m = (235 * y - 234).div_euclid(19);
    let p = 12084 + 13753 * m;
    let d = 29 * m + p.div_euclid(25920);
    if (3 * (d + 1)).rem_euclid(7) < 3 { d + 1 } else { d }
}
/// 1 Tishri of Hebrew year y, day number.
pub fn heb_new_year(y: i64) -> i64 {
    let (a, b, c) = (heb_elapsed(y - 1), heb_elapsed(y), heb_elapsed(y + 1));
    let corr = if c - b == 356 {
        2
    } else if b - a == 382 {
        1
    } else {
        0
    };
    // anchored: 1 Tishri 5784 = 2023-09-16
    let base = days_from_civil(2023, 9, 16) - heb_elapsed(5784);
    base + b + corr
}
pub fn heb(name: &str, y: i32) -> i64 {
    let ny = heb_new_year(y as i64 + 3761);
    let passover = ny - 163;
    match name {
        "newyear" => ny,
        "passover" => passover,
        "purim" => passover - 30,
        "shavuot" => passover + 50,
        "fast" => {
            let d = passover + 112;
            if weekday(d) == 5 { d + 1 } else { d }
        }
        "independence" => {
            let d = passover + 20;
            match weekday(d) {
                4 => d - 1,
                5 => d - 2,
                0 if y >= 2004 => d + 1,
                _ => d,
            }
        }
        _ => panic!("heb {name}"),
    }
}

// ---- Equinoxes / solstices (Meeus, chapter 27) ----------------------------
/// Julian Ephemeris Day of the event (3 = March equinox, 6 = June solstice,
/// 9 = September equinox).
pub fn season(which: u32, year: i32) -> f64 {
    let y = (year as f64 - 2000.0) / 1000.0;
    let j0 = match which {
        3 => {
            2451623.80984 + 365242.37404 * y + 0.05169 * y * y
                - 0.00411 * y.powi(3)
                - 0.00057 * y.powi(4)
        }
        6 => {
            2451716.56767 + 365241.62603 * y + 0.00325 * y * y
                + 0.00888 * y.powi(3)
                - 0.00030 * y.powi(4)
        }
        9 => {
            2451810.21715 + 365242.01767 * y - 0.11575 * y * y
                + 0.00337 * y.powi(3)
                + 0.00078 * y.powi(4)
        }
        _ => unreachable!(),
    };
    let t = (j0 - 2451545.0) / 36525.0;
    let w = (35999.373 * t - 2.47).to_radians();
    let dl = 1.0 + 0.0334 * w.cos() + 0.0007 * (2.0 * w).cos();
    const P: [(f64, f64, f64); 24] = [
        (485.0, 324.96, 1934.136),
        (203.0, 337.23, 32964.467),
        (199.0, 342.08, 20.186),
        (182.0, 27.85, 445267.112),
        (156.0, 73.14, 45036.886),
        (136.0, 171.52, 22518.443),
        (77.0, 222.54, 65928.934),
        (74.0, 296.72, 3034.906),
        (70.0, 243.58, 9037.513),
        (58.0, 119.81, 33718.147),
        (52.0, 297.17, 150.678),
        (50.0, 21.02, 2281.226),
        (45.0, 247.54, 29929.562),
        (44.0, 325.15, 31555.956),
        (29.0, 60.93, 4443.417),
        (18.0, 155.12, 67555.328),
        (17.0, 288.79, 4562.452),
        (16.0, 198.04, 62894.029),
        (14.0, 199.76, 31436.921),
        (12.0, 95.39, 14577.848),
        (12.0, 287.11, 31931.756),
        (12.0, 320.81, 34777.259),
        (9.0, 227.73, 1222.114),
        (8.0, 15.45, 16859.074),
    ];
    let s: f64 = P
        .iter()
        .map(|(a, b, c)| a * (b + c * t).to_radians().cos())
        .sum();
    j0 + 0.00001 * s / dl
}
/// Local civil day of the event for a zone `h` hours east of UTC, and how far
/// (in minutes) the event is from local midnight.
pub fn season_day(which: u32, year: i32, h: f64) -> (i64, f64) {
    // TT-UT: ~65 s around 2000, parabolic extrapolation outside.
    let u = (year as f64 - 1820.0) / 100.0;
    let dtm = if (1901..=2050).contains(&year) {
        65.0
    } else {
        -20.0 + 32.0 * u * u - 0.5628 * (2150.0 - year as f64)
    };
    let jd = season(which, year) - dtm / 86400.0 + h / 24.0;
    let x = jd - 2440587.5; // days since 1970-01-01 00:00
    let day = x.floor() as i64;
    let fr = x - x.floor();
    (day, fr.min(1.0 - fr) * 1440.0)
}

pub fn load() -> HashMap<String, Market> {
    let src = include_str!("../ref/calendars.rules");
    let mut blocks: HashMap<String, Vec<String>> = HashMap::new();
    let mut order = vec![];
    let mut cur = String::new();
    for l in src.lines() {
        let l = l.split('#').next().unwrap().trim();
        if l.is_empty() {
            continue;
        }
        if l.starts_with('[') {
            cur = l.trim_matches(|c| c == '[' || c == ']').to_string();
            order.push(cur.clone());
            blocks.insert(cur.clone(), vec![]);
        } else {
            blocks.get_mut(&cur).unwrap().push(l.to_string());
        }
    }
    let mut out = HashMap::new();
    for k in order {
        let mut m = Market {
            holidays: HashSet::new(),
            work: HashSet::new(),
            undecided: HashSet::new(),
        };
        expand(&k, &blocks, &mut m);
        out.insert(k, m);
    }
    out
}

fn expand(name: &str, blocks: &HashMap<String, Vec<String>>, m: &mut Market) {
    for l in blocks.get(name).unwrap_or_else(|| panic!("block {name}")) {
        let t: Vec<&str> = l.split_whitespace().collect();
        match t[0] {
            "include" => {
                expand(t[1], blocks, m);
                continue;
            }
            "date" | "dates" => {
                for d in &t[1..] {
                    m.holidays.insert(dt(d));
                }
                continue;
            }
            "work" => {
                for d in &t[1..] {
                    m.work.insert(dt(d));
                }
                continue;
            }
            "from" => {
                for n in dt(t[1])..=dt(t[3]) {
                    if weekday(n) == wd(t[4]) {
                        m.holidays.insert(n);
                    }
                }
                continue;
            }
            _ => {}
        }
        let (mut y0, mut y1) = (Y0, Y1);
        let mut a: Vec<&str> = t[1..].to_vec();
        if let Some(r) = a.last().and_then(|x| x.strip_prefix('@')) {
            if let Some((p, q)) = r.split_once('-') {
                if !p.is_empty() {
                    y0 = p.parse().unwrap();
                }
                if !q.is_empty() {
                    y1 = q.parse().unwrap();
                }
            } else {
                y0 = r.parse().unwrap();
                y1 = y0;
            }
            a.pop();
        }
        for y in y0..=y1 {
            let h = &mut m.holidays;
            let fixed = |s: &str| {
                let (mm, dd) = md(s);
                days_from_civil(y, mm, dd)
            };
            match t[0] {
                "fix" => {
                    h.insert(fixed(a[0]));
                }
                "mon" => {
                    let d = fixed(a[0]);
                    h.insert(d);
                    match weekday(d) {
                        5 => h.insert(d + 2),
                        6 => h.insert(d + 1),
                        _ => false,
                    };
                }
                "sunmon" => {
                    let d = fixed(a[0]);
                    h.insert(d);
                    if weekday(d) == 6 {
                        h.insert(d + 1);
                    }
                }
                "sun12" => {
                    let d = fixed(a[0]);
                    h.insert(d);
                    if weekday(d) == 6 {
                        h.insert(d + 1);
                        h.insert(d + 2);
                    }
                }
                "plus2" => {
                    let d = fixed(a[0]);
                    h.insert(d);
                    if weekday(d) >= 5 {
                        h.insert(d + 2);
                    }
                }
                "satfri" => {
                    let d = fixed(a[0]);
                    h.insert(d);
                    if weekday(d) == 5 {
                        h.insert(d - 1);
                    }
                }
                "us" => {
                    let d = fixed(a[0]);
                    h.insert(d);
                    match weekday(d) {
                        5 => h.insert(d - 1),
                        6 => h.insert(d + 1),
                        _ => false,
                    };
                    // New Year's Day of the following year may be observed on
                    // 31 December of the last supported year.
                    if a[0] == "1/1" && y == Y1 {
                        let d = days_from_civil(y + 1, 1, 1);
                        if weekday(d) == 5 {
                            h.insert(d - 1);
                        }
                    }
                }
                "nth" => {
                    let mm: u32 = a[0].parse().unwrap();
                    let k: i64 = a[1].parse().unwrap();
                    let f = days_from_civil(y, mm, 1);
                    let off = (wd(a[2]) as i64 - weekday(f) as i64).rem_euclid(7);
                    h.insert(f + off + 7 * (k - 1));
                }
                "last" => {
                    let mm: u32 = a[0].parse().unwrap();
                    let l = days_from_civil(y, mm, dim(y, mm));
                    let off = (weekday(l) as i64 - wd(a[1]) as i64).rem_euclid(7);
                    h.insert(l - off);
                }
                "wdin" => {
                    let mm: u32 = a[0].parse().unwrap();
                    let (p, q) = a[1].split_once('-').unwrap();
                    for dd in p.parse::<u32>().unwrap()..=q.parse::<u32>().unwrap() {
                        let d = days_from_civil(y, mm, dd);
                        if weekday(d) == wd(a[2]) {
                            h.insert(d);
                        }
                    }
                }
                "lastwd" => {
                    let mm: u32 = a[0].parse().unwrap();
                    let mut l = days_from_civil(y, mm, dim(y, mm));
                    while weekday(l) >= 5 {
                        l -= 1;
                    }
                    h.insert(l);
                }
                "em" => {
                    h.insert(easter_sunday(y) + 1 + a[0].parse::<i64>().unwrap());
                }
                "orth" => {
                    h.insert(orthodox_easter_sunday(y) + 1 + a[0].parse::<i64>().unwrap());
                }
                "goodfri_not_nfp" => {
                    let d = easter_sunday(y) - 2;
                    let (_, _, dd) = civil_from_days(d);
                    if dd > 7 {
                        h.insert(d);
                    }
                }
                "chl" => {
                    let d = fixed(a[0]);
                    let w = weekday(d) as i64;
                    h.insert(match w {
                        1..=3 => d - w,
                        4 => d + 3,
                        _ => d,
                    });
                }
                "ref" => {
                    let d = fixed(a[0]);
                    h.insert(match weekday(d) {
                        1 => d - 4,
                        2 => d + 2,
                        _ => d,
                    });
                }
                "arg" => {
                    let d = fixed(a[0]);
                    let w = weekday(d) as i64;
                    h.insert(match w {
                        0..=2 => d - w,
                        3 | 4 => d + 7 - w,
                        _ => d,
                    });
                }
                "every6" => {
                    if (y - y0) % 6 == 0 {
                        h.insert(fixed(a[0]));
                    }
                }
                "open" => {
                    // removes an observance
                    let (mm, dd) = md(a[0]);
                    let d = days_from_civil(y, mm, dd);
                    if weekday(d) == wd(a[1]) {
                        h.remove(&d);
                    }
                }
                "equinox" => {
                    let k: u32 = a[0].parse().unwrap();
                    let (d, minutes) = season_day(k, y, 9.0);
                    if minutes < 30.0 && !(1955..=2099).contains(&y) {
                        m.undecided.extend(d - 2..=d + 3);
                    }
                    h.insert(d);
                    if weekday(d) == 6 {
                        h.insert(d + 1);
                    }
                }
                "respect_bridge" => {
                    let (ae, _) = season_day(9, y, 9.0);
                    let f = days_from_civil(y, 9, 1);
                    let respect = f + (0 - weekday(f) as i64).rem_euclid(7) + 14;
                    if ae == respect + 2 {
                        h.insert(respect + 1);
                    }
                }
                "solstice" => {
                    let (d, _) = season_day(6, y, -4.0);
                    h.insert(d);
                }
                "heb" => {
                    if (2000..=2050).contains(&y) {
                        h.insert(heb(a[0], y) + a[1].parse::<i64>().unwrap());
                    }
                }
                x => panic!("rule {x}"),
            }
        }
    }
}
