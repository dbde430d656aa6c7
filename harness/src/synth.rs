//! Synthetic calendars with hostile holiday patterns, plugged into the real
//! code through its public calendar trait.
use crate::dates::*;
use chrono::{Datelike, NaiveDate};
use finquant::time::calendars::Calendar;
use serde::{Deserialize, Serialize};

pub const STYLES: u32 = 8;

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Synth {
    pub seed: u64,
    pub style: u32,
}

fn mix(a: u64, b: u64) -> f64 {
    let mut z = a ^ b.wrapping_mul(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    ((z ^ (z >> 31)) >> 11) as f64 / (1u64 << 53) as f64
}

impl Synth {
    pub fn open(&self, n: i64) -> bool {
        let (_, mo, d) = civil_from_days(n);
        let w = weekday(n);
        if d == 11 || d == 19 {
            return true; // every half month keeps an open day
        }
        let u = mix(self.seed, n as u64);
        match self.style {
            0 => w < 5 && u > 0.04,
            1 => u > 0.45,
            2 => {
                // blocks of 9 days, most of them closed
                mix(self.seed, (n.div_euclid(9)) as u64 ^ 0x55) > 0.6
            }
            3 => w != 4 && w != 5 && u > 0.03,
            4 => w < 5 && !((d >= 24 || d <= 3) && u < 0.7),
            5 => w == 2,
            6 => w < 5 && !((12..=18).contains(&d) && u < 0.75),
            7 => !(mo == 12 && d >= 20) && !(mo == 1 && d <= 9) && w < 5,
            _ => true,
        }
    }
}

#[typetag::serde]
impl Calendar for Synth {
    fn is_business_day(&self, date: NaiveDate) -> bool {
        self.open(days_from_civil(date.year(), date.month(), date.day()))
    }
}
