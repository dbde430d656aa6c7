//! Independent normal-model cap / floor reference.
use crate::Rng;
use crate::num::bachelier;
use crate::rates::*;

#[derive(Clone, Debug)]
pub struct Cap {
    pub cap: bool,
    pub forward: bool,
    pub buy: bool,
    pub n: f64,
    pub k: f64,
    pub dc: usize,
    /// accrual start, accrual end, pay
    pub rows: Vec<(i64, i64, i64)>,
}

pub fn variance(forward: bool, sigma: f64, ts: f64, te: f64) -> f64 {
    let s2 = sigma * sigma;
    if te <= 0.0 {
        0.0
    } else if forward {
        if ts > 0.0 { s2 * ts } else { 0.0 }
    } else {
        // integral of (sigma * decay(u))^2 over the remaining life, with the
        // instantaneous vol constant up to the start and linear to zero after
        let d = te - ts;
        if ts >= 0.0 {
            s2 * ts + s2 * d / 3.0
        } else {
            let left = te / d;
            s2 * d * left * left * left / 3.0
        }
    }
}

impl Cap {
    pub fn tau(&self, j: usize) -> f64 {
        counter(self.dc).2(self.rows[j].0, self.rows[j].1)
    }
    pub fn fwd(&self, j: usize, c: &Curve, bp: f64) -> f64 {
        let (s, e, _) = self.rows[j];
        (c.df_shift(s, bp) / c.df_shift(e, bp) - 1.0) / self.tau(j)
    }
    /// (signed value, magnitude of the parts)
    pub fn value(&self, c: &Curve, sigma: &dyn Fn(i64) -> f64, bp: f64, vbp: f64) -> (f64, f64) {
        let (mut v, mut mag) = (0.0, 0.0);
        for (j, (s, e, p)) in self.rows.iter().enumerate() {
            let t = self.tau(j);
            let f = self.fwd(j, c, bp);
            let var = variance(self.forward, sigma(*s) + vbp * 1e-4, c.t(*s), c.t(*e));
            let a = self.n * t * c.df_shift(*p, bp);
            let x = a * bachelier(f, self.k, 1.0, var.sqrt(), self.cap);
            v += if self.buy { x } else { -x };
            mag += a * ((f - self.k).abs() + var.sqrt() + 1e-5);
        }
        (v, mag)
    }
}

/// Strip of accruals beginning on day `a`.
pub fn strip(r: &mut Rng, mut a: i64, n: usize) -> Vec<(i64, i64, i64)> {
    let step = *r.pick(&[30i64, 91, 91, 182, 365]);
    let lag = r.i(0, 4);
    (0..n)
        .map(|_| {
            let e = a + step + r.i(-2, 2);
            let row = (a, e, e + lag);
            a = e;
            row
        })
        .collect()
}
