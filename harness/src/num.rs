//! Independent numerical references.
use num_complex::Complex64;
use std::f64::consts::PI;

pub fn npdf(x: f64) -> f64 {
    (-0.5 * x * x).exp() / (2.0 * PI).sqrt()
}

/// erfc by continued fraction / series, accurate to ~1e-15 relative.
pub fn erfc(x: f64) -> f64 {
    let ax = x.abs();
    let r = if ax < 2.5 {
        // Taylor series of erf: 2/sqrt(pi) * exp(-x^2) * sum 2^n x^(2n+1)/(2n+1)!!
        let mut term = ax;
        let mut sum = ax;
        let mut n = 0;
        loop {
            n += 1;
            term *= 2.0 * ax * ax / (2.0 * n as f64 + 1.0);
            sum += term;
            if term < 1e-18 * sum || n > 400 {
                break;
            }
        }
        1.0 - 2.0 / PI.sqrt() * (-ax * ax).exp() * sum
    } else {
        // Continued fraction (Lentz, backward evaluation).
        let mut f = 0.0;
        for k in (1..=120).rev() {
            f = (k as f64 / 2.0) / (ax + f);
        }
        (-ax * ax).exp() / PI.sqrt() / (ax + f)
    };
    if x >= 0.0 { r } else { 2.0 - r }
}

pub fn ncdf(x: f64) -> f64 {
    0.5 * erfc(-x / std::f64::consts::SQRT_2)
}

/// Undiscounted Black-76.
pub fn black(f: f64, k: f64, t: f64, v: f64, call: bool) -> f64 {
    let s = v * t.sqrt();
    let w = if call { 1.0 } else { -1.0 };
    if s <= 0.0 {
        return (w * (f - k)).max(0.0);
    }
    let d1 = (f / k).ln() / s + 0.5 * s;
    let d2 = d1 - s;
    w * (f * ncdf(w * d1) - k * ncdf(w * d2))
}

/// Undiscounted Bachelier.
pub fn bachelier(f: f64, k: f64, t: f64, v: f64, call: bool) -> f64 {
    let s = v * t.sqrt();
    let w = if call { 1.0 } else { -1.0 };
    if s <= 0.0 {
        return (w * (f - k)).max(0.0);
    }
    let d = w * (f - k) / s;
    w * (f - k) * ncdf(d) + s * npdf(d)
}

/// Black implied vol by robust bisection + Newton on log-vol.
pub fn implied_black(price: f64, f: f64, k: f64, t: f64, call: bool) -> Option<f64> {
    let (mut lo, mut hi) = (1e-9, 20.0);
    if price <= black(f, k, t, lo, call) || price >= black(f, k, t, hi, call) {
        return None;
    }
    for _ in 0..200 {
        let mid = 0.5 * (lo + hi);
        if black(f, k, t, mid, call) > price {
            hi = mid
        } else {
            lo = mid
        }
    }
    Some(0.5 * (lo + hi))
}

/// Gauss–Legendre 32-point composite quadrature.
pub fn integrate(f: impl Fn(f64) -> f64, a: f64, b: f64, panels: usize) -> f64 {
    let (x, w) = gl();
    let h = (b - a) / panels as f64;
    let mut s = 0.0;
    for p in 0..panels {
        let c = a + (p as f64 + 0.5) * h;
        for i in 0..x.len() {
            s += w[i] * f(c + 0.5 * h * x[i]);
        }
    }
    0.5 * h * s
}

pub fn integrate_c(f: impl Fn(f64) -> Complex64, a: f64, b: f64, panels: usize) -> Complex64 {
    let (x, w) = gl();
    let h = (b - a) / panels as f64;
    let mut s = Complex64::new(0.0, 0.0);
    for p in 0..panels {
        let c = a + (p as f64 + 0.5) * h;
        for i in 0..x.len() {
            s += f(c + 0.5 * h * x[i]) * w[i];
        }
    }
    s * (0.5 * h)
}

use std::sync::OnceLock;
static GL: OnceLock<(Vec<f64>, Vec<f64>)> = OnceLock::new();
fn gl() -> &'static (Vec<f64>, Vec<f64>) {
    GL.get_or_init(|| {
        let n = 16usize;
        let mut xs = vec![0.0; n];
        let mut ws = vec![0.0; n];
        for i in 0..n {
            let mut x = (PI * (i as f64 + 0.75) / (n as f64 + 0.5)).cos();
            let mut dp = 0.0;
            for _ in 0..100 {
                let (mut p0, mut p1) = (1.0, x);
                for k in 2..=n {
                    let kf = k as f64;
                    let p2 = ((2.0 * kf - 1.0) * x * p1 - (kf - 1.0) * p0) / kf;
                    p0 = p1;
                    p1 = p2;
                }
                dp = n as f64 * (x * p1 - p0) / (x * x - 1.0);
                let dx = p1 / dp;
                x -= dx;
                if dx.abs() < 1e-16 {
                    break;
                }
            }
            xs[i] = x;
            ws[i] = 2.0 / ((1.0 - x * x) * dp * dp);
        }
        (xs, ws)
    })
}

/// RK4 for a complex ODE system y' = f(t, y).
pub fn rk4<const N: usize>(
    mut y: [Complex64; N],
    t0: f64,
    t1: f64,
    n: usize,
    f: impl Fn(f64, &[Complex64; N]) -> [Complex64; N],
) -> [Complex64; N] {
    let h = (t1 - t0) / n as f64;
    let mut t = t0;
    let ax = |y: &[Complex64; N], k: &[Complex64; N], c: f64| {
        let mut r = *y;
        for i in 0..N {
            r[i] += k[i] * c;
        }
        r
    };
    for _ in 0..n {
        let k1 = f(t, &y);
        let k2 = f(t + 0.5 * h, &ax(&y, &k1, 0.5 * h));
        let k3 = f(t + 0.5 * h, &ax(&y, &k2, 0.5 * h));
        let k4 = f(t + h, &ax(&y, &k3, h));
        for i in 0..N {
            y[i] += (k1[i] + k2[i] * 2.0 + k3[i] * 2.0 + k4[i]) * (h / 6.0);
        }
        t += h;
    }
    y
}

/// Lower Cholesky; None if not (numerically) positive definite.
pub fn cholesky(a: &[Vec<f64>]) -> Option<Vec<Vec<f64>>> {
    let n = a.len();
    let mut l = vec![vec![0.0; n]; n];
    for i in 0..n {
        for j in 0..=i {
            let mut s = a[i][j];
            for k in 0..j {
                s -= l[i][k] * l[j][k];
            }
            if i == j {
                if s <= 1e-12 {
                    return None;
                }
                l[i][i] = s.sqrt();
            } else {
                l[i][j] = s / l[j][j];
            }
        }
    }
    Some(l)
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn refs() {
        assert!((ncdf(1.0) - 0.841344746068542948585).abs() < 1e-15);
        assert!((ncdf(-6.0) / 9.865876450376946e-10 - 1.0).abs() < 1e-12);
        assert!((ncdf(-3.6) / 1.591085901575338e-4 - 1.0).abs() < 1e-13);
        assert!((integrate(|x| x.sin(), 0.0, PI, 4) - 2.0).abs() < 1e-14);
        use crate::dates::*;
        assert_eq!(civil_from_days(easter_sunday(2024)), (2024, 3, 31));
        assert_eq!(civil_from_days(orthodox_easter_sunday(2024)), (2024, 5, 5));
        assert_eq!(civil_from_days(orthodox_easter_sunday(1901)), (1901, 4, 14));
        assert_eq!(days_from_civil(1970, 1, 1), 0);
        assert_eq!(weekday(0), 3);
    }
}
