//! Random FX model parameters shared by the model monitors.
use crate::Rng;
use finquant::models::common::cir::CirProcess;
use finquant::models::forex::fx_hhw::{Correlation4x4, FxHhwParams};
use finquant::models::interestrate::hull_white::HullWhite1F;

/// Random correlation matrix from factor loadings (positive definite).
pub fn correlation(r: &mut Rng, n: usize, factors: usize) -> Vec<Vec<f64>> {
    let rows: Vec<Vec<f64>> = (0..n)
        .map(|i| {
            let mut v: Vec<f64> = (0..factors).map(|_| r.normal()).collect();
            v.resize(factors + n, 0.0);
            v[factors + i] = r.f(0.4, 1.2);
            let s = v.iter().map(|x| x * x).sum::<f64>().sqrt();
            v.iter().map(|x| x / s).collect()
        })
        .collect();
    (0..n).map(|i| (0..n).map(|j| if i == j { 1.0 } else { (0..factors + n).map(|k| rows[i][k] * rows[j][k]).sum() }).collect()).collect()
}

pub fn corr4(r: &mut Rng) -> Correlation4x4 {
    let c = correlation(r, 4, 3);
    Correlation4x4 { rho_xi_sigma: c[0][1], rho_xi_d: c[0][2], rho_xi_f: c[0][3], rho_sigma_d: c[1][2], rho_sigma_f: c[1][3], rho_d_f: c[2][3] }
}

pub fn heston(r: &mut Rng) -> CirProcess {
    CirProcess { kappa: r.lf(0.1, 5.0), theta: r.lf(4e-3, 0.2), gamma: r.lf(0.05, 1.0), sigma_0: r.lf(4e-3, 0.2) }
}

pub fn hw(r: &mut Rng) -> HullWhite1F {
    HullWhite1F { mean_reversion: r.lf(5e-3, 1.0), sigma: r.lf(1e-3, 0.02) }
}

pub fn hhw(r: &mut Rng) -> FxHhwParams {
    FxHhwParams {
        fx_0: r.lf(0.5, 200.0),
        heston: heston(r),
        domestic: hw(r),
        foreign: hw(r),
        rd_0: r.f(-0.01, 0.08),
        rf_0: r.f(-0.01, 0.08),
        theta_d: r.f(-0.01, 0.08),
        theta_f: r.f(-0.01, 0.08),
        correlations: corr4(r),
    }
}

/// Statistical monitor: a recorded noise stream must look like independent
/// standard normals (6-sigma bands on the first four moments, the central
/// quantiles and the first lags).
pub fn white(m: &mut crate::Mon, name: &str, z: &[f64]) {
    let n = z.len() as f64;
    let sn = n.sqrt();
    let mom = |k: i32| z.iter().map(|x| x.powi(k)).sum::<f64>() / n;
    // variance of z^k sample means: E z^2k - (E z^k)^2
    for (k, want, var) in [(1, 0.0, 1.0), (2, 1.0, 2.0), (3, 0.0, 15.0), (4, 3.0, 96.0f64)] {
        let key = format!("noise-moment-{k}");
        m.close(&key, mom(k), want, 0.0, 6.0 * var.sqrt() / sn, || format!("{name}: {n} draws"));
    }
    for q in [-1.5, -0.5, 0.0, 0.5, 1.5] {
        let p = crate::num::ncdf(q);
        let got = z.iter().filter(|x| **x <= q).count() as f64 / n;
        m.close("noise-quantile", got, p, 0.0, 6.0 * (p * (1.0 - p)).sqrt() / sn, || format!("{name}: P(z<={q}) over {n} draws"));
    }
    for lag in 1..=4usize {
        let c = z.windows(lag + 1).map(|w| w[0] * w[lag]).sum::<f64>() / n;
        m.close("noise-autocorrelation", c, 0.0, 0.0, 6.0 / sn, || format!("{name}: lag {lag} over {n} draws"));
    }
    m.add("noise draws observed", z.len() as u64);
}

/// Statistical monitor: sample correlation of two standard-normal streams.
pub fn correlated(m: &mut crate::Mon, key: &str, name: &str, a: &[f64], b: &[f64], rho: f64) {
    let n = a.len() as f64;
    let c = a.iter().zip(b).map(|(x, y)| x * y).sum::<f64>() / n;
    m.close(key, c, rho, 0.0, 6.0 * ((1.0 + rho * rho) / n).sqrt(), || format!("{name}: {n} draws"));
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn valid() {
        let mut r = Rng::new(1);
        for _ in 0..200 {
            assert!(corr4(&mut r).is_valid());
        }
    }
}

/// One random cross-currency market seen by both rate-market models.
pub fn lmm(r: &mut Rng) -> (finquant::models::forex::fx_hlmm::FxHlmmParams, finquant::models::forex::fx_fmm::FxFmmParams) {
    use finquant::models::forex::fx_fmm::{FmmSide, FxFmmCorrelations, FxFmmParams};
    use finquant::models::forex::fx_hlmm::{DdSvLmm, FxHlmmCorrelations, FxHlmmParams, LiborTenor};
    use finquant::models::interestrate::fmm::{FmmTenor, LinearDecay};
    let n = r.i(1, 5) as usize;
    let mut dates = vec![0.0];
    for i in 0..n {
        dates.push(dates[i] + r.f(0.2, 1.3));
    }
    let rates: Vec<f64> = (0..n).map(|_| r.f(-0.005, 0.07)).collect();
    let c = correlation(r, 2 * n + 1, 3);
    let sub = |o: usize| -> Vec<Vec<f64>> { (0..n).map(|i| (0..n).map(|j| c[o + i][o + j]).collect()).collect() };
    let cross: Vec<Vec<f64>> = (0..n).map(|i| (0..n).map(|j| c[1 + i][1 + n + j]).collect()).collect();
    let heston = heston(r);
    let rho = r.f(-0.7, 0.7);
    let fx_0 = r.lf(0.5, 150.0);
    let v: Vec<(f64, f64, f64)> = (0..2).map(|_| (r.f(0.3, 2.0), r.f(0.05, 0.4), r.f(0.5, 1.5))).collect();
    let sig: Vec<Vec<f64>> = (0..2).map(|_| (0..n).map(|_| r.f(0.003, 0.012)).collect()).collect();
    let xd: Vec<f64> = c[0][1..1 + n].to_vec();
    let xf: Vec<f64> = c[0][1 + n..].to_vec();
    let lm = |i: usize| DdSvLmm { sigmas: sig[i].iter().map(|x| x * 10.0).collect(), betas: vec![0.9; n], lambda: v[i].0, eta: v[i].1, v_0: v[i].2, libor_corr: sub(1 + i * n) };
    let fm = |i: usize| FmmSide { sigmas: sig[i].clone(), lambda: v[i].0, eta: v[i].1, v_0: v[i].2, rate_corr: sub(1 + i * n), decay: LinearDecay };
    (
        FxHlmmParams {
            fx_0,
            heston,
            tenor: LiborTenor::new(dates.clone(), rates.clone()),
            domestic: lm(0),
            foreign: lm(1),
            correlations: FxHlmmCorrelations { rho_xi_sigma: rho, rho_xi_d: xd.clone(), rho_xi_f: xf.clone(), libor_cross_corr: cross.clone() },
        },
        FxFmmParams {
            fx_0,
            heston,
            tenor: FmmTenor::new(dates, rates),
            domestic: fm(0),
            foreign: fm(1),
            correlations: FxFmmCorrelations { rho_xi_sigma: rho, rho_xi_d: xd, rho_xi_f: xf, rho_sigma_d: vec![0.0; n], rho_sigma_f: vec![0.0; n], cross_rate_corr: cross },
        },
    )
}
