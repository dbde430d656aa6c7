//! C18: FX vanilla options.
use finquant::derivatives::basic::{BasicInfo, Direction, Style};
use finquant::derivatives::forex::basic::FXDerivatives;
use finquant::derivatives::forex::option::{FXVanillaOption, OptionType, black_scholes};
use fqmon::dates::*;
use fqmon::fx::*;
use fqmon::num::*;
use fqmon::Mon;
use serde_json::json;

fn main() {
    fqmon::run("C18", "distinct (pair, valuation date, expiry, strike, volatility) options valued plus distinct formula inputs", body)
}

#[derive(Clone, Copy, Debug)]
struct Deal {
    buy: bool,
    frn: bool,
    call: bool,
    n: f64,
    k: f64,
    vol: f64,
    t: i64,
    /// days from expiry to delivery and from trade to valuation
    gap: (i64, i64),
}

fn deal(name: &str, val: i64, d: Deal) -> FXVanillaOption {
    let u = pair(name);
    FXVanillaOption {
        basic_info: BasicInfo {
            trade_date: date(val - d.gap.1),
            style: if d.call { Style::FXCall } else { Style::FXPut },
            direction: if d.buy { Direction::Buy } else { Direction::Sell },
            expiry_date: date(d.t),
            delivery_date: date(d.t + d.gap.0),
        },
        notional_currency: if d.frn { u.frn_currency() } else { u.dom_currency() },
        asset: u,
        option_type: if d.call { OptionType::Call } else { OptionType::Put },
        notional_amounts: d.n,
        strike: d.k,
        volatility: d.vol,
    }
}

fn body(m: &mut Mon) {
    m.assume("an option is valued on its expiry date: neither its trade nor its delivery date enters");
    m.section("formula");
    for i in 0..m.scale(60000, 2_000_000) {
        let f = m.rng.lf(1e-3, 1e3);
        let k = f * match m.rng.n(4) {
            0 => 1.0,
            1 => m.rng.lf(0.02, 50.0),
            _ => m.rng.lf(0.6, 1.6),
        };
        let v = match m.rng.n(6) {
            0 => 0.0,
            1 => m.rng.lf(1e-14, 1e-6),
            2 => m.rng.lf(1.0, 30.0),
            _ => m.rng.lf(1e-4, 1.0),
        };
        let df = m.rng.lf(0.2, 1.3);
        let info = || format!("F {f:e} K {k:e} V {v:e} DF {df}");
        let Some(c) = m.guard("panic/formula", info, || black_scholes(f, k, v, df, OptionType::Call)) else { continue };
        let Some(p) = m.guard("panic/formula", info, || black_scholes(f, k, v, df, OptionType::Put)) else { continue };
        let sc = df * f.max(k);
        m.close("formula call", c, df * black(f, k, 1.0, v.sqrt(), true), 1e-10, sc * 1e-10, info);
        m.close("formula put", p, df * black(f, k, 1.0, v.sqrt(), false), 1e-10, sc * 1e-10, info);
        m.close("formula parity", c - p, df * (f - k), 1e-12, sc * 1e-12, info);
        m.check(c >= df * (f - k).max(0.0) - sc * 1e-12 && c <= df * f * (1.0 + 1e-12), "bounds", || format!("{c} {}", info()));
        if i % 4 == 0 {
            m.case((f.to_bits(), k.to_bits(), v.to_bits()));
        }
    }
    m.section("deals");
    for _ in 0..m.scale(10000, 200000) {
        let Some(mut desk) = Desk::random(m) else { continue };
        if m.rng.chance(0.3) {
            // spot has moved since the points were quoted
            desk.spot *= m.rng.lf(0.8, 1.25);
            desk.ctx.spot = desk.spot;
            m.count("spot_moved");
        }
        let (fc, dc) = (&desk.name[..3], &desk.name[3..]);
        for _ in 0..5 {
            let t = desk.pick_date(&mut m.rng);
            let outs = desk.outright(t);
            let k = match m.rng.n(4) {
                0 if !outs.is_empty() => outs[0],
                1 => desk.spot * m.rng.lf(0.3, 3.0),
                _ => desk.spot * m.rng.lf(0.9, 1.1),
            };
            let vol = if m.rng.chance(0.1) { 0.0 } else { m.rng.lf(0.005, 1.5) };
            let d = Deal { buy: m.rng.b(), frn: m.rng.b(), call: m.rng.b(), n: m.rng.lf(1.0, 1e9), k, vol, t, gap: if m.rng.b() { (0, 0) } else { (m.rng.i(0, 7), m.rng.i(0, 400)) } };
            let info = || format!("{} val {} spot {} {d:?} settling {} quotes {:?} curve {:?}", desk.name, date(desk.val), desk.spot, date(t), desk.quotes, desk.dom);
            let o = deal(desk.name, desk.val, d);
            let Some(r) = m.guard("panic/mtm", info, || o.mtm(&desk.ctx)) else { continue };
            if outs.is_empty() {
                m.check(r.is_err(), "expired", || format!("{:?}: {}", r.as_ref().ok().map(|x| x.value), info()));
                m.count("out_of_range");
                continue;
            }
            let v = match r {
                Ok(v) => v,
                Err(e) => {
                    m.violate("error", format!("{e}: {}", info()));
                    continue;
                }
            };
            let get = |m: &mut Mon| -> Option<(f64, String, f64, f64)> {
                let a = m.guard("panic/delta", info, || o.delta(&desk.ctx))?;
                let b = m.guard("panic/gamma", info, || o.gamma(&desk.ctx))?;
                let c = m.guard("panic/vega", info, || o.vega(&desk.ctx))?;
                match (a, b, c) {
                    (Ok(a), Ok(b), Ok(c)) => Some((a.value, a.currency.code().to_string(), b, c)),
                    _ => {
                        m.violate("error", format!("greeks: {}", info()));
                        None
                    }
                }
            };
            let Some((delta, dccy, gamma, vega)) = get(m) else { continue };
            // duplicate settlement dates leave a choice: judge the closest
            let tau = (t - desk.val) as f64 / 365.0;
            let df = desk.dom.df(t);
            let dir = if d.buy { 1.0 } else { -1.0 };
            let unit = |f: f64| df * black(f, k, tau, vol, d.call);
            let conv = if d.frn { d.n / desk.spot } else { d.n / k };
            // (a nearly worthless option does not tell them apart, its counterpart does)
            let twin = if outs.len() > 1 { m.guard("panic/mtm", info, || deal(desk.name, desk.val, Deal { call: !d.call, ..d }).mtm(&desk.ctx)).and_then(|r| r.ok()).map(|r| r.value) } else { None };
            let miss = |f: f64| {
                let counter = df * black(f, k, tau, vol, !d.call);
                (-dir * conv * unit(f) - v.value).abs() + twin.map_or(0.0, |x| (-dir * conv * counter - x).abs())
            };
            let f = outs.iter().copied().min_by(|a, b| miss(*a).total_cmp(&miss(*b))).unwrap();
            let sc = conv * df * f.abs().max(k);
            m.close("mtm", v.value, -dir * conv * unit(f), 1e-9, sc * 1e-10, info);
            m.check(v.currency.code() == if d.frn { fc } else { dc }, "currency", || format!("{:?} {}", v.currency, info()));
            m.check(dccy == fc, "delta currency", || format!("{dccy} {}", info()));
            let base = if d.frn { d.n } else { d.n / k };
            let s = vol * tau.sqrt();
            let w = if d.call { 1.0 } else { -1.0 };
            // slopes of the reference price
            if s == 0.0 && (f / k - 1.0).abs() < 1e-12 {
                // rounding decides the side: any one-sided or central limit
                let u = dir * w * delta / base;
                m.check(u.is_finite() && (-1e-12..=1.0 + 1e-12).contains(&u) && gamma == 0.0 && vega.is_finite(), "zero-vol atm", || format!("delta {delta} gamma {gamma} vega {vega}: {}", info()));
                m.count("zero_vol_atm");
            } else if f > 0.0 {
                let (dd, gg, vv) = if s > 0.0 {
                    let d1 = (f / k).ln() / s + 0.5 * s;
                    (w * ncdf(w * d1), npdf(d1) / (f * s), f * npdf(d1) * tau.sqrt())
                } else {
                    let dd = if f == k { w * 0.5 } else if (f > k) == d.call { w } else { 0.0 };
                    (dd, 0.0, if f == k { f * npdf(0.0) * tau.sqrt() } else { 0.0 })
                };
                m.close("delta", delta, base * dir * dd, 1e-9, base * 1e-10, info);
                m.close("gamma", gamma, base * dir * df * gg, 1e-9, base * df * 1e-12 / (f * s.max(1e-6)), info);
                m.close("vega", vega, dir * conv * df * vv / 100.0, 1e-9, conv * df * f * tau.sqrt() * 1e-14, info);
                if s > 0.02 && s < 3.0 {
                    // finite differences of the reference confirm the closed forms
                    let h = f * s * 1e-3;
                    let fd = (unit(f + h) - unit(f - h)) / (2.0 * h) / df;
                    m.close("delta slope", delta, base * dir * fd, 1e-5, base * 1e-6, info);
                    let fg = (unit(f + h) - 2.0 * unit(f) + unit(f - h)) / (h * h);
                    m.close("gamma slope", gamma, base * dir * fg, 1e-4, base * df / (f * s) * 1e-5, info);
                    // vega slope observed on the real pricer
                    let e = vol * 1e-3;
                    let up = deal(desk.name, desk.val, Deal { vol: vol + e, ..d });
                    let dn = deal(desk.name, desk.val, Deal { vol: vol - e, ..d });
                    if let (Some(Ok(a)), Some(Ok(b))) = (m.guard("panic/mtm", info, || up.mtm(&desk.ctx)), m.guard("panic/mtm", info, || dn.mtm(&desk.ctx))) {
                        m.close("vega slope", vega, -(a.value - b.value) / (2.0 * e) / 100.0, 1e-4, sc * tau.sqrt() * 1e-7, info);
                    }
                    m.count("slopes");
                }
            }
            // call-put parity and mirror observed on the real pricer
            let other = deal(desk.name, desk.val, Deal { call: !d.call, ..d });
            let mirror = deal(desk.name, desk.val, Deal { buy: !d.buy, ..d });
            if let (Some(Ok(a)), Some(Ok(b))) = (m.guard("panic/mtm", info, || other.mtm(&desk.ctx)), m.guard("panic/mtm", info, || mirror.mtm(&desk.ctx))) {
                m.close("parity", v.value - a.value, -dir * conv * w * df * (f - k), 1e-11, sc * 1e-12, info);
                m.close("mirror", b.value, -v.value, 1e-12, 0.0, info);
            }
            m.count(if vol == 0.0 { "zero_vol" } else { "vol" });
            m.count(if d.frn { "base_notional" } else { "quote_notional" });
            m.case((desk.name, desk.val, t, k.to_bits(), vol.to_bits()));
        }
    }
    m.sample(json!({"pairs": PAIRS.len()}));
    for (k, n) in [("out_of_range", 300), ("base_notional", 2000), ("quote_notional", 2000), ("slopes", 2000), ("zero_vol", 200)] {
        m.need(k, n);
    }
}
