//! C17: FX forward valuation.
use finquant::derivatives::basic::{BasicInfo, Direction, Style};
use finquant::derivatives::forex::basic::FXDerivatives;
use finquant::derivatives::forex::forward::FXForward;
use fqmon::dates::*;
use fqmon::fx::*;
use fqmon::Mon;
use serde_json::json;

fn main() {
    fqmon::run("C17", "distinct (pair, valuation date, settlement date, strike) forwards valued", body)
}

/// `gap`: days from the expiry, which values the deal, to the delivery date
/// and from the trade date to the valuation date, which do not.
#[allow(clippy::too_many_arguments)]
fn deal(name: &str, buy: bool, frn: bool, n: f64, k: f64, t: i64, val: i64, gap: (i64, i64)) -> FXForward {
    let u = pair(name);
    FXForward {
        basic_info: BasicInfo {
            trade_date: date(val - gap.1),
            style: Style::FXForward,
            direction: if buy { Direction::Buy } else { Direction::Sell },
            expiry_date: date(t),
            delivery_date: date(t + gap.0),
        },
        notional_currency: if frn { u.frn_currency() } else { u.dom_currency() },
        asset: u,
        notional_amounts: n,
        strike: k,
    }
}

fn body(m: &mut Mon) {
    m.assume("a forward settles on the expiry date it carries: neither its trade nor its delivery date enters");
    for _ in 0..m.scale(10000, 200000) {
        let Some(mut desk) = Desk::random(m) else { continue };
        let (fc, dc) = (desk.name[..3].to_string(), desk.name[3..].to_string());
        // history: spot moves on the live context between valuations
        for round in 0..2 {
            if round == 1 {
                let s = desk.spot * m.rng.lf(0.8, 1.25);
                desk.ctx.spot = s;
                desk.spot = s;
                m.count("spot_moved");
            }
            for _ in 0..4 {
                let t = desk.pick_date(&mut m.rng);
                let outs = desk.outright(t);
                let k = match m.rng.n(4) {
                    0 if !outs.is_empty() => outs[0],
                    _ => desk.spot * m.rng.lf(0.3, 3.0),
                };
                let n = m.rng.lf(1.0, 1e9);
                let (buy, frn) = (m.rng.b(), m.rng.b());
                let gap = if m.rng.b() { (0, 0) } else { (m.rng.i(0, 7), m.rng.i(0, 400)) };
                let d = deal(desk.name, buy, frn, n, k, t, desk.val, gap);
                let info = || {
                    format!("{} val {} spot {} {} {n} {} @ {k} settling {} quotes {:?} curve {:?}", desk.name,
                        date(desk.val), desk.spot, if buy { "buy" } else { "sell" }, if frn { &fc } else { &dc }, date(t), desk.quotes, desk.dom)
                };
                let Some(r) = m.guard("panic/mtm", info, || d.mtm(&desk.ctx)) else { continue };
                let dir = if buy { 1.0 } else { -1.0 };
                let base = if frn { n * dir } else { -n / k * dir };
                if outs.is_empty() {
                    m.check(r.is_err(), "expired", || format!("{:?}: {}", r.as_ref().ok().map(|x| x.value), info()));
                    m.count("out_of_range");
                    continue;
                }
                let v = match r {
                    Ok(v) => v,
                    Err(e) => {
                        m.violate("error", format!("{e}: {}", info()));
                        continue;
                    }
                };
                let df = desk.dom.df(t);
                let cand: Vec<f64> = outs.iter().map(|f| base * (f - k) * df).collect();
                let want = cand.iter().copied().min_by(|a, b| (a - v.value).abs().total_cmp(&(b - v.value).abs())).unwrap();
                let tol = base.abs() * df * (k + outs[0].abs()) * 1e-13;
                m.close("mtm", v.value, want, 1e-12, tol, info);
                m.check(v.currency.code() == dc, "currency", || format!("{:?} {}", v.currency, info()));
                if let Some(x) = m.guard("panic/delta", info, || d.delta(&desk.ctx)) {
                    match x {
                        Ok(x) => {
                            m.close("delta", x.value, base, 1e-13, 0.0, info);
                            m.check(x.currency.code() == fc, "delta currency", || format!("{:?} {}", x.currency, info()));
                        }
                        Err(e) => m.violate("error", format!("delta {e}: {}", info())),
                    }
                }
                if let Some(Ok(g)) = m.guard("panic/gamma", info, || d.gamma(&desk.ctx)) {
                    m.check(g == 0.0, "gamma", || format!("{g} {}", info()));
                }
                if let Some(Ok(g)) = m.guard("panic/vega", info, || d.vega(&desk.ctx)) {
                    m.check(g == 0.0, "vega", || format!("{g} {}", info()));
                }
                // relations observed on the real code itself
                let op = deal(desk.name, !buy, frn, n, k, t, desk.val, gap);
                let tw = deal(desk.name, buy, frn, 3.0 * n, k, t, desk.val, gap);
                if let (Some(Ok(o)), Some(Ok(w))) = (
                    m.guard("panic/mtm", info, || op.mtm(&desk.ctx)),
                    m.guard("panic/mtm", info, || tw.mtm(&desk.ctx)),
                ) {
                    m.close("mirror", o.value, -v.value, 1e-12, tol, info);
                    m.close("scale", w.value, 3.0 * v.value, 1e-12, 3.0 * tol, info);
                }
                m.count(if frn { "base_notional" } else { "quote_notional" });
                m.case((desk.name, desk.val, t, k.to_bits()));
            }
        }
        if m.rng.chance(0.001) {
            m.sample(json!({"pair": desk.name, "valuation": date(desk.val).to_string()}));
        }
    }
    m.sample(json!({"pairs": PAIRS.len()}));
    for (k, n) in [("out_of_range", 500), ("base_notional", 2000), ("quote_notional", 2000), ("spot_moved", 500)] {
        m.need(k, n);
    }
}
