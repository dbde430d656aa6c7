//! C16: forward-point ladders.
use finquant::markets::forex::quotes::forwardpoints::{FXForwardHelper, FXForwardQuote};
use finquant::time::calendars::Calendar;
use fqmon::dates::*;
use fqmon::fx::*;
use fqmon::markets::markets;
use fqmon::synth::{STYLES, Synth};
use fqmon::Mon;
use serde_json::json;

fn body(m: &mut Mon) {
    let cals = markets();
    for (label, kind) in [("pair ladders", 0), ("market calendars", 1), ("synthetic calendars", 2)] {
        m.section(label);
        for _ in 0..m.scale(12000, 200000) {
            let val = m.rng.i(days_from_civil(1990, 1, 1), days_from_civil(2080, 1, 1));
            let val = if m.rng.chance(0.2) { num(eom(date(val))) - m.rng.i(0, 3) } else { val };
            let name = *m.rng.pick(PAIRS);
            let u = pair(name);
            let held: Box<dyn Calendar>;
            let (cal, l, tag): (&dyn Calendar, i64, String) = match kind {
                0 => {
                    held = Box::new(u.calendar());
                    (held.as_ref(), lag(name), name.to_string())
                }
                1 => {
                    let c = m.rng.pick(&cals);
                    (c.1.as_ref(), 2, c.0.to_string())
                }
                _ => {
                    let s = Synth { seed: m.rng.next(), style: m.rng.n(STYLES as usize) as u32 };
                    let t = format!("{s:?}");
                    held = Box::new(s);
                    (held.as_ref(), 2, t)
                }
            };
            let n = *m.rng.pick(&[0usize, 1, 2, 2, 3, 4, 6, 10, 14, 30]);
            let mut quotes: Vec<FXForwardQuote> = (0..n)
                .map(|_| FXForwardQuote { tenor: tenor(&mut m.rng), value: if m.rng.chance(0.06) { 0.0 } else { m.rng.f(-1.0, 1.0) * m.rng.lf(1e-2, 1e4) } })
                .collect();
            m.rng.shuffle(&mut quotes);
            let spot = m.rng.lf(0.5, 200.0);
            let mk = |q: Vec<FXForwardQuote>| {
                if kind == 0 { u.forward_helper(date(val), spot, q) } else { FXForwardHelper::new(date(val), spot, q) }
            };
            let mut h = mk(quotes.clone());
            // history: quotes and valuation date may move after construction
            let mut val = val;
            if m.rng.chance(0.25) && n > 0 {
                let k = m.rng.n(n);
                h.quotes[k].value = m.rng.f(-500.0, 500.0);
                quotes = h.quotes.clone();
                m.count("quote_moved");
            }
            if m.rng.chance(0.15) {
                val += m.rng.i(1, 20);
                h.valuation_date = date(val);
                m.count("day_rolled");
            }
            let mut dated: Vec<(i64, f64)> = quotes.iter().map(|q| (settle(cal, val, l, q.tenor), q.value)).collect();
            let mut ds: Vec<i64> = dated.iter().map(|d| d.0).collect();
            ds.sort();
            ds.dedup();
            let dup = ds.len() < n;
            let rev = {
                let mut q = quotes.clone();
                m.rng.shuffle(&mut q);
                let mut h = mk(q);
                h.valuation_date = date(val);
                h
            };
            for _ in 0..8 {
                let t = match m.rng.n(8) {
                    0 => val + m.rng.i(-5, 1),
                    1 if n > 0 => ds[0] + m.rng.i(-3, 1),
                    2 if n > 0 => ds[ds.len() - 1] + m.rng.i(-1, 40),
                    3 | 4 if n > 0 => dated[m.rng.n(n)].0,
                    _ if n > 0 => m.rng.i(ds[0], ds[ds.len() - 1]),
                    _ => val + m.rng.i(1, 1000),
                };
                let info = || format!("{tag} val {} quotes {quotes:?} query {}", date(val), date(t));
                let want = ladder(val, &dated, t);
                let got = match m.guard("panic/query", info, || h.get_forward(date(t), cal)) {
                    Some(Ok(g)) => g,
                    Some(Err(e)) => {
                        m.violate("error", format!("{}: {e}", info()));
                        continue;
                    }
                    None => continue,
                };
                match (&want, got) {
                    (Ladder::Nothing, None) => {
                        m.count("nothing");
                        m.trivial();
                        continue;
                    }
                    (Ladder::Nothing, Some(g)) => m.violate("invented", format!("{}: {g}", info())),
                    (_, None) => m.violate("lost", format!("{}: expected {want:?}", info())),
                    (Ladder::OneOf(v), Some(g)) => {
                        m.check(v.contains(&g), "pillar", || format!("{}: {g} expected {want:?}", info()));
                        m.count("on_pillar");
                    }
                    (Ladder::Line(v), Some(g)) => {
                        let best = v.iter().copied().min_by(|a, b| (a - g).abs().total_cmp(&(b - g).abs())).unwrap();
                        let size = dated.iter().map(|d| d.1.abs()).fold(0.0, f64::max);
                        m.close("line", g, best, 1e-12, 1e-12 * size, info);
                        m.count("between");
                    }
                }
                if !dup {
                    let other = m.guard("panic/query", info, || rev.get_forward(date(t), cal));
                    if let Some(Ok(o)) = other {
                        m.check(o == got, "order", || format!("{}: {got:?} reordered {o:?}", info()));
                        m.count("reordered");
                    }
                }
                m.case((tag.clone(), val, t, n));
            }
            dated.clear();
        }
    }
    m.sample(json!({"pairs": PAIRS.len(), "calendars": cals.len()}));
    for (k, n) in [("nothing", 1000), ("on_pillar", 2000), ("between", 5000), ("reordered", 3000), ("quote_moved", 300), ("day_rolled", 300)] {
        m.need(k, n);
    }
}

fn main() {
    fqmon::run("C16", "distinct (calendar, valuation date, query date, ladder size) queries answered by the ladder", body)
}
