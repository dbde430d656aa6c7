//! C12: quote changes propagate to every dependent object.
use finquant::error::{Error, Result};
use finquant::markets::forex::quotes::forwardpoints::{FXForwardHelper, FXForwardQuote};
use finquant::markets::interestrate::interestrateindex::InterestRateIndex;
use finquant::markets::interestrate::volsurface::{CapQuote, IRCapMarketData, IRNormalVolSurface};
use finquant::markets::termstructures::yieldcurve::oisratehelper::OISRate;
use finquant::markets::termstructures::yieldcurve::{InterpolationMethodEnum as IM, YieldTermMarketData, YieldTermStructure};
use finquant::patterns::observer::{Observable, Observer};
use finquant::time::businessdayconvention::BusinessDayConvention as B;
use finquant::time::calendars::Target;
use finquant::time::daycounters::actual360::Actual360;
use finquant::time::daycounters::actual365fixed::Actual365Fixed;
use finquant::time::period::Period as P;
use fqmon::Mon;
use fqmon::dates::*;
use iso_currency::Currency;
use serde_json::json;
use std::any::Any;
use std::cell::RefCell;
use std::rc::Rc;

/// What a probe saw: (probe id, kind of source, fingerprint of its quotes).
type Log = Rc<RefCell<Vec<(usize, u8, Vec<u64>)>>>;

#[derive(Debug)]
struct Probe {
    id: usize,
    log: Log,
    fail: bool,
}

fn print_of(o: &dyn Observable) -> (u8, Vec<u64>) {
    let a = o.as_any();
    if let Some(y) = a.downcast_ref::<YieldTermMarketData>() {
        (0, y.cash_quote.iter().map(|c| c.value.to_bits()).collect())
    } else if let Some(f) = a.downcast_ref::<FXForwardHelper>() {
        (1, std::iter::once(f.spot_ref.to_bits()).chain(f.quotes.iter().map(|q| q.value.to_bits())).collect())
    } else if let Some(c) = a.downcast_ref::<IRCapMarketData>() {
        (2, c.cap_quotes.iter().map(|q| q.market_npv.to_bits()).collect())
    } else {
        (9, vec![])
    }
}

impl Observer for Probe {
    fn update(&mut self, o: &dyn Observable) -> Result<()> {
        let (k, v) = print_of(o);
        self.log.borrow_mut().push((self.id, k, v));
        if self.fail { Err(Error::InvalidData("probe".into())) } else { Ok(()) }
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
}

enum Src {
    Y(YieldTermMarketData),
    F(FXForwardHelper),
    C(IRCapMarketData),
}
impl Src {
    fn obs(&self) -> &dyn Observable {
        match self {
            Src::Y(x) => x,
            Src::F(x) => x,
            Src::C(x) => x,
        }
    }
    fn obs_mut(&mut self) -> &mut dyn Observable {
        match self {
            Src::Y(x) => x,
            Src::F(x) => x,
            Src::C(x) => x,
        }
    }
}

fn index(p: P) -> InterestRateIndex {
    InterestRateIndex {
        period: p,
        settlement_days: 2,
        currency: Currency::EUR,
        calendar: Box::new(Target),
        convention: B::ModifiedFollowing,
        day_counter: Box::new(Actual360),
        end_of_month: false,
    }
}

struct Deps {
    probes: Vec<(usize, Rc<RefCell<Probe>>)>,
    curves: Vec<(usize, Rc<RefCell<YieldTermStructure>>)>,
    surfaces: Vec<(usize, Rc<RefCell<IRNormalVolSurface>>)>,
}

fn zeros(y: &YieldTermStructure, val: i64) -> Vec<u64> {
    [1, 40, 95, 200, 370, 900]
        .iter()
        .map(|d| y.zero_rate(date(val + d), &IM::StepFunctionForward).map(|z| z.to_bits()).unwrap_or(7))
        .collect()
}

fn history(m: &mut Mon, k: usize) {
    let val = days_from_civil(2020, 1, 6) + 7 * m.rng.i(0, 300);
    let log: Log = Rc::default();
    let mut srcs: Vec<Src> = vec![];
    let n = m.rng.i(1, 4);
    for _ in 0..n {
        let r = &mut m.rng;
        match r.n(4) {
            0 | 1 => {
                let c = (1..=r.i(1, 4))
                    .map(|i| OISRate { value: r.f(-0.01, 0.06), interest_rate_index: index(P::Months(3 * i as u32)) })
                    .collect();
                srcs.push(Src::Y(YieldTermMarketData::new(date(val), c, vec![], vec![])));
            }
            2 => {
                let q = (1..=r.i(1, 4)).map(|i| FXForwardQuote { tenor: P::Months(i as u32), value: r.f(-50.0, 50.0) }).collect();
                srcs.push(Src::F(FXForwardHelper::new(date(val), r.f(0.5, 2.0), q)));
            }
            _ => {
                let q: Vec<CapQuote> = vec![];
                srcs.push(Src::C(IRCapMarketData::new(date(val), q)));
            }
        }
    }
    let ns = srcs.len();
    // expected attach order per source: Some(slot) for each live attachment
    #[derive(Clone, Copy, PartialEq, Debug)]
    enum A {
        Probe(usize),
        Curve(usize),
        Surf(usize),
    }
    let mut att: Vec<Vec<A>> = vec![vec![]; ns];
    // what each curve should answer; None = as built (never successfully notified)
    let mut expect: std::collections::BTreeMap<usize, Vec<u64>> = Default::default();
    let mut d = Deps { probes: vec![], curves: vec![], surfaces: vec![] };
    let mut next = 0;
    let mut trace: Vec<String> = vec![];
    let steps = m.rng.i(6, 40);
    for _ in 0..steps {
        let op = m.rng.n(12);
        match op {
            0..=2 => {
                // new dependent, attached to one or several sources
                next += 1;
                let id = next;
                let targets: Vec<usize> = if m.rng.chance(0.3) { (0..ns).collect() } else { vec![m.rng.n(ns)] };
                let rc: Rc<RefCell<dyn Observer>>;
                let a;
                match m.rng.n(5) {
                    0 | 1 => {
                        let p = Rc::new(RefCell::new(Probe { id, log: log.clone(), fail: false }));
                        d.probes.push((id, p.clone()));
                        rc = p;
                        a = A::Probe(id);
                    }
                    2 => {
                        let s = Rc::new(RefCell::new(IRNormalVolSurface::new(date(val))));
                        d.surfaces.push((id, s.clone()));
                        rc = s;
                        a = A::Surf(id);
                    }
                    _ => {
                        let sc = fqmon::rates::random_pillars(&mut m.rng, val, false);
                        let y = Rc::new(RefCell::new(fqmon::rates::yts(val, &sc)));
                        expect.insert(id, zeros(&y.borrow(), val));
                        d.curves.push((id, y.clone()));
                        rc = y;
                        a = A::Curve(id);
                    }
                }
                for t in targets {
                    srcs[t].obs_mut().attach(rc.clone());
                    att[t].push(a);
                    trace.push(format!("attach {a:?} -> {t}"));
                }
            }
            3 => {
                // attach an existing dependent to a further source
                if !d.probes.is_empty() {
                    let (id, p) = d.probes[m.rng.n(d.probes.len())].clone();
                    let t = m.rng.n(ns);
                    if !att[t].contains(&A::Probe(id)) {
                        srcs[t].obs_mut().attach(p);
                        att[t].push(A::Probe(id));
                        trace.push(format!("attach {id} -> {t}"));
                    }
                }
            }
            4 => {
                // drop a dependent
                let total = d.probes.len() + d.curves.len() + d.surfaces.len();
                if total > 0 {
                    let j = m.rng.n(total);
                    let gone = if j < d.probes.len() {
                        A::Probe(d.probes.remove(j).0)
                    } else if j < d.probes.len() + d.curves.len() {
                        A::Curve(d.curves.remove(j - d.probes.len()).0)
                    } else {
                        A::Surf(d.surfaces.remove(j - d.probes.len() - d.curves.len()).0)
                    };
                    att.iter_mut().for_each(|v| v.retain(|x| *x != gone));
                    trace.push(format!("drop {gone:?}"));
                    m.count("dropped");
                }
            }
            5 => {
                // toggle a failing probe
                if !d.probes.is_empty() {
                    let j = m.rng.n(d.probes.len());
                    let f = m.rng.chance(0.4);
                    d.probes[j].1.borrow_mut().fail = f;
                    trace.push(format!("fail[{}]={f}", d.probes[j].0));
                }
            }
            6..=8 => {
                // change quotes
                let t = m.rng.n(ns);
                let r = &mut m.rng;
                match &mut srcs[t] {
                    Src::Y(y) => {
                        if r.chance(0.2) {
                            let i = y.cash_quote.len() as u32 + 1;
                            y.cash_quote.push(OISRate { value: r.f(-0.01, 0.06), interest_rate_index: index(P::Months(3 * i)) });
                        } else {
                            let j = r.n(y.cash_quote.len());
                            y.cash_quote[j].value = r.f(-0.01, 0.06);
                        }
                    }
                    Src::F(f) => {
                        if r.b() {
                            f.spot_ref = r.f(0.5, 2.0);
                        } else {
                            let j = r.n(f.quotes.len());
                            f.quotes[j].value = r.f(-50.0, 50.0);
                        }
                    }
                    Src::C(c) => {
                        c.cap_quotes.push(CapQuote {
                            strike: 0.02,
                            notional: 1.0,
                            direction: finquant::derivatives::basic::Direction::Buy,
                            kind: finquant::derivatives::interestrate::basic::CapFloorKind::Cap,
                            style: finquant::derivatives::interestrate::basic::CapStyle::ForwardLooking,
                            currency: Currency::EUR,
                            schedule: vec![],
                            accrual_day_counter: Box::<Actual365Fixed>::default(),
                            market_npv: r.f(0.0, 1.0),
                        });
                    }
                }
                trace.push(format!("edit {t}"));
            }
            _ => {
                let t = m.rng.n(ns);
                trace.push(format!("notify {t}"));
                log.borrow_mut().clear();
                m.section(&format!("history {k}: {trace:?}"));
                let src = &srcs[t];
                let who = || format!("{trace:?}");
                let res = m.guard("panic/notify", who, || src.obs().notify_observers());
                let Some(res) = res else { return };
                let (kind, fp) = print_of(src.obs());
                // attachment order up to and including the first failure
                let mut want = vec![];
                let mut err = false;
                let fresh = match src {
                    Src::Y(y) => y.get_stripped_curve().ok().map(|sc| zeros(&fqmon::rates::yts(val, &sc), val)),
                    _ => None,
                };
                let mut reached: Vec<A> = vec![];
                for a in &att[t] {
                    reached.push(*a);
                    if let A::Probe(id) = a {
                        want.push((*id, kind, fp.clone()));
                        if d.probes.iter().any(|(i, p)| i == id && p.borrow().fail) {
                            err = true;
                            break;
                        }
                    }
                }
                let after: Vec<A> = att[t].iter().skip(reached.len()).copied().collect();
                let got = log.borrow().clone();
                let g2 = got.clone();
                // a failing dependent must be reported; the others reached so
                // far have heard exactly once, nobody detached hears anything
                m.check(res.is_err() == err, "notify-result", || format!("{res:?} expected error {err} {}", who()));
                let ids: Vec<usize> = got.iter().map(|x| x.0).collect();
                let mut sorted = ids.clone();
                sorted.sort();
                sorted.dedup();
                m.check(sorted.len() == ids.len(), "notified-twice", || format!("{ids:?} {}", who()));
                m.check(want.iter().all(|w| got.contains(w)), "missed-or-stale", || format!("log {g2:?} expected {want:?} {}", who()));
                m.check(
                    got.iter().all(|x| want.contains(x) || (err && after.contains(&A::Probe(x.0)) && x.2 == fp)),
                    "unexpected-notification",
                    || format!("log {got:?} expected {want:?} {}", who()),
                );
                m.add("notifications", ids.len() as u64);
                if let Some(z) = fresh {
                    for a in &reached {
                        if let A::Curve(id) = a {
                            expect.insert(*id, z.clone());
                        }
                    }
                    if err {
                        // whether dependents behind a failing one are served is
                        // not stated: take what they now hold if it is current
                        for a in &after {
                            if let A::Curve(id) = a
                                && let Some((_, c)) = d.curves.iter().find(|(i, _)| i == id)
                                && zeros(&c.borrow(), val) == z
                            {
                                expect.insert(*id, z.clone());
                            }
                        }
                    }
                }
                m.case((k, trace.len(), t));
                m.count(["notify_yield", "notify_fx", "notify_cap"][kind.min(2) as usize]);
                if err {
                    m.count("failed_notify");
                }
            }
        }
        // every live curve answers with the state of its last notification
        for (id, c) in &d.curves {
            let z = zeros(&c.borrow(), val);
            m.check(z == expect[id], "stale-or-early-curve", || format!("curve {id} {trace:?}"));
        }
        m.add("curve_reads", d.curves.len() as u64);
    }
    // a source owns no dependent: the monitor holds the only strong reference
    for (_, p) in &d.probes {
        m.check(Rc::strong_count(p) == 1, "observer-leak", || format!("{trace:?}"));
    }
    if k < 4 {
        m.sample(json!({"sources": ns, "trace": trace}));
    }
}

fn body(m: &mut Mon) {
    for k in 0..m.scale(6_000, 300_000) {
        history(m, k);
    }
    for c in ["notify_yield", "notify_fx", "notify_cap", "failed_notify", "dropped"] {
        m.need(c, 500);
    }
    m.need("notifications", 5000);
    m.need("curve_reads", 5000);
}

fn main() {
    fqmon::run("C12", "distinct notifications in random attach / edit / drop / notify histories", body)
}
