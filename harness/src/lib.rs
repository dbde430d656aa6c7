//! Shared runtime-monitor infrastructure: seeded randomness, verdict
//! discipline, evidence/replay writing, panic / abort / hang observation.
//!
//! Verdicts are three-valued.  exit 0 = held on everything observed;
//! exit 1 + `VIOLATION` line = an oracle refuted the property on a concrete
//! execution; exit 3 = inconclusive (not enough observed, harness error).

pub mod biz;
pub mod cal;
pub mod caps;
pub mod fx;
pub mod fxm;
pub mod dates;
pub mod markets;
pub mod num;
pub mod rates;
pub mod synth;

use serde_json::{Value, json};
use std::any::Any;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::PathBuf;
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Instant;

// ------------------------------------------------------------------ RNG --

/// xoshiro256++ seeded by splitmix64; independent of any crate in /repo.
#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
    spare: Option<f64>,
    /// values drawn so far, and the one to replace
    drawn: u64,
    flip: u64,
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut z = seed.wrapping_add(0x9E3779B97F4A7C15);
        let mut s = [0u64; 4];
        for v in s.iter_mut() {
            z = z.wrapping_add(0x9E3779B97F4A7C15);
            let mut x = z;
            x = (x ^ (x >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            x = (x ^ (x >> 27)).wrapping_mul(0x94D049BB133111EB);
            *v = x ^ (x >> 31);
        }
        Rng { s, spare: None, drawn: 0, flip: u64::MAX }
    }
    /// The same stream with one drawn value (values, not the counts and
    /// choices that shape a case) replaced: a near twin.
    pub fn twin(seed: u64, flip: u64) -> Self {
        Rng { flip, ..Rng::new(seed) }
    }
    pub fn drawn(&self) -> u64 {
        self.drawn
    }
    fn value(&mut self) -> u64 {
        let x = self.next();
        self.drawn += 1;
        if self.drawn - 1 == self.flip { Rng::new(x).next() } else { x }
    }
    pub fn next(&mut self) -> u64 {
        let s = &mut self.s;
        let r = (s[0].wrapping_add(s[3])).rotate_left(23).wrapping_add(s[0]);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    pub fn u(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    /// uniform in [a,b)
    pub fn f(&mut self, a: f64, b: f64) -> f64 {
        a + (b - a) * ((self.value() >> 11) as f64 / (1u64 << 53) as f64)
    }
    /// log-uniform in [a,b)
    pub fn lf(&mut self, a: f64, b: f64) -> f64 {
        (self.f(a.ln(), b.ln())).exp()
    }
    /// integer in [a,b] inclusive
    pub fn i(&mut self, a: i64, b: i64) -> i64 {
        let x = if b - a > 12 { self.value() } else { self.next() };
        a + (x % ((b - a + 1) as u64)) as i64
    }
    pub fn n(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn b(&mut self) -> bool {
        self.value() & 1 == 1
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.u() < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[(self.value() % v.len() as u64) as usize]
    }
    pub fn normal(&mut self) -> f64 {
        if let Some(z) = self.spare.take() {
            return z;
        }
        let u1 = 1.0 - self.u();
        let u2 = self.u();
        let r = (-2.0 * u1.ln()).sqrt();
        let a = 2.0 * std::f64::consts::PI * u2;
        self.spare = Some(r * a.sin());
        r * a.cos()
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.n(i + 1);
            v.swap(i, j);
        }
    }
}

// -------------------------------------------------------------- Monitor --

static OPS: AtomicU64 = AtomicU64::new(0);
static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

fn root() -> PathBuf {
    std::env::var("FQMON_ROOT")
        .map(PathBuf::from)
        .unwrap_or_else(|_| PathBuf::from("/verif"))
}

fn cpu_seconds() -> f64 {
    // utime+stime of this process from /proc/self/stat (100 Hz ticks).
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let rest = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    if f.len() > 13 {
        let u: f64 = f[11].parse().unwrap_or(0.0);
        let k: f64 = f[12].parse().unwrap_or(0.0);
        return (u + k) / 100.0;
    }
    0.0
}

pub struct Mon {
    pub id: String,
    pub tier: String,
    pub seed: u64,
    pub rng: Rng,
    rule: String,
    assumptions: Vec<String>,
    evals: u64,
    distinct: HashSet<u64>,
    samples: Vec<Value>,
    counters: BTreeMap<String, u64>,
    needs: Vec<(String, u64)>,
    viol: BTreeMap<String, (u64, Vec<String>)>,
    maxdev: BTreeMap<String, f64>,
    t0: Instant,
    section: String,
    crumb: Option<PathBuf>,
    exhaustive: bool,
}

/// Entry point of every monitor binary.  Re-executes itself as a supervised
/// child so that aborts (stack overflow, allocation failure) in the code
/// under test are observed rather than fatal to the monitor.
pub fn run(id: &str, rule: &str, body: fn(&mut Mon)) -> ! {
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let tier = if tier == "thorough" { tier } else { "quick".into() };
    let seed: u64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    if std::env::var("FQMON_CHILD").is_err() && std::env::var("FQMON_NOFORK").is_err() {
        supervise(id, &tier, seed);
    }
    let crumb = std::env::var("FQMON_CRUMB").ok().map(PathBuf::from);
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        *LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = format!("{msg} @ {loc}");
    }));
    // hang observer: one single operation on the real code that burns a long
    // stretch of CPU time without returning.
    std::thread::spawn(|| {
        let mut last = 0;
        let mut cpu0 = cpu_seconds();
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let now = OPS.load(Ordering::Relaxed);
            if now != last || now % 2 == 0 {
                last = now;
                cpu0 = cpu_seconds();
            } else if cpu_seconds() - cpu0 > 150.0 {
                std::process::exit(97);
            }
        }
    });
    let mut m = Mon {
        id: id.into(),
        tier,
        seed,
        rng: Rng::new(seed ^ fnv(id)),
        rule: rule.into(),
        assumptions: vec![],
        evals: 0,
        distinct: HashSet::new(),
        samples: vec![],
        counters: BTreeMap::new(),
        needs: vec![],
        viol: BTreeMap::new(),
        maxdev: BTreeMap::new(),
        t0: Instant::now(),
        section: String::new(),
        crumb,
        exhaustive: false,
    };
    let r = catch_unwind(AssertUnwindSafe(|| body(&mut m)));
    let p = LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).clone();
    if r.is_err() && in_code_under_test(&p) {
        // a call the monitor did not expect to fail died inside the library
        m.violate("panic/unguarded", format!("section '{}': {p}", m.section));
    }
    if r.is_err() && m.viol.is_empty() {
        eprintln!(
            "INCONCLUSIVE property={} harness panic in section '{}': {p}",
            m.id, m.section
        );
        m.write_evidence(&BTreeSet::new());
        std::process::exit(3);
    }
    m.finish()
}

/// The crate under test is compiled from an absolute path, the monitors from a
/// relative one, dependencies and the standard library from their own trees.
fn in_code_under_test(panic: &str) -> bool {
    let loc = panic.rsplit(" @ ").next().unwrap_or("");
    loc.starts_with('/') && !loc.contains("/rustlib/") && !loc.starts_with("/rustc/") && !loc.contains("/registry/")
}

fn fnv(s: &str) -> u64 {
    s.bytes()
        .fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

fn replay_path(id: &str) -> PathBuf {
    root().join("replays").join(format!("{id}.json"))
}

fn write_replay(id: &str, tier: &str, seed: u64, viol: &Value) -> PathBuf {
    let p = replay_path(id);
    let _ = std::fs::create_dir_all(p.parent().unwrap());
    let v = json!({
        "property": id, "tier": tier, "seed": seed,
        "replay": format!("cd /verif && VERIF_SEED={seed} ./check.sh {id} {tier}"),
        "violations": viol,
    });
    let _ = std::fs::write(&p, serde_json::to_string_pretty(&v).unwrap());
    p
}

fn supervise(id: &str, tier: &str, seed: u64) -> ! {
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().expect("exe");
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let crumb = dir.join(format!("{id}.crumb"));
    let _ = std::fs::write(&crumb, "");
    let st = std::process::Command::new(exe)
        .args(std::env::args().skip(1))
        .env("FQMON_CHILD", "1")
        .env("FQMON_CRUMB", &crumb)
        .status();
    let at = std::fs::read_to_string(&crumb).unwrap_or_default();
    let _ = std::fs::remove_file(&crumb);
    let st = match st {
        Ok(s) => s,
        Err(e) => {
            eprintln!("INCONCLUSIVE property={id} cannot start monitor: {e}");
            std::process::exit(3);
        }
    };
    if let Some(c) = st.code() {
        // only raised while a guarded call on the code under test was running
        if c == 97 {
            let what = format!("no-return: one operation did not return after 150 s of CPU: {at}");
            let p = write_replay(id, tier, seed, &json!([what]));
            println!("{what}");
            println!("VIOLATION property={id} replay={}", p.display());
            std::process::exit(1);
        }
        std::process::exit(c);
    }
    match st.signal() {
        // SIGABRT / SIGSEGV / SIGBUS / SIGILL / SIGFPE while real code was running.
        Some(s) if [4, 6, 7, 8, 11].contains(&s) && !at.is_empty() => {
            let what = format!("abort: process died by signal {s} while executing: {at}");
            let p = write_replay(id, tier, seed, &json!([what]));
            println!("{what}");
            println!("VIOLATION property={id} replay={}", p.display());
            std::process::exit(1);
        }
        s => {
            eprintln!("INCONCLUSIVE property={id} monitor ended by signal {s:?}");
            std::process::exit(3);
        }
    }
}

pub fn hash64<K: Hash>(k: K) -> u64 {
    let mut h = DefaultHasher::new();
    k.hash(&mut h);
    h.finish()
}

impl Mon {
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
    /// Pick the amount of work for the tier.
    pub fn scale(&self, quick: usize, thorough: usize) -> usize {
        let quick = quick * boost(&self.id);
        if self.thorough() { thorough.max(4 * quick) } else { quick }
    }
    pub fn elapsed(&self) -> f64 {
        self.t0.elapsed().as_secs_f64()
    }
    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.into());
    }
    pub fn exhaustive(&mut self) {
        self.exhaustive = true;
    }
    /// Names the activity being monitored (reported if the process dies).
    pub fn section(&mut self, s: &str) {
        if std::env::var_os("FQMON_VERBOSE").is_some() {
            eprintln!("[{:.1}s] {s}", self.elapsed());
        }
        self.section = s.into();
        if let Some(c) = &self.crumb {
            let _ = std::fs::write(c, s);
        }
    }
    /// One evaluated case; `key` identifies it for distinctness counting.
    pub fn case<K: Hash>(&mut self, key: K) {
        self.evals += 1;
        if self.distinct.len() < 4_000_000 {
            self.distinct.insert(hash64(key));
        }
    }
    /// An evaluated but trivial case (not counted as distinct_nontrivial).
    pub fn trivial(&mut self) {
        self.evals += 1;
    }
    /// Bulk count: `n` evaluations all distinct by construction.
    pub fn count(&mut self, name: &str) {
        *self.counters.entry(name.into()).or_insert(0) += 1;
    }
    pub fn get(&self, name: &str) -> u64 {
        self.counters.get(name).copied().unwrap_or(0)
    }
    pub fn add(&mut self, name: &str, n: u64) {
        *self.counters.entry(name.into()).or_insert(0) += n;
    }
    /// The run is inconclusive unless counter `name` reached `min`.
    pub fn need(&mut self, name: &str, min: u64) {
        self.needs.push((name.into(), min));
    }
    pub fn sample(&mut self, v: Value) {
        if self.samples.len() < 12 {
            self.samples.push(v);
        }
    }
    pub fn violate(&mut self, key: &str, detail: String) {
        let e = self.viol.entry(key.to_string()).or_insert((0, vec![]));
        e.0 += 1;
        if e.1.len() < 5 {
            e.1.push(detail);
        }
    }
    pub fn check(&mut self, ok: bool, key: &str, detail: impl FnOnce() -> String) -> bool {
        if !ok {
            self.violate(key, detail());
        }
        ok
    }
    /// |got-want| <= atol + rtol*|want|; NaN never passes.
    pub fn close(
        &mut self,
        key: &str,
        got: f64,
        want: f64,
        rtol: f64,
        atol: f64,
        detail: impl FnOnce() -> String,
    ) -> bool {
        let tol = atol + rtol * want.abs();
        let dev = (got - want).abs();
        let ok = dev <= tol || (got == want);
        if ok && tol > 0.0 {
            let r = dev / tol;
            let e = self.maxdev.entry(key.to_string()).or_insert(0.0);
            if r > *e {
                *e = r;
            }
        }
        if !ok {
            let d = detail();
            self.violate(key, format!("got {got:e} want {want:e} tol {tol:e}: {d}"));
        }
        ok
    }
    /// Runs an operation of the real code; a panic is a violation under
    /// `key` and yields None.
    pub fn guard<T>(
        &mut self,
        key: &str,
        detail: impl FnOnce() -> String,
        f: impl FnOnce() -> T,
    ) -> Option<T> {
        match Self::attempt(f) {
            Ok(v) => Some(v),
            Err(p) => {
                self.violate(key, format!("panic [{p}]: {}", detail()));
                None
            }
        }
    }
    /// Runs an operation of the real code, returning the panic text if any.
    pub fn attempt<T>(f: impl FnOnce() -> T) -> std::result::Result<T, String> {
        OPS.fetch_add(1, Ordering::Relaxed);
        let r: std::result::Result<T, Box<dyn Any + Send>> = catch_unwind(AssertUnwindSafe(f));
        OPS.fetch_add(1, Ordering::Relaxed);
        r.map_err(|_| LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).clone())
    }

    pub fn violations(&self) -> usize {
        self.viol.len()
    }

    fn known(&self) -> BTreeMap<String, String> {
        let mut out = BTreeMap::new();
        let p = root().join("known_findings.json");
        if let Ok(s) = std::fs::read_to_string(p)
            && let Ok(v) = serde_json::from_str::<Value>(&s)
            && let Some(a) = v["known"].as_array()
        {
            for k in a {
                if k["property"] == self.id {
                    out.insert(
                        k["key"].as_str().unwrap_or("").to_string(),
                        k["what"].as_str().unwrap_or("").to_string(),
                    );
                }
            }
        }
        out
    }

    fn write_evidence(&self, known_seen: &BTreeSet<String>) {
        let unlisted = self.viol.keys().filter(|k| !known_seen.contains(*k)).count();
        let v = json!({
            "property": self.id,
            "tier": self.tier,
            "seed": self.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": self.evals,
                "distinct_nontrivial": self.distinct.len(),
                "rule": self.rule,
                "samples": self.samples,
                "exhaustive": self.exhaustive,
                "observed": self.counters,
                "worst_deviation_over_tolerance": self.maxdev,
                "known_findings_observed": known_seen,
            },
            "assumptions": self.assumptions,
            "wall_s": self.elapsed(),
            "violations": unlisted,
        });
        let p = root().join("evidence").join(format!("{}.json", self.id));
        let _ = std::fs::create_dir_all(p.parent().unwrap());
        if let Err(e) = std::fs::write(&p, serde_json::to_string_pretty(&v).unwrap() + "\n") {
            eprintln!("INCONCLUSIVE cannot write evidence: {e}");
            std::process::exit(3);
        }
    }

    pub fn finish(self) -> ! {
        let known = self.known();
        let mut seen = BTreeSet::new();
        let mut bad: Vec<Value> = vec![];
        for (k, (n, d)) in &self.viol {
            if let Some(w) = known.get(k) {
                seen.insert(k.clone());
                println!("KNOWN-FINDING: property={} {w} [{k}]", self.id);
            } else {
                bad.push(json!({"key": k, "count": n, "examples": d}));
                println!("violated[{k}] x{n}: {}", d.first().cloned().unwrap_or_default());
            }
        }
        self.write_evidence(&seen);
        println!(
            "{} {} seed={} evaluations={} distinct={} wall={:.1}s",
            self.id,
            self.tier,
            self.seed,
            self.evals,
            self.distinct.len(),
            self.elapsed()
        );
        if std::env::var("FQMON_VERBOSE").is_ok() {
            println!("{:#?}\n{:#?}", self.counters, self.maxdev);
        }
        let _ = std::io::stdout().flush();
        if !bad.is_empty() {
            let p = write_replay(&self.id, &self.tier, self.seed, &Value::Array(bad));
            println!("VIOLATION property={} replay={}", self.id, p.display());
            let _ = std::io::stdout().flush();
            std::process::exit(1);
        }
        let mut starved = false;
        for (n, min) in &self.needs {
            let got = self.counters.get(n).copied().unwrap_or(0);
            if got < *min {
                eprintln!("INCONCLUSIVE property={} observed only {got} of {n} (need {min})", self.id);
                starved = true;
            }
        }
        if self.evals == 0 || self.distinct.is_empty() {
            eprintln!("INCONCLUSIVE property={} nothing observed", self.id);
            starved = true;
        }
        std::process::exit(if starved { 3 } else { 0 });
    }
}

/// Workload multiplier of the monitors whose cases are cheap.
fn boost(id: &str) -> usize {
    match id {
        "C24" => 12,
        "C04" | "C06" | "C17" | "C21" | "C22" => 8,
        "C16" | "C18" | "C20" | "C28" | "C31" => 6,
        "C10" | "C23" => 5,
        "C05" | "C07" | "C29" => 4,
        "C09" | "C13" | "C14" | "C15" | "C35" => 3,
        "C03" | "C12" | "C19" => 2,
        _ => 1,
    }
}
