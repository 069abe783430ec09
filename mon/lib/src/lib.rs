//! Common machinery of the runtime monitors: seeded workloads, panic capture, event and state
//! counting, three-valued verdicts (held / violated / inconclusive) and evidence files.
//!
//! A monitor is a set of *streams*. A stream is a family of cases; case `i` of stream `s` draws all
//! its choices from a generator seeded by (VERIF_SEED, property, s, i), so that a case replays alone.

pub use rand;
use rand::{Rng, SeedableRng};
pub use rand_chacha::ChaCha8Rng;
pub use serde_json;
use std::{
    cell::RefCell,
    collections::{BTreeMap, HashSet},
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering},
        Mutex,
    },
    time::{Duration, Instant},
};

pub type R = ChaCha8Rng;

#[derive(Clone, Debug)]
pub struct Violation {
    pub sig: String,
    pub detail: String,
    pub stream: String,
    pub index: u64,
}

/// What one case observed.
pub struct Case {
    pub stream: String,
    pub index: u64,
    violations: Vec<(String, String)>,
    events: BTreeMap<String, u64>,
    states: Vec<u64>,
    evaluations: u64,
    sample: Option<String>,
    log: Vec<String>,
    keep_log: bool,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = RefCell::new(None);
    static GUARDED: RefCell<u32> = RefCell::new(0);
}

pub fn fnv(bytes: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in bytes {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    // final avalanche
    h ^= h >> 32;
    h = h.wrapping_mul(0xd6e8feb86659fd93);
    h ^ (h >> 32)
}

/// Marker type for a panic of the code under test.
#[derive(Clone, Debug)]
pub struct Panicked(pub String);

/// Runs code under test; a panic inside becomes an `Err` with message and (line-free) location.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, Panicked> {
    GUARDED.with(|g| *g.borrow_mut() += 1);
    let r = catch_unwind(AssertUnwindSafe(f));
    GUARDED.with(|g| *g.borrow_mut() -= 1);
    r.map_err(|_| Panicked(LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())))
}

/// Strip everything that varies between runs or under refactoring from a panic message.
fn panic_sig(p: &Panicked) -> String {
    let s = &p.0;
    // numbers out
    let mut out = String::new();
    let mut prev_digit = false;
    for c in s.chars() {
        if c.is_ascii_digit() {
            if !prev_digit {
                out.push('N');
            }
            prev_digit = true;
        } else {
            out.push(c);
            prev_digit = false;
        }
    }
    out.truncate(160);
    out
}

impl Case {
    pub fn violate(&mut self, sig: impl Into<String>, detail: impl Into<String>) {
        let sig = sig.into().replace('\n', " ");
        let mut detail = detail.into();
        if self.keep_log && !self.log.is_empty() {
            detail.push_str("\n--- history ---\n");
            detail.push_str(&self.log.join("\n"));
        }
        if self.violations.len() < 20 {
            self.violations.push((sig, detail));
        }
    }
    pub fn check(&mut self, ok: bool, sig: &str, detail: impl FnOnce() -> String) -> bool {
        if !ok {
            let d = detail();
            self.violate(sig, d);
        }
        ok
    }
    pub fn eq<T: PartialEq + std::fmt::Debug>(&mut self, got: T, want: T, sig: &str, ctx: impl FnOnce() -> String) -> bool {
        if got != want {
            let d = format!("got      {:?}\nexpected {:?}\n{}", got, want, ctx());
            self.violate(sig, d);
            false
        } else {
            true
        }
    }
    /// Runs code under test which must not panic.
    pub fn total<T>(&mut self, sig: &str, ctx: impl FnOnce() -> String, f: impl FnOnce() -> T) -> Option<T> {
        match guard(f) {
            Ok(v) => Some(v),
            Err(p) => {
                let s = format!("{}: panic {}", sig, panic_sig(&p));
                let d = format!("{}\n{}", p.0, ctx());
                self.violate(s, d);
                None
            }
        }
    }
    pub fn event(&mut self, name: &str) {
        *self.events.entry(name.to_string()).or_insert(0) += 1;
    }
    pub fn events(&mut self, name: &str, n: u64) {
        *self.events.entry(name.to_string()).or_insert(0) += n;
    }
    /// A distinct, non-trivial state or input was observed.
    pub fn state(&mut self, key: &[u8]) {
        self.states.push(fnv(key));
    }
    pub fn state_dbg<T: std::fmt::Debug>(&mut self, key: &T) {
        self.state(format!("{:?}", key).as_bytes());
    }
    pub fn eval(&mut self, n: u64) {
        self.evaluations += n;
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.index < 3 && self.sample.is_none() {
            self.sample = Some(f());
        }
    }
    /// Append to the event history of this case (reported with a violation).
    pub fn log(&mut self, f: impl FnOnce() -> String) {
        if self.keep_log {
            self.log.push(f());
        }
    }
    pub fn failed(&self) -> bool {
        !self.violations.is_empty()
    }
}

struct Shared {
    events: BTreeMap<String, u64>,
    states: HashSet<u64>,
    evaluations: u64,
    samples: Vec<String>,
    violations: Vec<Violation>,
    harness_errors: Vec<String>,
}

pub struct Mon {
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    pub thorough: bool,
    out: String,
    only: Option<(String, u64)>,
    threads: usize,
    deadline: Instant,
    sh: Mutex<Shared>,
    truncated: AtomicBool,
    required: Mutex<Vec<(String, u64)>>,
    rule: Mutex<Vec<String>>,
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info
            .location()
            .map(|l| {
                let f = l.file();
                let f = match f.find("/work/repo/") {
                    Some(i) => &f[i + 11..],
                    None => f.rsplit('/').next().unwrap_or(f),
                };
                f.to_string()
            })
            .unwrap_or_default();
        let guarded = GUARDED.with(|g| *g.borrow() > 0);
        if !guarded {
            eprintln!("unguarded panic: {} at {:?}", msg, info.location());
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("[{}] {}", loc, msg)));
    }));
}

impl Mon {
    /// argv: PROP OUT.json ; VERIF_SEED and VERIF_TIER from the environment;
    /// MON_ONLY=stream:index replays one case.
    pub fn from_env() -> Mon {
        let args: Vec<String> = std::env::args().collect();
        let prop = args.get(1).cloned().unwrap_or_default();
        let out = args.get(2).cloned().unwrap_or_else(|| "/dev/stdout".into());
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
        let only = std::env::var("MON_ONLY").ok().and_then(|s| {
            let (a, b) = s.rsplit_once(':')?;
            Some((a.to_string(), b.parse().ok()?))
        });
        let budget: u64 = std::env::var("MON_BUDGET_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 3000 } else { 300 });
        let threads = std::env::var("MON_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4));
        install_hook();
        Mon {
            prop,
            thorough: tier == "thorough",
            tier,
            seed,
            out,
            only,
            threads,
            deadline: Instant::now() + Duration::from_secs(budget),
            sh: Mutex::new(Shared {
                events: Default::default(),
                states: Default::default(),
                evaluations: 0,
                samples: vec![],
                violations: vec![],
                harness_errors: vec![],
            }),
            truncated: AtomicBool::new(false),
            required: Mutex::new(vec![]),
            rule: Mutex::new(vec![]),
        }
    }

    /// Describes how cases are made and what counts as a distinct, non-trivial state.
    pub fn rule(&self, s: &str) {
        self.rule.lock().unwrap().push(s.to_string());
    }

    /// The run is inconclusive unless event `name` was seen at least `n` times.
    pub fn require(&self, name: &str, n: u64) {
        if self.only.is_none() {
            self.required.lock().unwrap().push((name.to_string(), n));
        }
    }

    pub fn case_rng(&self, stream: &str, index: u64) -> R {
        let mut s = [0u8; 32];
        s[..8].copy_from_slice(&self.seed.to_le_bytes());
        s[8..16].copy_from_slice(&fnv(self.prop.as_bytes()).to_le_bytes());
        s[16..24].copy_from_slice(&fnv(stream.as_bytes()).to_le_bytes());
        s[24..].copy_from_slice(&index.to_le_bytes());
        R::from_seed(s)
    }

    /// Runs `n` (quick) or `n * k` (thorough) cases of a stream on all cores.
    pub fn stream(&self, stream: &str, n: u64, k: u64, f: impl Fn(&mut Case, &mut R) + Sync) {
        let total = if self.thorough { n * k } else { n };
        let t0 = Instant::now();
        let next = AtomicU64::new(0);
        let run_one = |i: u64| {
            let mut case = Case {
                stream: stream.to_string(),
                index: i,
                violations: vec![],
                events: Default::default(),
                states: vec![],
                evaluations: 0,
                sample: None,
                log: vec![],
                keep_log: true,
            };
            let mut rng = self.case_rng(stream, i);
            let r = catch_unwind(AssertUnwindSafe(|| f(&mut case, &mut rng)));
            let herr = r.is_err().then(|| LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default());
            (case, herr)
        };
        let merge = |(case, herr): (Case, Option<String>)| {
            let mut sh = self.sh.lock().unwrap();
            for (k, v) in case.events {
                *sh.events.entry(k).or_insert(0) += v;
            }
            for s in case.states {
                sh.states.insert(s);
            }
            sh.evaluations += case.evaluations.max(1);
            if let Some(s) = case.sample {
                if sh.samples.len() < 12 {
                    sh.samples.push(format!("[{}:{}] {}", case.stream, case.index, s));
                }
            }
            for (sig, detail) in case.violations {
                let same = sh.violations.iter().filter(|v| v.sig == sig).count();
                if same < 3 && sh.violations.len() < 200 {
                    sh.violations.push(Violation { sig, detail, stream: case.stream.clone(), index: case.index });
                }
            }
            if let Some(e) = herr {
                if sh.harness_errors.len() < 20 {
                    sh.harness_errors.push(format!("{}:{} {}", case.stream, case.index, e));
                }
            }
        };
        if let Some((s, i)) = &self.only {
            if s == stream {
                merge(run_one(*i));
            }
            return;
        }
        let threads = self.threads.min(total.max(1) as usize);
        std::thread::scope(|sc| {
            for _ in 0..threads {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, || loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= total {
                            break;
                        }
                        if Instant::now() > self.deadline {
                            self.truncated.store(true, Ordering::Relaxed);
                            break;
                        }
                        merge(run_one(i));
                    })
                    .unwrap();
            }
        });
        if std::env::var("MON_VERBOSE").is_ok() {
            eprintln!("stream {stream}: {total} cases in {:.1}s", t0.elapsed().as_secs_f64());
        }
    }

    pub fn finish(self) -> ! {
        let sh = self.sh.into_inner().unwrap();
        let required = self.required.into_inner().unwrap();
        let mut inconclusive: Vec<String> = vec![];
        for (name, n) in required {
            let got = sh.events.get(&name).copied().unwrap_or(0);
            if got < n {
                inconclusive.push(format!("event '{}' seen {} times, at least {} needed", name, got, n));
            }
        }
        for e in &sh.harness_errors {
            inconclusive.push(format!("harness error: {e}"));
        }
        let v: Vec<_> = sh
            .violations
            .iter()
            .map(|v| serde_json::json!({"sig": v.sig, "detail": v.detail, "stream": v.stream, "index": v.index}))
            .collect();
        let out = serde_json::json!({
            "property": self.prop, "tier": self.tier, "seed": self.seed,
            "evaluations": sh.evaluations,
            "distinct_nontrivial": sh.states.len(),
            "rule": self.rule.into_inner().unwrap().join(" "),
            "events": sh.events,
            "samples": sh.samples,
            "violations": v,
            "inconclusive": inconclusive,
            "truncated_by_time_budget": self.truncated.load(Ordering::Relaxed),
        });
        std::fs::write(&self.out, serde_json::to_string_pretty(&out).unwrap()).expect("write result");
        std::process::exit(0)
    }
}

// ---------------------------------------------------------------------------------------------
// generators

/// Number biased to boundaries: 0, 1, powers of two +-1, max, and uniform bit lengths.
pub fn weird_u64(r: &mut R) -> u64 {
    match r.gen_range(0..6) {
        0 => r.gen_range(0..4),
        1 => {
            let b = r.gen_range(0..64);
            (1u64 << b).wrapping_add(r.gen_range(0..3)).wrapping_sub(1)
        }
        2 => u64::MAX - r.gen_range(0..3),
        3 => r.gen_range(0..100_000),
        _ => {
            let b = r.gen_range(1..=64);
            r.gen::<u64>() >> (64 - b)
        }
    }
}
pub fn weird_u32(r: &mut R) -> u32 {
    match r.gen_range(0..6) {
        0 => r.gen_range(0..4),
        1 => {
            let b = r.gen_range(0..32);
            (1u32 << b).wrapping_add(r.gen_range(0..3)).wrapping_sub(1)
        }
        2 => u32::MAX - r.gen_range(0..3),
        _ => {
            let b = r.gen_range(1..=32);
            r.gen::<u32>() >> (32 - b)
        }
    }
}
pub fn weird_u128(r: &mut R) -> u128 {
    match r.gen_range(0..6) {
        0 => r.gen_range(0..4),
        1 => {
            let b = r.gen_range(0..128);
            (1u128 << b).wrapping_add(r.gen_range(0..3)).wrapping_sub(1)
        }
        2 => u128::MAX - r.gen_range(0..3),
        3 => r.gen_range(0..1_000_000_000_000),
        _ => {
            let b = r.gen_range(1..=128);
            r.gen::<u128>() >> (128 - b)
        }
    }
}
pub fn log_uniform_u128(r: &mut R, max_bits: u32) -> u128 {
    let b = r.gen_range(1..=max_bits);
    r.gen::<u128>() >> (128 - b)
}
pub fn bytes(r: &mut R, n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    r.fill(&mut v[..]);
    v
}
pub fn pick<'a, T>(r: &mut R, v: &'a [T]) -> &'a T {
    &v[r.gen_range(0..v.len())]
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
