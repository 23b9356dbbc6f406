//! Shared machinery of the bounded checks: seeded generator, counters, violation reports.
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.u64() % n as u64) as usize }
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.u64() as u8).collect()
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

pub struct Violation {
    pub key: String,
    pub what: String,
    pub case: String,
}

pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub rng: Rng,
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub known: Vec<String>,
    pub known_hit: Vec<(String, String)>,
    pub violation: Option<Violation>,
    pub rules: Vec<String>,
    pub start: Instant,
    pub budget: Duration,
    pub exhaustive_parts: Vec<String>,
    pub case_counter: u64,
}

fn hash64(s: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

/// The call being watched: when it started, its key, and what describes its input.
pub struct CasePtr(pub &'static dyn Fn() -> String);
// SAFETY: only called while the watched thread is stuck in code that does not touch what `case` reads mutably
unsafe impl Send for CasePtr {}
pub static WATCH: std::sync::Mutex<Option<(Instant, String, CasePtr)>> = std::sync::Mutex::new(None);
pub const STUCK_AFTER: Duration = Duration::from_secs(40);

thread_local! {
    pub static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

impl Ctx {
    pub fn new(prop: &str, seed: u64, thorough: bool, budget: Duration, known: Vec<String>) -> Self {
        std::panic::set_hook(Box::new(|info| {
            LAST_PANIC.with(|p| *p.borrow_mut() = info.to_string());
        }));
        Ctx {
            prop: prop.into(),
            seed,
            thorough,
            rng: Rng::new(seed),
            evaluations: 0,
            distinct: HashSet::new(),
            samples: vec![],
            known,
            known_hit: vec![],
            violation: None,
            rules: vec![],
            start: Instant::now(),
            budget,
            exhaustive_parts: vec![],
            case_counter: 0,
        }
    }
    pub fn rule(&mut self, s: &str) {
        self.rules.push(s.to_string());
    }
    pub fn done(&self) -> bool {
        self.violation.is_some() || self.start.elapsed() >= self.budget
    }
    /// Fraction-of-budget check, so that several generators of one property share the time.
    pub fn past(&self, frac: f64) -> bool {
        self.violation.is_some() || self.start.elapsed().as_secs_f64() >= self.budget.as_secs_f64() * frac
    }
    /// Counts one evaluated case. `desc` identifies it; trivial cases are not counted as distinct.
    pub fn case(&mut self, desc: &str, nontrivial: bool) {
        self.evaluations += 1;
        if nontrivial {
            let h = hash64(desc.as_bytes());
            let new = self.distinct.insert(h);
            if new && self.samples.len() < 6 && (self.distinct.len() % 37 == 1 || self.samples.is_empty()) {
                let mut d: String = desc.chars().take(400).collect();
                if desc.chars().count() > 400 { d.push('…'); }
                self.samples.push(d);
            }
        }
    }
    pub fn fail(&mut self, key: &str, case: String, what: String) {
        if let Some(k) = self.known.iter().find(|k| k.as_str() == key) {
            if !self.known_hit.iter().any(|(x, _)| x == k) {
                self.known_hit.push((k.clone(), format!("{what} [{case}]")));
            }
            return;
        }
        if self.violation.is_none() {
            self.violation = Some(Violation { key: key.into(), what, case });
        }
    }
    pub fn check(&mut self, ok: bool, key: &str, case: &dyn Fn() -> String, what: &dyn Fn() -> String) -> bool {
        if !ok {
            self.fail(key, case(), what());
        }
        ok
    }
    /// Runs code of the repository; a panic is a violation of the property under `key`.
    pub fn guard<T>(&mut self, key: &str, case: &dyn Fn() -> String, f: impl FnOnce() -> T) -> Option<T> {
        // SAFETY: the entry is removed before `case` goes out of scope
        let p: &'static dyn Fn() -> String = unsafe { std::mem::transmute(case) };
        *WATCH.lock().unwrap() = Some((Instant::now(), key.to_string(), CasePtr(p)));
        let r = catch_unwind(AssertUnwindSafe(f));
        *WATCH.lock().unwrap() = None;
        match r {
            Ok(v) => Some(v),
            Err(_) => {
                let p = LAST_PANIC.with(|p| p.borrow().clone());
                self.fail(key, case(), format!("panicked: {p}"));
                None
            }
        }
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b { s.push_str(&format!("{x:02x}")); }
    s
}
/// Readable form of a byte string: text when printable, hex otherwise.
pub fn show(b: &[u8]) -> String {
    if b.iter().all(|c| (0x20..0x7f).contains(c)) { format!("{:?}", String::from_utf8_lossy(b)) } else { format!("0x{}", hex(b)) }
}
