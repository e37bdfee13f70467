//! Case bookkeeping: every case has a unique textual key, so that a failing one can be replayed alone.
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.next() as u8).collect()
    }
}

pub struct Failure {
    pub group: String,
    pub key: String,
    pub class: String,
    pub detail: String,
}

pub struct Ctx {
    pub thorough: bool,
    pub seed: u64,
    pub only: Option<String>,
    pub evaluations: u64,
    pub nontrivial: HashSet<u64>,
    pub samples: Vec<String>,
    pub failures: Vec<Failure>,
    pub findings: Vec<String>,
    pub found: Vec<Failure>,
    pub groups: Vec<(String, u64)>,
    pub notes: Vec<String>,
    pub unprivileged: bool,
    /// Factors by which case counts grow in the quick and in the thorough tier.
    pub scale: (u64, u64),
    sample_at: u64,
    nfail: u64,
}

thread_local! { static LAST_PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()); }

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let s = format!("{}", i);
        LAST_PANIC.with(|l| *l.borrow_mut() = s);
    }));
}

/// Run `f`, turning a panic into an error.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| format!("panic: {}", LAST_PANIC.with(|l| l.borrow().clone())))
}

impl Ctx {
    pub fn new(thorough: bool, seed: u64, only: Option<String>, findings: Vec<String>) -> Ctx {
        Ctx {
            thorough, seed, only, evaluations: 0, nontrivial: HashSet::new(), samples: vec![], failures: vec![],
            findings, found: vec![], groups: vec![], notes: vec![], unprivileged: false, scale: (1, 12), sample_at: 1, nfail: 0,
        }
    }
    pub fn rng(&self, salt: u64) -> Rng {
        Rng::new(self.seed.wrapping_mul(1_000_003).wrapping_add(salt))
    }
    /// Scale a case count by tier.
    pub fn n(&self, quick: u64) -> u64 {
        quick * if self.thorough { self.scale.1 } else { self.scale.0 }
    }
    /// Evaluate one case. `key` identifies it (and is what a human reads); `trivial` cases are not
    /// counted as non-trivial; `class` names the kind of failure, for the known-findings file.
    pub fn case(&mut self, group: &str, key: impl FnOnce() -> String, trivial: bool, f: impl FnOnce() -> Result<(), String>) {
        self.case_c(group, key, trivial, "", f)
    }
    pub fn case_c(&mut self, group: &str, key: impl FnOnce() -> String, trivial: bool, class: &str, f: impl FnOnce() -> Result<(), String>) {
        if self.nfail > 200 { return; }
        let key = format!("{}: {}", group, key());
        if let Some(o) = &self.only {
            if *o != key { return; }
        }
        self.evaluations += 1;
        match self.groups.iter_mut().find(|g| g.0 == group) {
            Some(g) => g.1 += 1,
            None => self.groups.push((group.to_string(), 1)),
        }
        if !trivial {
            let mut h = DefaultHasher::new();
            key.hash(&mut h);
            self.nontrivial.insert(h.finish());
        }
        if self.evaluations >= self.sample_at && self.samples.len() < 24 {
            let mut s = key.clone();
            if s.len() > 300 { let mut e = 300; while !s.is_char_boundary(e) { e -= 1 } s.truncate(e); s.push_str("..."); }
            self.samples.push(s);
            self.sample_at = self.sample_at * 2 + 1;
        }
        let r = guard(f).and_then(|r| r);
        if let Err(detail) = r {
            self.nfail += 1;
            let fail = Failure { group: group.to_string(), key, class: class.to_string(), detail };
            if !class.is_empty() && self.findings.iter().any(|f| f == class) {
                if self.found.len() < 50 { self.found.push(fail); }
                self.nfail -= 1;
            } else if self.failures.len() < 20 {
                self.failures.push(fail);
            }
        }
    }
}

#[macro_export]
macro_rules! check {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}
#[macro_export]
macro_rules! check_eq {
    ($a:expr, $b:expr, $($r:tt)*) => {{
        match (&$a, &$b) { (a, b) => if *a != *b { return Err(format!("{}: got {:?}, expected {:?}", format!($($r)*), a, b)); } }
    }};
}

/// All sequences of length `len` over 0..n, in row-major order.
pub fn tuples(len: usize, n: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    for _ in 0..len {
        let mut next = vec![];
        for t in &out {
            for i in 0..n {
                let mut t2: Vec<usize> = t.clone();
                t2.push(i);
                next.push(t2);
            }
        }
        out = next;
    }
    out
}

/// Row-major enumeration of the box lo..hi.
pub fn positions(lo: &[u64], hi: &[u64]) -> Vec<Vec<u64>> {
    let mut out = vec![vec![]];
    for d in 0..lo.len() {
        let mut next = vec![];
        for t in &out {
            let mut i = lo[d];
            while i < hi[d] {
                let mut t2: Vec<u64> = t.clone();
                t2.push(i);
                next.push(t2);
                i += 1;
            }
        }
        out = next;
    }
    out
}
