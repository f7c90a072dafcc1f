//! Shared plumbing of every check: seeded randomness, event counting, three-valued verdicts,
//! known-finding matching, replay files and evidence files.
//!
//! Exit codes: 0 = held on everything observed, 1 = violation (with a VIOLATION line),
//! 2 = the run itself failed or observed nothing (no verdict).

use std::{
    alloc::{GlobalAlloc, Layout, System},
    any::Any,
    cell::RefCell,
    collections::{BTreeMap, HashSet},
    hash::{Hash, Hasher},
    panic::{catch_unwind, AssertUnwindSafe},
    path::PathBuf,
    sync::{
        atomic::{AtomicBool, AtomicUsize, Ordering},
        Mutex,
    },
};

pub use serde_json::{json, Value};

// ---------------------------------------------------------------------------------------------
// Randomness

/// splitmix64-seeded xoshiro256**: the only source of randomness of the workloads.
#[derive(Clone, Debug)]
pub struct Rng {
    s: [u64; 4],
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        Self {
            s: [
                splitmix(&mut x),
                splitmix(&mut x),
                splitmix(&mut x),
                splitmix(&mut x),
            ],
        }
    }
    /// An independent stream identified by `label`.
    pub fn fork(&mut self, label: &str) -> Rng {
        Rng::new(self.u64() ^ hash_of(&label))
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    pub fn u32(&mut self) -> u32 {
        (self.u64() >> 32) as u32
    }
    pub fn u8(&mut self) -> u8 {
        (self.u64() >> 56) as u8
    }
    /// Uniform in `0..n` (n > 0).
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.u64() as u128 * n as u128) >> 64) as u64
    }
    pub fn index(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// Uniform in `lo..=hi`.
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        if lo == 0 && hi == u64::MAX {
            return self.u64();
        }
        lo + self.below(hi - lo + 1)
    }
    pub fn usize_in(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as u64, hi as u64) as usize
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn bool(&mut self) -> bool {
        self.u64() >> 63 == 1
    }
    pub fn fill(&mut self, out: &mut [u8]) {
        for chunk in out.chunks_mut(8) {
            let v = self.u64().to_le_bytes();
            chunk.copy_from_slice(&v[..chunk.len()]);
        }
    }
    pub fn bytes(&mut self, len: usize) -> Vec<u8> {
        let mut v = vec![0; len];
        self.fill(&mut v);
        v
    }
    pub fn array<const N: usize>(&mut self) -> [u8; N] {
        let mut v = [0; N];
        self.fill(&mut v);
        v
    }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        &items[self.index(items.len())]
    }
    pub fn shuffle<T>(&mut self, items: &mut [T]) {
        for i in (1..items.len()).rev() {
            let j = self.index(i + 1);
            items.swap(i, j);
        }
    }
    /// A u64 biased towards boundaries (powers of two and their neighbours, small and huge values).
    pub fn edgy_u64(&mut self) -> u64 {
        match self.below(6) {
            0 => self.below(16),
            1 => u64::MAX - self.below(16),
            2 | 3 => {
                let p = 1u64 << self.below(64);
                p.wrapping_add(self.below(5)).wrapping_sub(2)
            }
            4 => self.u64() >> self.below(64),
            _ => self.u64(),
        }
    }
}

pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    // FNV-1a, stable across runs
    struct F(u64);
    impl Hasher for F {
        fn finish(&self) -> u64 {
            let mut x = self.0;
            splitmix(&mut x)
        }
        fn write(&mut self, b: &[u8]) {
            for x in b {
                self.0 ^= *x as u64;
                self.0 = self.0.wrapping_mul(0x100_0000_01b3);
            }
        }
    }
    let mut f = F(0xcbf2_9ce4_8422_2325);
    t.hash(&mut f);
    f.finish()
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push(char::from_digit((x >> 4) as u32, 16).unwrap_or('?'));
        s.push(char::from_digit((x & 15) as u32, 16).unwrap_or('?'));
    }
    s
}

pub fn unhex(s: &str) -> Vec<u8> {
    let s = s.strip_prefix("0x").unwrap_or(s);
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(0))
        .collect()
}

// ---------------------------------------------------------------------------------------------
// Allocation monitor

/// A global allocator that keeps, while a measurement runs, the number of live bytes, the
/// high-water mark and the largest single request.
pub struct MonitoredAlloc;

static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static LARGEST: AtomicUsize = AtomicUsize::new(0);
static MEASURING: AtomicBool = AtomicBool::new(false);

unsafe impl GlobalAlloc for MonitoredAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        forget(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        forget(l.size());
        note(new);
        System.realloc(p, l, new)
    }
}

fn forget(n: usize) {
    if MEASURING.load(Ordering::Relaxed) {
        LIVE.fetch_sub(n, Ordering::Relaxed);
    }
}

fn note(n: usize) {
    if !MEASURING.load(Ordering::Relaxed) {
        return;
    }
    let live = LIVE.fetch_add(n, Ordering::Relaxed) + n;
    PEAK.fetch_max(live, Ordering::Relaxed);
    LARGEST.fetch_max(n, Ordering::Relaxed);
}

/// Runs `f` and returns its result, the peak number of extra live bytes and the largest single
/// allocation while it ran (only meaningful single-threaded and with [`MonitoredAlloc`] installed).
pub fn measure_alloc<R>(f: impl FnOnce() -> R) -> (R, usize, usize) {
    // live bytes are counted relative to a large base, so that freeing older blocks cannot wrap
    let base = usize::MAX / 2;
    LIVE.store(base, Ordering::Relaxed);
    PEAK.store(base, Ordering::Relaxed);
    LARGEST.store(0, Ordering::Relaxed);
    MEASURING.store(true, Ordering::Relaxed);
    let r = f();
    MEASURING.store(false, Ordering::Relaxed);
    (
        r,
        PEAK.load(Ordering::Relaxed).saturating_sub(base),
        LARGEST.load(Ordering::Relaxed),
    )
}

// ---------------------------------------------------------------------------------------------
// Panic capture

thread_local! {
    static QUIET: RefCell<u32> = const { RefCell::new(0) };
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}
static BACKGROUND_PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());

/// Installs a hook that records panics (message and location) instead of printing them while a
/// guarded section runs, and collects panics of background threads.
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let text = match info.location() {
            Some(l) => format!("{msg} at {}:{}", l.file(), l.line()),
            None => msg,
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(text.clone()));
        let quiet = QUIET.with(|q| *q.borrow() > 0);
        if !quiet {
            if let Ok(mut b) = BACKGROUND_PANICS.lock() {
                b.push(text.clone());
            }
            if std::env::var_os("VERIF_VERBOSE").is_some() {
                eprintln!("panic: {text}\n{}", std::backtrace::Backtrace::force_capture());
            }
        }
    }));
}

/// Panics of threads that were not inside [`guard`], since the last call.
pub fn take_background_panics() -> Vec<String> {
    BACKGROUND_PANICS
        .lock()
        .map(|mut b| std::mem::take(&mut *b))
        .unwrap_or_default()
}

/// Runs code under test; a panic becomes `Err(message at location)`.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    QUIET.with(|q| *q.borrow_mut() += 1);
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() -= 1);
    r.map_err(|e: Box<dyn Any + Send>| {
        LAST_PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| {
                e.downcast_ref::<String>()
                    .cloned()
                    .unwrap_or_else(|| "panic".into())
            })
    })
}

// ---------------------------------------------------------------------------------------------
// Check context

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Ctx {
    pub id: String,
    pub tier: Tier,
    pub seed: u64,
    pub rng: Rng,
    level: &'static str,
    rule: String,
    assumptions: Vec<String>,
    evaluations: u64,
    distinct: HashSet<u64>,
    events: BTreeMap<String, u64>,
    samples: Vec<Value>,
    sample_kinds: BTreeMap<String, u32>,
    violations: Vec<(String, String)>,
    known_hits: BTreeMap<String, u64>,
    known: Vec<Known>,
    inconclusive: Vec<String>,
    exhaustive: bool,
    start: f64,
    max_violations: usize,
}

struct Known {
    property: String,
    signature: String,
    text: String,
}

fn verif_root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()))
}

/// Seconds since boot; unlike the clocks this is never simulated.
fn uptime() -> f64 {
    std::fs::read_to_string("/proc/uptime").ok().and_then(|s| s.split(' ').next().and_then(|w| w.parse().ok())).unwrap_or(0.0)
}
impl Ctx {
    pub fn from_env(id: &str) -> Ctx {
        install_panic_hook();
        let seed = std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.trim().parse::<i128>().ok())
            .map(|v| v as u64)
            .unwrap_or(1);
        let tier = match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        };
        let known = std::fs::read_to_string(verif_root().join("known-findings.txt"))
            .unwrap_or_default()
            .lines()
            .filter_map(|l| {
                let rest = l.strip_prefix("known: property=")?;
                let (property, rest) = rest.split_once(" signature=")?;
                let (signature, text) = rest.split_once(' ')?;
                Some(Known {
                    property: property.to_string(),
                    signature: signature.to_string(),
                    text: text.to_string(),
                })
            })
            .collect();
        Ctx {
            id: id.to_string(),
            tier,
            seed,
            rng: Rng::new(seed ^ hash_of(id)),
            level: "exploration",
            rule: String::new(),
            assumptions: vec![],
            evaluations: 0,
            distinct: HashSet::new(),
            events: BTreeMap::new(),
            samples: vec![],
            sample_kinds: BTreeMap::new(),
            violations: vec![],
            known_hits: BTreeMap::new(),
            known,
            inconclusive: vec![],
            exhaustive: false,
            start: uptime(),
            max_violations: 40,
        }
    }

    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    /// Picks the workload size of the tier.
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        if self.quick() {
            quick
        } else {
            thorough
        }
    }
    pub fn rule(&mut self, r: &str) {
        self.rule = r.to_string();
    }
    pub fn level(&mut self, l: &'static str) {
        self.level = l;
    }
    pub fn assume(&mut self, a: &str) {
        self.assumptions.push(a.to_string());
    }
    pub fn exhaustive(&mut self) {
        self.exhaustive = true;
    }

    /// Counts one evaluated case; `key` identifies it (and makes it count as distinct).
    pub fn eval<K: Hash + ?Sized>(&mut self, kind: &str, key: &K) {
        self.evaluations += 1;
        *self.events.entry(kind.to_string()).or_insert(0) += 1;
        if self.distinct.len() < 4_000_000 {
            let h = hash_of(key) ^ hash_of(kind);
            self.distinct.insert(h);
        }
    }
    /// Counts an evaluated case that is trivial by the rule (not counted as distinct).
    pub fn eval_trivial(&mut self, kind: &str) {
        self.evaluations += 1;
        *self.events.entry(kind.to_string()).or_insert(0) += 1;
    }
    /// Counts many evaluated cases measured elsewhere (e.g. in worker threads).
    pub fn eval_bulk(&mut self, kind: &str, n: u64) {
        self.evaluations += n;
        *self.events.entry(kind.to_string()).or_insert(0) += n;
    }
    /// Counts an observed event that is not itself a case.
    pub fn event(&mut self, kind: &str) {
        *self.events.entry(format!("event:{kind}")).or_insert(0) += 1;
    }
    pub fn events_of(&self, kind: &str) -> u64 {
        self.events.get(kind).copied().unwrap_or(0)
    }
    pub fn event_count(&self, kind: &str) -> u64 {
        self.events
            .get(&format!("event:{kind}"))
            .copied()
            .unwrap_or(0)
    }
    /// Keeps up to three written-out cases per kind.
    pub fn sample(&mut self, kind: &str, v: impl FnOnce() -> Value) {
        let c = self.sample_kinds.entry(kind.to_string()).or_insert(0);
        if *c < 3 && self.samples.len() < 60 {
            *c += 1;
            let v = v();
            self.samples.push(json!({ "kind": kind, "case": v }));
        }
    }

    /// Records a violation. `signature` identifies the specific failing behaviour (it is what
    /// known findings are keyed on); `detail` is the witness.
    pub fn violation(&mut self, signature: &str, detail: impl Into<String>) {
        if self
            .known
            .iter()
            .any(|k| k.property == self.id && k.signature == signature)
        {
            *self.known_hits.entry(signature.to_string()).or_insert(0) += 1;
            return;
        }
        if self.violations.len() < self.max_violations {
            let mut d: String = detail.into();
            if d.len() > 4000 {
                let mut cut = 4000;
                while !d.is_char_boundary(cut) {
                    cut -= 1;
                }
                d.truncate(cut);
                d.push_str("...");
            }
            self.violations.push((signature.to_string(), d));
        }
    }
    pub fn violated(&self) -> bool {
        !self.violations.is_empty()
    }
    /// Enough witnesses collected: workloads may stop.
    pub fn saturated(&self) -> bool {
        self.violations.len() >= self.max_violations
    }
    pub fn check(&mut self, ok: bool, signature: &str, detail: impl FnOnce() -> String) -> bool {
        if !ok {
            let d = detail();
            self.violation(signature, d);
        }
        ok
    }
    pub fn check_eq<T: PartialEq + std::fmt::Debug>(
        &mut self,
        got: &T,
        want: &T,
        signature: &str,
        what: impl FnOnce() -> String,
    ) -> bool {
        if got != want {
            let d = format!("{}: got {:?}, expected {:?}", what(), got, want);
            self.violation(signature, d);
            false
        } else {
            true
        }
    }
    /// Runs code under test; a panic is recorded as a violation with `signature`.
    pub fn no_panic<R>(
        &mut self,
        signature: &str,
        what: impl FnOnce() -> String,
        f: impl FnOnce() -> R,
    ) -> Option<R> {
        match guard(f) {
            Ok(r) => Some(r),
            Err(p) => {
                let d = format!("{}: panicked: {p}", what());
                self.violation(signature, d);
                None
            }
        }
    }
    /// The run could not decide something; the verdict becomes "no answer" unless violated.
    pub fn inconclusive(&mut self, why: impl Into<String>) {
        self.inconclusive.push(why.into());
    }
    /// Requires that an expected kind of event was actually observed.
    pub fn require(&mut self, kind: &str, at_least: u64) {
        let got = self
            .events
            .get(kind)
            .copied()
            .unwrap_or(0)
            .max(self.event_count(kind));
        if got < at_least {
            self.inconclusive(format!("observed only {got} of {kind} (need {at_least})"));
        }
    }

    pub fn finish(mut self) -> ! {
        for p in take_background_panics() {
            self.violation("background-panic", format!("a background thread panicked: {p}"));
        }
        let root = verif_root();
        let evdir = root.join("evidence");
        let _ = std::fs::create_dir_all(evdir.join("replays"));
        let wall = uptime() - self.start;
        let tier = match self.tier {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        };
        let mut replay = String::new();
        if !self.violations.is_empty() {
            let path = evdir
                .join("replays")
                .join(format!("{}-{}-{}.json", self.id, tier, self.seed));
            let body = json!({
                "property": self.id,
                "tier": tier,
                "seed": self.seed,
                "replay": format!("VERIF_SEED={} VERIF_TIER={} bash {}/check.sh {}", self.seed, tier, root.display(), self.id),
                "witnesses": self.violations.iter().map(|(s, d)| json!({"signature": s, "detail": d})).collect::<Vec<_>>(),
            });
            let _ = std::fs::write(
                &path,
                serde_json::to_string_pretty(&body).unwrap_or_default(),
            );
            replay = path.display().to_string();
        }
        let mut coverage = json!({
            "evaluations": self.evaluations,
            "distinct_nontrivial": self.distinct.len(),
            "rule": self.rule,
            "samples": self.samples,
            "events": self.events,
        });
        if self.exhaustive {
            coverage["exhaustive"] = json!(true);
        }
        if !self.known_hits.is_empty() {
            coverage["known_finding_hits"] = json!(self.known_hits);
        }
        if !self.inconclusive.is_empty() {
            coverage["inconclusive"] = json!(self.inconclusive);
        }
        let evidence = json!({
            "property": self.id,
            "tier": tier,
            "seed": self.seed,
            "level": self.level,
            "coverage": coverage,
            "assumptions": self.assumptions,
            "wall_s": wall,
            "violations": self.violations.len(),
        });
        let wrote = std::fs::write(
            evdir.join(format!("{}.json", self.id)),
            serde_json::to_string_pretty(&evidence).unwrap_or_default() + "\n",
        );
        if let Err(e) = wrote {
            eprintln!("cannot write evidence: {e}");
            std::process::exit(2);
        }
        for (sig, hits) in &self.known_hits {
            let text = self
                .known
                .iter()
                .find(|k| k.property == self.id && &k.signature == sig)
                .map(|k| k.text.clone())
                .unwrap_or_default();
            println!("KNOWN-FINDING: property={} [{sig}, seen {hits}x] {text}", self.id);
        }
        println!(
            "{}: {} evaluations, {} distinct, {} violations, {:.1} s",
            self.id,
            self.evaluations,
            self.distinct.len(),
            self.violations.len(),
            wall
        );
        if !self.violations.is_empty() {
            for (s, d) in self.violations.iter().take(8) {
                let d: String = d.chars().take(600).collect();
                println!("  [{s}] {d}");
            }
            println!("VIOLATION property={} replay={}", self.id, replay);
            std::process::exit(1);
        }
        if !self.inconclusive.is_empty() {
            for w in &self.inconclusive {
                println!("INCONCLUSIVE: {w}");
            }
            std::process::exit(2);
        }
        if self.evaluations == 0 || self.distinct.is_empty() {
            println!("INCONCLUSIVE: nothing was observed");
            std::process::exit(2);
        }
        std::process::exit(0);
    }
}

/// Entry point of a check binary: `<bin> <ID>` dispatches to the function registered for the id.
pub fn run(table: &[(&str, fn(&mut Ctx))]) -> ! {
    let id = std::env::args().nth(1).unwrap_or_default();
    for (name, f) in table {
        if *name == id {
            let mut ctx = Ctx::from_env(&id);
            let r = catch_unwind(AssertUnwindSafe(|| f(&mut ctx)));
            if r.is_err() {
                let panics = take_background_panics();
                eprintln!("check {id}: the workload panicked: {}", panics.join("; "));
                // a panic raised by a line of the code under test is an observation about it; a
                // panic of the harness is an error of the check
                for p in panics.iter().filter(|p| p.contains(" at /repo/")) {
                    ctx.violation("panic-in-code-under-test", p.clone());
                }
                if ctx.violated() {
                    ctx.finish();
                }
                std::process::exit(2);
            }
            ctx.finish();
        }
    }
    eprintln!("unknown property {id}");
    std::process::exit(2);
}
