//! Runtime of the explorer: the checking allocator, control of the hash seeds, the stateless
//! depth-first chooser, and the per-worker context that executes cases and records what was covered.

use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;

// ---------------------------------------------------------------------------------------------
// Allocator: freed memory is overwritten and kept out of use for a while, growing always moves.
// A pointer that outlives its target then never accidentally reads the right value, and no new
// object takes over the address of a freed one within a case.

const RING: usize = 8192;
const POISON_MAX: usize = 2048;

struct Quarantine {
    lock: AtomicBool,
    pos: AtomicUsize,
}
static Q: Quarantine = Quarantine { lock: AtomicBool::new(false), pos: AtomicUsize::new(0) };
static mut SLOTS: [(usize, usize, usize); RING] = [(0, 0, 0); RING];

pub struct CheckingAlloc;

unsafe impl GlobalAlloc for CheckingAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        std::ptr::write_bytes(p, 0xDB, l.size().min(POISON_MAX));
        if l.size() > 65536 {
            System.dealloc(p, l);
            return;
        }
        while Q.lock.compare_exchange_weak(false, true, Ordering::Acquire, Ordering::Relaxed).is_err() {
            std::hint::spin_loop();
        }
        let i = Q.pos.load(Ordering::Relaxed);
        Q.pos.store((i + 1) % RING, Ordering::Relaxed);
        let slot = std::ptr::addr_of_mut!(SLOTS) as *mut (usize, usize, usize);
        let old = *slot.add(i);
        *slot.add(i) = (p as usize, l.size(), l.align());
        Q.lock.store(false, Ordering::Release);
        if old.0 != 0 {
            System.dealloc(old.0 as *mut u8, Layout::from_size_align_unchecked(old.1, old.2));
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let nl = Layout::from_size_align_unchecked(new, l.align());
        let n = System.alloc(nl);
        if !n.is_null() {
            std::ptr::copy_nonoverlapping(p, n, l.size().min(new));
            self.dealloc(p, l);
        }
        n
    }
}

// ---------------------------------------------------------------------------------------------
// Hash seeds: the standard library takes the keys of its hash maps from getrandom, once per
// thread. Every case runs in a thread of its own with a seed that is part of the case, so the
// iteration order of the hash maps is decided here and is the same on replay.

static SEED: AtomicU64 = AtomicU64::new(1);
pub static SEED_CALLS: AtomicU64 = AtomicU64::new(0);

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    SEED_CALLS.fetch_add(1, Ordering::Relaxed);
    let mut x = SEED.load(Ordering::SeqCst).wrapping_mul(0x9E3779B97F4A7C15) | 1;
    for i in 0..len {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        *buf.add(i) = (x >> 24) as u8;
    }
    len as isize
}

pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = Fnv(0xcbf29ce484222325);
    t.hash(&mut h);
    h.finish()
}
pub struct Fnv(pub u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 ^= *x as u64;
            self.0 = self.0.wrapping_mul(0x100000001b3);
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Panics

static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if let Ok(mut m) = LAST_PANIC.lock() {
            *m = format!("{} ({})", msg, at);
        }
    }));
}

/// Runs code of the library; a panic in it becomes an Err with the message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.lock().map(|m| m.clone()).unwrap_or_default()),
    }
}

// ---------------------------------------------------------------------------------------------
// Chooser: enumerates all sequences of choices, depth first, by re-execution.

pub struct Stop;
pub type R = Result<(), Stop>;

pub struct Ch {
    path: Vec<(u32, u32)>,
    pos: usize,
    /// deviations left for `deviate`
    budget: usize,
    used: usize,
    shard: (u64, u64),
    shard_count: u64,
    last_prefix: Option<Vec<(u32, u32)>>,
    replay: bool,
    sharded: bool,
}

impl Ch {
    pub fn new(shard: (u64, u64)) -> Self {
        Ch { path: vec![], pos: 0, budget: 0, used: 0, shard, shard_count: 0, last_prefix: None, replay: false, sharded: false }
    }
    pub fn replaying(choices: &[u32]) -> Self {
        let mut c = Ch::new((0, 1));
        c.replay = true;
        c.path = choices.iter().map(|x| (*x, u32::MAX)).collect();
        c
    }
    /// One of n alternatives; 0 is explored first.
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0, "empty choice");
        if self.pos < self.path.len() {
            let (c, m) = self.path[self.pos];
            if m == u32::MAX {
                assert!((c as usize) < n, "replay: choice {} out of range {}", c, n);
                self.path[self.pos].1 = n as u32;
            } else {
                assert_eq!(m as usize, n, "replay diverged");
            }
            self.pos += 1;
            return c as usize;
        }
        self.path.push((0, n as u32));
        self.pos += 1;
        0
    }
    pub fn pick<'a, T>(&mut self, a: &'a [T]) -> &'a T {
        &a[self.choose(a.len())]
    }
    pub fn flag(&mut self) -> bool {
        self.choose(2) == 1
    }
    /// A departure from the default; at most `budget` of them are taken in one execution.
    pub fn deviate(&mut self, n: usize) -> usize {
        if self.used >= self.budget {
            return 0;
        }
        let c = self.choose(n);
        if c != 0 {
            self.used += 1;
        }
        c
    }
    pub fn set_budget(&mut self, b: usize) {
        self.budget = b;
        self.used = 0;
    }
    /// The executions that share the choices made so far belong to one worker.
    pub fn shard(&mut self) -> R {
        self.sharded = true;
        if self.replay {
            return Ok(());
        }
        let prefix = &self.path[..self.pos];
        if self.last_prefix.as_deref() != Some(prefix) {
            self.last_prefix = Some(prefix.to_vec());
            self.shard_count += 1;
        }
        if self.shard_count % self.shard.1 != self.shard.0 {
            return Err(Stop);
        }
        Ok(())
    }
    fn next(&mut self) -> bool {
        self.path.truncate(self.pos);
        while let Some((c, n)) = self.path.pop() {
            if c + 1 < n {
                self.path.push((c + 1, n));
                self.pos = 0;
                return true;
            }
        }
        false
    }
    pub fn choices(&self) -> Vec<u32> {
        self.path[..self.pos].iter().map(|x| x.0).collect()
    }
}

// ---------------------------------------------------------------------------------------------
// Context of a worker

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Default)]
pub struct FamStats {
    pub cases: u64,
    pub checked: u64,
    pub rejected: u64,
    pub unspecified: u64,
    pub transitions: u64,
    pub wall_ms: u64,
}

pub struct Violation {
    pub family: String,
    pub choices: Vec<u32>,
    pub message: String,
    pub input: String,
}

pub struct Cx {
    pub prop: String,
    pub tier: Tier,
    pub family: &'static str,
    pub fam_index: usize,
    pub stats: BTreeMap<String, FamStats>,
    pub states: HashSet<u64>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub known: BTreeMap<String, (u64, String)>,
    pub notes: BTreeMap<String, u64>,
    pub status: Option<std::fs::File>,
    pub counter: u64,
    pub shard: (u64, u64),
    pub scratch: std::path::PathBuf,
    pub known_keys: Vec<String>,
    pub deadline: Option<std::time::Instant>,
    pub cut: bool,
}

impl Cx {
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    pub fn t<T>(&self, quick: T, thorough: T) -> T {
        if self.quick() {
            quick
        } else {
            thorough
        }
    }
    fn fs(&mut self) -> &mut FamStats {
        self.stats.entry(self.family.to_string()).or_default()
    }
    fn write_status(&mut self, ch: &Ch, running: bool) {
        self.counter += 1;
        if let Some(f) = &self.status {
            let c = ch.choices();
            let mut b = Vec::with_capacity(24 + 4 * c.len());
            b.extend((self.counter).to_le_bytes());
            b.extend((running as u32).to_le_bytes());
            b.extend((self.fam_index as u32).to_le_bytes());
            b.extend((c.len() as u32).to_le_bytes());
            for x in c {
                b.extend(x.to_le_bytes());
            }
            let _ = f.write_at(&b, 0);
        }
    }
    /// Executes one case: in a thread of its own, with the hash seed of the case.
    /// `f` must catch the panics of the library itself (see `guard`).
    pub fn exec<T: Send>(&mut self, ch: &Ch, f: impl FnOnce() -> T + Send) -> T {
        let seed = hash_of(&(self.fam_index, ch.choices()));
        self.exec_seeded(ch, seed, f)
    }
    pub fn exec_seeded<T: Send>(&mut self, ch: &Ch, seed: u64, f: impl FnOnce() -> T + Send) -> T {
        assert!(ch.replay || ch.sharded, "family {} does not shard", self.family);
        self.write_status(ch, true);
        SEED.store(seed, Ordering::SeqCst);
        let r = std::thread::scope(|s| {
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn_scoped(s, || {
                    warm_up();
                    f()
                })
                .expect("thread")
                .join()
        });
        self.write_status(ch, false);
        match r {
            Ok(v) => v,
            Err(_) => {
                let m = LAST_PANIC.lock().map(|m| m.clone()).unwrap_or_default();
                panic!("harness panic in {} {:?}: {}", self.family, ch.choices(), m)
            }
        }
    }
    pub fn count(&mut self, transitions: u64) {
        let s = self.fs();
        s.cases += 1;
        s.transitions += transitions;
    }
    pub fn checked(&mut self) {
        self.fs().checked += 1;
    }
    pub fn rejected(&mut self) {
        self.fs().rejected += 1;
    }
    pub fn unspecified(&mut self) {
        self.fs().unspecified += 1;
    }
    pub fn state(&mut self, h: u64) {
        self.states.insert(h);
    }
    pub fn note(&mut self, k: &str, n: u64) {
        *self.notes.entry(k.to_string()).or_default() += n;
    }
    pub fn sample(&mut self, text: impl FnOnce() -> String) {
        let n = self.fs().cases;
        if self.samples.len() < 40 && (n == 1 || n == 100) {
            let fam = self.family;
            self.samples.push(format!("[{}] {}", fam, text()));
        }
    }
    pub fn fail(&mut self, ch: &Ch, message: String, input: &str) {
        self.violations.push(Violation {
            family: self.family.to_string(),
            choices: ch.choices(),
            message,
            input: input.to_string(),
        });
    }
    pub fn known(&mut self, key: &str, what: &str, ch: &Ch, input: &str) {
        if self.known_keys.iter().any(|k| k == key) {
            let e = self.known.entry(key.to_string()).or_insert((0, what.to_string()));
            e.0 += 1;
        } else {
            self.fail(ch, format!("{} ({})", what, key), input);
        }
    }
}

/// Another journal with the usual names is read, reported and dropped first, in the same thread:
/// nothing of it may be seen afterwards.
fn warm_up() {
    let _ = guard(|| {
        let mut j = ledger_rs_lib::journal::Journal::new();
        ledger_rs_lib::parse_text(WARM_UP, &mut j);
        ledger_rs_lib::report::balance_report(&j);
    });
}
const WARM_UP: &str = "2019-07-31 Warm ; up
    Assets:Cash  3 VEUR @ 7 EUR
    Expenses:Food  11 EUR

P 2019-07-31 EUR 3 USD
";

pub struct Family {
    pub name: &'static str,
    pub bound: &'static str,
    pub run: fn(&mut Ch, &mut Cx) -> R,
}

pub fn explore(fam: &Family, index: usize, cx: &mut Cx) {
    cx.family = fam.name;
    cx.fam_index = index;
    let t = std::time::Instant::now();
    let mut ch = Ch::new(cx.shard);
    loop {
        ch.pos = 0;
        ch.budget = 0;
        ch.used = 0;
        let _ = (fam.run)(&mut ch, cx);
        if !cx.violations.is_empty() {
            break;
        }
        if !ch.next() {
            break;
        }
        if cx.deadline.is_some_and(|d| std::time::Instant::now() > d) {
            cx.note("families cut short by the time limit (worker count)", 1);
            cx.cut = true;
            break;
        }
    }
    let ms = t.elapsed().as_millis() as u64;
    cx.fs().wall_ms += ms;
}

pub fn replay(fam: &Family, index: usize, choices: &[u32], cx: &mut Cx) {
    cx.family = fam.name;
    cx.fam_index = index;
    let mut ch = Ch::replaying(choices);
    let _ = (fam.run)(&mut ch, cx);
}
