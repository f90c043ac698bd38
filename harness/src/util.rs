//! Shared parts: random numbers, ndJSON output, guarded execution, scratch folders.
use serde_json::{json, Value};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;

// ---------------------------------------------------------------- random
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    pub fn range(&mut self, a: i64, b: i64) -> i64 {
        a + (self.next() % ((b - a + 1) as u64)) as i64
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

// ---------------------------------------------------------------- allocation tracking
pub struct TrackAlloc;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
pub const ALLOC_LIMIT: usize = 3 << 30;
/// Schedules are perturbed at allocations: one in this many makes its thread wait (0: none).
pub static PERTURB: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
thread_local! { static DICE: Cell<u32> = const { Cell::new(0) }; }
static DICE_SEED: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(12345);
#[cold]
fn perturb(n: u32) {
    let _ = DICE.try_with(|d| {
        let mut x = d.get();
        if x == 0 { x = DICE_SEED.fetch_add(0x9E3779B9, Ordering::Relaxed) | 1 }
        x ^= x << 13;
        x ^= x >> 17;
        x ^= x << 5;
        d.set(x);
        if x % n == 0 {
            if x & 0x10000 == 0 { std::thread::yield_now() } else { std::thread::sleep(std::time::Duration::from_micros(((x >> 8) % 100) as u64)) }
        }
    });
}
unsafe impl GlobalAlloc for TrackAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = PERTURB.load(Ordering::Relaxed);
        if p != 0 { perturb(p) }
        let live = LIVE.fetch_add(l.size(), Ordering::Relaxed) + l.size();
        PEAK.fetch_max(live, Ordering::Relaxed);
        if live > ALLOC_LIMIT {
            LIVE.fetch_sub(l.size(), Ordering::Relaxed);
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let live = LIVE.fetch_add(l.size(), Ordering::Relaxed) + l.size();
        PEAK.fetch_max(live, Ordering::Relaxed);
        if live > ALLOC_LIMIT {
            LIVE.fetch_sub(l.size(), Ordering::Relaxed);
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Ordering::Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let live = LIVE.fetch_add(n, Ordering::Relaxed) + n;
        if live > ALLOC_LIMIT {
            LIVE.fetch_sub(n, Ordering::Relaxed);
            return std::ptr::null_mut();
        }
        let r = System.realloc(p, l, n);
        let live = LIVE.fetch_sub(l.size(), Ordering::Relaxed) - l.size();
        PEAK.fetch_max(live, Ordering::Relaxed);
        r
    }
}
/// Bytes allocated above the starting level at the highest point while `f` ran.
pub fn with_peak<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let start = LIVE.load(Ordering::Relaxed);
    PEAK.store(start, Ordering::Relaxed);
    let r = f();
    (r, PEAK.load(Ordering::Relaxed).saturating_sub(start))
}

// ---------------------------------------------------------------- guarded execution
thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
    static QUIET: Cell<bool> = const { Cell::new(false) };
}
static DEADLINE_MS: AtomicU64 = AtomicU64::new(0);
static CUR: Mutex<Option<PathBuf>> = Mutex::new(None);

fn now_ms() -> u64 {
    static T0: std::sync::OnceLock<std::time::Instant> = std::sync::OnceLock::new();
    T0.get_or_init(std::time::Instant::now).elapsed().as_millis() as u64
}

pub static ANY_PANIC: Mutex<Vec<String>> = Mutex::new(Vec::new());

pub fn init(cur: Option<PathBuf>) {
    *CUR.lock().unwrap() = cur;
    now_ms();
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let text = format!("{m} @ {l}");
        ANY_PANIC.lock().unwrap_or_else(|e| e.into_inner()).push(text.clone());
        if !QUIET.with(|q| q.get()) {
            eprintln!("PANIC {text}");
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = text);
    }));
    std::thread::spawn(|| loop {
        std::thread::sleep(std::time::Duration::from_millis(50));
        let d = DEADLINE_MS.load(Ordering::SeqCst);
        if d != 0 && now_ms() > d {
            eprintln!("HANG");
            std::process::exit(97);
        }
    });
}

/// Write down what is about to run, so that a crash or a hang of the process can be blamed on it.
pub fn about_to(v: &Value) {
    if let Some(p) = CUR.lock().unwrap().as_ref() {
        let _ = std::fs::write(p, v.to_string());
    }
}
pub fn done() {}

/// Run `f`: `Ok(value)`, or `Err(text)` if it panicked. The whole process exits with 97 if `f` takes longer than `ms`.
pub fn guard_ms<T>(ms: u64, f: impl FnOnce() -> T) -> Result<T, String> {
    DEADLINE_MS.store(now_ms() + ms, Ordering::SeqCst);
    QUIET.with(|q| q.set(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(false));
    DEADLINE_MS.store(0, Ordering::SeqCst);
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    guard_ms(30_000, f)
}

// ---------------------------------------------------------------- output
pub struct Out {
    w: std::io::BufWriter<std::fs::File>,
    pub n: usize,
}
impl Out {
    pub fn new(p: &Path) -> Out {
        Out { w: std::io::BufWriter::new(std::fs::File::create(p).expect("create output")), n: 0 }
    }
    pub fn put(&mut self, v: &Value) {
        serde_json::to_writer(&mut self.w, v).unwrap();
        self.w.write_all(b"\n").unwrap();
        self.n += 1;
    }
    pub fn finish(mut self) -> usize {
        self.w.flush().unwrap();
        self.n
    }
}

pub struct Args {
    pub seed: u64,
    pub n: usize,
    pub out: PathBuf,
    pub cases: Option<PathBuf>,
    pub scratch: PathBuf,
    pub extra: Vec<String>,
}
impl Args {
    pub fn cases(&self) -> Vec<Value> {
        match &self.cases {
            None => vec![],
            Some(p) => std::fs::read_to_string(p)
                .expect("cases")
                .lines()
                .filter(|l| !l.trim().is_empty())
                .map(|l| serde_json::from_str(l).expect("case json"))
                .collect(),
        }
    }
    pub fn has(&self, s: &str) -> bool {
        self.extra.iter().any(|e| e == s)
    }
}

/// Text as a list of code points (TLA+ strings cannot be taken apart).
pub fn cps(s: &str) -> Value {
    Value::Array(s.chars().map(|c| json!(c as u32)).collect())
}
pub fn from_cps(v: &Value) -> String {
    v.as_array().unwrap().iter().map(|c| char::from_u32(c.as_u64().unwrap() as u32).unwrap()).collect()
}
pub fn bytes(b: &[u8]) -> Value {
    Value::Array(b.iter().map(|c| json!(*c)).collect())
}
pub fn to_bytes(v: &Value) -> Vec<u8> {
    v.as_array().unwrap().iter().map(|c| c.as_u64().unwrap() as u8).collect()
}

pub fn fresh_dir(p: &Path) {
    let _ = std::fs::remove_dir_all(p);
    std::fs::create_dir_all(p).expect("scratch");
}
