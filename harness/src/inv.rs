//! Runs the invader program in scratch folders and reports what it did.
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type Files = BTreeMap<String, Vec<u8>>;

pub fn program() -> PathBuf {
    std::env::current_exe().unwrap().with_file_name("invader")
}

pub struct Run {
    /// Exit status; `None` if ended by a signal or by the time limit.
    pub code: Option<i32>,
    pub out: Vec<String>,
    pub err: String,
    pub hung: bool,
}
impl Run {
    /// Something no command may do: panic, be killed, or never end.
    pub fn crash(&self) -> Option<String> {
        if self.hung { return Some("no end".into()) }
        match self.code {
            None => Some(format!("killed: {}", self.err)),
            Some(101) => Some(self.err.clone()),
            Some(_) if self.err.contains("panicked at") => Some(self.err.clone()),
            _ => None,
        }
    }
}

pub fn invader(cwd: &Path, args: &[String], limit: Duration) -> Run {
    let so = cwd.with_extension("stdout");
    let se = cwd.with_extension("stderr");
    let mut c = Command::new(program())
        .args(args).current_dir(cwd).stdin(Stdio::null())
        .env("RUST_BACKTRACE", "0")
        .envs(std::env::var_os("RHX_SHIM").map(|s| ("LD_PRELOAD", s)))
        .stdout(std::fs::File::create(&so).unwrap()).stderr(std::fs::File::create(&se).unwrap())
        .spawn().expect("invader");
    let t = Instant::now();
    let mut nap = 1;
    let (code, hung) = loop {
        if let Some(s) = c.try_wait().unwrap() { break (s.code(), false) }
        if t.elapsed() > limit { let _ = c.kill(); let _ = c.wait(); break (None, true) }
        std::thread::sleep(Duration::from_millis(nap));
        if nap < 8 { nap += 1 }
    };
    let text = String::from_utf8_lossy(&std::fs::read(&so).unwrap()).into_owned();
    let err = String::from_utf8_lossy(&std::fs::read(&se).unwrap()).into_owned();
    Run { code, out: text.lines().map(|l| calm(l)).collect(), err, hung }
}

/// A line without its timing.
fn calm(l: &str) -> String {
    match (l.find(" in "), l.find(" ms")) {
        (Some(a), Some(b)) if a + 4 < b && l[a + 4..b].bytes().all(|c| c.is_ascii_digit()) => format!("{} in # ms{}", &l[..a], &l[b + 3..]),
        _ => l.to_owned(),
    }
}

pub fn lay(root: &Path, files: &Files, dirs: &[&str]) {
    crate::util::fresh_dir(root);
    for d in dirs { std::fs::create_dir_all(root.join(d)).unwrap() }
    for (k, v) in files {
        let p = root.join(k);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, v).unwrap();
    }
}

pub fn read_all(root: &Path) -> Files {
    fn go(root: &Path, d: &Path, f: &mut Files) {
        for e in std::fs::read_dir(d).unwrap() {
            let p = e.unwrap().path();
            if p.is_dir() { go(root, &p, f) } else { f.insert(p.strip_prefix(root).unwrap().to_str().unwrap().to_owned(), std::fs::read(&p).unwrap()); }
        }
    }
    let mut f = Files::new();
    go(root, root, &mut f);
    f
}

/// Files that are new, different or gone (then `None`).
pub fn changes(old: &Files, new: &Files) -> BTreeMap<String, Option<Vec<u8>>> {
    let mut c = BTreeMap::new();
    for (k, v) in new { if old.get(k) != Some(v) { c.insert(k.clone(), Some(v.clone())); } }
    for k in old.keys() { if !new.contains_key(k) { c.insert(k.clone(), None); } }
    c
}

pub fn hash(b: &[u8]) -> String {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for c in b { h = (h ^ *c as u64).wrapping_mul(0x100_0000_01b3) }
    format!("{:016x}", h)
}

/// Do `n` jobs on `threads` threads; results in order.
pub fn parallel<T: Send>(n: usize, threads: usize, f: impl Fn(usize, usize) -> T + Sync) -> Vec<T> {
    let next = AtomicUsize::new(0);
    let done: Mutex<Vec<Option<T>>> = Mutex::new((0..n).map(|_| None).collect());
    std::thread::scope(|s| {
        for w in 0..threads {
            let (next, done, f) = (&next, &done, &f);
            s.spawn(move || loop {
                let k = next.fetch_add(1, Ordering::Relaxed);
                if k >= n { break }
                let r = f(w, k);
                done.lock().unwrap()[k] = Some(r);
            });
        }
    });
    done.into_inner().unwrap().into_iter().map(|o| o.unwrap()).collect()
}
