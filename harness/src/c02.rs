//! The caching tag tree: replay of generated histories, random histories, concurrent histories.
use crate::c11::*;
use crate::util::*;
use ringhopper::error::{Error, RinghopperResult};
use ringhopper::primitives::primitive::*;
use ringhopper::primitives::tag::*;
use ringhopper::tag::tree::*;
use serde_json::{json, Value};
use std::collections::{HashMap, HashSet};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Barrier, Mutex};

type Shared = Arc<Mutex<Box<dyn PrimaryTagStructDyn>>>;

/// The values of the tags: value v of tag t as an object, and back.
pub struct Values {
    pub names: Vec<TagPath>,
    objects: Vec<Vec<Box<dyn PrimaryTagStructDyn>>>,
    ids: Vec<HashMap<Vec<u8>, i64>>,
}
unsafe impl Send for Values {}
unsafe impl Sync for Values {}
impl Values {
    pub fn new(n: usize, nv: usize, r: &mut Rng) -> Values {
        let names: Vec<TagPath> = ["a\\b.wind", "a\\b.camera_track", "b.wind", "a\\c.wind"].iter().take(n).map(|s| TagPath::from_path(s).unwrap()).collect();
        let (mut objects, mut ids) = (vec![], vec![]);
        for p in &names {
            let mut m = HashMap::new();
            let mut v: Vec<Box<dyn PrimaryTagStructDyn>> = vec![];
            while v.len() < nv {
                let t = random_tag(r, p.group().as_str(), 2, 100);
                let Ok(Ok(f)) = guard(|| t.to_tag_file()) else { continue };
                if m.contains_key(&f) { continue }
                v.push(t);
                m.insert(f, v.len() as i64);
            }
            objects.push(v);
            ids.push(m);
        }
        Values { names, objects, ids }
    }
    pub fn get(&self, t: usize, v: usize) -> &dyn PrimaryTagStructDyn {
        self.objects[t - 1][v - 1].as_ref()
    }
    pub fn id(&self, t: usize, x: &dyn PrimaryTagStructDyn) -> i64 {
        if x.group() != self.names[t - 1].group() { return -8 }
        x.to_tag_file().ok().and_then(|f| self.ids[t - 1].get(&f).copied()).unwrap_or(-9)
    }
    pub fn number(&self, p: &TagPath) -> usize {
        self.names.iter().position(|n| n == p).map(|i| i + 1).unwrap_or(0)
    }
}

#[derive(Default)]
pub struct Mem {
    pub inner: Vec<i64>,
    pub wfail: HashSet<usize>,
    pub ofail: HashSet<usize>,
    pub writes: Vec<(usize, i64)>,
    pub loads: Vec<usize>,
    pub slow: bool,
}
/// Failures of every kind.
fn refuse<T>(n: usize) -> RinghopperResult<T> {
    Err(match n % 3 {
        0 => Error::Other("no".into()),
        1 => Error::InvalidTagsDirectory,
        _ => Error::TagNotFound(TagPath::from_path("z\\z.wind").unwrap()),
    })
}
pub struct MemTree {
    pub v: Arc<Values>,
    pub m: Arc<Mutex<Mem>>,
}
impl TagTree for MemTree {
    fn open_tag_copy(&self, path: &TagPath) -> RinghopperResult<Box<dyn PrimaryTagStructDyn>> {
        let t = self.v.number(path);
        let (value, slow) = {
            let mut m = self.m.lock().unwrap();
            if t == 0 || m.inner[t - 1] == 0 { return Err(Error::TagNotFound(path.clone())) }
            m.loads.push(t);
            if m.ofail.contains(&t) { return refuse(t + m.loads.len()) }
            (m.inner[t - 1], m.slow)
        };
        if slow { std::thread::sleep(std::time::Duration::from_micros(300)) }
        Ok(self.v.get(t, value as usize).clone_inner())
    }
    fn files_in_path(&self, _path: &str) -> Option<Vec<TagTreeItem>> { None }
    fn write_tag(&mut self, path: &TagPath, tag: &dyn PrimaryTagStructDyn) -> RinghopperResult<bool> {
        let t = self.v.number(path);
        let id = if t == 0 { 0 } else { self.v.id(t, tag) };
        let mut m = self.m.lock().unwrap();
        m.writes.push((t, id));
        if t == 0 || m.wfail.contains(&t) { return refuse(t + m.writes.len()) }
        let changed = m.inner[t - 1] != id;
        m.inner[t - 1] = id;
        let slow = m.slow;
        drop(m);
        if slow { std::thread::sleep(std::time::Duration::from_micros(200)) }
        Ok(changed)
    }
    fn is_read_only(&self) -> bool { false }
    fn contains(&self, path: &TagPath) -> bool {
        let t = self.v.number(path);
        t != 0 && self.m.lock().unwrap().inner[t - 1] != 0
    }
    fn root(&self) -> TagTreeItem { TagTreeItem::new(TagTreeItemType::Directory, Default::default(), None, self) }
    fn tree_type(&self) -> TreeType { TreeType::LooseTags }
    fn get_all_tags_with_filter(&self, filter: Option<&TagFilter>) -> Vec<TagPath> {
        let m = self.m.lock().unwrap();
        self.v.names.iter().enumerate().filter(|(i, p)| m.inner[*i] != 0 && filter.is_none_or(|f| f.passes(p))).map(|(_, p)| p.clone()).collect()
    }
}

fn open_err(e: &Error, p: &TagPath) -> i64 {
    match e {
        Error::TagNotFound(q) if q == p => -1,
        _ => -2,
    }
}
/// One operation; the handle given out, if any, and the result.
fn apply(tree: &mut CachingTagTree<MemTree>, v: &Values, m: &Mutex<Mem>, handles: &mut Vec<(usize, Shared)>, op: &Value) -> Value {
    let t = op.get("t").and_then(|x| x.as_u64()).unwrap_or(0) as usize;
    let p = if t > 0 { v.names[t - 1].clone() } else { v.names[0].clone() };
    let val = op.get("v").and_then(|x| x.as_u64()).unwrap_or(0) as usize;
    { let mut m = m.lock().unwrap(); m.writes.clear(); m.loads.clear(); }
    let mut h = 0;
    let mut fails: Vec<usize> = vec![];
    let mut list: Vec<usize> = vec![];
    let mut give = |a: Shared, handles: &mut Vec<(usize, Shared)>| -> usize {
        match handles.iter().position(|(_, b)| Arc::ptr_eq(&a, b)) {
            Some(i) => i + 1,
            None => { handles.push((t, a)); handles.len() }
        }
    };
    let ret: i64 = match op["op"].as_str().unwrap() {
        "open_shared" => match tree.open_tag_shared(&p) {
            Ok(a) => { h = give(a, handles); 0 }
            Err(e) => open_err(&e, &p),
        },
        "open_copy" => match tree.open_tag_copy(&p) {
            Ok(b) => v.id(t, b.as_ref()),
            Err(e) => open_err(&e, &p),
        },
        "get" => match tree.get(&p) {
            Some(a) => { h = give(a, handles); 0 }
            None => -3,
        },
        "set" => {
            let i = op["h"].as_u64().unwrap() as usize - 1;
            let ht = handles[i].0;
            *handles[i].1.lock().unwrap() = v.get(ht, val).clone_inner();
            0
        }
        "peek" => {
            let i = op["h"].as_u64().unwrap() as usize - 1;
            let g = handles[i].1.lock().unwrap();
            v.id(handles[i].0, g.as_ref())
        }
        "save" => match tree.write_tag(&p, v.get(t, val)) {
            Ok(b) => b as i64,
            Err(_) => -2,
        },
        "commit" => match tree.commit(&p) {
            Ok(b) => b as i64,
            Err(e) => open_err(&e, &p),
        },
        "commit_all" => {
            fails = tree.commit_all().iter().map(|(p, _)| v.number(p)).collect();
            fails.sort();
            0
        }
        "evict" => tree.evict(&p).map(|b| v.id(t, b.as_ref())).unwrap_or(0),
        "external" => { m.lock().unwrap().inner[t - 1] = val as i64; 0 }
        "failures" => {
            let mut m = m.lock().unwrap();
            let set = |k: &str| op[k].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
            m.wfail = set("wfail");
            m.ofail = set("ofail");
            0
        }
        "contains" => tree.contains(&p) as i64,
        "list" => { list = tree.get_all_tags_with_filter(None).iter().map(|p| v.number(p)).collect(); 0 }
        o => panic!("op {o}"),
    };
    let m = m.lock().unwrap();
    json!({"ret": ret, "h": h, "fails": fails, "list": list, "inner": m.inner, "writes": m.writes, "loads": m.loads})
}
fn strategy(manual: bool) -> CachingTagTreeWriteStrategy {
    if manual { CachingTagTreeWriteStrategy::Manual } else { CachingTagTreeWriteStrategy::Instant }
}

pub fn run(a: &Args) -> usize {
    let mut out = Out::new(&a.out);
    let mut r = Rng::new(a.seed);
    let v = Arc::new(Values::new(4, 3, &mut r));
    if a.cases.is_some() {
        for c in a.cases() {
            let m = Arc::new(Mutex::new(Mem {
                inner: c["inner"].as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect(),
                wfail: c["wfail"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect(),
                ..Default::default()
            }));
            m.lock().unwrap().inner.resize(4, 0);
            let n = c["inner"].as_array().unwrap().len();
            let mut tree = CachingTagTree::new(MemTree { v: v.clone(), m: m.clone() }, strategy(c["manual"].as_bool().unwrap()));
            let mut handles = vec![];
            let mut got = vec![];
            let mut want = vec![];
            let mut map: HashMap<u64, u64> = HashMap::new();
            for s in c["steps"].as_array().unwrap() {
                let mut op = s["op"].clone();
                want.push(s["want"].clone());
                // handles of the specification are numbered in the order they are first given out, as here
                if op["op"] == "set" {
                    let k = op["h"].as_u64().unwrap();
                    op["h"] = json!(map.get(&k).copied().unwrap_or(0));
                    if op["h"] == 0 { got.push(json!("handle was never given out")); break }
                }
                match guard(|| apply(&mut tree, &v, &m, &mut handles, &op)) {
                    Ok(x) => {
                        let wh = s["want"]["h"].as_u64().unwrap();
                        let gh = x["h"].as_u64().unwrap();
                        if wh != 0 && gh != 0 { map.insert(wh, gh); }
                        let mut inner = x["inner"].as_array().unwrap().clone();
                        inner.truncate(n);
                        got.push(json!({"ret": x["ret"], "h": x["h"], "fails": x["fails"], "inner": inner}));
                    }
                    Err(e) => { got.push(json!(e)); break }
                }
            }
            out.put(&json!({"case": c, "want": want, "got": got}));
        }
        return out.finish();
    }
    if a.has("concurrent") {
        for _ in 0..a.n { out.put(&json!({"op": "reset", "manual": false, "inner": [0], "wfail": [], "ofail": []})); out.put(&concurrent(&v, &mut r)); }
        return out.finish();
    }
    for _ in 0..a.n {
        let n = 1 + r.below(4);
        let manual = r.chance(1, 2);
        let some = |r: &mut Rng, num: usize| -> Vec<usize> { (1..=n).filter(|_| r.chance(num, 6)).collect() };
        let inner: Vec<i64> = (0..n).map(|_| r.below(4) as i64).collect();
        let mem = Mem { inner: { let mut i = inner.clone(); i.resize(4, 0); i }, ..Default::default() };
        let m = Arc::new(Mutex::new(mem));
        let (w, o) = (some(&mut r, 1), some(&mut r, 1));
        { let mut g = m.lock().unwrap(); g.wfail = w.iter().copied().collect(); g.ofail = o.iter().copied().collect(); }
        out.put(&json!({"op": "reset", "manual": manual, "inner": m.lock().unwrap().inner, "wfail": w, "ofail": o}));
        let mut tree = CachingTagTree::new(MemTree { v: v.clone(), m: m.clone() }, strategy(manual));
        let mut handles: Vec<(usize, Shared)> = vec![];
        for _ in 0..24 {
            let t = 1 + r.below(n);
            let val = 1 + r.below(3);
            let mut op = match r.below(16) {
                0 | 1 => json!({"op": "open_shared", "t": t}),
                2 => json!({"op": "open_copy", "t": t}),
                3 => json!({"op": "get", "t": t}),
                4 | 5 | 6 => json!({"op": "save", "t": t, "v": val}),
                7 => json!({"op": "commit", "t": t}),
                8 => json!({"op": "commit_all"}),
                9 => json!({"op": "evict", "t": t}),
                10 => json!({"op": "external", "t": t, "v": r.below(4)}),
                11 => { let (w, o) = (some(&mut r, 1), some(&mut r, 1)); json!({"op": "failures", "wfail": w, "ofail": o}) }
                12 => json!({"op": *r.pick(&["contains", "list"]), "t": t}),
                13 => { if handles.is_empty() { continue } json!({"op": "peek", "h": 1 + r.below(handles.len())}) }
                _ => { if handles.is_empty() { continue } json!({"op": "set", "h": 1 + r.below(handles.len()), "v": val}) }
            };
            match guard(|| apply(&mut tree, &v, &m, &mut handles, &op)) {
                Ok(x) => for (k, y) in x.as_object().unwrap() {
                    if k == "h" && (op["op"] == "set" || op["op"] == "peek") { continue }
                    op[k] = y.clone();
                },
                Err(e) => op["crash"] = json!(e),
            }
            out.put(&op);
        }
    }
    out.finish()
}

/// Threads share the tree; every operation is stamped when it is called and when it has returned.
fn concurrent(v: &Arc<Values>, r: &mut Rng) -> Value {
    let clock = Arc::new(AtomicU64::new(1));
    let atomic = r.chance(2, 3);
    let manual = r.chance(1, 2);
    let nt = 2;
    let inner: Vec<i64> = vec![r.below(4) as i64, 1 + r.below(3) as i64, 0, 0];
    let wfail: Vec<usize> = if r.chance(1, 4) { vec![1] } else { vec![] };
    let m = Arc::new(Mutex::new(Mem { inner: inner.clone(), wfail: wfail.iter().copied().collect(), slow: r.chance(4, 5), ..Default::default() }));
    let tree = CachingTagTree::new(MemTree { v: v.clone(), m: m.clone() }, strategy(manual));
    let threads = 2 + r.below(2);
    let plans: Vec<Vec<(usize, usize, usize)>> = (0..threads).map(|_| (0..(if threads == 2 { 4 } else { 3 })).map(|_| (r.below(if atomic { 8 } else { 5 }), 1 + r.below(nt), 1 + r.below(3))).collect()).collect();
    let results: Arc<Mutex<Vec<(Value, Option<Shared>)>>> = Arc::new(Mutex::new(vec![]));
    let barrier = Arc::new(Barrier::new(threads));
    let rig: Rig = if atomic { Rig::Atomic(AtomicTagTree::new(tree)) } else { Rig::Plain(Arc::new(tree)) };
    let done = guard_ms(20_000, || {
        let mut js = vec![];
        for plan in plans {
            let (rig, v, clock, results, barrier) = (rig.clone(), v.clone(), clock.clone(), results.clone(), barrier.clone());
            js.push(std::thread::spawn(move || {
                let mut rig = rig;
                let mut mine: Vec<(usize, Shared)> = vec![];
                barrier.wait();
                for (what, t, val) in plan {
                    let p = v.names[t - 1].clone();
                    let call = clock.fetch_add(1, Ordering::SeqCst);
                    let mut given: Option<Shared> = None;
                    let mut rec = json!({"t": t, "v": val, "h": 0});
                    let (op, ret) = match what {
                        0 | 1 => ("open_shared", match rig.shared(&p) { Ok(a) => { given = Some(a); 0 } Err(e) => open_err(&e, &p) }),
                        2 => ("open_copy", match rig.copy(&p) { Ok(b) => v.id(t, b.as_ref()), Err(e) => open_err(&e, &p) }),
                        3 | 4 => {
                            let Some((ht, a)) = mine.last() else { continue };
                            rec["t"] = json!(ht);
                            given = Some(a.clone());
                            if what == 3 { *a.lock().unwrap() = v.get(*ht, val).clone_inner(); ("set", 0) }
                            else { ("peek", v.id(*ht, a.lock().unwrap().as_ref())) }
                        }
                        _ => ("save", match rig.save(&p, v.get(t, val)) { Ok(b) => b as i64, Err(_) => -2 }),
                    };
                    let done = clock.fetch_add(1, Ordering::SeqCst);
                    if op == "open_shared" { if let Some(a) = &given { mine.push((t, a.clone())) } }
                    rec["op"] = json!(op);
                    rec["ret"] = json!(ret);
                    rec["call"] = json!(call);
                    rec["done"] = json!(done);
                    results.lock().unwrap().push((rec, given));
                }
            }));
        }
        js.into_iter().map(|j| j.join().is_ok()).all(|x| x)
    });
    let mut known: Vec<Shared> = vec![];
    let mut ops = vec![];
    for (mut rec, a) in results.lock().unwrap().drain(..) {
        if let Some(a) = a {
            let i = match known.iter().position(|b| Arc::ptr_eq(&a, b)) { Some(i) => i, None => { known.push(a); known.len() - 1 } };
            rec["h"] = json!(i + 1);
        }
        ops.push(rec);
    }
    let g = m.lock().unwrap();
    let loads: Vec<usize> = (1..=4).map(|t| g.loads.iter().filter(|x| **x == t).count()).collect();
    let mut rec = json!({"op": "concurrent", "manual": manual, "inner": inner, "wfail": wfail, "ofail": [], "ops": ops, "loads": loads});
    if done != Ok(true) { rec["crash"] = json!("a thread panicked") }
    rec
}
#[derive(Clone)]
enum Rig {
    Atomic(AtomicTagTree<CachingTagTree<MemTree>>),
    Plain(Arc<CachingTagTree<MemTree>>),
}
impl Rig {
    fn shared(&self, p: &TagPath) -> RinghopperResult<Shared> {
        match self { Rig::Atomic(t) => t.open_tag_shared(p), Rig::Plain(t) => t.open_tag_shared(p) }
    }
    fn copy(&self, p: &TagPath) -> RinghopperResult<Box<dyn PrimaryTagStructDyn>> {
        match self { Rig::Atomic(t) => t.open_tag_copy(p), Rig::Plain(t) => t.open_tag_copy(p) }
    }
    fn save(&mut self, p: &TagPath, x: &dyn PrimaryTagStructDyn) -> RinghopperResult<bool> {
        match self { Rig::Atomic(t) => t.write_tag(p, x), Rig::Plain(_) => unreachable!() }
    }
}
