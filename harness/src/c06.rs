//! Renaming tags on real directories.
use crate::c11::*;
use crate::gtree::*;
use crate::util::*;
use ringhopper::definitions::*;
use ringhopper::primitives::primitive::*;
use ringhopper::primitives::tag::*;
use ringhopper::tag::dependency::*;
use ringhopper::tag::tree::*;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::hash::{Hash, Hasher};
use std::num::NonZeroUsize;
use std::path::{Path, PathBuf};

#[derive(Default)]
struct Table { list: Vec<Value>, ids: HashMap<(String, String), usize> }
impl Table {
    fn id(&mut self, p: &str, g: &str) -> usize {
        let k = (p.to_string(), g.to_string());
        if let Some(i) = self.ids.get(&k) { return *i }
        self.list.push(json!({"p": cps(p), "g": cps(g)}));
        self.ids.insert(k, self.list.len());
        self.list.len()
    }
    fn tag(&mut self, t: &TagPath) -> usize { self.id(t.path(), t.group().as_str()) }
}
/// The references in field order, and a hash of everything else.
fn split(t: &mut Value, refs: &mut Vec<TagPath>) {
    match t {
        Value::Object(o) => {
            if let (Some(g), Some(p)) = (o.get("g"), o.get("p")) {
                let p = to_bytes(p);
                if !p.is_empty() {
                    let g = u32::from_be_bytes(to_bytes(g).try_into().unwrap());
                    refs.push(TagPath::new(std::str::from_utf8(&p).unwrap(), TagGroup::from_fourcc(g).unwrap()).unwrap());
                    o.insert("p".into(), json!("set"));
                }
            }
        }
        Value::Array(a) => a.iter_mut().for_each(|x| split(x, refs)),
        _ => (),
    }
}
fn hash(s: &[u8]) -> String {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    format!("{:x}", h.finish())
}
/// Everything that lies below the tags directories: tags, and whether nothing else was touched.
fn scan(dirs: &[PathBuf], t: &mut Table, noise: &mut Vec<(PathBuf, Vec<u8>)>) -> Vec<Value> {
    let mut v = vec![];
    for (l, base) in dirs.iter().enumerate() {
        let mut stack = vec![base.clone()];
        while let Some(d) = stack.pop() {
            let mut es: Vec<_> = std::fs::read_dir(&d).unwrap().map(|e| e.unwrap().path()).collect();
            es.sort();
            for p in es {
                if p.is_dir() { stack.push(p); continue }
                let b = std::fs::read(&p).unwrap();
                let rel = p.strip_prefix(base).unwrap().to_string_lossy().to_string();
                let Ok(tp) = TagPath::from_path(&rel) else { noise.push((p, b)); continue };
                let (mut refs, mut st, mut body) = (vec![], "unreadable", hash(&b));
                if let Ok(tag) = read_any_tag_from_file_buffer(&b, ParseStrictness::Strict) {
                    st = "ok";
                    let mut d = dump_tag(tag.as_ref());
                    split(&mut d, &mut refs);
                    body = hash(d.to_string().as_bytes());
                }
                // as found on the disk, not as a tag path would normalise it
                let stem = rel.strip_suffix(&format!(".{}", tp.group().as_str())).unwrap_or("?").replace('/', "\\");
                v.push(json!({"path": t.id(&stem, tp.group().as_str()), "loc": l + 1, "st": st, "body": body, "refs": refs.iter().map(|r| t.tag(r)).collect::<Vec<_>>()}));
            }
        }
    }
    noise.sort();
    v
}
struct Req { from: String, to: String, all: bool, nomove: bool, filter: String, fgroup: Option<TagGroup>, threads: usize }
fn go(out: &mut Out, dirs: &[PathBuf], q: &Req, blocked: &[(usize, String, String)], files: &[(usize, String)]) {
    let mut t = Table::default();
    let (mut n0, mut n1) = (vec![], vec![]);
    let before = scan(dirs, &mut t, &mut n0);
    let mut rec = json!({"op": "refactor", "from": cps(&q.from), "to": cps(&q.to), "all": q.all, "nomove": q.nomove, "filter": cps(&q.filter),
        "fgroup": q.fgroup.map(|g| cps(g.as_str())).unwrap_or(json!([])), "threads": q.threads, "before": before,
        "blocked": blocked.iter().map(|(l, p, g)| json!([l, t.id(p, g)])).collect::<Vec<_>>(), "files": files.iter().map(|(l, p)| json!([l, cps(p)])).collect::<Vec<_>>()});
    about_to(&rec);
    let g = guard(|| {
        let dir = VirtualTagsDirectory::new(dirs, None).unwrap();
        refactor_paths_for_tag_tree(&q.from, &q.to, &dir, NonZeroUsize::new(q.threads).unwrap(), if q.all { ReplaceType::All } else { ReplaceType::Start }, q.nomove, &TagFilter::new(&q.filter, q.fgroup))
    });
    match g {
        Err(e) => rec["crash"] = json!(e),
        Ok(Ok((renames, results))) => rec["out"] = json!({"kind": "ok", "renames": renames.iter().map(|(a, b)| json!([t.tag(a), t.tag(b)])).collect::<Vec<_>>(),
            "errors": results.iter().filter(|r| !r.1.errors.is_empty()).map(|r| t.tag(r.0)).collect::<Vec<_>>()}),
        Ok(Err((e, _))) => rec["out"] = json!({"kind": "err", "text": e.to_string()}),
    }
    rec["after"] = json!(scan(dirs, &mut t, &mut n1));
    rec["noise"] = json!(n0 == n1);
    rec["paths"] = json!(t.list);
    out.put(&rec);
}
fn store(base: &Path, p: &TagPath, b: &[u8]) {
    let f = base.join(p.to_native_path());
    std::fs::create_dir_all(f.parent().unwrap()).unwrap();
    std::fs::write(f, b).unwrap();
}
pub fn run(a: &Args) -> usize {
    let mut out = Out::new(&a.out);
    let mut r = Rng::new(a.seed);
    let base = a.scratch.join("c06");
    if a.cases.is_some() {
        let stride: usize = a.extra.iter().skip_while(|e| *e != "--stride").nth(1).map(|s| s.parse().unwrap()).unwrap_or(1);
        let names: Vec<TagPath> = ["a", "b", "aa", "a\\b", "ba\\a"].iter().map(|n| TagPath::new(n, TagGroup::TagCollection).unwrap()).collect();
        let (froms, tos) = (["a", "b", "aa", "a\\"], ["b", "", "aa", "c/d\\", "A", "x."]);
        let mut c = TagCollection::default();
        for n in &names { c.tags.items.push(TagCollectionTag { reference: TagReference::Set(n.clone()) }) }
        let b = c.to_tag_file().unwrap();
        for (k, c) in a.cases().iter().enumerate() {
            if (k as u64 + a.seed) % stride as u64 != 0 { continue }
            let ix = |f: &str| c[f].as_u64().unwrap() as usize - 1;
            fresh_dir(&base);
            for i in c["present"].as_array().unwrap() { store(&base, &names[i.as_u64().unwrap() as usize - 1], &b) }
            let q = Req { from: froms[ix("from")].into(), to: tos[ix("to")].into(), all: c["all"] == true, nomove: c["nomove"] == true,
                filter: if c["filter"] == true { "?*a*".into() } else { "*".into() }, fgroup: None, threads: 1 + k % 4 };
            go(&mut out, &[base.clone()], &q, &[], &[]);
        }
        return out.finish();
    }
    let parts = ["a", "b", "levels", "bungie", "é", "x y", "aa"];
    for round in 0..a.n {
        let ndirs = 1 + r.below(3);
        let dirs: Vec<PathBuf> = (0..ndirs).map(|i| base.join(format!("d{i}"))).collect();
        dirs.iter().for_each(|d| fresh_dir(d));
        let path = |r: &mut Rng| { let n = 1 + r.below(3); (0..n).map(|_| *r.pick(&parts)).collect::<Vec<_>>().join("\\") };
        let gs: Vec<&str> = (0..3).map(|_| *r.pick(LINKING)).chain(["tag_collection"]).collect();
        let mut nodes: Vec<TagPath> = vec![];
        let crowd = a.has("crowd");
        for _ in 0..if crowd { 60 } else { 1 + r.below(9) } {
            let p = TagPath::new(&path(&mut r), TagGroup::from_str(*r.pick(&gs)).unwrap()).unwrap();
            if !nodes.contains(&p) { nodes.push(p) }
        }
        // chains: what one tag is renamed to is what another is renamed from (only possible without moving)
        let chain = if r.chance(1, 6) { let c = *r.pick(&["ab", "é\\b", "x yy", "\\a\\b"]); Some((c.to_string(), c.chars().skip(1).collect::<String>())) } else { None };
        if let Some((f, t)) = &chain {
            let first: String = f.chars().take(1).collect();
            for _ in 0..1 + r.below(4) {
                let (pre, g) = (path(&mut r), *r.pick(&gs));
                for n in [format!("{pre}{first}{f}"), format!("{pre}{f}"), format!("{pre}{t}")] {
                    if let Ok(p) = TagPath::new(&n, TagGroup::from_str(g).unwrap()) { if !nodes.contains(&p) { nodes.push(p) } }
                }
            }
        }
        // two tags that would be renamed to the same
        let merge = if chain.is_none() && r.chance(1, 8) { Some(r.pick(&["a", "\\b", "yy", "-", "é"]).to_string()) } else { None };
        if let Some(f) = &merge {
            let (pre, post, g) = (path(&mut r), if r.chance(1, 2) { path(&mut r) } else { "x".into() }, *r.pick(&gs));
            for n in [format!("{pre}{f}{post}"), format!("{pre}{f}{f}{post}")] {
                if let Ok(p) = TagPath::new(&n, TagGroup::from_str(g).unwrap()) { if !nodes.contains(&p) { nodes.push(p) } }
            }
        }
        let mut at = vec![];
        let junk = r.chance(1, 5);
        // references also to names that do not exist (yet)
        let mut names = nodes.clone();
        for _ in 0..2 { names.push(TagPath::new(&path(&mut r), TagGroup::from_str(*r.pick(&gs)).unwrap()).unwrap()) }
        for n in &nodes {
            let l = r.below(ndirs);
            at.push(l);
            let f = if junk && r.chance(1, 4) { b"not a tag".to_vec() } else { linked_tag(&mut r, n.group().as_str(), &names, 250, 0).to_tag_file().unwrap() };
            store(&dirs[l], n, &f);
        }
        if r.chance(1, 3) { std::fs::write(dirs[r.below(ndirs)].join("readme.txt"), b"hello").unwrap() }
        // the request
        let some = r.pick(&nodes).path().to_string();
        let from = match r.below(6) {
            0 => some.clone(),
            1 => r.pick(&parts).to_string(),
            2 => format!("{}\\", some.split('\\').next().unwrap()),
            3 => path(&mut r).replace('\\', "/"),
            4 => { let c: Vec<char> = some.chars().collect(); let i = r.below(c.len()); let j = i + r.below(c.len() - i) + 1; c[i..j].iter().collect() }
            _ => some.chars().take(1 + r.below(4)).collect(),
        };
        let to = match r.below(9) {
            0 => "new\\place\\".to_string(),
            1 => path(&mut r),
            2 => r.pick(&["", "Q", "q", "q*", "..", "aux", "\\", "a/b", "q.", "é"]).to_string(),
            3 => format!("{from}{from}"),
            4 => format!("{}/{}", r.pick(&parts), from),
            5 => from.chars().skip(1).collect(),
            6 => format!("zz{}", from),
            7 => "n/".to_string() + &path(&mut r),
            _ => "renamed".to_string(),
        };
        let (from, to) = if crowd && r.chance(3, 4) { let c: String = some.chars().take(1).collect(); (c.clone(), format!("zz{c}")) } else { (from, to) };
        let chained = chain.is_some();
        let merging = merge.is_some();
        let (from, to) = chain.or(merge.map(|f| (f, String::new()))).unwrap_or((from, to));
        let q = Req { from, to, all: chained || merging || r.chance(1, 2), nomove: !crowd && r.chance(if chained { 9 } else { 3 }, 12), filter: if !crowd && r.chance(1, 3) { r.pick(&["*a*", "?*", "levels\\*", "*b.*", "*/*"]).to_string() } else { "*".into() },
            fgroup: if !crowd && r.chance(1, 6) { Some(r.pick(&nodes).group()) } else { None }, threads: if r.chance(1, 150) { 1_000_000_000 } else if crowd { 4 + r.below(12) } else { 1 + r.below(8) } };
        // without moving, the new names have to exist most of the time
        let (nf, nt) = (q.from.replace('/', "\\"), q.to.replace('/', "\\"));
        let guess: Vec<TagPath> = nodes.iter().filter_map(|n| {
            let s = if q.all { if n.path().contains(&nf) { n.path().replace(&nf, &nt) } else { return None } } else { n.path().strip_prefix(&nf).map(|s| format!("{nt}{s}"))? };
            TagPath::new(&s, n.group()).ok()
        }).collect();
        if q.nomove && r.chance(4, 5) {
            let mut needed = guess.clone();
            // what is stored may in turn match
            for k in 0..6 {
                let Some(g) = needed.get(k) else { break };
                let s = if q.all { g.path().replace(&nf, &nt) } else { g.path().strip_prefix(&nf).map(|s| format!("{nt}{s}")).unwrap_or(g.path().to_string()) };
                if let Ok(g) = TagPath::new(&s, g.group()) { if s.len() < 60 && !needed.contains(&g) { needed.push(g) } }
            }
            for g in &needed {
                if !nodes.contains(g) && !dirs.iter().any(|d| d.join(g.to_native_path()).exists()) { store(&dirs[r.below(ndirs)], g, &linked_tag(&mut r, g.group().as_str(), &names, 100, 0).to_tag_file().unwrap()) }
            }
        }
        let (mut blocked, mut files) = (vec![], vec![]);
        if !q.nomove && !guess.is_empty() && round % 4 == 0 {
            let g = r.pick(&guess).clone();
            let l = r.below(ndirs);
            if r.chance(1, 2) {
                let p = dirs[l].join(g.to_native_path());
                if !p.exists() && std::fs::create_dir_all(&p).is_ok() {
                    std::fs::write(p.join("in the way.txt"), b"x").unwrap();
                    blocked.push((l + 1, g.path().to_string(), g.group().as_str().to_string()));
                }
            } else if let Some(i) = g.path().find('\\') {
                let p = dirs[l].join(&g.path()[..i]);
                if !p.exists() {
                    std::fs::write(p, b"x").unwrap();
                    files.push((l + 1, g.path()[..i].to_string()));
                }
            }
        }
        go(&mut out, &dirs, &q, &blocked, &files);
    }
    let _ = std::fs::remove_dir_all(&base);
    out.finish()
}
