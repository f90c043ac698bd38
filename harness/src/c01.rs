//! Virtual tags directories: replay of generated saves and recorded random histories.
use crate::c11::*;
use crate::util::*;
use ringhopper::error::Error;
use ringhopper::primitives::primitive::*;
use ringhopper::primitives::tag::*;
use ringhopper::tag::tree::*;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::path::{Path, PathBuf};

/// The tags of a world: their paths, and for each the files of a number of values.
pub struct World {
    pub root: PathBuf,
    pub locs: usize,
    pub names: Vec<TagPath>,
    pub files: Vec<Vec<Vec<u8>>>,
    pub values: Vec<Vec<Box<dyn PrimaryTagStructDyn>>>,
    pub ids: Vec<HashMap<Vec<u8>, i64>>,
    /// files that are no tags: location, relative path, bytes
    pub noise: Vec<(usize, PathBuf, Vec<u8>)>,
}
impl World {
    pub fn new(root: &Path, locs: usize, names: Vec<TagPath>, nvalues: usize, r: &mut Rng) -> World {
        fresh_dir(root);
        for l in 1..=locs {
            std::fs::create_dir_all(root.join(format!("d{l}"))).unwrap();
        }
        let mut files = vec![];
        let mut values = vec![];
        let mut ids = vec![];
        for n in &names {
            let mut fs: Vec<Vec<u8>> = vec![];
            let mut vs = vec![];
            while fs.len() < nvalues {
                let (t, f) = if !fs.is_empty() && r.chance(1, 2) {
                    // all but the same as another one
                    let mut f = r.pick(&fs).clone();
                    let i = if r.chance(1, 2) { f.len() - 1 - r.below(8.min(f.len() - 0x40)) } else { 0x40 + r.below(f.len() - 0x40) };
                    f[i] ^= 1 << r.below(8);
                    fix_crc(&mut f);
                    let Ok(Ok(t)) = guard(|| ringhopper::definitions::read_any_tag_from_file_buffer(&f, ParseStrictness::Strict)) else { continue };
                    if !matches!(guard(|| t.to_tag_file()), Ok(Ok(g)) if g == f) { continue }
                    (t, f)
                }
                else {
                    let (items, budget) = if r.chance(1, 6) { (120, 20000) } else { (2, 200) };
                    let t = random_tag(r, n.group().as_str(), items, budget);
                    let Ok(Ok(f)) = guard(|| t.to_tag_file()) else { continue };
                    (t, f)
                };
                if fs.contains(&f) { continue }
                fs.push(f);
                vs.push(t);
            }
            ids.push(fs.iter().enumerate().map(|(i, f)| (f.clone(), i as i64 + 1)).collect());
            files.push(fs);
            values.push(vs);
        }
        World { root: root.to_path_buf(), locs, names, files, values, ids, noise: vec![] }
    }
    pub fn dir(&self, loc: usize) -> PathBuf {
        self.root.join(format!("d{loc}"))
    }
    /// The bytes of a content number.
    pub fn content(&mut self, t: usize, c: i64) -> Vec<u8> {
        let (v, kind) = ((c % 1000) as usize, c / 1000);
        let mut f = if v == 0 { b"this is not a tag".to_vec() } else { self.files[t - 1][v - 1].clone() };
        match kind {
            1 => f[0] ^= 0x5a, // padding of the header
            2 => { f[0x28] ^= 0x11 } // the checksum
            3 => { f.truncate(f.len() - 1) }
            _ => (),
        }
        self.ids[t - 1].insert(f.clone(), c);
        f
    }
    pub fn file(&self, loc: usize, t: usize) -> PathBuf {
        self.dir(loc).join(self.names[t - 1].to_native_path())
    }
    pub fn put(&mut self, loc: usize, t: usize, c: i64) {
        let b = self.content(t, c);
        let p = self.file(loc, t);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, b).unwrap();
    }
    /// All files: (location, tag number or negative for others, content number or -1).
    pub fn disk(&self) -> Vec<(usize, i64, i64)> {
        let mut v = vec![];
        for loc in 1..=self.locs {
            let base = self.dir(loc);
            let mut stack = vec![base.clone()];
            while let Some(d) = stack.pop() {
                for e in std::fs::read_dir(&d).unwrap() {
                    let p = e.unwrap().path();
                    if p.is_dir() { stack.push(p); continue }
                    let b = std::fs::read(&p).unwrap();
                    let rel = p.strip_prefix(&base).unwrap().to_path_buf();
                    if let Some(t) = self.names.iter().position(|n| Path::new(&n.to_native_path()) == rel) {
                        v.push((loc, t as i64 + 1, self.ids[t].get(&b).copied().unwrap_or(-1)));
                    } else if let Some(i) = self.noise.iter().position(|n| n.0 == loc && n.1 == rel) {
                        if b != self.noise[i].2 { v.push((loc, -1 - i as i64, -1)) }
                    } else {
                        v.push((loc, -1000, -1));
                    }
                }
            }
        }
        let kept = self.noise.iter().all(|n| self.dir(n.0).join(&n.1).is_file());
        if !kept { v.push((0, -999, -1)) }
        v.sort();
        v
    }
    pub fn value_of(&self, t: usize, tag: &dyn PrimaryTagStructDyn) -> i64 {
        match tag.to_tag_file() {
            Ok(f) => match self.ids[t - 1].get(&f) { Some(v) if *v < 1000 => *v, _ => -2 },
            Err(_) => -3,
        }
    }
    pub fn open(&self, tree: &dyn TagTree, t: usize, shared: bool) -> i64 {
        let p = &self.names[t - 1];
        let r = if shared { tree.open_tag_shared(p).map(|m| m.lock().unwrap().clone_inner()) } else { tree.open_tag_copy(p) };
        match r {
            Ok(b) => {
                if b.group() != p.group() { return -4 }
                self.value_of(t, b.as_ref())
            }
            Err(Error::TagNotFound(q)) if q == *p => -1,
            Err(Error::TagNotFound(_)) => -5,
            Err(_) => 0,
        }
    }
}
fn ret(r: Result<bool, Error>) -> String {
    match r {
        Ok(true) => "stored".into(),
        Ok(false) => "unchanged".into(),
        Err(Error::InvalidTagsDirectory) => "invalid_directory".into(),
        Err(e) => format!("error {e}"),
    }
}
fn nums(v: &Value) -> Vec<usize> {
    v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect()
}

pub fn run(a: &Args) -> usize {
    let mut out = Out::new(&a.out);
    let mut r = Rng::new(a.seed);
    if a.cases.is_some() {
        let names = vec![TagPath::from_path("levels\\a\\b.wind").unwrap(), TagPath::from_path("levels\\a\\b.color_table").unwrap()];
        let mut w = World::new(&a.scratch.join("c01r"), 3, names, 2, &mut r);
        for c in a.cases() {
            for l in 1..=3 { fresh_dir(&w.dir(l)) }
            for (l, row) in c["fs"].as_array().unwrap().iter().enumerate() {
                for (t, x) in row.as_array().unwrap().iter().enumerate() {
                    let x = x.as_i64().unwrap();
                    if x != 0 { w.put(l + 1, t + 1, x) }
                }
            }
            let dirs: Vec<PathBuf> = nums(&c["dirs"]).into_iter().map(|d| w.dir(d)).collect();
            let cow = c["cow"].as_u64().unwrap() as usize;
            let (t, v, d) = (c["t"].as_u64().unwrap() as usize, c["v"].as_u64().unwrap() as usize, c["d"].as_u64().unwrap() as usize);
            let mut rec = c.clone();
            let g = guard(|| {
                let tree = VirtualTagsDirectory::new(&dirs, (cow != 0).then(|| w.dir(cow))).map_err(|e| e.to_string())?;
                let before = [w.open(&tree, 1, false), w.open(&tree, 2, true)];
                let index = tree.path_for_tag(&w.names[t - 1]).map(|x| x.0 + 1).unwrap_or(0);
                let rr = ret(tree.write_tag_to_directory(&w.names[t - 1], w.values[t - 1][v - 1].as_ref(), d - 1));
                let mut m = vec![vec![0i64; 2]; 3];
                for (l, t, c) in w.disk() {
                    if t > 0 { m[l - 1][t as usize - 1] = c } else { return Err(format!("unexpected file in {l}")) }
                }
                let after = [w.open(&tree, 1, true), w.open(&tree, 2, false)];
                Ok::<_, String>(json!({"before": before, "index": index, "ret": rr, "fs": m, "after": after}))
            });
            rec["got"] = match g { Ok(Ok(v)) => v, Ok(Err(e)) | Err(e) => json!(e) };
            out.put(&rec);
        }
        return out.finish();
    }
    let pool = [
        "a.wind", "b.wind", "a.color_table", "levels\\a\\b.wind", "levels\\a\\b.camera_track", "levels\\a.wind\\c.sky", "a b\\c d.wind",
        "x.y.wind", "é\\漢.wind", ".wind", "levels\\a\\b.color_table.wind", "levels\\b\\a.wind", "levels\\bb.wind", "deep\\1\\2\\3\\4\\t.point_physics",
        "levels\\a\\b b.string_list", "q\\.hidden.wind", "levels.bitmap\\a.unicode_string_list",
    ];
    for h in 0..a.n {
        let mut names: Vec<&str> = pool.to_vec();
        r.shuffle(&mut names);
        names.truncate(2 + r.below(5));
        let names: Vec<TagPath> = names.iter().map(|n| TagPath::from_path(n).unwrap()).collect();
        let locs = 2 + r.below(4);
        let mut w = World::new(&a.scratch.join(format!("c01-{h}")), locs, names, 3, &mut r);
        let mut dirs: Vec<usize> = (1..=locs).collect();
        r.shuffle(&mut dirs);
        dirs.truncate(1 + r.below(locs));
        let cow = if r.chance(1, 2) { 0 } else { 1 + r.below(locs) };
        for _ in 0..r.below(8) {
            let (l, t) = (1 + r.below(locs), 1 + r.below(w.names.len()));
            let c = [0, 1000, 2000, 3000, 0, 0][r.below(6)] + 1 + r.below(3) as i64;
            w.put(l, t, if r.chance(1, 12) { 0 } else { c });
        }
        for _ in 0..r.below(6) {
            let l = 1 + r.below(locs);
            let p = PathBuf::from(*r.pick(&[
                "readme.txt", "levels/a/b.WIND", "Levels/A/B.wind", "levels/a/notes", "a.tag", "con.wind", "levels/con/x.wind", "trailing./a.wind", "q/wind", "a.wind.txt",
                "levels/a/b.wind.bak", "a..wind", "bad|name.wind", "UP.wind",
            ]));
            let f = w.dir(l).join(&p);
            if f.exists() || w.noise.iter().any(|n| n.0 == l && n.1 == p) { continue }
            std::fs::create_dir_all(f.parent().unwrap()).unwrap();
            let b: Vec<u8> = if r.chance(1, 2) { b"noise".to_vec() } else { w.files[0][0].clone() };
            std::fs::write(&f, &b).unwrap();
            w.noise.push((l, p, b));
        }
        // directories that look like tags
        for _ in 0..r.below(3) {
            let l = 1 + r.below(locs);
            let t = 1 + r.below(w.names.len());
            let f = w.file(l, t);
            if cow != l && *dirs.first().unwrap() != l && !f.exists() {
                // only where nothing will ever be written
                if dirs.contains(&l) && r.chance(1, 2) { let _ = std::fs::create_dir_all(f); }
            }
        }
        let blocked: Vec<(usize, usize)> = (1..=locs).flat_map(|l| (1..=w.names.len()).map(move |t| (l, t))).filter(|(l, t)| w.file(*l, *t).is_dir()).collect();
        out.put(&json!({"op": "reset", "dirs": dirs, "cow": cow, "fs": w.disk(), "disk": [],
            "names": w.names.iter().map(|n| json!({"p": cps(n.path()), "g": cps(n.group().as_str())})).collect::<Vec<_>>()}));
        let paths: Vec<PathBuf> = dirs.iter().map(|d| w.dir(*d)).collect();
        let mut tree = VirtualTagsDirectory::new(&paths, (cow != 0).then(|| w.dir(cow))).unwrap();
        for _ in 0..12 {
            let t = 1 + r.below(w.names.len());
            let p = w.names[t - 1].clone();
            let mut rec;
            let res: Result<Value, String>;
            match r.below(13) {
                0..=3 => {
                    let v = 1 + r.below(3);
                    rec = json!({"op": "save", "t": t, "v": v});
                    res = guard(|| json!(ret(tree.write_tag(&p, w.values[t - 1][v - 1].as_ref()))));
                }
                4 => {
                    let (v, d) = (1 + r.below(3), 1 + r.below(dirs.len() + 1));
                    if d <= dirs.len() && blocked.contains(&(dirs[d - 1], t)) { continue }
                    rec = json!({"op": "save_to", "t": t, "v": v, "d": d});
                    res = guard(|| json!(ret(tree.write_tag_to_directory(&p, w.values[t - 1][v - 1].as_ref(), d - 1))));
                }
                5 | 6 => {
                    let sh = r.chance(1, 2);
                    rec = json!({"op": "open", "t": t});
                    res = guard(|| json!(w.open(&tree, t, sh)));
                }
                7 => {
                    rec = json!({"op": "contains", "t": t});
                    res = guard(|| json!(tree.contains(&p)));
                }
                8 => {
                    rec = json!({"op": "where", "t": t});
                    let x = guard(|| tree.path_for_tag(&p));
                    match x {
                        Ok(x) => {
                            let loc = x.as_ref().map(|x| (1..=locs).find(|l| w.file(*l, t) == x.1).unwrap_or(0)).unwrap_or(0);
                            rec["loc"] = json!(loc);
                            res = Ok(json!(x.map(|x| x.0 + 1).unwrap_or(0)));
                        }
                        Err(e) => res = Err(e),
                    }
                }
                9 | 10 => {
                    let all = r.chance(1, 3);
                    let g = if r.chance(1, 2) { None } else { Some(TagGroup::from_str(["wind", "sky", "color_table"][r.below(3)]).unwrap()) };
                    let f = *r.pick(&["*", "*.wind", "levels\\*", "*b*", "a*", "?*.*", "levels/a/b.*", "*\\b", "", "??????", "*.wind.*"]);
                    rec = json!({"op": if r.chance(1, 2) { "list" } else { "walk" }, "all": all, "f": cps(f), "g": cps(g.map(|g| g.as_str()).unwrap_or(""))});
                    let filter = TagFilter::new(f, g);
                    let filter = if all { None } else { Some(&filter) };
                    let walk = rec["op"] == "walk";
                    res = guard(|| {
                        let l: Vec<TagPath> = if walk { iterate_through_all_tags(&tree, filter).collect() } else { tree.get_all_tags_with_filter(filter) };
                        Value::Array(l.iter().map(|p| match w.names.iter().position(|n| n == p) { Some(i) => json!(i + 1), None => json!(-1) }).collect())
                    });
                }
                11 => {
                    let l = 1 + r.below(locs);
                    if blocked.contains(&(l, t)) { continue }
                    if r.chance(1, 2) {
                        let c = [0, 1000, 2000][r.below(3)] + 1 + r.below(3) as i64;
                        rec = json!({"op": "put", "t": t, "loc": l, "c": c});
                        w.put(l, t, c);
                    } else {
                        rec = json!({"op": "remove", "t": t, "loc": l});
                        let _ = std::fs::remove_file(w.file(l, t));
                    }
                    res = Ok(json!(0));
                }
                _ => {
                    if r.chance(1, 2) {
                        let s = r.chance(1, 2);
                        rec = json!({"op": "strict", "v": s});
                        tree.set_strictness(if s { ParseStrictness::Strict } else { ParseStrictness::Relaxed });
                        res = Ok(json!(0));
                    } else {
                        let k = 1 + r.below(3);
                        let ex: Vec<bool> = (0..k).map(|_| r.chance(3, 4)).collect();
                        let ps: Vec<PathBuf> = ex.iter().map(|e| if *e { w.dir(1 + r.below(locs)) } else { w.root.join("missing") }).collect();
                        rec = json!({"op": "new", "exist": ex});
                        res = guard(|| match VirtualTagsDirectory::new(&ps, None) {
                            Ok(t) => json!(ps.iter().enumerate().all(|(i, p)| t.get_directory(i) == Some(p)) && t.get_directory(ps.len()).is_none() && !t.is_read_only()),
                            Err(Error::InvalidTagsDirectory) => json!(false),
                            Err(e) => json!(e.to_string()),
                        });
                    }
                }
            }
            match res { Ok(v) => rec["ret"] = v, Err(e) => rec["crash"] = json!(e) }
            rec["disk"] = json!(w.disk());
            out.put(&rec);
        }
        let _ = std::fs::remove_dir_all(&w.root);
    }
    out.finish()
}
