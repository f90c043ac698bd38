//! Dependency queries.
use crate::gtree::*;
use crate::util::*;
use crate::value::*;
use ringhopper::definitions::*;
use ringhopper::error::Error;
use ringhopper::primitives::primitive::*;
use ringhopper::primitives::tag::*;
use ringhopper::tag::dependency::*;
use ringhopper::tag::tree::*;
use ringhopper_engines::ALL_SUPPORTED_ENGINES;
use serde_json::{json, Value};
use std::collections::{HashMap, HashSet};

struct World {
    names: Vec<TagPath>,
    ids: HashMap<TagPath, usize>,
}
impl World {
    fn id(&mut self, p: &TagPath) -> usize {
        if let Some(i) = self.ids.get(p) { return *i }
        self.names.push(p.clone());
        self.ids.insert(p.clone(), self.names.len());
        self.names.len()
    }
    fn known(&self, p: &TagPath) -> usize { self.ids.get(p).copied().unwrap_or(0) }
    /// st, leaf and refs of every tag and everything it refers to
    fn describe(tree: &GTree) -> (World, Value) {
        let mut w = World { names: vec![], ids: HashMap::new() };
        for p in tree.tags.keys() { w.id(p); }
        let mut refs: Vec<Vec<usize>> = vec![];
        for t in tree.tags.values() {
            refs.push(t.as_ref().map(|t| refs_of(t.as_ref()).iter().map(|p| w.id(p)).collect()).unwrap_or_default());
        }
        refs.resize(w.names.len(), vec![]);
        let st: Vec<&str> = w.names.iter().map(|n| match tree.tags.get(n) { None => "missing", Some(None) => "unreadable", Some(Some(_)) => "ok" }).collect();
        let leaf: Vec<bool> = w.names.iter().map(|n| is_leaf(n.group().as_str())).collect();
        let v = json!({"st": st, "leaf": leaf, "refs": refs});
        (w, v)
    }
}
fn struct_refs(s: &str, seen: &mut HashSet<String>, out: &mut HashSet<String>) {
    if !seen.insert(s.to_string()) { return }
    for f in fields(s) {
        match f["k"].as_str().unwrap() {
            "ref" => for g in f["g"].as_array().unwrap() { out.insert(g.as_str().unwrap().to_string()); },
            "struct" | "refl" => struct_refs(f["s"].as_str().unwrap(), seen, out),
            _ => (),
        }
    }
}
pub fn may_refer_to(g: &str) -> HashSet<String> {
    let mut out = HashSet::new();
    if layout()["groups"].get(g).is_none() { return out }
    struct_refs(group_struct(g), &mut HashSet::new(), &mut out);
    // a field that may name an object may name any kind of object
    for (g, v) in layout()["groups"].as_object().unwrap() {
        let mut up = v["up"].as_str().unwrap();
        while !up.is_empty() {
            if out.contains(up) { out.insert(g.clone()); break }
            up = layout()["groups"][up]["up"].as_str().unwrap();
        }
    }
    if out.contains("*") { out = layout()["groups"].as_object().unwrap().keys().cloned().collect(); }
    out
}
pub fn is_leaf(g: &str) -> bool { may_refer_to(g).is_empty() }

fn error(w: &World, e: &Error) -> Value {
    match e {
        Error::TagNotFound(t) => json!({"kind": "not_found", "t": w.known(t)}),
        Error::BrokenDependency(d, t) => json!({"kind": "broken", "d": w.known(d), "t": w.known(t)}),
        Error::FailedToReadTag(t, _) => json!({"kind": "unreadable", "t": w.known(t)}),
        e => json!({"kind": "unreadable", "t": 0, "text": e.to_string()}),
    }
}
fn deps<T: TagTree>(w: &World, tree: &T, root: &TagPath, allow: bool) -> Value {
    match recursively_get_dependencies_for_tag(root, tree, allow) {
        Ok(m) => {
            let (mut found, mut refs) = (vec![], vec![]);
            for (k, v) in m {
                found.push(w.known(&k));
                refs.push(v.iter().map(|p| w.known(p)).collect::<Vec<_>>());
            }
            json!({"kind": "ok", "found": found, "refs": refs})
        }
        Err(e) => error(w, &e),
    }
}
fn set(w: &World, s: impl IntoIterator<Item = TagPath>) -> Value {
    json!({"kind": "ok", "found": s.into_iter().map(|p| w.known(&p)).collect::<Vec<_>>()})
}
enum Rig<'a> {
    Mem(&'a GTree),
    Cache(CachingTagTree<&'a GTree>),
    Disk(VirtualTagsDirectory),
    DiskCache(CachingTagTree<VirtualTagsDirectory>),
}
macro_rules! on_rig {
    ($rig:expr, $t:ident => $e:expr) => { match $rig { Rig::Mem($t) => $e, Rig::Cache($t) => $e, Rig::Disk($t) => $e, Rig::DiskCache($t) => $e } };
}
// TagTree for a reference (a caching tree wants to own its backing tree)
use ringhopper::error::RinghopperResult;
impl<'a> TagTree for &'a GTree {
    fn open_tag_copy(&self, path: &TagPath) -> RinghopperResult<Box<dyn PrimaryTagStructDyn>> { (**self).open_tag_copy(path) }
    fn files_in_path(&self, path: &str) -> Option<Vec<TagTreeItem>> { (**self).files_in_path(path) }
    fn write_tag(&mut self, _: &TagPath, _: &dyn PrimaryTagStructDyn) -> RinghopperResult<bool> { unreachable!() }
    fn is_read_only(&self) -> bool { true }
    fn contains(&self, path: &TagPath) -> bool { (**self).contains(path) }
    fn root(&self) -> TagTreeItem { (**self).root() }
    fn tree_type(&self) -> TreeType { TreeType::LooseTags }
    fn get_all_tags_with_filter(&self, f: Option<&TagFilter>) -> Vec<TagPath> { (**self).get_all_tags_with_filter(f) }
}
fn rig<'a>(r: &mut Rng, tree: &'a GTree, dir: &std::path::Path) -> Rig<'a> {
    match r.below(6) {
        0 | 1 => Rig::Mem(tree),
        2 | 3 => Rig::Cache(CachingTagTree::new(tree, CachingTagTreeWriteStrategy::Manual)),
        n => {
            let d = [dir.join("a"), dir.join("b")];
            d.iter().for_each(|d| fresh_dir(d));
            for (p, t) in &tree.tags {
                let f = r.pick(&d).join(p.to_native_path());
                std::fs::create_dir_all(f.parent().unwrap()).unwrap();
                std::fs::write(f, match t { Some(t) => t.to_tag_file().unwrap(), None => b"junk".to_vec() }).unwrap();
            }
            let v = VirtualTagsDirectory::new(&d, None).unwrap();
            if n == 4 { Rig::Disk(v) } else { Rig::DiskCache(CachingTagTree::new(v, CachingTagTreeWriteStrategy::Manual)) }
        }
    }
}
fn put(out: &mut Out, mut rec: Value, base: &Value, r: Result<Value, String>) {
    for (k, v) in base.as_object().unwrap() { rec[k] = v.clone(); }
    match r { Ok(v) => rec["out"] = v, Err(e) => rec["crash"] = json!(e) }
    out.put(&rec);
}

pub fn run(a: &Args) -> usize {
    let mut out = Out::new(&a.out);
    let mut r = Rng::new(a.seed);
    if a.cases.is_some() {
        for c in a.cases() {
            let st = c["st"].as_array().unwrap();
            let names: Vec<TagPath> = (0..st.len()).map(|i| TagPath::from_path(&format!("n{i}.{}", if c["leaf"][i] == true { "wind" } else { "tag_collection" })).unwrap()).collect();
            let mut tree = GTree::default();
            for i in 0..st.len() {
                if st[i] == "missing" { continue }
                if st[i] == "unreadable" { tree.tags.insert(names[i].clone(), None); continue }
                let t: Box<dyn PrimaryTagStructDyn> = if c["leaf"][i] == true { Box::new(Wind::default()) } else {
                    let mut t = TagCollection::default();
                    for j in 0..st.len() {
                        if c["refs"][i][j] == true { t.tags.items.push(TagCollectionTag { reference: TagReference::Set(names[j].clone()) }) }
                    }
                    Box::new(t)
                };
                tree.tags.insert(names[i].clone(), Some(t));
            }
            let mut w = World { names: vec![], ids: HashMap::new() };
            names.iter().for_each(|n| { w.id(n); });
            let refs: Vec<Vec<usize>> = (0..st.len()).map(|i| (0..st.len()).filter(|j| c["refs"][i][*j] == true).map(|j| j + 1).collect()).collect();
            let base = json!({"st": c["st"], "leaf": c["leaf"], "refs": refs});
            about_to(&base);
            let cached = CachingTagTree::new(&tree, CachingTagTreeWriteStrategy::Instant);
            for allow in [true, false] {
                put(&mut out, json!({"op": "deps", "root": 1, "allow": allow}), &base, guard_ms(5000, || if allow { deps(&w, &tree, &names[0], allow) } else { deps(&w, &cached, &names[0], allow) }));
            }
            put(&mut out, json!({"op": "reverse", "t": 1}), &base, guard_ms(5000, || match get_reverse_dependencies_for_tag(&names[0], &tree) { Ok(s) => set(&w, s), Err(e) => error(&w, &e) }));
        }
        return out.finish();
    }
    let empty = json!({});
    for g in groups() {
        let group = TagGroup::from_str(&g).unwrap();
        let want: Vec<String> = may_refer_to(&g).into_iter().collect();
        put(&mut out, json!({"op": "referenceable", "g": g, "want": want}), &empty, guard(|| json!(get_all_referenceable_tag_groups_for_group(group).iter().map(|g| g.as_str()).collect::<Vec<_>>())));
    }
    let paths = ["x", "y", "levels\\z", "é"];
    let dir = a.scratch.join("c05");
    for round in 0..a.n {
        // a world
        let mut tree = GTree::default();
        let mut nodes: Vec<TagPath> = vec![];
        for _ in 0..1 + r.below(9) {
            let p = TagPath::new(*r.pick(&paths), TagGroup::from_str(*r.pick(LINKING)).unwrap()).unwrap();
            if !nodes.contains(&p) { nodes.push(p) }
        }
        let missing = if r.chance(2, 3) { 0 } else { 40 };
        let gone = r.chance(1, 3);
        for n in &nodes {
            let t = linked_tag(&mut r, n.group().as_str(), &nodes, 600, missing);
            if gone && r.chance(1, 6) { continue }
            tree.tags.insert(n.clone(), if gone && r.chance(1, 8) { None } else { Some(t) });
        }
        let (w, base) = World::describe(&tree);
        if w.names.is_empty() { continue }
        about_to(&base);
        let rg = rig(&mut r, &tree, &dir);
        for n in &nodes {
            if let Some(Some(t)) = tree.tags.get(n) {
                let want: Vec<String> = refs_of(t.as_ref()).iter().map(|p| p.to_string()).collect();
                put(&mut out, json!({"op": "direct", "tag": n.to_string(), "want": want}), &empty, guard(|| json!(get_tag_dependencies_for_block(t.as_dynamic()).iter().map(|p| p.to_string()).collect::<Vec<_>>())));
            }
        }
        for _ in 0..3 {
            let root = r.pick(&w.names).clone();
            let allow = r.chance(1, 2);
            put(&mut out, json!({"op": "deps", "root": w.known(&root), "allow": allow}), &base, guard_ms(10_000, || on_rig!(&rg, t => deps(&w, t, &root, allow))));
            let t = r.pick(&w.names).clone();
            put(&mut out, json!({"op": "reverse", "t": w.known(&t)}), &base, guard_ms(10_000, || on_rig!(&rg, x => match get_reverse_dependencies_for_tag(&t, x) { Ok(s) => set(&w, s), Err(e) => error(&w, &e) })));
        }
        if round % 6 != 0 { continue }
        // a map
        let mut engine = (*r.pick(ALL_SUPPORTED_ENGINES)).clone();
        let scenario = TagPath::from_path("levels\\z.scenario").unwrap();
        let kind = r.below(3);
        let leak = |v: Vec<String>| -> &'static [&'static str] { Box::leak(v.into_iter().map(|s| &*Box::leak(s.into_boxed_str())).collect::<Vec<&str>>().into_boxed_slice()) };
        if r.chance(3, 4) {
            // an engine of our own that requires tags of this world
            let mut some = |r: &mut Rng| -> &'static [&'static str] { leak((0..r.below(3)).map(|_| r.pick(&nodes).to_internal_path()).collect()) };
            engine.required_tags.all = some(&mut r);
            engine.required_tags.singleplayer = some(&mut r);
            engine.required_tags.multiplayer = some(&mut r);
            engine.required_tags.user_interface = some(&mut r);
        }
        let rt = &engine.required_tags;
        let required: Vec<TagPath> = rt.all.iter().chain([rt.singleplayer, rt.multiplayer, rt.user_interface][kind]).map(|s| TagPath::from_path(s).unwrap()).collect();
        let mut all = nodes.clone();
        all.retain(|n| *n != scenario);
        for q in &required { if !all.contains(q) { all.push(q.clone()) } }
        let mut sc = linked_tag(&mut r, "scenario", &all, 300, 0);
        sc.get_mut::<Scenario>().unwrap()._type = [ScenarioType::Singleplayer, ScenarioType::Multiplayer, ScenarioType::UserInterface][kind].clone();
        let sc = canonical(sc.as_ref()).unwrap();
        tree.tags.clear();
        for n in &all {
            if gone && r.chance(1, 10) { continue }
            let t = if nodes.contains(n) { linked_tag(&mut r, n.group().as_str(), &all, 300, 0) } else { crate::groups::new_tag(n.group().as_str()) };
            tree.tags.insert(n.clone(), Some(t));
        }
        tree.tags.insert(scenario.clone(), Some(sc));
        let (mut w, _) = World::describe(&tree);
        let (w2, base) = World::describe(&tree);
        drop(w2);
        // required tags that nothing refers to and that do not exist are part of the world, too
        let known = w.names.len();
        let req: Vec<usize> = required.iter().map(|p| w.id(p)).collect();
        let mut base = base;
        for i in known..w.names.len() {
            base["st"].as_array_mut().unwrap().push(json!("missing"));
            base["leaf"].as_array_mut().unwrap().push(json!(is_leaf(w.names[i].group().as_str())));
            base["refs"].as_array_mut().unwrap().push(json!([]));
        }
        about_to(&base);
        let rg = rig(&mut r, &tree, &dir);
        put(&mut out, json!({"op": "map", "root": w.known(&scenario), "required": req, "engine": engine.name}), &base, guard_ms(10_000, || on_rig!(&rg, t => match recursively_get_dependencies_for_map(&scenario, t, &engine) {
            Ok(s) => set(&w, s),
            Err(e) => error(&w, &e),
        })));
    }
    let _ = std::fs::remove_dir_all(&dir);
    out.finish()
}
