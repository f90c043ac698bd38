//! Verification of scenarios, on many threads with perturbed schedules.
use crate::c05::is_leaf;
use crate::gtree::*;
use crate::util::*;
use ringhopper::definitions::*;
use ringhopper::error::{Error, RinghopperResult};
use ringhopper::primitives::primitive::*;
use ringhopper::primitives::tag::*;
use ringhopper::tag::tree::*;
use ringhopper::tag::verify::verify;
use ringhopper_engines::{Engine, ALL_SUPPORTED_ENGINES};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::hash::{Hash, Hasher};
use std::num::NonZeroUsize;
use std::sync::Arc;

/// Files in memory, shared by all runs of a world.
#[derive(Clone)]
struct Files(Arc<BTreeMap<TagPath, Vec<u8>>>);
impl TagTree for Files {
    fn open_tag_copy(&self, path: &TagPath) -> RinghopperResult<Box<dyn PrimaryTagStructDyn>> {
        match self.0.get(path) {
            None => Err(Error::TagNotFound(path.clone())),
            Some(t) => read_any_tag_from_file_buffer(t, ParseStrictness::Strict),
        }
    }
    fn files_in_path(&self, _: &str) -> Option<Vec<TagTreeItem>> { None }
    fn write_tag(&mut self, _: &TagPath, _: &dyn PrimaryTagStructDyn) -> RinghopperResult<bool> { unreachable!() }
    fn is_read_only(&self) -> bool { true }
    fn contains(&self, path: &TagPath) -> bool { self.0.contains_key(path) }
    fn root(&self) -> TagTreeItem { unreachable!() }
    fn tree_type(&self) -> TreeType { TreeType::LooseTags }
    fn get_all_tags_with_filter(&self, _: Option<&TagFilter>) -> Vec<TagPath> { self.0.keys().cloned().collect() }
}
/// Takes its time to open some of the tags (while those that refer to them are locked).
struct Slow(CachingTagTree<Files>, Option<TagPath>, u64);
impl TagTree for Slow {
    fn open_tag_copy(&self, path: &TagPath) -> RinghopperResult<Box<dyn PrimaryTagStructDyn>> { self.0.open_tag_copy(path) }
    fn open_tag_shared(&self, path: &TagPath) -> RinghopperResult<Arc<std::sync::Mutex<Box<dyn PrimaryTagStructDyn>>>> {
        if self.1.as_ref() == Some(path) { std::thread::sleep(std::time::Duration::from_micros(self.2)) }
        self.0.open_tag_shared(path)
    }
    fn files_in_path(&self, p: &str) -> Option<Vec<TagTreeItem>> { self.0.files_in_path(p) }
    fn write_tag(&mut self, _: &TagPath, _: &dyn PrimaryTagStructDyn) -> RinghopperResult<bool> { unreachable!() }
    fn is_read_only(&self) -> bool { true }
    fn contains(&self, path: &TagPath) -> bool { self.0.contains(path) }
    fn root(&self) -> TagTreeItem { unreachable!() }
    fn tree_type(&self) -> TreeType { TreeType::LooseTags }
    fn get_all_tags_with_filter(&self, f: Option<&TagFilter>) -> Vec<TagPath> { self.0.get_all_tags_with_filter(f) }
}
fn leak(s: String) -> &'static str { Box::leak(s.into_boxed_str()) }
fn set(p: &TagPath) -> TagReference { TagReference::Set(p.clone()) }
struct Build {
    names: Vec<TagPath>,
    tags: Vec<Box<dyn PrimaryTagStructDyn>>,
    chains: Vec<Vec<Vec<usize>>>,
    child: Vec<usize>,
    nan: Vec<bool>,
}
impl Build {
    fn add(&mut self, name: String, g: TagGroup, t: Box<dyn PrimaryTagStructDyn>, chains: Vec<Vec<usize>>) -> usize {
        self.names.push(TagPath::new(&name, g).unwrap());
        self.tags.push(t);
        self.chains.push(chains);
        self.child.push(0);
        self.nan.push(false);
        self.names.len()
    }
    fn n(&self, i: usize) -> TagReference { set(&self.names[i - 1]) }
}
/// Put a NaN somewhere.
fn spoil(t: &mut dyn PrimaryTagStructDyn) -> bool {
    let mut done = false;
    for_each_field_mut(t.as_mut_dynamic(), true, |_, b| {
        if !done { if let Some(f) = b.as_any_mut().downcast_mut::<f64>() { *f = f64::NAN; done = true } }
    });
    done
}
fn world(r: &mut Rng) -> (Build, TagPath, Vec<usize>, &'static Engine) {
    let mut b = Build { names: vec![], tags: vec![], chains: vec![], child: vec![], nan: vec![] };
    let big = r.chance(1, 3);
    let count = |r: &mut Rng| if big { 1 + r.below(6) } else { r.below(3) };
    let sometimes = |r: &mut Rng, v: &[usize]| -> Option<usize> { if v.is_empty() || r.chance(1, 4) { None } else { Some(*r.pick(v)) } };
    let bitmaps: Vec<usize> = (0..1 + count(r)).map(|i| b.add(format!("bitmap{i}"), TagGroup::Bitmap, Box::new(Bitmap::default()), vec![])).collect();
    let models: Vec<usize> = (0..count(r)).map(|i| {
        if r.chance(1, 2) { b.add(format!("m{i}"), TagGroup::GBXModel, Box::new(GBXModel { node_list_checksum: 5, ..Default::default() }), vec![]) }
        else { b.add(format!("m{i}"), TagGroup::Model, Box::new(Model { node_list_checksum: 5, ..Default::default() }), vec![]) }
    }).collect();
    let anims: Vec<usize> = (0..count(r)).map(|i| b.add(format!("a{i}"), TagGroup::ModelAnimations, Box::new(ModelAnimations::default()), vec![])).collect();
    let mut ustr = UnicodeStringList::default();
    ustr.strings.items.push(Default::default());
    if r.chance(3, 4) { ustr.strings.items[0].string = UTF16String::from_str("A") }
    let text = b.add("text".into(), TagGroup::UnicodeStringList, Box::new(ustr), vec![]);
    let mut hg = HUDGlobals::default();
    let has_text = r.chance(4, 5);
    if has_text { hg.messaging_parameters.item_message_text = b.n(text) }
    let hgi = b.add("ui\\hud".into(), TagGroup::HUDGlobals, Box::new(hg), if has_text { vec![vec![text]] } else { vec![] });
    let mut gl = Globals::default();
    gl.interface_bitmaps.items.push(GlobalsInterfaceBitmaps { hud_globals: b.n(hgi), ..Default::default() });
    let gli = b.add("globals\\globals".into(), TagGroup::Globals, Box::new(gl), vec![]);
    let mut all: Vec<usize> = vec![];
    // HUDs: children anywhere, also in circles
    let nh = count(r) + if r.chance(1, 2) { 2 } else { 0 };
    let first = b.names.len() + 1;
    let huds: Vec<usize> = (first..first + nh).collect();
    for i in 0..nh {
        let mut h = WeaponHUDInterface::default();
        let mut c = vec![];
        for _ in 0..r.below(3) {
            if let Some(x) = sometimes(r, &bitmaps) {
                h.crosshairs.items.push(WeaponHUDInterfaceCrosshair { crosshair_bitmap: b.n(x), crosshair_type: WeaponHUDInterfaceCrosshairType::ZoomOverlay, ..Default::default() });
                c.push(vec![x]);
            }
        }
        let k = b.add(format!("hud{i}"), TagGroup::WeaponHUDInterface, Box::new(h), c);
        assert_eq!(k, huds[i]);
    }
    for i in &huds {
        if r.chance(1, 4) { continue }
        let c = *r.pick(&huds);
        let c = if r.chance(1, 2) { huds[(i - first + 1) % nh] } else { c };
        let n = b.n(c);
        b.tags[i - 1].get_mut::<WeaponHUDInterface>().unwrap().child_hud = n;
        b.child[i - 1] = c;
    }
    all.extend(&huds);
    for i in 0..count(r) {
        let mut p = ParticleSystem::default();
        let mut c = vec![];
        let mut y = ParticleSystemType::default();
        for _ in 0..r.below(4) {
            if let Some(x) = sometimes(r, &bitmaps) {
                y.particle_states.items.push(ParticleSystemTypeParticleState { bitmaps: b.n(x), sequence_index: if r.chance(4, 5) { Some(0) } else { None }, ..Default::default() });
                if y.particle_states.items.last().unwrap().sequence_index.is_some() { c.push(vec![x]) }
            }
        }
        p.particle_types.items.push(y);
        all.push(b.add(format!("ps{i}"), TagGroup::ParticleSystem, Box::new(p), c));
    }
    for i in 0..count(r) {
        let mut u = UnitHUDInterface::default();
        let mut c = vec![];
        if let Some(x) = sometimes(r, &bitmaps) { u.hud_background.interface_bitmap = b.n(x); c.push(vec![x]) }
        if let Some(x) = sometimes(r, &bitmaps) { u.shield_panel_meter.hudinterface_meter_element.meter_bitmap = b.n(x); c.push(vec![x]) }
        if let Some(x) = sometimes(r, &bitmaps) { u.motion_sensor_foreground.interface_bitmap = b.n(x); c.push(vec![x]) }
        all.push(b.add(format!("uh{i}"), TagGroup::UnitHUDInterface, Box::new(u), c));
    }
    for i in 0..count(r) {
        let mut g = GrenadeHUDInterface::default();
        let mut c = vec![];
        if let Some(x) = sometimes(r, &bitmaps) { g.background.interface_bitmap = b.n(x); c.push(vec![x]) }
        if let Some(x) = sometimes(r, &bitmaps) { g.total_grenades_overlays.bitmap = b.n(x); c.push(vec![x]) }
        all.push(b.add(format!("gh{i}"), TagGroup::GrenadeHUDInterface, Box::new(g), c));
    }
    for i in 0..count(r) * 2 {
        let (mut o, mut c) = (Object::default(), vec![]);
        let m = sometimes(r, &models);
        let a = sometimes(r, &anims);
        if let Some(m) = m { o.model = b.n(m) }
        if let Some(a) = a { o.animation_graph = b.n(a) }
        if let Some(m) = m { c.push(if let Some(a) = a { vec![m, a] } else { vec![m] }) }
        if has_text { c.push(vec![text]) }
        if r.chance(1, 2) {
            let mut s = Scenery::default();
            s.basic_object.object = o;
            if r.chance(1, 12) {
                // a reference to a group that is not allowed there, even to itself
                s.basic_object.object.model = TagReference::Set(TagPath::new(&format!("o{i}"), TagGroup::Scenery).unwrap());
                c.clear();
            }
            all.push(b.add(format!("o{i}"), TagGroup::Scenery, Box::new(s), c));
        } else {
            let mut w = Weapon::default();
            w.item.object = o;
            if let Some(h) = sometimes(r, &huds) {
                w.hud_interface = b.n(h);
                w.zoom_levels = r.below(2) as u16;
                if w.zoom_levels > 0 { c.push(vec![h]) }
            }
            all.push(b.add(format!("o{i}"), TagGroup::Weapon, Box::new(w), c));
        }
    }
    // what is broken
    let p = 3 + r.below(12);
    for i in 0..b.tags.len() {
        if r.chance(1, p) { b.nan[i] = spoil(b.tags[i].as_mut()) }
    }
    // some are only reachable from others, some are not needed at all
    let mut roots = vec![gli];
    for i in all.iter().chain(&bitmaps) { if r.chance(3, 4) { roots.push(*i) } }
    r.shuffle(&mut roots);
    let (mut by_scenario, mut by_engine) = (vec![gli], vec![]);
    for i in roots { if r.chance(1, 2) { by_scenario.push(i) } else { by_engine.push(i) } }
    let mut tc = TagCollection::default();
    for i in by_scenario { tc.tags.items.push(TagCollectionTag { reference: b.n(i) }) }
    let coll = b.add("all".into(), TagGroup::TagCollection, Box::new(tc), vec![]);
    let mut sc = Scenario::default();
    sc._type = r.pick(&[ScenarioType::Singleplayer, ScenarioType::Multiplayer, ScenarioType::UserInterface]).clone();
    let s = b.add("levels\\x".into(), TagGroup::Scenario, Box::new(sc), vec![]);
    let mut engine = (*r.pick(ALL_SUPPORTED_ENGINES)).clone();
    engine.required_tags.all = Box::leak(by_engine.iter().map(|i| leak(b.names[i - 1].to_internal_path())).collect::<Vec<_>>().into_boxed_slice());
    engine.required_tags.singleplayer = Box::leak(vec![leak(b.names[coll - 1].to_internal_path())].into_boxed_slice());
    engine.required_tags.multiplayer = engine.required_tags.singleplayer;
    engine.required_tags.user_interface = engine.required_tags.singleplayer;
    let scenario = b.names[s - 1].clone();
    let mut req = by_engine;
    req.push(coll);
    req.push(s);
    (b, scenario, req, Box::leak(Box::new(engine)))
}
fn h(v: &Vec<String>) -> String {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    v.hash(&mut h);
    format!("{:x}", h.finish())
}

pub fn run(a: &Args) -> usize {
    let mut out = Out::new(&a.out);
    let mut r = Rng::new(a.seed);
    for _ in 0..a.n {
        let (b, scenario, roots, engine) = world(&mut r);
        let files = Files(Arc::new(b.names.iter().cloned().zip(b.tags.iter().map(|t| t.to_tag_file().unwrap())).collect()));
        let ids: HashMap<&TagPath, usize> = b.names.iter().enumerate().map(|(i, n)| (n, i + 1)).collect();
        let refs: Vec<Vec<usize>> = b.tags.iter().map(|t| if is_leaf(t.group().as_str()) { vec![] } else { refs_of(t.as_ref()).iter().map(|p| ids[p]).collect() }).collect();
        let world = json!({"names": b.names.iter().map(|n| n.to_string()).collect::<Vec<_>>(), "chains": b.chains, "child": b.child, "nan": b.nan, "refs": refs, "roots": roots});
        let mut single: Value = json!(null);
        let mut own = vec![false; b.names.len()];
        for (k, threads) in [1usize, 2, 3, 8, 2, 4, 8, if r.chance(1, 10) { 1 << 40 } else { 16 }].into_iter().enumerate() {
            let mut rec = world.clone();
            rec["op"] = json!("verify");
            rec["threads"] = json!(threads.min(1000));
            about_to(&rec);
            PERTURB.store(if k == 0 { 0 } else { [2, 5, 20][r.below(3)] }, std::sync::atomic::Ordering::Relaxed);
            let slow = if k == 0 || r.chance(1, 3) { None } else if r.chance(2, 3) { b.names.iter().find(|n| n.group() == TagGroup::UnicodeStringList).cloned() } else { Some(r.pick(&b.names).clone()) };
            let tree = Slow(CachingTagTree::new(files.clone(), CachingTagTreeWriteStrategy::Manual), slow, *r.pick(&[50, 200, 500]));
            let g = guard_ms(20_000, || verify(&scenario, tree, engine, NonZeroUsize::new(threads).unwrap()));
            PERTURB.store(0, std::sync::atomic::Ordering::Relaxed);
            match g {
                Err(e) => rec["crash"] = json!(e),
                Ok(Err(e)) => rec["out"] = json!(format!("error {e}")),
                Ok(Ok(m)) => {
                    let mut rs: Vec<_> = m.into_iter().map(|(p, t)| (ids.get(&p).copied().unwrap_or(0), t)).collect();
                    rs.sort_by_key(|x| x.0);
                    let suffix = " has errors and could not be opened";
                    let loopy = "Infinite loop detected";
                    let find: Vec<Value> = rs.iter().map(|(i, t)| json!([i, h(&t.errors), h(&t.warnings), h(&t.pedantic_warnings)])).collect();
                    if k == 0 {
                        single = json!(find);
                        for (i, t) in &rs { if *i > 0 { own[i - 1] = t.errors.iter().any(|e| !e.ends_with(suffix) && !e.starts_with(loopy)) } }
                    }
                    rec["out"] = json!("ok");
                    rec["reported"] = json!(rs.iter().map(|x| x.0).collect::<Vec<_>>());
                    rec["findings"] = json!(find);
                    rec["bad"] = json!(rs.iter().map(|x| !x.1.errors.is_empty()).collect::<Vec<_>>());
                    rec["blamed"] = json!(rs.iter().map(|x| x.1.errors.iter().filter_map(|e| e.strip_suffix(suffix)).map(|p| TagPath::from_path(p).ok().and_then(|p| ids.get(&p).copied()).unwrap_or(0)).collect::<Vec<_>>()).collect::<Vec<_>>());
                    rec["loop"] = json!(rs.iter().map(|x| x.1.errors.iter().any(|e| e.starts_with(loopy))).collect::<Vec<_>>());
                }
            }
            rec["single"] = single.clone();
            rec["own"] = json!(own);
            out.put(&rec);
        }
    }
    out.finish()
}
/// Verify some tags by themselves.
pub fn verify_tags(tags: Vec<(TagPath, Box<dyn PrimaryTagStructDyn>)>) -> Result<HashMap<TagPath, ringhopper::tag::result::TagResult>, String> {
    verify_tags_in(tags, Scenario::default())
}
pub fn verify_tags_in(tags: Vec<(TagPath, Box<dyn PrimaryTagStructDyn>)>, scenario: Scenario) -> Result<HashMap<TagPath, ringhopper::tag::result::TagResult>, String> {
    static ENGINE: std::sync::OnceLock<&'static Engine> = std::sync::OnceLock::new();
    let engine = *ENGINE.get_or_init(|| {
        let mut e = ALL_SUPPORTED_ENGINES[0].clone();
        e.required_tags.all = Box::leak(vec!["all.tag_collection"].into_boxed_slice());
        e.required_tags.singleplayer = &[];
        e.required_tags.multiplayer = &[];
        e.required_tags.user_interface = &[];
        Box::leak(Box::new(e))
    });
    let mut files = BTreeMap::new();
    let mut tc = TagCollection::default();
    for (p, t) in &tags {
        tc.tags.items.push(TagCollectionTag { reference: set(p) });
        files.insert(p.clone(), t.to_tag_file().map_err(|e| e.to_string())?);
    }
    files.insert(TagPath::new("all", TagGroup::TagCollection).unwrap(), tc.to_tag_file().unwrap());
    let hud = TagPath::new("hud", TagGroup::HUDGlobals).unwrap();
    let mut gl = Globals::default();
    gl.interface_bitmaps.items.push(GlobalsInterfaceBitmaps { hud_globals: set(&hud), ..Default::default() });
    files.insert(hud, HUDGlobals::default().to_tag_file().unwrap());
    files.insert(TagPath::new("globals\\globals", TagGroup::Globals).unwrap(), gl.to_tag_file().unwrap());
    let s = TagPath::new("levels\\x", TagGroup::Scenario).unwrap();
    files.insert(s.clone(), scenario.to_tag_file().unwrap());
    verify(&s, CachingTagTree::new(Files(Arc::new(files)), CachingTagTreeWriteStrategy::Manual), engine, NonZeroUsize::new(1).unwrap()).map_err(|e| e.to_string())
}
