//! Tags as they are in cache files: made here byte by byte, read by the real code, value by value.
use crate::c15::*;
use crate::c25::Whole;
use crate::util::*;
use crate::value::*;
use ringhopper::definitions::*;
use ringhopper::map::*;
use ringhopper::primitives::map::*;
use serde_json::{json, Value};

fn tag(m: &Whole, i: usize) -> Value {
    let Some(t) = m.get_tag_by_index(i) else { return json!({"none": true}) };
    let path = t.tag_path.clone();
    let group = path.group().as_str();
    if layout()["groups"].get(group).is_none() { return json!({"none": true}) }
    let s = group_struct(group);
    match read_any_tag_from_map(&path, m) {
        Ok(t) => { let v = dump_all(s, t.as_dynamic()); json!({"none": false, "g": group, "ok": true, "v": v}) }
        Err(e) => json!({"none": false, "g": group, "ok": false, "v": [], "why": e.to_string().chars().take(120).collect::<String>()}),
    }
}
pub fn run(a: &Args) -> usize {
    let mut out = Out::new(&a.out);
    let mut r = Rng::new(a.seed ^ 0xC30);
    let dir = a.scratch.join("c30");
    fresh_dir(&dir);
    let all: Vec<String> = groups();
    for k in 0..a.n {
        let ext = k % 6 == 5;
        let mut eng = pick_engine(&mut r);
        // vertices of BSPs outside of them
        while ext && !eng.external_bsps { eng = pick_engine(&mut r) }
        // every group in turn, and some others
        let mut gs: Vec<&'static str> = vec![layout()["groups"].as_object().unwrap().keys().find(|g| **g == all[k % all.len()]).unwrap()];
        for _ in 0..r.below(3) { gs.push(group_name(&mut r)) }
        if r.chance(1, 6) { gs.push("sound") }
        gs.retain(|g| !matches!(*g, "scenario" | "scenario_structure_bsp"));
        if ext { gs.clear() }
        let plan = if ext { Plan { groups: gs, bsps: 2, tame: false, budget: 3000, dense: 90, named: vec![] } } else { Plan { groups: gs, bsps: r.below(3), tame: false, budget: 300 + r.below(1200), dense: *r.pick(&[30, 50, 80]), named: vec![] } };
        let (b, mut im) = build(&mut r, eng, &plan, &mut |r, b, _, _| { b.budget = if ext { 1200 } else { 100 + r.below(600) }; false });
        if r.chance(1, if ext { 6 } else { 2 }) { for _ in 0..1 + r.below(4) { spoil(&mut r, &mut im, &b) } }
        im.set_crc(u32::MAX);
        let f = store(&dir, &im, eng, false);
        if f.size < 0x800 { continue }
        let mut rec = json!({"head": bytes(&im.head), "body": bytes(&im.body), "size": f.size, "zs": "good", "eng": eng.name,
            "res": {"bitmaps": bytes(&im.bitmaps), "sounds": bytes(&im.sounds), "loc": bytes(&im.loc)}});
        about_to(&rec);
        let n = b.tags.len();
        match guard_ms(20000, || with_peak(|| load(&dir, true).ok().map(|m| {
            let m = Whole(m);
            let named = m.get_all_tags().iter().all(|t| !t.path().is_empty());
            (named, (0..n).map(|i| tag(&m, i)).collect::<Vec<_>>())
        }))) {
            Ok((None, _)) => continue,
            Ok((Some((named, tags)), peak)) => {
                if !named { continue }
                rec["tags"] = json!(tags);
                rec["peak"] = json!(peak / 1024);
            }
            Err(e) => rec["crash"] = json!(e),
        }
        out.put(&rec);
    }
    out.finish()
}
/// A number somewhere in the tags is another one.
fn spoil(r: &mut Rng, im: &mut Image, b: &Build) {
    let t = im.tag_start - 0x800;
    let tags: Vec<_> = b.tags.iter().filter(|x| !x.external && x.group != "scenario_structure_bsp").collect();
    if tags.is_empty() { return }
    let x = r.pick(&tags);
    let z = size_of(group_struct(x.group));
    let from = t + x.addr.wrapping_sub(b.base) as usize;
    // where things are said to be
    let mut marks = vec![];
    let mut o = 0;
    for f in fields(group_struct(x.group)) {
        let one = one_size(f);
        if matches!(f["k"].as_str().unwrap(), "refl" | "ref" | "data" | "group") { marks.push((o, one)) }
        o += one * f["cnt"].as_u64().unwrap() as usize;
    }
    let at = if !marks.is_empty() && r.chance(1, 2) { let (o, n) = *r.pick(&marks); from + o + 4 * r.below(n / 4) }
        else if r.chance(1, 3) { from + 4 * r.below(z / 4) } else { from + r.below((im.body.len() - from).max(1)) / 4 * 4 };
    if at + 4 > im.body.len() { return }
    let old = u32::from_le_bytes(im.body[at..at + 4].try_into().unwrap());
    let new = match r.below(8) {
        0 => u32::MAX, 1 => 0, 2 => 1, 3 => 2 + r.below(30) as u32,
        4 => old.wrapping_add(r.range(-9, 9) as u32),
        5 => old ^ (1 << r.below(32)),
        6 => b.base.wrapping_add(r.below(b.tagd.len()) as u32),
        _ => b.base.wrapping_add(b.tagd.len() as u32).wrapping_add(r.range(-20, 4) as u32),
    };
    im.body[at..at + 4].copy_from_slice(&new.to_le_bytes());
}
