//! Comparing tags.
use crate::c11::*;
use crate::util::*;
use crate::value::*;
use ringhopper::primitives::dynamic::DynamicTagData;
use ringhopper::primitives::primitive::*;
use ringhopper::primitives::tag::*;
use ringhopper::tag::compare::*;
use serde_json::{json, Value};

/// Change one thing somewhere.
fn touch(r: &mut Rng, s: &str, d: &mut dyn DynamicTagData) {
    let fs: Vec<&Value> = fields(s).iter().filter(|f| f["k"] != "pad" && f["x"] != true).collect();
    if fs.is_empty() { return }
    let deep: Vec<&&Value> = fs.iter().filter(|f| f["k"] == "refl" || f["k"] == "struct").collect();
    let f: &Value = if !deep.is_empty() && r.chance(2, 3) { **r.pick(&deep) } else { *r.pick(&fs) };
    let mut d = d.get_field_mut(f["n"].as_str().unwrap()).unwrap();
    if f["form"] != "one" {
        let n = r.below(f["cnt"].as_u64().unwrap() as usize);
        d = d.as_array_mut().unwrap().get_at_index_mut(n).unwrap();
    }
    let mut o = Fill { max_items: 2, budget: 400, paths: vec![] };
    match f["k"].as_str().unwrap() {
        "refl" => {
            let n = d.as_array().unwrap().len();
            if n > 0 && r.chance(4, 5) { let i = r.below(n); touch(r, f["s"].as_str().unwrap(), d.as_array_mut().unwrap().get_at_index_mut(i).unwrap()) }
            else { let i = r.below(n + 1); grow(d, i) }
        }
        "struct" => touch(r, f["s"].as_str().unwrap(), d),
        "bits" => {
            let fs = d.fields();
            if !fs.is_empty() { let b = d.get_field_mut(*r.pick(fs)).unwrap().as_any_mut().downcast_mut::<bool>().unwrap(); *b = !*b }
        }
        "prim" => {
            // what a file cannot hold is no difference
            if let Some(x) = d.as_any_mut().downcast_mut::<f64>() { if r.chance(1, 2) { *x *= 1.0 + 1e-14; return } }
            fill_prim(r, d)
        }
        "data" if r.chance(1, 2) => { if let Some(x) = bytes_of(d) { touch_bytes(r, x) } }
        _ => fill_one(r, &mut o, f, d),
    }
}
fn bytes_of(d: &mut dyn DynamicTagData) -> Option<&mut Vec<u8>> {
    let d = d.as_any_mut();
    if d.is::<Data>() { return d.downcast_mut::<Data>().map(|x| &mut x.bytes) }
    if d.is::<FileData>() { return d.downcast_mut::<FileData>().map(|x| &mut x.bytes) }
    d.downcast_mut::<BSPVertexData>().map(|x| &mut x.bytes)
}
/// A small change of data: a bit, two neighbours or distant bytes swapped, two that cancel out, one more or one less.
fn touch_bytes(r: &mut Rng, x: &mut Vec<u8>) {
    if x.len() < 3 { x.extend([1, 2, 3, 4, 5]); return }
    let (i, j) = (r.below(x.len()), r.below(x.len()));
    match r.below(8) {
        0 => x[i] ^= 1 << r.below(8),
        1 => { let k = i.min(x.len() - 2); x.swap(k, k + 1) }
        2 => x.swap(i, j),
        3 => { if i != j { x[i] = x[i].wrapping_add(1); x[j] = x[j].wrapping_sub(1) } }
        4 => x.push(0),
        5 => { x.pop(); }
        6 => x.insert(0, 0),
        _ => x.rotate_left(1),
    }
}
/// Any data, wherever it is.
fn touch_any_data(r: &mut Rng, t: &mut dyn PrimaryTagStructDyn) {
    let mut n = 0;
    for_each_field_mut(t.as_mut_dynamic(), true, |_, d| if bytes_of(d).is_some() { n += 1 });
    if n == 0 { return }
    let (k, mut i) = (r.below(n), 0);
    let seed = r.next();
    for_each_field_mut(t.as_mut_dynamic(), true, |_, d| if let Some(x) = bytes_of(d) { if i == k { touch_bytes(&mut Rng::new(seed), x) }; i += 1 });
}
fn list(d: Vec<TagComparisonDifference>) -> Value { json!(d.iter().map(|x| json!({"p": x.path, "d": x.depth, "t": x.difference})).collect::<Vec<_>>()) }

pub fn run(a: &Args) -> usize {
    let mut out = Out::new(&a.out);
    let mut r = Rng::new(a.seed);
    for round in 0..a.n {
        for g in groups() {
            let s = group_struct(&g);
            let (items, budget) = match round % 4 { 0 => (3, 800), 1 => (2, 1500), 2 => (12, 1500), _ => (1, 600) };
            let x = random_tag(&mut r, &g, items, budget);
            let y = match r.below(8) {
                0 => random_tag(&mut r, &g, items, budget),
                1 => crate::groups::new_tag(&g),
                n => {
                    let mut y = x.clone_inner();
                    for _ in 0..n - 2 { if r.chance(1, 3) { touch_any_data(&mut r, y.as_mut()) } else { touch(&mut r, s, y.as_mut_dynamic()) } }
                    y
                }
            };
            let (mut x, mut y) = (x, y);
            for t in [&mut x, &mut y] {
                // a reference without a path is stored like none at all
                ringhopper::tag::dependency::for_each_dependency_mut(t.as_mut_dynamic(), true, |_, rf| if rf.path().is_some_and(|p| p.path().is_empty()) { *rf = TagReference::Null(rf.group()) });
            }
            let all = r.chance(1, 2);
            let mut rec = json!({"group": g, "all": all, "a": dump_all(s, x.as_dynamic()), "b": dump_all(s, y.as_dynamic())});
            about_to(&json!({"group": g}));
            match guard(|| (list(compare_tags(x.as_ref(), y.as_ref(), all, false)), list(compare_tags(y.as_ref(), x.as_ref(), all, false)), list(compare_tags(x.as_ref(), y.as_ref(), all, true)))) {
                Ok((f, b, s)) => { rec["full"] = f; rec["back"] = b; rec["short"] = s }
                Err(e) => rec["crash"] = json!(e),
            }
            out.put(&rec);
        }
    }
    out.finish()
}
