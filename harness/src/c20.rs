//! Setting and stripping default values.
use crate::c11::*;
use crate::util::*;
use crate::value::*;
use ringhopper::definitions::*;
use ringhopper::primitives::dynamic::DynamicTagData;
use ringhopper::primitives::primitive::*;
use ringhopper::primitives::tag::*;
use ringhopper::tag::default::*;
use serde_json::{json, Value};
use std::sync::OnceLock;

fn table() -> &'static Value {
    static L: OnceLock<Value> = OnceLock::new();
    L.get_or_init(|| serde_json::from_str(include_str!("../../specs/defaults.json")).unwrap())
}
fn put(d: &mut dyn DynamicTagData, v: &Value) {
    let a = d.as_any_mut();
    let f = |i: usize| { let b: [u8; 4] = to_bytes(&v[i]).try_into().unwrap(); f32::from_be_bytes(b) as f64 };
    let h = || u16::from_be_bytes(to_bytes(&v[0]).try_into().unwrap());
    if let Some(x) = a.downcast_mut::<f64>() { *x = f(0); return }
    if let Some(x) = a.downcast_mut::<Angle>() { x.angle = f(0) as f32; return }
    if let Some(x) = a.downcast_mut::<u16>() { *x = h(); return }
    if let Some(x) = a.downcast_mut::<i16>() { *x = h() as i16; return }
    if let Some(x) = a.downcast_mut::<ColorRGBFloat>() { x.red = f(0); x.green = f(1); x.blue = f(2); return }
    panic!("{:?}", d.data_type())
}
fn nought(v: &Value) -> Value {
    match v { Value::Array(a) => a.iter().map(nought).collect(), _ => json!(0) }
}
/// Give the fields that have a default value it, or zero, or nearly so.
fn bias(r: &mut Rng, s: &str, d: &mut dyn DynamicTagData) {
    for f in fields(s) {
        if f["k"] == "pad" || f["x"] == true { continue }
        let n = f["n"].as_str().unwrap();
        let d = d.get_field_mut(n).unwrap();
        let def = &table()[s][n];
        if !def.is_null() {
            let v = match r.below(4) { 0 => continue, 1 => nought(def), _ => def.clone() };
            if f["form"] == "one" { put(d, &v); continue }
            let c = f["cnt"].as_u64().unwrap() as usize;
            for i in 0..c { put(d.as_array_mut().unwrap().get_at_index_mut(i).unwrap(), &v[i]) }
            if r.chance(1, 4) { let i = r.below(c); fill_prim(r, d.as_array_mut().unwrap().get_at_index_mut(i).unwrap()) }
        }
        else if f["form"] == "one" && f["k"] == "struct" { bias(r, f["s"].as_str().unwrap(), d) }
        else if f["k"] == "refl" {
            let a = d.as_array_mut().unwrap();
            for i in 0..a.len() { bias(r, f["s"].as_str().unwrap(), a.get_at_index_mut(i).unwrap()) }
        }
    }
}
fn part(r: &mut Rng, p: &mut ModelGeometryPart) {
    p.next_filthy_part_index = *r.pick(&[0, 255, 255, 3]);
    p.prev_filthy_part_index = *r.pick(&[0, 255, 255, 0]);
}
fn special(r: &mut Rng, t: &mut dyn ringhopper::primitives::tag::PrimaryTagStructDyn) {
    if let Some(x) = ringhopper::tag::object::downcast_base_object_mut(t) {
        match r.below(4) { 0 => x.render_bounding_radius = x.bounding_radius, 1 => x.render_bounding_radius = 0.0, _ => {} }
    }
    let t = t.as_any_mut();
    if let Some(x) = t.downcast_mut::<Sound>() {
        if r.chance(1, 2) {
            let c = x.sound_class;
            // whatever the class has, by way of the unset value (the order of the two does not matter here)
            let mut y = Sound::default();
            y.sound_class = c;
            set_all_defaults_for_tag(&mut y);
            if r.chance(2, 3) { x.distance_bounds = y.distance_bounds }
            if r.chance(2, 3) { x.zero_gain_modifier = y.zero_gain_modifier; x.one_gain_modifier = y.one_gain_modifier }
            if r.chance(1, 2) { x.distance_bounds.lower = x.distance_bounds.lower as f32 as f64; }
        }
        for p in &mut x.pitch_ranges {
            let n = p.permutations.items.len();
            p.actual_permutation_count = r.below(n + 2) as u16;
            match r.below(3) { 0 => {}, 1 => p.bend_bounds = Bounds { lower: 0.0, upper: p.natural_pitch }, _ => p.bend_bounds = Bounds { lower: -1.0, upper: 0.0 } }
            let tidy = r.chance(1, 2);
            for (i, q) in p.permutations.items.iter_mut().enumerate() {
                q.next_permutation_index = if tidy { if i + 1 < n && r.chance(5, 6) { Some(i as u16 + 1) } else { None } } else if r.chance(1, 3) { None } else { Some(r.below(n + 2) as u16) };
            }
        }
    }
    if let Some(x) = t.downcast_mut::<Model>() { for g in &mut x.geometries { for p in &mut g.parts { part(r, p) } } }
    if let Some(x) = t.downcast_mut::<GBXModel>() { for g in &mut x.geometries { for p in &mut g.parts { part(r, &mut p.model_geometry_part) } } }
    if let Some(x) = t.downcast_mut::<LensFlare>() { x.rotation_function_scale = Angle::from_radians(*r.pick(&[0.0, 360.0, std::f32::consts::TAU, 1.0, 2.5, -0.0])) }
    if let Some(x) = t.downcast_mut::<Light>() {
        let b = &mut x.color.color;
        let v = *r.pick(&[0.0, 1.0]);
        for c in [&mut b.lower, &mut b.upper] { (c.red, c.green, c.blue) = (v, v, v); if r.chance(1, 4) { c.alpha = 1.0 - v } }
        if r.chance(1, 4) { match r.below(3) { 0 => b.lower.red = 0.5, 1 => b.upper.green = 1.0 - v, _ => b.upper.blue = 0.25 } }
    }
}

pub fn run(a: &Args) -> usize {
    let mut out = Out::new(&a.out);
    let mut r = Rng::new(a.seed);
    for round in 0..a.n {
        for g in groups() {
            let group = TagGroup::from_str(&g).unwrap();
            let s = group_struct(&g);
            let own = matches!(g.as_str(), "sound" | "light" | "particle" | "light_volume" | "shader_model" | "shader_transparent_chicago" | "shader_transparent_chicago_extended" | "shader_transparent_generic" | "lens_flare" | "sound_looping" | "model" | "gbxmodel");
            let table_only = group_has_defaults(group);
            // groups without default values are tried now and then
            if !own && !table_only && round % 8 != 1 { continue }
            for _ in 0..if own { 3 } else { 1 } {
                PLAIN.set(true);
                let mut t = random_tag(&mut r, &g, if own { 3 } else { 2 }, if own { 1600 } else { 700 });
                bias(&mut r, s, t.as_mut_dynamic());
                special(&mut r, t.as_mut());
                PLAIN.set(false);
                // as read from a file
                if r.chance(1, 2) {
                    let f = t.to_tag_file().unwrap();
                    t = read_any_tag_from_file_buffer(&f, ParseStrictness::Strict).unwrap();
                }
                let dump = |t: &Box<dyn ringhopper::primitives::tag::PrimaryTagStructDyn>| dump_all(s, t.as_dynamic());
                let mut rec = json!({"group": g, "has": group_has_defaults(group), "a": dump(&t)});
                about_to(&json!({"group": g}));
                match guard(|| {
                    let mut x = t.clone_inner();
                    set_all_defaults_for_tag(x.as_mut());
                    let set = dump(&x);
                    set_all_defaults_for_tag(x.as_mut());
                    let set2 = dump(&x);
                    let mut y = t.clone_inner();
                    unset_all_defaults_for_tag(y.as_mut());
                    let strip = dump(&y);
                    unset_all_defaults_for_tag(y.as_mut());
                    let strip2 = dump(&y);
                    set_all_defaults_for_tag(y.as_mut());
                    (set, strip, set2, strip2, dump(&y))
                }) {
                    Ok((set, strip, set2, strip2, back)) => { rec["set"] = set; rec["strip"] = strip; rec["again"] = json!([set2, strip2]); rec["back"] = back }
                    Err(e) => rec["crash"] = json!(e),
                }
                out.put(&rec);
            }
        }
    }
    out.finish()
}
