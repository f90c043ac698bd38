//! Taking tags out of cache files: what was read, next to what was made of it.
use crate::c15::*;
use crate::c21::{all, floats, shown, weights, WEIGHT};
use crate::c25::Whole;
use crate::util::*;
use crate::value::*;
use ringhopper::definitions::*;
use ringhopper::primitives::engine::*;
use ringhopper::primitives::map::{DomainType, Map, ResourceMapType};
use ringhopper::primitives::primitive::*;
use ringhopper::primitives::tag::*;
use serde_json::{json, Value};

type T = Box<dyn PrimaryTagStructDyn>;
const PISTOL: &str = "weapons\\pistol\\pistol";
const PLASMA: &str = "weapons\\plasma rifle\\plasma rifle";
const BULLET: &str = "weapons\\pistol\\bullet";
const GROUPS: &[&str] = &["actor_variant", "bitmap", "bitmap", "bitmap", "continuous_damage_effect", "damage_effect", "gbxmodel", "gbxmodel", "model", "model", "light", "point_physics", "projectile", "projectile", "sound", "sound",
    "unicode_string_list", "font", "weapon", "biped", "vehicle", "scenery", "equipment", "garbage", "device_machine", "device_control", "device_light_fixture", "placeholder", "sound_scenery", "detail_object_collection", "fog"];
/// Numbers that are always shown.
fn shown_always(g: &str) -> &'static [&'static str] {
    match g {
        "actor_variant" => &["grenades.grenade_velocity"],
        "projectile" => &["minimum_velocity", "initial_velocity", "final_velocity", "material_response.potential_and"],
        "continuous_damage_effect" => &["camera_shaking.wobble_period"],
        "damage_effect" => &["camera_shaking.wobble_period", "damage.modifiers.elite_energy_shield"],
        "light" => &["effect_parameters.duration"],
        "point_physics" => &["air_friction", "water_friction"],
        "sound" => &["maximum_bend_rate"],
        "scenario" => &["cutscene_titles.fade_in_time", "cutscene_titles.up_time", "cutscene_titles.fade_out_time"],
        _ => &[],
    }
}
/// Where a number lies, by its dotted name.
fn at_path(s: &str, p: &str) -> usize {
    match p.split_once('.') {
        None => offset(s, p),
        Some((h, t)) => { let f = fields(s).iter().find(|f| f["n"] == h).unwrap(); offset(s, h) + at_path(f["s"].as_str().unwrap(), t) }
    }
}
fn number(r: &mut Rng) -> f32 {
    match r.below(7) {
        0 => 0.0,
        1 => r.range(-4000, 4000) as f32 / 64.0,
        2 => r.range(-9999, 9999) as f32 / *r.pick(&[10.0f32, 100.0, 1000.0, 30.0, 3.0, 7.0]),
        3 => (r.range(1, 99999) as f32 / 30.0) * *r.pick(&[1.0f32, 0.01, 1000.0]),
        4 => *r.pick(&[0.1f32, 0.2, 1.5, 30.0, 15.0, 0.5, 1.0, 0.033333335, 0.9999999, 1.0000001, 12345.678, 3.0e-5]),
        5 => r.range(1, 999) as f32 * 1e-6,
        _ => 1.0 + r.range(-200, 200) as f32 / 1000.0,
    }
}
/// A list in the tag whose header is at `h`: where its items are.
fn list(b: &mut Build, r: &mut Rng, d: Dom, h: usize, s: &str, n: usize) -> Vec<usize> {
    let z = size_of(s);
    let start = b.alloc(d, z * n);
    b.u32at(d, h, n as u32);
    let a = b.addr(d, start);
    b.u32at(d, h + 4, a);
    let v: Vec<usize> = (0..n).map(|i| start + i * z).collect();
    for at in &v { b.fill(r, d, *at, s) }
    v
}
fn poke(b: &mut Build, d: Dom, at: usize, s: &str, n: &str, v: &[u8]) { let o = at + at_path(s, n); put(b.buf(d), o, v) }
fn flag(s: &str, n: &str) -> u32 { 1 << layout()["bitfields"][s]["fields"].as_array().unwrap().iter().position(|f| f["n"] == n).unwrap() }
fn set_flag(b: &mut Build, at: usize, s: &str, n: &str, on: bool) {
    let o = at + offset(s, "flags");
    let f = fields(s).iter().find(|f| f["n"] == "flags").unwrap();
    let z = layout()["bitfields"][f["s"].as_str().unwrap()]["bytes"].as_u64().unwrap() as usize;
    let k = flag(f["s"].as_str().unwrap(), n);
    let mut w = [0u8; 4];
    w[..z].copy_from_slice(&b.tagd[o..o + z]);
    let mut v = u32::from_le_bytes(w);
    v = if on { v | k } else { v & !k };
    put(&mut b.tagd, o, &v.to_le_bytes()[..z])
}
fn reference(b: &mut Build, d: Dom, at: usize, i: Option<usize>) {
    let mut v = vec![0u8; 16];
    let mut four = to_bytes(&layout()["fourcc"][i.map(|i| b.tags[i].group).unwrap_or("detail_object_collection")]);
    four.reverse();
    put(&mut v, 0, &four);
    let id = i.map(|i| b.id(i)).unwrap_or(u32::MAX);
    put(&mut v, 12, &id.to_le_bytes());
    put(b.buf(d), at, &v)
}
fn weights_of(r: &mut Rng) -> Vec<f32> {
    let n = *r.pick(&[0usize, 1, 2, 2, 3, 3, 4, 5, 8]);
    let mut v: Vec<i64> = match r.below(4) {
        0 => (1..=n).map(|i| (64 * i / n.max(1)) as i64).collect(),
        _ => { let mut v: Vec<i64> = (0..n).map(|_| r.range(0, 64)).collect(); v.sort(); if let Some(x) = v.last_mut() { *x = 64 } v }
    };
    if r.chance(1, 8) && n > 0 { let k = r.below(n); v[k] = *r.pick(&[63, 65, 0, -1, 128]) }
    if r.chance(1, 8) { r.shuffle(&mut v) }
    let thirds = r.chance(1, 4);
    v.iter().enumerate().map(|(i, x)| if thirds { if i + 1 == n { 1.0 } else { (i + 1) as f32 / n as f32 } } else { *x as f32 / 64.0 }).collect()
}
const FORMATS: &[(&str, u16, usize, usize)] = &[("a8", 0, 1, 1), ("y8", 1, 1, 1), ("ay8", 2, 1, 1), ("a8y8", 3, 1, 2), ("r5g6b5", 6, 1, 2), ("a1r5g5b5", 8, 1, 2), ("a4r4g4b4", 9, 1, 2), ("x8r8g8b8", 10, 1, 4), ("a8r8g8b8", 11, 1, 4), ("dxt1", 14, 4, 8), ("dxt3", 15, 4, 16), ("dxt5", 16, 4, 16), ("p8", 17, 1, 1), ("bc7", 18, 4, 16)];
fn texture(r: &mut Rng, b: &mut Build, at: usize) {
    const S: &str = "BitmapData";
    let e = b.eng.bitmap_options;
    let kind = *r.pick(&[0u16, 0, 0, 1, 2, 2]);
    let f = FORMATS[if r.chance(1, 2) { r.below(FORMATS.len()) } else { *r.pick(&[0, 3, 8, 9, 10]) }];
    let comp = f.2 == 4;
    let side = |r: &mut Rng| match r.below(6) { 0..=3 => 1usize << r.below(5), 4 => 4 + 4 * r.below(6), _ => 1 + r.below(11) };
    let w = side(r);
    let h = if kind == 2 || r.chance(1, 2) { w } else { side(r) };
    let mut d = if kind == 1 { if r.chance(2, 3) { w } else { 1 << r.below(4) } } else { 1 };
    if r.chance(1, 40) { d = *r.pick(&[2, 3, 0]) }
    if w * h * d > 640 { d = 1 }
    let mips = *r.pick(&[0usize, 0, 1, 2, 3, 9]);
    let swiz = if r.chance(1, 30) { true } else { e.swizzled && !comp && r.chance(3, 4) };
    let faces = |k: usize| if kind == 2 { 6 } else if kind == 1 { (d >> k).max(1) } else { 1 };
    let size = |k: usize| ((w >> k).max(1).div_ceil(f.2)) * ((h >> k).max(1).div_ceil(f.2)) * f.3;
    let last = (0..=mips).take_while(|k| *k == 0 || (w.max(h).max(if kind == 1 { d } else { 1 })) >> (k - 1) > 1).count();
    let there: Vec<usize> = (0..last).take_while(|k| !e.texture_dimension_must_modulo_block_size || ((w >> k).max(1) % f.2 == 0 && (h >> k).max(1) % f.2 == 0)).collect();
    let pad = |n: usize| n.div_ceil(e.alignment.max(1)) * e.alignment.max(1);
    let mut len = if kind == 2 && e.cubemap_faces_stored_separately { 6 * pad(there.iter().map(|k| size(*k)).sum()) } else { pad(there.iter().map(|k| size(*k) * faces(*k)).sum()) };
    if r.chance(1, 12) { let a = e.alignment.max(1) as i64; len = (len as i64 + *r.pick(&[a, -a, 1, -1, 2 * a])).max(0) as usize }
    else if e.texture_dimension_must_modulo_block_size && r.chance(1, 4) { len += e.alignment * r.below(2) }
    let data: Vec<u8> = (0..len).map(|_| r.next() as u8).collect();
    let ext = b.eng.resource_maps.is_some() && r.chance(1, 3) || r.chance(1, 30);
    let v = if ext { &mut b.bmfile } else { &mut b.files };
    let mut off = v.len() as u32 + if ext { 16 } else { 0x800 };
    v.extend(&data);
    if r.chance(1, 30) { off = *r.pick(&[u32::MAX, 0x7FFF_FFF0, off + 0x10_0000]) }
    let mut w2 = |n: &str, v: u16| poke(b, Dom::Tag, at, S, n, &v.to_le_bytes());
    let odd = r.chance(1, 30);
    w2("width", if odd && r.chance(1, 2) { 0 } else { w as u16 });
    w2("height", if odd && r.chance(1, 2) { 0 } else { h as u16 });
    w2("depth", d as u16);
    w2("type", kind);
    w2("format", f.1);
    w2("mipmap_count", mips as u16);
    poke(b, Dom::Tag, at, S, "pixel_data_offset", &off.to_le_bytes());
    poke(b, Dom::Tag, at, S, "pixel_data_size", &(len as u32).to_le_bytes());
    set_flag(b, at, S, "compressed", comp ^ r.chance(1, 40));
    set_flag(b, at, S, "swizzled", swiz);
    set_flag(b, at, S, "external", ext);
}
fn bytes_of_vertex(v: &ModelVertexUncompressed) -> Vec<u8> {
    let mut o = vec![];
    for x in [&v.position, &v.normal, &v.binormal, &v.tangent] { for c in [x.x, x.y, x.z] { o.extend((c as f32).to_le_bytes()) } }
    for c in [v.texture_coords.x, v.texture_coords.y] { o.extend((c as f32).to_le_bytes()) }
    for i in [v.node0_index, v.node1_index] { o.extend(i.unwrap_or(0xFFFF).to_le_bytes()) }
    for c in [v.node0_weight, v.node1_weight] { o.extend((c as f32).to_le_bytes()) }
    o
}
fn bytes_of_packed(v: &ModelVertexCompressed) -> Vec<u8> {
    let mut o = vec![];
    for c in [v.position.x, v.position.y, v.position.z] { o.extend((c as f32).to_le_bytes()) }
    for c in [v.normal.data, v.binormal.data, v.tangent.data] { o.extend(c.to_le_bytes()) }
    for c in [v.texture_coordinate_u.data, v.texture_coordinate_v.data] { o.extend(c.to_le_bytes()) }
    o.extend([v.node0_index, v.node1_index]);
    o.extend(v.node0_weight.data.to_le_bytes());
    o
}
fn count(n: u32) -> u32 { n.min(1_000_000) }
/// The geometry of a model; what is in it.
fn model(r: &mut Rng, b: &mut Build, at: usize, s: &'static str) -> Value {
    let gbx = s == "GBXModel";
    let d = Dom::Tag;
    let xbox = b.eng.compressed_models && !b.eng.external_models;
    let nodes = r.below(4);
    list(b, r, d, at + offset(s, "nodes"), "ModelNode", nodes);
    let mut perms = vec![];
    for q in list(b, r, d, at + offset(s, "regions"), "ModelRegion", perms.len() + 1) { let n = r.below(3); perms.push(n); list(b, r, d, q + offset("ModelRegion", "permutations"), "ModelRegionPermutation", n); }
    let n = if r.chance(1, 2) { r.below(3) } else { 0 };
    for q in list(b, r, d, at + offset(s, "runtime_markers"), "ModelMarker", n) {
        let n = r.below(3);
        for i in list(b, r, d, q + offset("ModelMarker", "instances"), "ModelMarkerInstance", n) {
            let bad = r.below(12);
            let p = perms[0];
            let v = [if bad == 0 { 1u8 } else { 0 }, if bad == 1 || p == 0 { p as u8 } else { r.below(p) as u8 }, if bad == 2 || nodes == 0 { nodes as u8 } else { r.below(nodes) as u8 }];
            put(&mut b.tagd, i, &v);
        }
    }
    let far = *r.pick(&[3usize, 3, 3, 60]);
    let n = r.below(3);
    let (gs, ps) = if gbx { ("GBXModelGeometry", "GBXModelGeometryPart") } else { ("ModelGeometry", "ModelGeometryPart") };
    let mut geoms = vec![];
    for g in list(b, r, d, at + offset(s, "geometries"), gs, n) {
        let n = r.below(3);
        let mut parts = vec![];
        for p in list(b, r, d, g + offset(gs, "parts"), ps, n) {
            if gbx && r.chance(3, 4) {
                let c = r.below(5) as u8;
                poke(b, d, p, ps, "local_node_count", &[c]);
                let map: Vec<u8> = (0..22).map(|_| r.below(4) as u8).collect();
                poke(b, d, p, ps, "local_node_indices", &map);
            }
            let vn = r.below(4);
            let tn = r.below(6);
            let (unc, comp): (Vec<_>, Vec<_>) = { let mut g = crate::c24::G { r, odd: 0, nodes: far }; if b.eng.compressed_models { (vec![], (0..vn).map(|_| g.packed(None)).collect()) } else { ((0..vn).map(|_| g.vertex(far)).collect(), vec![]) } };
            let mut vb: Vec<u8> = unc.iter().flat_map(bytes_of_vertex).collect();
            vb.extend(comp.iter().flat_map(bytes_of_packed));
            let idx: Vec<u16> = (0..if tn > 0 { tn + 2 } else { 0 }).map(|_| if r.chance(1, 6) { 0xFFFF } else { r.below(300) as u16 }).collect();
            let ib: Vec<u8> = idx.iter().flat_map(|x| x.to_le_bytes()).collect();
            let (mut va, mut ta) = if b.eng.external_models {
                let x = (b.mverts.len() as u32, b.mtris.len() as u32);
                b.mverts.extend(&vb);
                b.mtris.extend(&ib);
                x
            } else {
                let x = b.alloc(d, vb.len());
                put(&mut b.tagd, x, &vb);
                let y = b.alloc(d, ib.len());
                put(&mut b.tagd, y, &ib);
                (b.addr(d, x), b.addr(d, y))
            };
            let mut there = true;
            if r.chance(1, 25) && vn > 0 { va = 0xFFFF_0000; there = false }
            if r.chance(1, 25) && tn > 0 { ta = 0xFFFF_0000; there = false }
            if xbox {
                let x = b.alloc(d, 12);
                let fill: Vec<u8> = (0..12).map(|_| r.next() as u8).collect();
                put(&mut b.tagd, x, &fill);
                b.u32at(d, x + 4, va);
                va = b.addr(d, x);
            }
            let (mut n, mut t) = (vn as u32, tn as u32);
            if r.chance(1, 30) { n = *r.pick(&[0x10000u32, u32::MAX]); there = false }
            if r.chance(1, 30) { t = *r.pick(&[3 * 0xFFFE + 1, u32::MAX]); there = false }
            const P: &str = "ModelGeometryPart";
            poke(b, d, p, P, "vertices.vertex_count", &n.to_le_bytes());
            poke(b, d, p, P, "vertices.vertex_pointer", &va.to_le_bytes());
            poke(b, d, p, P, "triangle_count", &t.to_le_bytes());
            poke(b, d, p, P, "triangle_pointer", &ta.to_le_bytes());
            let mut m = ModelGeometryPart::default();
            m.uncompressed_vertices.items = unc;
            m.compressed_vertices.items = comp;
            let m = crate::c24::part(&m, 0, &[0; 22]);
            parts.push(json!({"n": count(n), "tn": count(t), "there": there, "unc": m["unc"], "comp": m["comp"], "idx": idx.iter().map(|x| if *x == 0xFFFF { -1 } else { *x as i64 }).collect::<Vec<_>>()}));
        }
        geoms.push(json!(parts));
    }
    if !b.eng.external_models && r.chance(1, 3) { b.alloc(d, 4); }
    json!(geoms)
}
fn bsp(r: &mut Rng, b: &mut Build, d: Dom, at: usize) {
    const S: &str = "ScenarioStructureBSP";
    const O: &str = "ScenarioStructureBSPDetailObjectData";
    let n = r.below(3);
    for o in list(b, r, d, at + offset(S, "detail_objects"), O, n) {
        let mut next = 0u32;
        let cells = r.below(4);
        for c in list(b, r, d, o + offset(O, "cells"), "ScenarioStructureBSPGlobalDetailObjectCell", cells) {
            let mut bits = 0u32;
            for i in [0, 1, 2, 3, 31] { if r.chance(2, 5) { bits |= 1 << i } }
            let count = if r.chance(1, 20) { *r.pick(&[0, next + 1, u32::MAX]) } else { next };
            if !r.chance(1, 10) { next += bits.count_ones() }
            poke(b, d, c, "ScenarioStructureBSPGlobalDetailObjectCell", "valid_layers_flags", &bits.to_le_bytes());
            poke(b, d, c, "ScenarioStructureBSPGlobalDetailObjectCell", "count_index", &count.to_le_bytes());
        }
        let n = (next as usize + r.below(2)).saturating_sub(r.chance(1, 15) as usize);
        list(b, r, d, o + offset(O, "z_reference_vectors"), "ScenarioStructureBSPGlobalZReferenceVector", n);
        for (f, s) in [("counts", "ScenarioStructureBSPGlobalDetailObjectCount"), ("instances", "ScenarioStructureBSPGlobalDetailObject")] { let n = r.below(2); list(b, r, d, o + offset(O, f), s, n); }
    }
}
fn scenario(r: &mut Rng, b: &mut Build, at: usize) {
    const S: &str = "Scenario";
    let d = Dom::Tag;
    let max = *r.pick(&[0usize, 0, 1, 2, 3, 5]);
    let len = if r.chance(1, 60) { *r.pick(&[0, 55, 57 + 20 * max, 56 + 20 * max + 20]) } else { 56 + 20 * max };
    let x = b.alloc(d, len.max(56));
    let mut v: Vec<u8> = (0..len.max(56)).map(|_| *r.pick(&[0u8, 1, 2, 3, 0x80, 0xFF, 0x41])).collect();
    v[..32].fill(0);
    v[..11].copy_from_slice(b"script node");
    for k in 0..max { if 56 + 20 * k + 6 <= v.len() { put(&mut v, 56 + 20 * k + 4, &(r.below(49) as u16).to_le_bytes()); put(&mut v, 56 + 20 * k + 6, &(r.below(32) as u16).to_le_bytes()) } }
    let size = if r.chance(1, 60) { max + 1 } else { r.below(max + 1) };
    for (f, n) in [("maximum_count", max), ("element_size", if r.chance(1, 60) { 21 } else { 20 }), ("size", size)] { put(&mut v, offset("ScenarioScriptNodeTable", f), &(n as u16).to_le_bytes()) }
    put(&mut b.tagd, x, &v);
    let h = at + offset(S, "script_syntax_data");
    b.u32at(d, h, len as u32);
    let a = b.addr(d, x);
    b.u32at(d, h + 12, a);
    for f in ["scripts", "globals"] { b.u32at(d, at + offset(S, f), 0) }
    poke(b, d, at, S, "type", &(if r.chance(2, 3) { 0 } else { r.below(3) } as u16).to_le_bytes());
    set_flag(b, at, S, "do_not_apply_bungie_campaign_tag_patches", r.chance(1, 4));
    let n = if r.chance(1, 10) { 34 } else { r.below(5) };
    let docs: Vec<usize> = (0..b.tags.len()).filter(|i| b.tags[*i].group == "detail_object_collection").collect();
    for p in list(b, r, d, at + offset(S, "detail_object_collection_palette"), "ScenarioDetailObjectCollectionPalette", n) {
        let i = if r.chance(1, 6) { None } else if docs.is_empty() || r.chance(1, 12) { Some(r.below(b.tags.len())) } else { Some(*r.pick(&docs)) };
        reference(b, d, p, i);
    }
    let n = r.below(3);
    for t in list(b, r, d, at + offset(S, "cutscene_titles"), "ScenarioCutsceneTitle", n) {
        let whole = r.chance(1, 3);
        for f in ["fade_in_time", "up_time", "fade_out_time"] { let v = if whole { r.range(0, 300) as f32 } else { r.range(-640, 64000) as f32 / 64.0 }; poke(b, d, t, "ScenarioCutsceneTitle", f, &v.to_le_bytes()) }
    }
}
fn code(e: &dyn std::fmt::Debug) -> String { format!("{e:?}").to_lowercase() }
fn index(i: Index) -> i64 { i.map(|x| x as i64).unwrap_or(-1) }
fn heights(d: &mut Value, b: &ScenarioStructureBSP) {
    for (i, o) in b.detail_objects.items.iter().enumerate() { d["objs"][i]["heights"] = json!(o.z_reference_vectors.items.iter().map(|v| { let x = v.z_reference_l * 128.0; if x.fract() == 0.0 && x.abs() < 1e8 { x as i64 } else { 99_999_999 } }).collect::<Vec<_>>()) }
}
macro_rules! plain_model {
    ($g:expr, $r:expr, $gbx:expr) => {{
        let (mut g, r) = ($g.clone(), $r);
        g.flags.blend_shared_normals = r.flags.blend_shared_normals;
        g.detail_cutoff = r.detail_cutoff.clone();
        g.runtime_markers = r.runtime_markers.clone();
        for (a, b) in g.regions.items.iter_mut().zip(&r.regions.items) { for (a, b) in a.permutations.items.iter_mut().zip(&b.permutations.items) { a.markers = b.markers.clone() } }
        g
    }}
}
macro_rules! clear_part { ($p:expr) => {{ let p = $p; p.compressed_vertices.items.clear(); p.uncompressed_vertices.items.clear(); p.triangle_data.items.clear() }} }
fn tri(p: &ModelGeometryPart) -> Value { json!(p.triangle_data.items.iter().map(|t| t.indices.map(index)).collect::<Vec<_>>()) }
/// Fills in what is special about the group, and makes alike what may differ.
fn special(rec: &mut Value, g: &str, s: &str, m: &Whole, raw: &T, got: Option<&mut T>) {
    match g {
        "bitmap" => {
            let seqs = |b: &Bitmap| json!(b.bitmap_group_sequence.items.iter().map(|q| json!({"first": index(q.first_bitmap_index), "count": q.bitmap_count, "idx": q.sprites.items.iter().map(|x| index(x.bitmap_index)).collect::<Vec<_>>()})).collect::<Vec<_>>());
            let b: &Bitmap = raw.as_any().downcast_ref().unwrap();
            let data = |d: DomainType, t: &BitmapData| json!(m.get_data_at_address(t.pixel_data_offset as usize, &d, t.pixel_data_size as usize).into_iter().map(bytes).collect::<Vec<_>>());
            rec["raw"] = json!({"sprites": b._type == BitmapType::Sprites, "seqs": seqs(b), "px": bytes(&b.processed_pixel_data.bytes), "ts": b.bitmap_data.items.iter().map(|t| {
                let f = FORMATS.iter().find(|f| f.1 == t.format as u16).map(|f| f.0).unwrap_or("none");
                json!({"w": t.width, "h": t.height, "d": t.depth, "type": (["2d", "3d", "cube"][t._type as usize]), "f": f, "comp": t.flags.compressed, "swiz": t.flags.swizzled, "ext": t.flags.external, "mips": t.mipmap_count,
                    "len": count(t.pixel_data_size), "map": data(DomainType::MapData, t), "file": data(DomainType::ResourceMapFile(ResourceMapType::Bitmaps), t)})
            }).collect::<Vec<_>>()});
            let Some(got) = got else { return };
            let x: &mut Bitmap = got.as_any_mut().downcast_mut().unwrap();
            rec["got"] = json!({"seqs": seqs(x), "mips": x.bitmap_data.items.iter().map(|t| t.mipmap_count).collect::<Vec<_>>(), "offs": x.bitmap_data.items.iter().map(|t| t.pixel_data_offset & 0x7FFF_FFFF).collect::<Vec<_>>(), "px": bytes(&x.processed_pixel_data.bytes)});
            for (a, b) in x.bitmap_group_sequence.items.iter_mut().zip(&b.bitmap_group_sequence.items) { a.first_bitmap_index = b.first_bitmap_index; a.bitmap_count = b.bitmap_count }
            for (a, b) in x.bitmap_data.items.iter_mut().zip(&b.bitmap_data.items) { a.mipmap_count = b.mipmap_count; a.pixel_data_offset = b.pixel_data_offset }
            x.processed_pixel_data = b.processed_pixel_data.clone();
        }
        "sound" => {
            let b: &Sound = raw.as_any().downcast_ref().unwrap();
            let ps = b.pitch_ranges.items.iter().flat_map(|p| p.permutations.items.iter());
            rec["raw"] = json!(ps.map(|p| json!({"pcm": code(&p.format) == "pcm", "d": bytes(&p.samples.bytes)})).collect::<Vec<_>>());
            let Some(got) = got else { return };
            let x: &mut Sound = got.as_any_mut().downcast_mut().unwrap();
            rec["got"] = json!(x.pitch_ranges.items.iter().flat_map(|p| p.permutations.items.iter()).map(|p| bytes(&p.samples.bytes)).collect::<Vec<_>>());
            for (a, b) in x.pitch_ranges.items.iter_mut().zip(&b.pitch_ranges.items) { for (a, b) in a.permutations.items.iter_mut().zip(&b.permutations.items) { a.samples = b.samples.clone() } }
        }
        "weapon" => {
            let angle = |a: &Angle| bytes(&(a.angle as f32).to_be_bytes());
            let show = |w: &Weapon| json!(w.triggers.items.iter().map(|t| json!({"min": angle(&t.minimum_error), "err": [angle(&t.error_angle.lower), angle(&t.error_angle.upper)]})).collect::<Vec<_>>());
            let b: &Weapon = raw.as_any().downcast_ref().unwrap();
            rec["raw"] = show(b);
            let Some(got) = got else { return };
            let x: &mut Weapon = got.as_any_mut().downcast_mut().unwrap();
            rec["got"] = show(x);
            for (a, b) in x.triggers.items.iter_mut().zip(&b.triggers.items) { a.minimum_error = b.minimum_error; a.error_angle = b.error_angle }
        }
        "model" | "gbxmodel" => {
            rec["raw"] = crate::c24::dump(raw.as_ref());
            let Some(got) = got else { return };
            rec["got"] = crate::c24::dump(got.as_ref());
            if g == "model" {
                let x: &mut Model = got.as_any_mut().downcast_mut().unwrap();
                rec["tris"] = json!(x.geometries.items.iter().map(|g| g.parts.items.iter().map(tri).collect::<Vec<_>>()).collect::<Vec<_>>());
                let mut y = plain_model!(x, raw.as_any().downcast_ref::<Model>().unwrap(), false);
                for g in &mut y.geometries.items { for p in &mut g.parts.items { clear_part!(p) } }
                *x = y;
            } else {
                let x: &mut GBXModel = got.as_any_mut().downcast_mut().unwrap();
                rec["tris"] = json!(x.geometries.items.iter().map(|g| g.parts.items.iter().map(|p| tri(&p.model_geometry_part)).collect::<Vec<_>>()).collect::<Vec<_>>());
                let mut y = plain_model!(x, raw.as_any().downcast_ref::<GBXModel>().unwrap(), true);
                for g in &mut y.geometries.items { for p in &mut g.parts.items { clear_part!(&mut p.model_geometry_part) } }
                *x = y;
            }
        }
        "scenario" => {
            // what its scripts say is something else (C16)
            let b: &Scenario = raw.as_any().downcast_ref().unwrap();
            rec["raw"] = bytes(&b.script_syntax_data.bytes);
            let Some(got) = got else { return };
            let x: &mut Scenario = got.as_any_mut().downcast_mut().unwrap();
            rec["got"] = bytes(&x.script_syntax_data.bytes);
            x.script_syntax_data = b.script_syntax_data.clone();
            x.source_files = b.source_files.clone();
        }
        "scenario_structure_bsp" => {
            let b: &ScenarioStructureBSP = raw.as_any().downcast_ref().unwrap();
            rec["raw"] = crate::c27::dump(b);
            heights(&mut rec["raw"], b);
            let Some(got) = got else { return };
            let x: &mut ScenarioStructureBSP = got.as_any_mut().downcast_mut().unwrap();
            rec["got"] = crate::c27::dump(x);
            heights(&mut rec["got"], x);
            for (a, b) in x.lightmaps.items.iter_mut().zip(&b.lightmaps.items) { for (a, b) in a.materials.items.iter_mut().zip(&b.materials.items) { a.uncompressed_vertices = b.uncompressed_vertices.clone(); a.compressed_vertices = b.compressed_vertices.clone() } }
            for (a, b) in x.detail_objects.items.iter_mut().zip(&b.detail_objects.items) { for (a, b) in a.z_reference_vectors.items.iter_mut().zip(&b.z_reference_vectors.items) { a.z_reference_l = b.z_reference_l } }
        }
        _ => (),
    }
    let _ = s;
}
fn look(m: &Whole, path: &TagPath, ctx: &Value, parts: Option<&Value>) -> Value {
    let g = path.group().as_str().to_string();
    let s = group_struct(&g);
    let name = match path.path() { PISTOL => "pistol", PLASMA => "plasma", BULLET => "bullet", _ => "" };
    let mut rec = json!({"g": g, "name": name, "path": path.to_string(), "ctx": ctx});
    if let Some(p) = parts { rec["parts"] = p.clone() }
    let raw = read_any_tag_from_map(path, m);
    let got = m.extract_tag(path);
    rec["ok"] = json!(got.is_ok());
    rec["unread"] = json!(raw.is_err());
    if let Err(e) = &got { rec["why"] = json!(e.to_string().chars().take(160).collect::<String>()) }
    let Ok(mut raw) = raw else { return rec };
    let show = |l: &[f64]| l.iter().map(|x| shown(*x)).collect::<Vec<_>>();
    let w = weights(&mut raw);
    rec["w"] = json!(w.iter().map(|l| show(l)).collect::<Vec<_>>());
    let Ok(mut got) = got else { special(&mut rec, &g, s, m, &raw, None); return rec };
    rec["w2"] = json!(weights(&mut got).iter().map(|l| show(l)).collect::<Vec<_>>());
    special(&mut rec, &g, s, m, &raw, Some(&mut got));
    let (x, y) = (all(s, &mut raw), all(s, &mut got));
    let mut fl = vec![];
    if x.len() == y.len() {
        let mut fade = 0.0;
        for (a, b) in x.iter().zip(&y) {
            if a.0.ends_with("cutscene_titles.fade_in_time") { fade = a.1 }
            if a.0.ends_with(WEIGHT) && !w.is_empty() { continue }
            let always = shown_always(&g).contains(&a.0.as_str());
            if always || a.1.to_bits() != b.1.to_bits() { fl.push(json!({"p": a.0, "a": shown(a.1), "b": shown(b.1), "in": shown(fade)})) }
        }
        let mut it = x.iter();
        floats(s, "", got.as_mut_dynamic(), &mut |_, f| *f = it.next().unwrap().1);
    }
    rec["fl"] = json!(fl);
    rec["same"] = json!(x.len() == y.len() && dump_all(s, raw.as_dynamic()) == dump_all(s, got.as_dynamic()));
    rec
}
pub fn run(a: &Args) -> usize {
    let mut out = Out::new(&a.out);
    let mut r = Rng::new(a.seed);
    let dir = a.scratch.join("c28");
    fresh_dir(&dir);
    for _ in 0..a.n {
        let eng = if r.chance(1, 4) { *r.pick(&ringhopper_engines::ALL_SUPPORTED_ENGINES.iter().filter(|e| e.bitmap_options.swizzled).collect::<Vec<_>>()) } else { pick_engine(&mut r) };
        let mut groups: Vec<&'static str> = (0..3 + r.below(4)).map(|_| if r.chance(9, 10) { *r.pick(GROUPS) } else { group_name(&mut r) }).collect();
        groups.retain(|g| !matches!(*g, "scenario" | "scenario_structure_bsp" | "model_animations"));
        let mut named = vec![];
        for (g, p) in [("weapon", PISTOL), ("weapon", PLASMA), ("damage_effect", BULLET), ("weapon", BULLET), ("damage_effect", PISTOL)] { if r.chance(1, 5) { named.push((g, p)) } }
        let plan = Plan { groups, bsps: r.below(2), tame: true, budget: 900, dense: *r.pick(&[10, 30]), named };
        let mut geoms: std::collections::HashMap<usize, Value> = Default::default();
        let sound_engine = r.chance(7, 8);
        let (b, mut im) = build(&mut r, eng, &plan, &mut |r, b, i, at| {
            let g = b.tags[i].group;
            let s = group_struct(g);
            b.even = sound_engine;
            if g == "scenario_structure_bsp" {
                let k = b.bsps.iter().position(|x| x.index == i).unwrap();
                b.fill(r, Dom::Bsp(k), at, s);
                bsp(r, b, Dom::Bsp(k), at);
                return true
            }
            if g == "sound" { b.dense = 70; b.budget = b.budget.max(600) }
            if matches!(g, "model" | "gbxmodel") { b.budget = 0 }
            b.fill(r, Dom::Tag, at, s);
            b.dense = plan.dense;
            if matches!(g, "model" | "gbxmodel") { b.budget = 200 }
            match g {
                "scenario" => scenario(r, b, at),
                "model" => { let v = model(r, b, at, "Model"); geoms.insert(i, v); }
                "gbxmodel" => { let v = model(r, b, at, "GBXModel"); geoms.insert(i, v); }
                "bitmap" => {
                    let n = r.below(4);
                    for t in list(b, r, Dom::Tag, at + offset(s, "bitmap_data"), "BitmapData", n) { texture(r, b, t) }
                    if r.chance(2, 3) { poke(b, Dom::Tag, at, s, "type", &3u16.to_le_bytes()) }
                    let n = r.below(4);
                    for q in list(b, r, Dom::Tag, at + offset(s, "bitmap_group_sequence"), "BitmapGroupSequence", n) {
                        let n = r.below(4);
                        for x in list(b, r, Dom::Tag, q + offset("BitmapGroupSequence", "sprites"), "BitmapGroupSprite", n) { let v = if r.chance(1, 4) { 0xFFFFu16 } else { r.below(5) as u16 }; put(&mut b.tagd, x, &v.to_le_bytes()) }
                    }
                }
                "font" => if r.chance(4, 5) { poke(b, Dom::Tag, at, s, "encoding_type", &[0, 0]) },
                _ => {
                    if g == "weapon" { let n = r.below(3); list(b, r, Dom::Tag, at + offset(s, "triggers"), "WeaponTrigger", n); }
                    for p in shown_always(g) {
                        if *p == "material_response.potential_and" {
                            let n = r.below(3);
                            for q in list(b, r, Dom::Tag, at + offset(s, "material_response"), "ProjectileMaterialResponse", n) { for k in 0..2 { let v = number(r); let o = q + offset("ProjectileMaterialResponse", "potential_and") + 4 * k; put(&mut b.tagd, o, &v.to_le_bytes()) } }
                        } else if r.chance(5, 6) {
                            let v = if *p == "maximum_bend_rate" { match r.below(4) { 0 => 1.0, 1 => 1.0 + r.range(-300, 300) as f32 / 1024.0, _ => number(r).clamp(-2000.0, 2000.0) } } else { number(r) };
                            poke(b, Dom::Tag, at, s, p, &v.to_le_bytes())
                        }
                    }
                }
            }
            if downcast(g) {
                let n = 1 + r.below(3);
                for c in list(b, r, Dom::Tag, at + offset("Object", "change_colors"), "ObjectChangeColors", n) {
                    let w = weights_of(r);
                    for (k, p) in list(b, r, Dom::Tag, c + offset("ObjectChangeColors", "permutations"), "ObjectChangeColorsPermutation", w.len()).iter().enumerate() { put(&mut b.tagd, *p, &w[k].to_le_bytes()) }
                }
            }
            true
        });
        im.set_crc(u32::MAX);
        store(&dir, &im, eng, false);
        let o = eng.bitmap_options;
        let sure = json!({"eng": eng.name});
        about_to(&sure);
        match guard_ms(30000, || {
            let m = Whole(load(&dir, false).expect("the map"));
            let scn = read_any_tag_from_map(&m.get_scenario_tag().tag_path.clone(), &m).ok()?;
            let scn: &Scenario = scn.as_any().downcast_ref().unwrap();
            let fonts: Vec<String> = m.get_all_tags().iter().filter(|p| p.group() == TagGroup::Font).map(|p| read_any_tag_from_map(p, &m).map(|t| code(&t.as_any().downcast_ref::<Font>().unwrap().encoding_type)).unwrap_or("broken".into())).collect();
            let mut pal = vec![];
            for x in &scn.detail_object_collection_palette.items {
                let t = m.get_tag_by_tag_reference(&x.reference).map(|t| t.tag_path.clone());
                pal.push(match t { Some(p) if p.group() == TagGroup::DetailObjectCollection => { let t = read_any_tag_from_map(&p, &m).ok()?; json!([(t.as_any().downcast_ref::<DetailObjectCollection>().unwrap().global_z_offset * 16.0) as i64]) } _ => json!([]) });
            }
            let ctx = json!({"single": scn._type == ScenarioType::Singleplayer, "keep": scn.flags.do_not_apply_bungie_campaign_tag_patches, "fonts": fonts, "pal": pal,
                "eng": {"name": eng.name, "swizzled": o.swizzled, "modulo": o.texture_dimension_must_modulo_block_size, "apart": o.cubemap_faces_stored_separately, "align": o.alignment.max(1), "packed": eng.compressed_models}});
            let mut v = vec![];
            for (i, t) in b.tags.iter().enumerate() {
                let Ok(p) = TagPath::new(std::str::from_utf8(&t.path).unwrap(), TagGroup::from_str(t.group).unwrap()) else { continue };
                if t.group == "model_animations" || (matches!(t.group, "model" | "gbxmodel") && !geoms.contains_key(&i)) { continue }
                v.push(look(&m, &p, &ctx, geoms.get(&i)));
            }
            Some(v)
        }) {
            Ok(None) => (),
            Ok(Some(v)) => for x in v { out.put(&x) },
            Err(e) => out.put(&json!({"eng": eng.name, "g": "", "crash": e})),
        }
    }
    out.finish()
}
/// Objects of all kinds start with the same fields.
fn downcast(g: &str) -> bool { matches!(g, "object" | "unit" | "biped" | "vehicle" | "item" | "weapon" | "garbage" | "equipment" | "device" | "device_machine" | "device_control" | "device_light_fixture" | "projectile" | "scenery" | "placeholder" | "sound_scenery") }
