//! Structure BSPs: vertices in two forms, repair, verification.
use crate::c24::codes;
use crate::util::*;
use crate::value::*;
use ringhopper::definitions::*;
use ringhopper::primitives::primitive::*;
use ringhopper::primitives::tag::*;
use ringhopper::tag::bludgeon::*;
use ringhopper::tag::scenario_structure_bsp::*;
use serde_json::{json, Value};
use std::hash::{Hash, Hasher};

type B = ScenarioStructureBSP;
fn f(b: &[u8], at: usize) -> f32 { f32::from_le_bytes(b[at..at + 4].try_into().unwrap()) }
fn u(b: &[u8], at: usize) -> u32 { u32::from_le_bytes(b[at..at + 4].try_into().unwrap()) }
fn value(bits: u32, c: u32) -> f32 {
    match bits { 16 => f64::from(CompressedFloat { data: c as u16 }) as f32, 11 => Vector3D::from(CompressedVector3D { data: c & 0x7FF }).x as f32, _ => Vector3D::from(CompressedVector3D { data: c << 22 }).z as f32 }
}
/// A fraction, and the code the number is the value of.
fn number(bits: u32, v: f32) -> Value {
    if v.is_nan() { return json!([99999, 1, -2]) }
    if v.abs() >= 1000.0 { return json!([if v > 0.0 { 1000 } else { -1000 }, 1, -1]) }
    if v != 0.0 && v.abs() < 1e-6 { return json!([0, 8, -1]) }
    let top = (1i64 << (bits - 1)) as f64;
    let near = (v as f64 * if v < 0.0 { top } else { top - 1.0 }).round() as i64;
    let c = (near - 2..=near + 2).filter(|c| (-(1i64 << (bits - 1))..1i64 << (bits - 1)).contains(c)).map(|c| c.rem_euclid(1 << bits)).find(|c| value(bits, *c as u32) == v).unwrap_or(-1);
    let (e, t) = (v as f64 * 8.0, v as f64 * 1000.0);
    if e.fract() == 0.0 { return json!([e as i64, 8, c]) }
    if (t - t.round()).abs() < 1e-4 && t.abs() < 2000.0 && t.abs() > 1.0 { return json!([t.round() as i64, 1000, c]) }
    if c == -1 { return json!([(t.clamp(-1999.0, 1998.0)).floor() as i64, 1000, -3]) }
    json!([99999, 1, c])
}
fn vector(b: &[u8], at: usize) -> Value { json!([number(11, f(b, at)), number(11, f(b, at + 4)), number(10, f(b, at + 8))]) }
fn normal(b: &[u8], at: usize) -> Value {
    let v = [f(b, at) as f64, f(b, at + 4) as f64, f(b, at + 8) as f64];
    let top = v.iter().fold(0.0f64, |m, x| m.max(x.abs()));
    let odd = v.iter().any(|x| !x.is_finite()) || top == 0.0;
    let i = |x: f64| if x.is_finite() { (x * 1000.0).round().clamp(-99999.0, 99999.0) as i64 } else { 99999 };
    json!({"th": v.map(i), "sh": v.map(|x| if odd { 0 } else { i(x / top) }), "odd": odd, "raw": hex(&b[at..at + 12])})
}
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
fn count(n: u32) -> u64 { if n > 1_000_000 { 1_000_000 + n as u64 % 7 } else { n as u64 } }
fn buffer(r: usize, l: usize, b: &[u8], long: bool) -> Value {
    let (sr, sl) = if long { (56, 20) } else { (32, 8) };
    if (l != 0 && l != r) || b.len() != r * sr + l * sl { return json!({"n": b.len(), "rv": [], "lv": [], "raw": hex(b)}) }
    let (x, y) = b.split_at(r * sr);
    let packed = |b: &[u8], at| codes(&CompressedVector3D { data: u(b, at) });
    let rv: Vec<Value> = x.chunks(sr).map(|c| {
        let n = c.len();
        let (p, uv) = (hex(&c[..12]), hex(&c[n - 8..]));
        if long { json!({"p": p, "uv": uv, "v": [vector(c, 12), vector(c, 24), vector(c, 36)], "nm": normal(c, 12)}) }
        else { json!({"p": p, "uv": uv, "v": [packed(c, 12), packed(c, 16), packed(c, 20)]}) }
    }).collect();
    let lv: Vec<Value> = y.chunks(sl).map(|c| {
        if long { json!({"v": vector(c, 0), "uv": [number(16, f(c, 12)), number(16, f(c, 16))]}) }
        else { json!({"v": packed(c, 0), "uv": [u(c, 4) & 0xFFFF, u(c, 4) >> 16]}) }
    }).collect();
    json!({"n": b.len(), "rv": rv, "lv": lv, "raw": ""})
}
pub fn dump(b: &B) -> Value {
    let mats: Vec<Value> = b.lightmaps.items.iter().flat_map(|l| l.materials.items.iter()).map(|m| {
        let (r, l) = (m.rendered_vertices.vertex_count, m.lightmap_vertices.vertex_count);
        json!({"r": count(r), "l": count(l), "u": buffer(r as usize, l as usize, &m.uncompressed_vertices.bytes, true), "c": buffer(r as usize, l as usize, &m.compressed_vertices.bytes, false)})
    }).collect();
    let objs: Vec<Value> = b.detail_objects.items.iter().map(|o| json!({
        "cells": o.cells.items.iter().map(|c| json!({"start": count(c.start_index), "count": count(c.count_index), "bits": (0..32).filter(|i| (c.valid_layers_flags as u32) >> i & 1 == 1).collect::<Vec<_>>()})).collect::<Vec<_>>(),
        "counts": o.counts.items.iter().map(|c| c.count).collect::<Vec<_>>(), "zs": o.z_reference_vectors.items.len(), "inst": o.instances.items.len(),
    })).collect();
    json!({"mats": mats, "objs": objs})
}
/// Everything else.
fn rest(b: &B) -> u64 {
    let mut b = b.clone();
    for l in &mut b.lightmaps { for m in &mut l.materials { m.uncompressed_vertices.bytes.clear(); m.compressed_vertices.bytes.clear() } }
    let mut h = std::collections::hash_map::DefaultHasher::new();
    dump_all("ScenarioStructureBSP", &b).to_string().hash(&mut h);
    h.finish()
}
// ------------------------------------------------------------------ random BSPs
struct G<'a> { r: &'a mut Rng, odd: usize }
impl G<'_> {
    fn odd(&mut self) -> bool { self.r.below(1000) < self.odd }
    fn v(&mut self, bits: u32) -> f32 {
        match self.r.below(4) {
            0 => self.r.range(-8, 8) as f32 / 8.0,
            1 => self.r.range(-12, 12) as f32 / 8.0,
            2 => *self.r.pick(&[0.6f32, -0.8, 0.1, -0.9, 0.3, 0.999, -0.999]),
            _ => { let c = self.r.next() as u32; value(bits, c & ((1 << bits) - 1)) }
        }
    }
    fn normal(&mut self) -> [f32; 3] {
        if self.odd() || self.r.below(200) < self.odd {
            let x = *self.r.pick(&[[2.0f32, 0.0, 0.0], [0.0, 0.0, 0.0], [0.5, 0.5, 0.5], [-0.625, 0.25, 0.125], [0.0, 0.0, -1.25], [1.0, 1.0, 0.0], [0.3, 0.4, 0.0]]);
            return x;
        }
        if self.odd() { return *self.r.pick(&[[f32::NAN, 0.0, 1.0], [f32::INFINITY, 0.0, 0.0], [0.0, f32::NEG_INFINITY, f32::INFINITY], [f32::MAX, 0.0, f32::MAX], [1e-30, 0.0, -2e-30], [0.0, f32::from_bits(1), 0.0], [1e20, -1e20, 1e19]]) }
        *self.r.pick(&[[1.0, 0.0, 0.0], [0.0, -1.0, 0.0], [0.6, 0.8, 0.0], [0.0, -0.6, 0.8], [0.0, 0.0, 1.0]])
    }
    fn material(&mut self) -> ScenarioStructureBSPMaterial {
        let mut m = ScenarioStructureBSPMaterial::default();
        let r = self.r.below(4);
        let l = if self.r.chance(1, 2) { r } else { 0 };
        let (mut long, mut short) = (vec![], vec![]);
        let p = |b: &mut Vec<u8>, x: f32| b.extend(x.to_le_bytes());
        let vec = |g: &mut Self, b: &mut Vec<u8>| for bits in [11, 11, 10] { let x = g.v(bits); b.extend(x.to_le_bytes()) };
        for _ in 0..r {
            let place: Vec<f32> = (0..5).map(|_| rand_f32(self.r)).collect();
            for b in [&mut long, &mut short] { for x in &place[..3] { p(b, *x) } }
            for x in self.normal() { p(&mut long, x) }
            vec(self, &mut long);
            vec(self, &mut long);
            for _ in 0..3 { short.extend((self.r.next() as u32).to_le_bytes()) }
            for b in [&mut long, &mut short] { for x in &place[3..] { p(b, *x) } }
        }
        for _ in 0..l {
            vec(self, &mut long);
            for _ in 0..2 { let x = self.v(16); p(&mut long, x) }
            for _ in 0..2 { short.extend((self.r.next() as u32).to_le_bytes()) }
        }
        match self.r.below(8) { 0 => { long.clear(); short.clear() }, 1 | 2 => long.clear(), 3 | 4 => short.clear(), _ => () }
        let (mut r, mut l) = (r as u32, l as u32);
        if self.odd() { r = *self.r.pick(&[0, 1, r + 1, u32::MAX, 0x8000_0000, 0x0492_4925]) }
        if self.odd() { l = *self.r.pick(&[0, 1, r, l + 1, u32::MAX]) }
        for b in [&mut long, &mut short] {
            if self.odd() { let n = b.len(); b.resize(*self.r.pick(&[n + 1, n + 4, n.saturating_sub(1), n + 8, n + 20, n.saturating_sub(8), 0, 1]), 0) }
        }
        m.rendered_vertices.vertex_count = r;
        m.lightmap_vertices.vertex_count = l;
        m.uncompressed_vertices.bytes = long;
        m.compressed_vertices.bytes = short;
        m
    }
    fn objects(&mut self, palette: &[usize]) -> ScenarioStructureBSPDetailObjectData {
        let mut o = ScenarioStructureBSPDetailObjectData::default();
        let (mut start, mut count) = (0, 0);
        for _ in 0..self.r.below(4) {
            let mut flags = 0u32;
            for k in palette { if self.r.chance(1, 2) { flags |= 1 << k } }
            if self.odd() || self.r.below(100) < self.odd { flags |= 1 << *self.r.pick(&[0, 1, 2, 5, 31]) }
            let mut c = ScenarioStructureBSPGlobalDetailObjectCell { valid_layers_flags: flags as i32, start_index: start, count_index: count, ..Default::default() };
            for _ in 0..flags.count_ones() {
                let n = self.r.below(3) as u16;
                o.counts.items.push(ScenarioStructureBSPGlobalDetailObjectCount { count: n, ..Default::default() });
                o.z_reference_vectors.items.push(Default::default());
                for _ in 0..n { o.instances.items.push(Default::default()) }
                start += n as u32;
                count += 1;
            }
            if self.odd() { c.start_index = *self.r.pick(&[0, 1, start, start + 1, u32::MAX]) }
            if self.odd() { c.count_index = *self.r.pick(&[0, 1, count, count + 1, u32::MAX]) }
            o.cells.items.push(c);
        }
        if self.odd() { o.counts.items.pop(); }
        if self.odd() { o.z_reference_vectors.items.pop(); }
        if self.odd() { o.instances.items.pop(); }
        if self.odd() { if let Some(c) = o.counts.items.last_mut() { c.count = 0xFFFF } }
        o
    }
}
pub fn run(a: &Args) -> usize {
    let mut out = Out::new(&a.out);
    let mut r = Rng::new(a.seed);
    let doc = TagPath::new("doc", TagGroup::DetailObjectCollection).unwrap();
    for _ in 0..a.n {
        let palette: Vec<Option<()>> = (0..r.below(4)).map(|_| if r.chance(3, 4) { Some(()) } else { None }).collect();
        let there: Vec<usize> = palette.iter().enumerate().filter(|x| x.1.is_some()).map(|x| x.0).collect();
        let odd = *r.pick(&[0, 0, 5, 20, 60]);
        let mut b = B::default();
        for _ in 0..r.below(3) {
            let mut l = ScenarioStructureBSPLightmap::default();
            for _ in 0..r.below(3) { l.materials.items.push(G { r: &mut r, odd }.material()) }
            b.lightmaps.items.push(l);
        }
        for _ in 0..r.below(2) { b.detail_objects.items.push(G { r: &mut r, odd }.objects(&there)) }
        let p = TagPath::new("bsp", TagGroup::ScenarioStructureBSP).unwrap();
        let mut rec = json!({"a": dump(&b), "palette": there});
        about_to(&rec);
        match guard_ms(20000, || {
            let was = rest(&b);
            let mut s = Scenario::default();
            for x in &palette {
                let mut e = ScenarioDetailObjectCollectionPalette::default();
                if x.is_some() { e.reference = TagReference::Set(doc.clone()) }
                s.detail_object_collection_palette.items.push(e);
            }
            let check = |b: &B| {
                let tags: Vec<(TagPath, Box<dyn PrimaryTagStructDyn>)> = vec![(p.clone(), Box::new(b.clone())), (doc.clone(), Box::new(DetailObjectCollection::default()))];
                let mut v = crate::c08::verify_tags_in(tags, s.clone()).unwrap();
                v.remove(&p).unwrap().errors
            };
            let errors = check(&b);
            let missing: Vec<usize> = errors.iter().filter_map(|e| e.split('#').nth(1).filter(|_| e.contains("palette")).and_then(|e| e.split(' ').next()).and_then(|n| n.parse().ok())).collect();
            let mut x = b.clone();
            let did = recompress_scenario_structure_bsp_vertices(&mut x);
            let restored = match &did { Ok(_) => json!([dump(&x)]), Err(_) => json!([]) };
            let mut y = b.clone();
            let done = matches!(bludgeon_tag(&mut y, &p), BludgeonResult::Done);
            let after = check(&y).is_empty();
            json!({"bad": !errors.is_empty(), "missing": missing, "restored": restored, "did": did.unwrap_or(false), "done": done, "repaired": dump(&y), "after": after, "rest": [rest(&x) == was, rest(&y) == was]})
        }) {
            Ok(v) => for (k, v) in v.as_object().unwrap() { rec[k.as_str()] = v.clone() },
            Err(e) => rec["crash"] = json!(e),
        }
        out.put(&rec);
    }
    out.finish()
}
