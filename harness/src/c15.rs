//! Cache files: made here byte by byte, loaded by the real code, then asked about everything.
use crate::util::*;
use crate::value::*;
use ringhopper::map::*;
use ringhopper::primitives::engine::*;
use ringhopper::primitives::map::*;
use ringhopper::primitives::primitive::*;
use ringhopper::primitives::tag::*;
use ringhopper_engines::ALL_SUPPORTED_ENGINES;
use serde_json::{json, Value};
use std::io::Write;
use std::path::Path;
use std::sync::Arc;

pub fn pair(a: u64) -> Value {
    json!([(a >> 16) & 0xFFFF_FFFF, a & 0xFFFF])
}
/// One-off: the engines as the specification knows them.
pub fn engines_json() -> Value {
    Value::Array(ALL_SUPPORTED_ENGINES.iter().map(|e| json!({
        "name": bytes(e.name.as_bytes()), "cache_file_version": bytes(&e.cache_file_version.to_le_bytes()),
        "has_build": e.build.is_some(), "enforced": e.build.is_some_and(|b| b.enforced),
        "builds": e.build.map(|b| std::iter::once(&b.string).chain(b.fallback).map(|s| bytes(s.as_bytes())).collect::<Vec<_>>()).unwrap_or_default(),
        "cache_default": e.cache_default, "external_bsps": e.external_bsps, "external_models": e.external_models, "compressed_models": e.compressed_models,
        "compression": if e.compression_type == EngineCompressionType::Uncompressed { "none" } else { "deflate" },
        "base": pair(e.base_memory_address.address), "inferred": e.base_memory_address.inferred,
        "externally_indexed_tags": e.resource_maps.is_some_and(|r| r.externally_indexed_tags), "loc": e.resource_maps.is_some_and(|r| r.loc),
        "cache_parser": if e.cache_parser == EngineCacheParser::PC { "PC" } else { "Xbox" },
        "swizzled": e.bitmap_options.swizzled, "modulo": e.bitmap_options.texture_dimension_must_modulo_block_size,
        "faces_apart": e.bitmap_options.cubemap_faces_stored_separately, "alignment": e.bitmap_options.alignment,
    })).collect())
}

#[derive(Clone, Copy, PartialEq)]
pub enum Dom { Tag, Bsp(usize), Own }
pub struct Bsp { pub d: Vec<u8>, pub base: u32, pub index: usize, pub start: u32, pub vtx: Vec<u8> }
pub struct TagE { pub group: &'static str, pub path: Vec<u8>, pub addr: u32, pub external: bool }
pub struct Build {
    pub eng: &'static Engine,
    pub base: u32,
    pub tagd: Vec<u8>,
    pub own: Vec<u8>,
    pub bsps: Vec<Bsp>,
    pub files: Vec<u8>,
    pub sounds: Vec<u8>,
    pub tags: Vec<TagE>,
    pub mverts: Vec<u8>,
    pub mtris: Vec<u8>,
    pub bmfile: Vec<u8>,
    /// raw data comes in pairs of bytes
    pub even: bool,
    pub budget: usize,
    /// values that survive later changes (finite numbers, valid enumerations)
    pub tame: bool,
    pub dense: usize,
}
pub fn put(d: &mut [u8], at: usize, b: &[u8]) {
    d[at..at + b.len()].copy_from_slice(b)
}
pub fn size_of(s: &str) -> usize {
    layout()["structs"][s]["size"].as_u64().unwrap() as usize
}
pub fn one_size(f: &Value) -> usize {
    let sum = || f["w"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).sum();
    match f["k"].as_str().unwrap() {
        "prim" | "pad" => sum(),
        "enum" => 2,
        "bits" => layout()["bitfields"][f["s"].as_str().unwrap()]["bytes"].as_u64().unwrap() as usize,
        "struct" => size_of(f["s"].as_str().unwrap()),
        "refl" => 12,
        "ref" => 16,
        "group" => 4,
        "data" => 20,
        _ => 32,
    }
}
/// Where a field lies in its structure.
pub fn offset(s: &str, n: &str) -> usize {
    let mut at = 0;
    for f in fields(s) {
        if f["n"] == n { return at }
        at += one_size(f) * f["cnt"].as_u64().unwrap() as usize;
    }
    panic!("{s}.{n}")
}
impl Build {
    pub fn buf(&mut self, d: Dom) -> &mut Vec<u8> {
        match d { Dom::Tag => &mut self.tagd, Dom::Bsp(i) => &mut self.bsps[i].d, Dom::Own => &mut self.own }
    }
    pub fn base_of(&self, d: Dom) -> u32 {
        match d { Dom::Tag => self.base, Dom::Bsp(i) => self.bsps[i].base, Dom::Own => 0 }
    }
    /// Room at the end of a domain: where it is in the buffer.
    pub fn alloc(&mut self, d: Dom, n: usize) -> usize {
        let b = self.buf(d);
        let at = b.len();
        b.resize(at + n, 0);
        at
    }
    pub fn addr(&self, d: Dom, at: usize) -> u32 {
        self.base_of(d).wrapping_add(at as u32)
    }
    pub fn id(&self, i: usize) -> u32 {
        ID::new(Some(i as u16), 0x6174).as_u32()
    }
    pub fn u32at(&mut self, d: Dom, at: usize, v: u32) {
        put(self.buf(d), at, &v.to_le_bytes())
    }
    fn prim(&self, r: &mut Rng, t: &str, w: &[usize]) -> Vec<u8> {
        let float = matches!(t, "float" | "Angle" | "Vector2D" | "Vector3D" | "Euler2D" | "Euler3D" | "Plane2D" | "Plane3D" | "Quaternion" | "Matrix3x3" | "ColorRGBFloat" | "ColorARGBFloat");
        let mut out = vec![];
        for &n in w {
            if float {
                let f = if self.tame { r.range(-400, 400) as f32 / 16.0 } else if r.chance(1, 30) { f32::from_bits(0x7F80_0000 | (r.next() as u32 & 0x807F_FFFF)) } else { rand_f32(r) };
                out.extend(f.to_le_bytes())
            }
            else if t == "Index" && r.chance(1, 3) { out.extend([255, 255]) }
            else if r.chance(1, 3) { out.extend((0..n).map(|i| if i == 0 { r.below(4) as u8 } else { 0 })) }
            else { out.extend((0..n).map(|_| r.next() as u8)) }
        }
        out
    }
    pub fn fill(&mut self, r: &mut Rng, d: Dom, at: usize, s: &str) {
        let mut o = at;
        for f in fields(s) {
            let z = one_size(f);
            for _ in 0..f["cnt"].as_u64().unwrap() {
                self.fill_one(r, d, o, f, z);
                o += z;
            }
        }
        if s == "ScenarioStructureBSPMaterial" { self.material(r, d, at) }
    }
    fn fill_one(&mut self, r: &mut Rng, d: Dom, o: usize, f: &Value, z: usize) {
        let gone = f["x"] == true || f["nc"] == true || f["k"] == "pad";
        if gone {
            if r.chance(1, 2) { let b: Vec<u8> = (0..z).map(|_| r.next() as u8).collect(); put(self.buf(d), o, &b) }
            return
        }
        let b: Vec<u8> = match f["k"].as_str().unwrap() {
            "prim" => { let w: Vec<usize> = f["w"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect(); self.prim(r, f["t"].as_str().unwrap(), &w) }
            "enum" => {
                let n = layout()["enums"][f["s"].as_str().unwrap()].as_array().unwrap().len();
                let v = if f["sh"] == true { r.below(n) as u16 } else if !self.tame && r.chance(1, 10) { r.below(n + 2) as u16 } else { r.below(n) as u16 };
                (if f["sh"] == true { v.wrapping_sub(1) } else { v }).to_le_bytes().to_vec()
            }
            "bits" => { let all = r.chance(1, 6); (0..z).map(|_| if all { 255 } else { r.next() as u8 }).collect() }
            "struct" => return self.fill(r, d, o, f["s"].as_str().unwrap()),
            "refl" => {
                let s = f["s"].as_str().unwrap();
                let c = size_of(s);
                let mut n = if r.below(100) < self.dense { 1 + r.below(3) } else { 0 };
                while n > 0 && c * n > self.budget { n -= 1 }
                self.budget -= c * n;
                let to = if matches!(d, Dom::Bsp(_)) && r.chance(1, 4) { Dom::Tag } else { d };
                let start = self.alloc(to, c * n);
                let b = self.buf(d);
                put(b, o, &(n as u32).to_le_bytes());
                let a = self.addr(to, start);
                self.u32at(d, o + 4, a);
                // what is in tag data has all its parts there (a BSP's may be in either)
                for i in 0..n { self.fill(r, if to == d { d } else { Dom::Tag }, start + i * c, s) }
                return
            }
            "ref" => {
                let g = |g: &str| { let mut b = to_bytes(&layout()["fourcc"][g]); b.reverse(); b };
                let mut b = vec![0u8; 16];
                let null = r.chance(1, 2) || self.tags.is_empty();
                if null {
                    let want = f["g"].as_array().unwrap();
                    let name = if want[0] == "*" || r.chance(1, 6) { "bitmap".to_string() } else { r.pick(want).as_str().unwrap().to_string() };
                    put(&mut b, 0, &g(&name));
                    if r.chance(1, 12) { put(&mut b, 0, &[r.next() as u8, 1, 2, 3]) }
                    if r.chance(1, 12) { put(&mut b, 0, &[255; 4]) }
                    put(&mut b, 12, &(if r.chance(1, 4) { 0u32 } else { u32::MAX }).to_le_bytes());
                }
                else {
                    let i = r.below(self.tags.len());
                    put(&mut b, 0, &g(self.tags[i].group));
                    let id = if r.chance(1, 8) { (r.next() as u32) << 16 | 0x10000 | i as u32 } else { self.id(i) };
                    put(&mut b, 12, &id.to_le_bytes());
                }
                b
            }
            "data" => {
                let n = if r.chance(1, 2) { 0 } else { 1 + r.below(24) }.min(self.budget);
                let n = if self.even { n & !1 } else { n };
                self.budget -= n;
                let mut h = vec![0u8; 20];
                let bytes: Vec<u8> = (0..n).map(|_| r.next() as u8).collect();
                put(&mut h, 0, &(n as u32).to_le_bytes());
                match f["t"].as_str().unwrap() {
                    "FileData" => {
                        let ext = self.eng.resource_maps.is_some() && r.chance(1, 2);
                        let v = if ext { &mut self.sounds } else { &mut self.files };
                        let at = v.len() as u32 + if ext { 16 } else { 0x800 };
                        v.extend(&bytes);
                        put(&mut h, 4, &(ext as u32 | if r.chance(1, 3) { 6 } else { 0 }).to_le_bytes());
                        put(&mut h, 8, &at.to_le_bytes());
                    }
                    "BSPVertexData" => { put(&mut h, 0, &(r.below(9) as u32).to_le_bytes()) }
                    _ => {
                        let at = self.alloc(d, n);
                        put(self.buf(d), at, &bytes);
                        put(&mut h, 12, &self.addr(d, at).to_le_bytes());
                        if r.chance(1, 4) { put(&mut h, 4, &[r.next() as u8]); put(&mut h, 8, &[r.next() as u8; 4]) }
                    }
                }
                h
            }
            "group" => { let all = all_groups(); r.pick(&all).1.to_le_bytes().to_vec() }
            "str32" => {
                let mut b = rand_text(r, 31).into_bytes();
                if !self.tame && r.chance(1, 8) { b.push(0xC3) }
                b.resize(32, if r.chance(1, 20) { 65 } else { 0 });
                if r.chance(1, 6) && b.len() > 3 { b[2] = 0 }
                b
            }
            k => panic!("{k}"),
        };
        put(self.buf(d), o, &b[..z]);
    }
    /// Vertices of a material; the rest of it is random.
    fn material(&mut self, r: &mut Rng, d: Dom, at: usize) {
        let Dom::Bsp(bi) = d else { return };
        let s = "ScenarioStructureBSPMaterial";
        let comp = self.eng.compressed_models;
        let (rz, lz) = if comp { (32, 8) } else { (56, 20) };
        let rn = r.below(3);
        let ln = if r.chance(1, 2) { rn } else { r.below(3) };
        let rv = at + offset(s, "rendered_vertices");
        let lv = at + offset(s, "lightmap_vertices");
        let cnt = offset("ModelVertexReference", "vertex_count");
        let off = offset("ModelVertexReference", "offset");
        self.u32at(d, rv + cnt, rn as u32);
        self.u32at(d, lv + cnt, ln as u32);
        let mine = at + offset(s, if comp { "compressed_vertices" } else { "uncompressed_vertices" });
        let n = rn * rz + ln * lz;
        let tame = self.tame;
        let raw = |r: &mut Rng, n: usize| -> Vec<u8> { (0..n / 4).flat_map(|_| if tame { (r.range(-64, 64) as f32 / 64.0).to_le_bytes() } else { (r.next() as u32).to_le_bytes() }).collect() };
        if self.eng.external_bsps && r.chance(3, 4) {
            let (a, b) = (raw(r, rn * rz), raw(r, ln * lz));
            let v = &mut self.bsps[bi].vtx;
            let x = v.len();
            v.extend(a);
            let y = v.len();
            v.extend(b);
            self.u32at(d, rv + off, x as u32);
            self.u32at(d, lv + off, y as u32);
            self.u32at(d, mine + 12, 0);
        } else {
            let b = raw(r, n);
            let p = self.alloc(d, n);
            put(self.buf(d), p, &b);
            let a = self.addr(d, p);
            self.u32at(d, mine + 12, a);
        }
    }
}

pub struct Image { pub head: Vec<u8>, pub body: Vec<u8>, pub bitmaps: Vec<u8>, pub sounds: Vec<u8>, pub loc: Vec<u8>, pub tag_start: usize, pub padding: usize, pub retail: bool }
pub fn resource_map(r: &mut Rng, kind: u16, prefix: &[u8], items: &[(Vec<u8>, Vec<u8>)]) -> Vec<u8> {
    let mut m = vec![0u8; 16];
    m.extend(prefix);
    let mut at = vec![];
    for (_, d) in items { at.push(m.len()); m.extend(d); if r.chance(1, 2) { m.push(7) } }
    let paths = m.len();
    let mut pa = vec![];
    for (p, _) in items { pa.push(m.len() - paths); m.extend(p); m.push(0) }
    let arr = m.len();
    for i in 0..items.len() {
        m.extend((pa[i] as u32).to_le_bytes());
        m.extend((items[i].1.len() as u32).to_le_bytes());
        m.extend((at[i] as u32).to_le_bytes());
    }
    put(&mut m, 0, &kind.to_le_bytes());
    put(&mut m, 4, &(paths as u32).to_le_bytes());
    put(&mut m, 8, &(arr as u32).to_le_bytes());
    put(&mut m, 12, &(items.len() as u32).to_le_bytes());
    m
}
pub fn group_name(r: &mut Rng) -> &'static str {
    let g = layout()["groups"].as_object().unwrap();
    let k: Vec<&String> = g.keys().collect();
    r.pick(&k).as_str()
}
pub struct Plan { pub groups: Vec<&'static str>, pub bsps: usize, pub tame: bool, pub budget: usize, pub dense: usize, pub named: Vec<(&'static str, &'static str)> }

/// Everything but the header; `custom` fills the tags it wants to fill itself (it says which).
pub fn build(r: &mut Rng, eng: &'static Engine, plan: &Plan, custom: &mut dyn FnMut(&mut Rng, &mut Build, usize, usize) -> bool) -> (Build, Image) {
    let base = if eng.base_memory_address.inferred { *r.pick(&[eng.base_memory_address.address as u32, 0x5000_0000, 0x1234_5678, 0x8000_0000]) } else { eng.base_memory_address.address as u32 };
    let xbox = eng.cache_parser == EngineCacheParser::Xbox;
    let hsize = if eng.external_models && !xbox { 40 } else { 36 };
    let mut b = Build { eng, base, tagd: vec![0; hsize], own: vec![], bsps: vec![], files: vec![], sounds: vec![], tags: vec![], mverts: vec![], mtris: vec![], bmfile: vec![], even: false, budget: plan.budget, tame: plan.tame, dense: plan.dense };
    let words = ["a", "b", "Levels", "c c", "x", "é", "漢", "weapons"];
    let mut used = std::collections::HashSet::new();
    for (g, p) in &plan.named { if used.insert((*g, p.to_lowercase())) { b.tags.push(TagE { group: g, path: p.as_bytes().to_vec(), addr: 0, external: false }) } }
    let mut add = |b: &mut Build, r: &mut Rng, g: &'static str| {
        for _ in 0..40 {
            let mut p = String::new();
            for i in 0..1 + r.below(3) { if i > 0 { p.push('\\') } p += r.pick(&words) }
            if used.insert((g, p.to_lowercase())) { b.tags.push(TagE { group: g, path: p.into_bytes(), addr: 0, external: false }); return }
        }
    };
    let mut gs: Vec<&'static str> = plan.groups.clone();
    gs.push("scenario");
    for _ in 0..plan.bsps { gs.push("scenario_structure_bsp") }
    r.shuffle(&mut gs);
    for g in gs { if g != "scenario" || !plan.named.iter().any(|x| x.0 == "scenario") { add(&mut b, r, g) } }
    let n = b.tags.len();
    let gap = !eng.base_memory_address.inferred && r.chance(1, 6);
    if gap { b.alloc(Dom::Tag, 8); }
    let arr = b.alloc(Dom::Tag, 32 * n);
    for i in 0..n {
        let p = b.tags[i].path.clone();
        let at = b.alloc(Dom::Tag, p.len() + 1);
        put(&mut b.tagd, at, &p);
        let g = b.tags[i].group;
        let mut four = to_bytes(&layout()["fourcc"][g]);
        four.reverse();
        let e = arr + 32 * i;
        put(&mut b.tagd, e, &four);
        put(&mut b.tagd, e + 4, &[255; 8]);
        let id = b.id(i).to_le_bytes();
        put(&mut b.tagd, e + 12, &id);
        let a = b.addr(Dom::Tag, at).to_le_bytes();
        put(&mut b.tagd, e + 16, &a);
    }
    while b.tagd.len() % 4 != 0 { b.tagd.push(0) }
    let idx: Vec<usize> = (0..n).filter(|i| b.tags[*i].group == "scenario_structure_bsp").collect();
    for (k, i) in idx.iter().enumerate() {
        let base = b.base.wrapping_add(0x0100_0000).wrapping_sub(if r.chance(1, 2) { 4096 } else { 8192 + 64 * k as u32 });
        b.bsps.push(Bsp { d: vec![0; 24], base, index: *i, start: 0, vtx: if eng.external_bsps { (0..r.below(9)).map(|_| r.next() as u8).collect() } else { vec![] } });
    }
    let ext = eng.resource_maps.is_some_and(|x| x.externally_indexed_tags);
    let (mut bm, mut sm, mut lm): (Vec<(Vec<u8>, Vec<u8>)>, Vec<(Vec<u8>, Vec<u8>)>, Vec<(Vec<u8>, Vec<u8>)>) = (vec![], vec![], vec![]);
    for i in 0..n {
        let g = b.tags[i].group;
        let s = group_struct(g);
        let z = size_of(s);
        let lower = String::from_utf8(b.tags[i].path.clone()).unwrap().to_ascii_lowercase().into_bytes();
        if let Some(k) = b.bsps.iter().position(|x| x.index == i) {
            let at = b.alloc(Dom::Bsp(k), z);
            let a = b.addr(Dom::Bsp(k), at);
            b.u32at(Dom::Bsp(k), 0, a);
            if !custom(r, &mut b, i, at) { b.fill(r, Dom::Bsp(k), at, s) }
            continue
        }
        b.tags[i].external = ext && g != "scenario" && r.chance(1, 3);
        let e = arr + 32 * i;
        if b.tags[i].external {
            put(&mut b.tagd, e + 24, &[1 + r.below(2) as u8]);
            b.own.clear();
            if g == "sound" {
                // the pitch ranges are found from address 0 on
                let at = b.alloc(Dom::Tag, z);
                b.fill(r, Dom::Tag, at, s);
                let a = b.addr(Dom::Tag, at);
                b.tags[i].addr = a;
                let keep = b.own.len();
                debug_assert_eq!(keep, 0);
                let n = r.below(3);
                let start = b.alloc(Dom::Own, n * size_of("SoundPitchRange"));
                for k in 0..n { b.fill(r, Dom::Own, start + k * size_of("SoundPitchRange"), "SoundPitchRange") }
                let pitch = std::mem::take(&mut b.own);
                b.alloc(Dom::Own, z);
                let save = b.dense;
                b.dense = 0;
                b.fill(r, Dom::Own, 0, s);
                b.dense = save;
                let mut own = std::mem::take(&mut b.own);
                own.truncate(z);
                put(&mut own, 152, &(n as u32).to_le_bytes());
                own.extend(pitch);
                sm.push((lower, own));
            } else {
                b.alloc(Dom::Own, z);
                b.fill(r, Dom::Own, 0, s);
                let own = std::mem::take(&mut b.own);
                let m = if g == "bitmap" { &mut bm } else { &mut lm };
                if r.chance(1, 4) { m.push((b"other".to_vec(), vec![1, 2, 3])) }
                b.tags[i].addr = m.len() as u32;
                m.push((lower, own));
            }
        } else {
            let at = b.alloc(Dom::Tag, z);
            let a = b.addr(Dom::Tag, at);
            b.tags[i].addr = a;
            if !custom(r, &mut b, i, at) {
                b.fill(r, Dom::Tag, at, s);
            }
            if g == "scenario" {
                let o = at + offset(s, "structure_bsps");
                let c = size_of("ScenarioBSP");
                let k = b.bsps.len();
                let start = b.alloc(Dom::Tag, c * k);
                b.u32at(Dom::Tag, o, k as u32);
                let a = b.addr(Dom::Tag, start);
                b.u32at(Dom::Tag, o + 4, a);
                for j in 0..k {
                    let q = start + j * c;
                    b.bsps[j].start = q as u32; // for now: where its entry is
                    let ids = b.id(b.bsps[j].index);
                    let f = to_bytes(&layout()["fourcc"]["scenario_structure_bsp"]);
                    put(&mut b.tagd, q + 16, &[f[3], f[2], f[1], f[0]]);
                    b.u32at(Dom::Tag, q + 28, ids);
                    let base = b.bsps[j].base;
                    b.u32at(Dom::Tag, q + 8, base);
                }
            }
        }
        let a = b.tags[i].addr;
        b.u32at(Dom::Tag, e + 20, a);
    }
    if r.chance(1, 4) { let x = b.alloc(Dom::Tag, 5); put(&mut b.tagd, x, b"tail\0") }
    // the file: header, raw data, BSPs with their vertices, models, tag data
    let mut body = b.files.clone();
    while (0x800 + body.len()) % 4 != 0 { body.push(0) }
    for k in 0..b.bsps.len() {
        let q = b.bsps[k].start as usize;
        let v = b.bsps[k].vtx.clone();
        let vs = 0x800 + body.len() as u32;
        body.extend(&v);
        if eng.external_bsps { b.u32at(Dom::Bsp(k), 4, v.len() as u32); b.u32at(Dom::Bsp(k), 8, vs) } else { let x = r.next(); put(&mut b.bsps[k].d, 4, &x.to_le_bytes()) }
        let start = 0x800 + body.len() as u32;
        let len = b.bsps[k].d.len() as u32;
        let d = b.bsps[k].d.clone();
        body.extend(&d);
        b.bsps[k].start = start;
        b.u32at(Dom::Tag, q, start);
        b.u32at(Dom::Tag, q + 4, len);
    }
    let ms = 0x800 + body.len() as u32;
    body.extend(&b.mverts);
    body.extend(&b.mtris);
    if r.chance(1, 3) { body.extend([9; 6]) }
    let scn = (0..n).find(|i| b.tags[*i].group == "scenario").unwrap();
    let a = b.addr(Dom::Tag, arr);
    b.u32at(Dom::Tag, 0, a);
    let id = b.id(scn);
    b.u32at(Dom::Tag, 4, id);
    b.u32at(Dom::Tag, 8, r.next() as u32);
    b.u32at(Dom::Tag, 12, n as u32);
    if hsize == 40 {
        b.u32at(Dom::Tag, 20, ms);
        let (v, t) = (b.mverts.len() as u32, b.mtris.len() as u32);
        b.u32at(Dom::Tag, 28, v);
        b.u32at(Dom::Tag, 32, v + t);
    }
    let tag_start = 0x800 + body.len();
    body.extend(&b.tagd);
    if r.chance(1, 5) { body.extend([3; 9]) }
    let mut prefix = std::mem::take(&mut b.sounds);
    if prefix.is_empty() { prefix.push(1) }
    let mut bprefix = std::mem::take(&mut b.bmfile);
    let bneeded = !bprefix.is_empty();
    if !bneeded { bprefix.extend([5; 20]) }
    let bitmaps = if !bm.is_empty() || r.chance(1, 4) || bneeded { resource_map(r, 1, &bprefix, &bm) } else { vec![] };
    let sounds = if !sm.is_empty() || prefix.len() > 1 || r.chance(1, 4) { resource_map(r, 2, &prefix, &sm) } else { vec![] };
    let loc = if !lm.is_empty() || r.chance(1, 4) { resource_map(r, 3, &[], &lm) } else { vec![] };
    let size = 0x800 + body.len();
    let mut head = vec![0u8; 0x800];
    let retail = !(r.chance(1, 6) || eng.name.contains("demo"));
    let build = match &eng.build { Some(x) if x.enforced || r.chance(2, 3) => (*r.pick(&std::iter::once(x.string).chain(x.fallback.iter().copied()).collect::<Vec<_>>())).to_string(), _ => rand_text(r, 31) };
    let name = rand_text(r, 31);
    let padding = if eng.compression_type == EngineCompressionType::Uncompressed { r.below(3) } else { r.below(20) };
    let f = |v: usize| (v as u32).to_le_bytes();
    if retail {
        put(&mut head, 0, b"daeh");
        put(&mut head, 0x7FC, b"toof");
        put(&mut head, 4, &eng.cache_file_version.to_le_bytes());
        put(&mut head, 8, &f(size));
        put(&mut head, 12, &f(padding));
        put(&mut head, 16, &f(tag_start));
        put(&mut head, 20, &f(b.tagd.len()));
        put(&mut head, 32, name.as_bytes());
        put(&mut head, 64, build.as_bytes());
        put(&mut head, 96, &[r.below(3) as u8]);
    } else {
        put(&mut head, 704, b"dehE");
        put(&mut head, 1520, b"tofG");
        put(&mut head, 708, &f(b.tagd.len()));
        put(&mut head, 712, build.as_bytes());
        put(&mut head, 1416, &eng.cache_file_version.to_le_bytes());
        put(&mut head, 1420, name.as_bytes());
        put(&mut head, 1512, &f(size));
        put(&mut head, 1516, &f(tag_start));
    }
    let padding = if retail { padding } else { 0 };
    (b, Image { head, body, bitmaps, sounds, loc, tag_start, padding, retail })
}
impl Image {
    pub fn set_crc(&mut self, c: u32) {
        let at = if self.retail { 100 } else { 1456 };
        put(&mut self.head, at, &c.to_le_bytes());
    }
}

pub struct Files { pub size: usize }
/// Puts the files into the folder; a damaged stream is never a valid one.
pub fn store(dir: &Path, im: &Image, eng: &Engine, zbad: bool) -> Files {
    let mut f = im.head.clone();
    if eng.compression_type == EngineCompressionType::Uncompressed {
        f.extend(&im.body);
    } else {
        let mut z = flate2::write::ZlibEncoder::new(Vec::new(), flate2::Compression::fast());
        z.write_all(&im.body).unwrap();
        let mut z = z.finish().unwrap();
        if zbad { z[0] = 0x07 }
        f.extend(z);
        f.extend(vec![0; im.padding]);
    }
    std::fs::write(dir.join("x.map"), &f).unwrap();
    for (n, d) in [("bitmaps.map", &im.bitmaps), ("sounds.map", &im.sounds), ("loc.map", &im.loc)] {
        if d.is_empty() { let _ = std::fs::remove_file(dir.join(n)); } else { std::fs::write(dir.join(n), d).unwrap() }
    }
    Files { size: f.len() }
}

const MUT: &[u32] = &[0, 1, 2, 0xFFFF, 0x10000, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFF, 0xFFFF_FFF0, 0x4044_0000, 0x4044_0028, 0x803A_6000];
fn damage(r: &mut Rng, im: &mut Image, b: &Build) {
    let t = im.tag_start - 0x800;
    let arr = { let x = u32::from_le_bytes(im.body[t..t + 4].try_into().unwrap()); x.wrapping_sub(b.base) as usize };
    let u32v = |r: &mut Rng, old: u32| match r.below(5) { 0 => *r.pick(MUT), 1 => old.wrapping_add(r.range(-8, 8) as u32), 2 => r.below(64) as u32, 3 => old ^ (1 << r.below(32)), _ => old.wrapping_add(*r.pick(&[4, 32, 64, 0x100, 0x1000])) };
    let poke = |v: &mut Vec<u8>, at: usize, r: &mut Rng| if at + 4 <= v.len() { let o = u32::from_le_bytes(v[at..at + 4].try_into().unwrap()); let n = u32v(r, o); put(v, at, &n.to_le_bytes()) };
    let n = b.tags.len();
    match r.below(18) {
        0 => { let at = *r.pick(if im.retail { &[0usize, 4, 8, 12, 16, 20, 0x7FC][..] } else { &[704, 708, 1416, 1512, 1516, 1520][..] }); if at != 8 && at != 1512 { poke(&mut im.head, at, r) } }
        1 | 2 => { let at = t + 4 * r.below(10); poke(&mut im.body, at, r) }
        3 | 4 => { let at = t + arr + 32 * r.below(n) + 4 * r.below(8); poke(&mut im.body, at, r) }
        5 => { let (i, j) = (r.below(n), r.below(n)); let k = *r.pick(&[0usize, 12, 16, 20]); let c: Vec<u8> = im.body[t + arr + 32 * i + k..][..4].to_vec(); put(&mut im.body, t + arr + 32 * j + k, &c); if r.chance(1, 2) { let k = 16 - k % 32; if k < 28 { let c: Vec<u8> = im.body[t + arr + 32 * i + k..][..4].to_vec(); put(&mut im.body, t + arr + 32 * j + k, &c) } } }
        6 => { let g = *r.pick(&[[255u8; 4], [0; 4], [0x72, 0x6e, 0x63, 0x73], [0x70, 0x73, 0x62, 0x73], [1, 2, 3, 4], [0x6d, 0x74, 0x69, 0x62]]); let j = r.below(n); put(&mut im.body, t + arr + 32 * j + 4 * r.below(3), &g) }
        7 => { let lo = arr + 32 * n; let hi = b.tagd.len(); let at = t + lo + r.below((hi - lo).min(160)); im.body[at] = *r.pick(&[0u8, 46, 47, 58, 92, 255, 65, 195, 42]) }
        8 => { let k = r.below(40) + 1; let l = im.body.len().saturating_sub(k); im.body.truncate(l); }
        9 => { for v in [&mut im.bitmaps, &mut im.sounds, &mut im.loc] { if v.len() > 16 { let at = if r.chance(1, 2) { 4 + 4 * r.below(3) } else { v.len() - 4 * (1 + r.below(6)) }; let at = at.min(v.len() - 4); poke(v, at, r); if r.chance(1, 6) { let l = v.len() - 1; v.truncate(l) } } } }
        10 => { match r.below(3) { 0 => im.bitmaps.clear(), 1 => im.sounds.clear(), _ => im.loc.clear() } }
        11 | 12 => if let Some(s) = b.tags.iter().find(|x| x.group == "scenario") {
            let at = t + s.addr.wrapping_sub(b.base) as usize;
            if r.chance(1, 3) {
                let o = at + 1444 + 4 * r.below(2);
                poke(&mut im.body, o, r)
            } else if r.chance(1, 2) {
                let p = u32::from_le_bytes(im.body[at + 1448..at + 1452].try_into().unwrap()).wrapping_sub(b.base) as usize;
                let o = t + p + 32 * r.below(b.bsps.len().max(1)) + 4 * *r.pick(&[0usize, 1, 2, 7, 7]);
                if r.chance(1, 3) && o + 4 <= im.body.len() { let id = b.id(r.below(n)).to_le_bytes(); put(&mut im.body, o, &id) } else { poke(&mut im.body, o, r) }
            } else {
                let o = at + 4 * r.below(1456 / 4);
                poke(&mut im.body, o, r)
            }
        },
        // another scenario
        13 => { let j = r.below(n); put(&mut im.body, t + arr + 32 * j, &[0x72, 0x6e, 0x63, 0x73]) }
        // the same tag twice
        14 => { let (i, j) = (r.below(n), r.below(n)); for k in [0, 16] { let c: Vec<u8> = im.body[t + arr + 32 * i + k..][..4].to_vec(); put(&mut im.body, t + arr + 32 * j + k, &c) } }
        // another path in a resource map
        15 => { let vs: Vec<usize> = (0..3).filter(|k| [&im.bitmaps, &im.sounds, &im.loc][*k].len() > 40).collect(); if !vs.is_empty() {
            let v = match *r.pick(&vs) { 0 => &mut im.bitmaps, 1 => &mut im.sounds, _ => &mut im.loc };
            let at = u32::from_le_bytes(v[4..8].try_into().unwrap()) as usize;
            if at < v.len() { v[at] = if v[at] == b'q' { b'r' } else { b'q' } }
        } }
        16 => if im.retail { let x = *r.pick(&[0x7FFF_FFFFu32, 0, 100_000]); put(&mut im.head, 12, &x.to_le_bytes()) },
        _ => if !b.bsps.is_empty() { let k = r.below(b.bsps.len()); let at = b.bsps[k].start as usize - 0x800 + 4 * r.below(6); poke(&mut im.body, at, r) },
    }
}
fn got(x: Option<&[u8]>) -> Value {
    match x { Some(b) => json!({"ok": true, "v": bytes(b)}), None => json!({"ok": false, "v": []}) }
}
fn dom_kind(d: &DomainType) -> &'static str {
    match d { DomainType::TagData => "tag", DomainType::BSP(_) => "bsp", DomainType::ResourceMapEntry(..) => "own", _ => "other" }
}
fn look(r: &mut Rng, m: &Arc<dyn MapTagTree + Send + Sync>, n: usize, b: &Build) -> Value {
    let small = |v: Option<usize>| match v { Some(x) if x >= 1_000_000_000 => 1_000_000_000i64, Some(x) => x as i64, None => -1 };
    let crc = m.get_crc32().map(|(a, c)| vec![bytes(&a.to_be_bytes()), bytes(&c.to_be_bytes())]).unwrap_or_default();
    let tags: Vec<Value> = (0..n + 2).map(|i| match m.get_tag_by_index(i) {
        None => json!({"none": true}),
        Some(t) => {
            let reads: Vec<Value> = (0..3).map(|k| {
                let z = size_of(group_struct(t.tag_path.group().as_str()));
                let off = if k == 0 { 0 } else if k == 1 { r.below(60) } else { r.below(z + 4) };
                let len = if k == 2 { 8 + r.below(60) } else { r.below(12) };
                json!({"off": off, "n": len, "got": got(m.get_data_at_address(t.address + off, &t.domain, len))})
            }).collect();
            json!({"none": false, "g": bytes(&t.tag_path.group().as_fourcc().to_be_bytes()), "c": cps(t.tag_path.path()), "a": pair(t.address as u64), "d": dom_kind(&t.domain), "reads": reads})
        }
    }).collect();
    let index = |t: Option<&Tag>| t.map(|t| (0..n + 2).position(|i| m.get_tag_by_index(i).is_some_and(|u| u.tag_path == t.tag_path)).map(|x| x as i64).unwrap_or(-2)).unwrap_or(-1);
    let all = m.get_all_tags();
    let mut ask: Vec<TagPath> = all.clone();
    for p in &all { ask.push(TagPath::new(p.path(), if r.chance(1, 2) { TagGroup::Bitmap } else { TagGroup::Sound }).unwrap()) }
    ask.push(TagPath::new("nowhere", TagGroup::Scenario).unwrap());
    let asked: Vec<Value> = ask.iter().map(|p| json!({"g": bytes(&p.group().as_fourcc().to_be_bytes()), "c": cps(p.path()), "at": index(m.get_tag(p))})).collect();
    let mut doms: Vec<(Value, DomainType, Vec<u64>)> = vec![
        (json!(["map"]), DomainType::MapData, vec![0, 0x800, m.get_uncompressed_size().unwrap() as u64]),
        (json!(["tag"]), DomainType::TagData, vec![b.base as u64, b.base as u64 + b.tagd.len() as u64]),
        (json!(["mv"]), DomainType::ModelVertexData, vec![0, b.mverts.len() as u64]),
        (json!(["mt"]), DomainType::ModelTriangleData, vec![0, b.mtris.len() as u64]),
        (json!(["file", "sounds"]), DomainType::ResourceMapFile(ResourceMapType::Sounds), vec![0, 16, 60]),
        (json!(["file", "bitmaps"]), DomainType::ResourceMapFile(ResourceMapType::Bitmaps), vec![0, 16, 60]),
        (json!(["file", "loc"]), DomainType::ResourceMapFile(ResourceMapType::Loc), vec![0, 16, 60]),
    ];
    for k in 0..b.bsps.len() + 1 {
        let (s, l, v) = b.bsps.get(k).map(|x| (x.base as u64, x.d.len() as u64, x.vtx.len() as u64)).unwrap_or((0, 0, 0));
        doms.push((json!(["bsp", k + 1]), DomainType::BSP(k), vec![s, s + l, b.base as u64, b.base as u64 + b.tagd.len() as u64]));
        doms.push((json!(["vtx", k + 1]), DomainType::BSPVertices(k), vec![0, v]));
    }
    let mut probes = vec![];
    let mut texts = vec![];
    for (j, d, at) in &doms {
        for _ in 0..3 {
            let a = (r.pick(at).wrapping_add(r.range(-12, 12) as u64)) & 0xFFFF_FFFF;
            let n = r.below(14);
            probes.push(json!({"d": j, "a": pair(a), "n": n, "got": got(m.get_data_at_address(a as usize, d, n))}));
        }
        let a = r.pick(at).wrapping_add(r.range(-6, 6) as u64) & 0xFFFF_FFFF;
        let t = m.get_c_string_at_address(a as usize, d);
        texts.push(json!({"d": j, "a": pair(a), "got": got(t.map(|t| t.as_bytes()))}));
    }
    let far = [65535usize, 65536, 70000, usize::MAX].iter().all(|i| *i < n || m.get_tag_by_index(*i).is_none());
    json!({"engine": bytes(m.get_engine().name.as_bytes()), "name": bytes(m.get_name().as_bytes()), "build": bytes(m.get_build_string().as_bytes()),
        "size": m.get_uncompressed_size(), "crc": crc, "used": m.get_used_tag_space(), "max": small(m.get_estimated_max_tag_space()), "kind": m.get_scenario_type() as u16,
        "tags": tags, "asked": asked, "all": all.iter().map(|p| json!({"g": bytes(&p.group().as_fourcc().to_be_bytes()), "c": cps(p.path())})).collect::<Vec<_>>(),
        "scenario": index(Some(m.get_scenario_tag())), "probes": probes, "texts": texts, "far": far})
}
pub fn load(dir: &Path, strict: bool) -> Result<Arc<dyn MapTagTree + Send + Sync>, ringhopper::error::Error> {
    load_map_from_filesystem(dir.join("x.map"), if strict { ParseStrictness::Strict } else { ParseStrictness::Relaxed })
}
pub fn pick_engine(r: &mut Rng) -> &'static Engine {
    let ce: Vec<&'static Engine> = ALL_SUPPORTED_ENGINES.iter().filter(|e| e.external_models || e.resource_maps.is_some_and(|x| x.externally_indexed_tags) || e.external_bsps).collect();
    if r.chance(1, 2) { ce[r.below(ce.len())] } else { &ALL_SUPPORTED_ENGINES[r.below(ALL_SUPPORTED_ENGINES.len())] }
}
pub fn run(a: &Args) -> usize {
    if a.has("engines") { println!("{}", engines_json()); return 0 }
    let mut out = Out::new(&a.out);
    let mut r = Rng::new(a.seed);
    let dir = a.scratch.join("c15");
    fresh_dir(&dir);
    for _ in 0..a.n {
        let eng = pick_engine(&mut r);
        let mut groups: Vec<&'static str> = (0..r.below(5)).map(|_| if r.chance(1, 2) { *r.pick(&["bitmap", "sound", "font", "unicode_string_list", "damage_effect", "fog"]) } else { group_name(&mut r) }).collect();
        groups.retain(|g| !matches!(*g, "scenario" | "scenario_structure_bsp"));
        let mut plan = Plan { groups, bsps: r.below(3), tame: false, budget: r.below(900), dense: *r.pick(&[0, 10, 30]), named: vec![] };
        // sounds full of samples
        if r.chance(1, 6) { plan = Plan { groups: vec!["sound"; 1 + r.below(3)], bsps: r.below(2), tame: false, budget: 900, dense: 30, named: vec![] } }
        let (mut b, mut im) = build(&mut r, eng, &plan, &mut |_, _, _, _| false);
        let (bits, n) = (r.below(40), b.tags.len());
        b.mverts.clear();
        let _ = bits;
        if r.chance(2, 5) { for _ in 0..1 + r.below(2) { let _ = guard(|| damage(&mut r, &mut im, &b)); } }
        let zbad = eng.compression_type != EngineCompressionType::Uncompressed && r.chance(1, 25);
        let mut strict = true;
        match r.below(4) {
            0 => { im.set_crc(u32::MAX) }
            1 => { strict = r.chance(1, 2); im.set_crc(r.next() as u32) }
            _ => {
                store(&dir, &im, eng, zbad);
                if let Ok(Ok(m)) = guard(|| load(&dir, false)) { if let Some((_, c)) = m.get_crc32() { im.set_crc(c) } }
            }
        }
        let f = store(&dir, &im, eng, zbad);
        if f.size < 0x800 { continue }
        // a stream that is cut short is not looked into
        let said = if im.retail { u32::from_le_bytes(im.head[12..16].try_into().unwrap()) as usize } else { 0 };
        if eng.compression_type != EngineCompressionType::Uncompressed && said > im.padding && f.size.checked_sub(said).is_some_and(|x| x >= 0x800) { continue }
        let mut rec = json!({"head": bytes(&im.head), "body": bytes(&im.body), "size": f.size, "zs": if zbad { "bad" } else { "good" }, "strict": strict, "eng": eng.name,
            "res": {"bitmaps": bytes(&im.bitmaps), "sounds": bytes(&im.sounds), "loc": bytes(&im.loc)}});
        about_to(&rec);
        let dice = r.next();
        match guard_ms(20000, || {
            let (m, peak) = with_peak(|| load(&dir, strict));
            let why = m.as_ref().err().map(|e| e.to_string());
            (m.ok().map(|m| look(&mut Rng::new(dice), &m, n, &b)), peak, why)
        }) {
            Ok((s, peak, why)) => {
                if let Some(w) = why { rec["why"] = json!(w.chars().take(200).collect::<String>()) }
                rec["peak"] = json!(peak / 1024);
                rec["ok"] = json!(s.is_some());
                if let Some(s) = s {
                    // a tag without a name looks like none at all in a reference: not told apart here
                    if s["all"].as_array().unwrap().iter().any(|t| t["c"].as_array().unwrap().is_empty()) { continue }
                    rec["seen"] = s
                }
            }
            Err(e) => rec["crash"] = json!(e),
        }
        out.put(&rec);
    }
    out.finish()
}
