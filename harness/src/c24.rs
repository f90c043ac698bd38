//! Models: checks, repair, compression and conversion.
use crate::c11::*;
use crate::util::*;
use crate::value::*;
use ringhopper::definitions::*;
use ringhopper::primitives::dynamic::DynamicTagData;
use ringhopper::primitives::primitive::*;
use ringhopper::primitives::tag::*;
use ringhopper::tag::bludgeon::*;
use ringhopper::tag::convert::get_tag_conversion_fn;
use ringhopper::tag::model::*;
use ringhopper::tag::object::*;
use serde_json::{json, Value};
use std::hash::{Hash, Hasher};

fn idx(i: Index) -> i64 { i.map(|x| x as i64).unwrap_or(-1) }
/// Eighths, and the code the number is the value of.
pub fn num(bits: u32, v: f64) -> Value { num_by(bits, v, v, |x| x) }
/// The same for what a number leaves of 1.
fn rest_of(v: f64) -> Value { num_by(16, v, 1.0 - v, |x| 1.0 - x) }
fn num_by(bits: u32, v: f64, near: f64, by: impl Fn(f64) -> f64) -> Value {
    let e = v * 8.0;
    let guess = |m: f64| { let g = (near * m).round(); (-3..=3).map(move |d| g as i64 + d) };
    let code = |c: i64| -> Option<u32> { let n = 1i64 << bits; if c < -(n / 2) || c >= n / 2 { return None } Some(c.rem_euclid(n) as u32) };
    let top = (1i64 << (bits - 1)) as f64;
    let val = |c: u32| -> f64 {
        match bits { 16 => CompressedFloat { data: c as u16 }.into(), 11 => Vector3D::from(CompressedVector3D { data: c }).x, _ => Vector3D::from(CompressedVector3D { data: c << 22 }).z }
    };
    let c = if near < 0.0 { guess(top) } else { guess(top - 1.0) }.filter_map(code).find(|c| by(val(*c)) == v);
    json!([if e.fract() == 0.0 && e.abs() < 9000.0 { e as i64 } else { 99999 }, c.map(|x| x as i64).unwrap_or(-1)])
}
fn vec3(v: &Vector3D) -> Value { json!([num(11, v.x), num(11, v.y), num(10, v.z)]) }
pub fn codes(v: &CompressedVector3D) -> Value { json!([v.data & 0x7FF, (v.data >> 11) & 0x7FF, v.data >> 22]) }
fn rot(q: &Quaternion) -> Value { json!([q.x, q.y, q.z, q.w].map(|c| (c * 1000.0).round() as i64)) }
fn place(v: &Vector3D) -> Value { json!(format!("{} {} {}", v.x, v.y, v.z)) }
pub fn part(p: &ModelGeometryPart, cnt: u8, map: &[u8; 22]) -> Value {
    json!({
        "sh": idx(p.shader_index), "c": [idx(p.centroid_primary_node), idx(p.centroid_secondary_node)], "zoner": p.flags.zoner, "cnt": cnt, "map": map,
        "unc": p.uncompressed_vertices.items.iter().map(|v| json!({
            "p": place(&v.position), "v": [vec3(&v.normal), vec3(&v.binormal), vec3(&v.tangent)], "uv": [num(16, v.texture_coords.x), num(16, v.texture_coords.y)],
            "i": [idx(v.node0_index), idx(v.node1_index)],
            "w": [num(16, v.node0_weight), rest_of(v.node1_weight)],
        })).collect::<Vec<_>>(),
        "comp": p.compressed_vertices.items.iter().map(|v| json!({
            "p": place(&v.position), "v": [codes(&v.normal), codes(&v.binormal), codes(&v.tangent)], "uv": [v.texture_coordinate_u.data, v.texture_coordinate_v.data],
            "i": [v.node0_index, v.node1_index], "w": v.node0_weight.data,
        })).collect::<Vec<_>>(),
    })
}
macro_rules! dumped {
    ($m:expr, $gbx:expr, $flags:expr, $geoms:expr) => {{
        let m = $m;
        let c = &m.detail_cutoff;
        let cut = [c.super_high, c.high, c.medium, c.low, c.super_low].map(|x| x as i64);
        json!({
            "gbx": $gbx, "local": $flags[1], "blend": $flags[0], "ignore": $flags[2], "shaders": m.shaders.items.len(),
            "cut": cut,
            "nodes": m.nodes.items.iter().map(|n| json!({"next": idx(n.next_sibling_node_index), "child": idx(n.first_child_node_index), "parent": idx(n.parent_node_index), "rot": rot(&n.default_rotation)})).collect::<Vec<_>>(),
            "regions": m.regions.items.iter().map(|r| r.permutations.items.iter().map(|p| json!({
                "g": [idx(p.super_low), idx(p.low), idx(p.medium), idx(p.high), idx(p.super_high)],
                "marks": p.markers.items.iter().map(|k| json!({"name": k.name.as_str(), "node": idx(k.node_index), "rot": rot(&k.rotation), "trans": place(&k.translation)})).collect::<Vec<_>>(),
            })).collect::<Vec<_>>()).collect::<Vec<_>>(),
            "rt": m.runtime_markers.items.iter().map(|k| json!({"name": k.name.as_str(), "inst": k.instances.items.iter().map(|i| json!({
                "r": i.region_index, "q": i.permutation_index, "node": i.node_index, "rot": rot(&i.rotation), "trans": place(&i.translation)})).collect::<Vec<_>>()})).collect::<Vec<_>>(),
            "geoms": $geoms,
        })
    }}
}
pub fn dump(t: &dyn PrimaryTagStructDyn) -> Value {
    if let Some(m) = t.as_any().downcast_ref::<Model>() {
        let g = m.geometries.items.iter().map(|g| g.parts.items.iter().map(|p| part(p, 0, &[0; 22])).collect::<Vec<_>>()).collect::<Vec<_>>();
        dumped!(m, false, [m.flags.blend_shared_normals, false, false], g)
    } else {
        let m = t.as_any().downcast_ref::<GBXModel>().unwrap();
        let g = m.geometries.items.iter().map(|g| g.parts.items.iter().map(|p| part(&p.model_geometry_part, p.local_node_count, &p.local_node_indices)).collect::<Vec<_>>()).collect::<Vec<_>>();
        dumped!(m, true, [m.flags.blend_shared_normals, m.flags.parts_have_local_nodes, m.flags.ignore_skinning], g)
    }
}
/// Everything that is not dumped, by name; the same for both kinds of model.
fn walk(s: &str, d: &dyn DynamicTagData, at: &str, out: &mut Vec<String>) {
    for f in fields(s) {
        if f["k"] == "pad" || f["x"] == true { continue }
        let n = f["n"].as_str().unwrap();
        if ["runtime_markers", "markers", "uncompressed_vertices", "compressed_vertices", "local_node_count", "local_node_indices", "default_rotation", "detail_cutoff"].contains(&n) { continue }
        if n.ends_with("_node_index") { continue }
        let x = d.get_field(n).unwrap();
        let p = if n == "model_geometry_part" { at.to_string() } else { format!("{at}.{n}") };
        if n == "flags" && (s == "Model" || s == "GBXModel") { continue }
        if n == "flags" && s == "ModelGeometryPart" { out.push(format!("{p} {:?}", x.get_field("stripped_internal").unwrap().as_any().downcast_ref::<bool>())); continue }
        if f["k"] == "struct" { walk(f["s"].as_str().unwrap(), x, &p, out) }
        else if f["k"] == "refl" {
            let a = x.as_array().unwrap();
            out.push(format!("{p} #{}", a.len()));
            for i in 0..a.len() { walk(f["s"].as_str().unwrap(), a.get_at_index(i).unwrap(), &format!("{p}[{i}]"), out) }
        }
        else { out.push(format!("{p} {}", dump_field(f, x))) }
    }
}
fn rest(t: &dyn PrimaryTagStructDyn) -> u64 {
    let mut v = vec![];
    walk(group_struct(t.group().as_str()), t.as_dynamic(), "", &mut v);
    v.sort();
    let mut h = std::collections::hash_map::DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}
// ------------------------------------------------------------------ random models
pub struct G<'a> { pub r: &'a mut Rng, pub odd: usize, pub nodes: usize }
impl G<'_> {
    fn odd(&mut self) -> bool { self.r.below(1000) < self.odd }
    fn index(&mut self, n: usize) -> Index {
        if self.odd() { return Some(*self.r.pick(&[n as u16, n as u16 + 1, 0xFFFE, 300, 41, 42])) }
        if n == 0 || self.r.chance(1, 4) { None } else if self.r.chance(1, 3) { Some(n as u16 - 1) } else { Some(self.r.below(n) as u16) }
    }
    fn byte(&mut self, n: usize) -> u8 { if n == 0 || self.odd() { n as u8 } else if self.r.chance(1, 3) { n as u8 - 1 } else { self.r.below(n) as u8 } }
    fn eighth(&mut self, big: i64) -> f64 { self.r.range(-big, big) as f64 / 8.0 }
    fn rot(&mut self) -> Quaternion {
        let odd = self.r.below(1000) < self.odd * 2;
        let c = if odd { *self.r.pick(&[[2.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [1.0, 1.0, 1.0, 1.0], [0.3, 0.4, 0.0, 0.0], [0.0, -3.0, 0.0, 4.0], [0.0, 0.0, 0.0, 1.01], [-0.5, 0.5, 0.5, 0.25]]) }
                else { *self.r.pick(&[[0.0, 0.0, 0.0, 1.0], [0.6, 0.0, 0.8, 0.0], [0.5, 0.5, 0.5, 0.5], [-0.5, 0.5, -0.5, 0.5], [0.0, -1.0, 0.0, 0.0]]) };
        Quaternion { x: c[0], y: c[1], z: c[2], w: c[3] }
    }
    fn trans(&mut self) -> Vector3D { Vector3D { x: self.eighth(80), y: self.eighth(80), z: self.eighth(80) } }
    fn unit(&mut self) -> Vector3D { let b = if self.r.chance(1, 10) { 12 } else { 8 }; Vector3D { x: self.eighth(b), y: self.eighth(b), z: self.eighth(b) } }
    fn name(&mut self) -> String32 { String32::from_str(self.r.pick(&["a", "b", "", "head"])).unwrap() }
    pub fn vertex(&mut self, n: usize) -> ModelVertexUncompressed {
        let (w0, w1) = match self.r.below(6) {
            0 => { let k = self.r.range(0, 8); (k as f64 / 8.0, 1.0 - k as f64 / 8.0) }
            1 => (1.0, 0.0),
            2 => (0.0, 0.0),
            3 => (self.r.range(0, 20) as f64 / 8.0, 0.0),
            4 => (self.r.range(0, 20) as f64 / 8.0, self.r.range(0, 20) as f64 / 8.0),
            _ => (self.eighth(12), self.eighth(12)),
        };
        ModelVertexUncompressed {
            position: self.trans(), normal: self.unit(), binormal: self.unit(), tangent: self.unit(),
            texture_coords: Vector2D { x: self.eighth(9), y: self.eighth(9) },
            node0_index: self.index(n), node1_index: self.index(n), node0_weight: w0, node1_weight: w1,
        }
    }
    pub fn packed(&mut self, only: Option<&[u8]>) -> ModelVertexCompressed {
        let v = |g: &mut Self| CompressedVector3D { data: g.r.next() as u32 };
        let f = |g: &mut Self| { let k = g.r.next() as u16; CompressedFloat { data: *g.r.pick(&[0, 1, 0x7FFF, 0x8000, 0xFFFF, k, k]) } };
        let b = |g: &mut Self| {
            if g.r.chance(1, 4) { *g.r.pick(&[253, 253, 254, 255]) }
            else if g.odd() { *g.r.pick(&[(g.nodes * 3).min(255) as u8, 252, 251]) }
            else {
                let n = match only { Some(l) if !l.is_empty() => *g.r.pick(l) as usize, Some(_) => return 255, None if g.nodes == 0 => return 253, None => g.r.below(g.nodes.min(42)) };
                (n * 3 + g.r.below(3)).min(255) as u8
            }
        };
        ModelVertexCompressed {
            position: self.trans(), normal: v(self), binormal: v(self), tangent: v(self), texture_coordinate_u: f(self), texture_coordinate_v: f(self),
            node0_index: b(self), node1_index: b(self), node0_weight: f(self),
        }
    }
    fn model(&mut self) -> GBXModel {
        let mut m = GBXModel::default();
        m.flags.blend_shared_normals = self.r.chance(1, 2);
        m.flags.parts_have_local_nodes = self.r.chance(1, 3);
        m.flags.ignore_skinning = self.r.chance(1, 3);
        m.node_list_checksum = self.r.next() as i32;
        let mut cut = || self.r.range(0, 9) as f64;
        m.detail_cutoff = ModelDetailCutoff { super_high: cut(), high: cut(), medium: cut(), low: cut(), super_low: cut() };
        m.detail_node_count.high = 3;
        m.base_map_u_scale = self.eighth(80);
        m.base_map_v_scale = self.eighth(80);
        let n = self.nodes;
        for _ in 0..n {
            m.nodes.items.push(ModelNode { name: self.name(), next_sibling_node_index: self.index(n), first_child_node_index: self.index(n), parent_node_index: self.index(n),
                default_translation: self.trans(), default_rotation: self.rot(), node_distance_from_parent: self.eighth(20), scale: 1.0, ..Default::default() });
        }
        let geoms = self.r.below(4);
        let shaders = self.r.below(4);
        for _ in 0..shaders { m.shaders.items.push(ModelShaderReference { permutation: self.index(9), ..Default::default() }) }
        for _ in 0..self.r.below(3) {
            let mut r = ModelRegion { name: self.name(), ..Default::default() };
            for _ in 0..self.r.below(3) {
                let mut p = ModelRegionPermutation { name: self.name(), super_low: self.index(geoms), low: self.index(geoms), medium: self.index(geoms), high: self.index(geoms), super_high: self.index(geoms), permutation_number: 7, ..Default::default() };
                for _ in 0..self.r.below(3) { p.markers.items.push(ModelRegionPermutationMarker { name: self.name(), node_index: self.index(n), rotation: self.rot(), translation: self.trans() }) }
                r.permutations.items.push(p);
            }
            m.regions.items.push(r);
        }
        if self.r.chance(1, 4) {
            for _ in 0..self.r.below(3) {
                let mut k = ModelMarker { name: self.name(), magic_identifier: -1, ..Default::default() };
                for _ in 0..self.r.below(3) {
                    let region = self.byte(m.regions.items.len());
                    let perm = self.byte(m.regions.items.get(region as usize).map(|x| x.permutations.items.len()).unwrap_or(0));
                    k.instances.items.push(ModelMarkerInstance { region_index: region, permutation_index: perm, node_index: self.byte(n), translation: self.trans(), rotation: self.rot() });
                }
                m.runtime_markers.items.push(k);
            }
        }
        for _ in 0..geoms {
            let mut g = GBXModelGeometry::default();
            g.flags.unused = self.r.chance(1, 3);
            for _ in 0..self.r.below(3) {
                let mut q = GBXModelGeometryPart::default();
                let local = m.flags.parts_have_local_nodes;
                if local || self.odd() {
                    q.local_node_count = if self.odd() { *self.r.pick(&[23, 255]) } else { *self.r.pick(&[0, 1, 2, 5, 21, 22]) };
                    for i in 0..22 { q.local_node_indices[i] = if i < q.local_node_count as usize { self.byte(n) } else { *self.r.pick(&[0, 255, 7]) } }
                }
                let names = if local { q.local_node_count.min(22) as usize } else { n };
                let only = q.local_node_indices[..q.local_node_count.min(22) as usize].to_vec();
                let p = &mut q.model_geometry_part;
                p.flags.zoner = local ^ self.odd();
                p.flags.stripped_internal = self.r.chance(1, 2);
                p.shader_index = self.index(shaders);
                p.prev_filthy_part_index = self.r.next() as u8;
                p.next_filthy_part_index = self.r.next() as u8;
                p.centroid_primary_node = self.index(n);
                p.centroid_secondary_node = self.index(n);
                p.centroid = self.trans();
                p.centroid_primary_weight = 0.5;
                let kind = self.r.below(10);
                if kind < 7 { for _ in 0..self.r.below(5) { let v = self.vertex(names); p.uncompressed_vertices.items.push(v) } }
                if kind >= 4 { for _ in 0..self.r.below(5) { let tame = local && self.r.chance(9, 10); let v = self.packed(if tame { Some(&only) } else { None }); p.compressed_vertices.items.push(v) } }
                for _ in 0..self.r.below(3) { p.triangle_data.items.push(ModelTriangleStripData { indices: [self.index(9), self.index(9), self.index(9)] }) }
                g.parts.items.push(q);
            }
            m.geometries.items.push(g);
        }
        m
    }
}
/// The same as an Xbox model, with whatever flaws it has.
fn xbox(m: GBXModel) -> Model {
    let mut o = Model::default();
    o.flags.blend_shared_normals = m.flags.blend_shared_normals;
    o.node_list_checksum = m.node_list_checksum;
    o.detail_cutoff = m.detail_cutoff;
    o.detail_node_count = m.detail_node_count;
    o.base_map_u_scale = m.base_map_u_scale;
    o.base_map_v_scale = m.base_map_v_scale;
    o.runtime_markers = m.runtime_markers;
    o.nodes = m.nodes;
    o.regions = m.regions;
    o.shaders = m.shaders;
    for g in m.geometries.items {
        let mut n = ModelGeometry { flags: g.flags, ..Default::default() };
        for p in g.parts.items { n.parts.items.push(p.model_geometry_part) }
        o.geometries.items.push(n);
    }
    o
}
type T = Box<dyn PrimaryTagStructDyn>;
fn base(s: &str, t: &T) -> Value {
    if s == "item" { dump_all("Item", downcast_base_item(t.as_ref()).unwrap()) } else { dump_all("Object", downcast_base_object(t.as_ref()).unwrap()) }
}

pub fn run(a: &Args) -> usize {
    let mut out = Out::new(&a.out);
    let mut r = Rng::new(a.seed);
    let gs = groups();
    for f in &gs {
        let from = TagGroup::from_str(f).unwrap();
        let l: Vec<Value> = gs.iter().map(|t| json!([f, t, get_tag_conversion_fn(from, TagGroup::from_str(t).unwrap()).is_some() as u8])).collect();
        out.put(&json!({"op": "groups", "pairs": l}));
        for t in &gs {
            let to = TagGroup::from_str(t).unwrap();
            let Some(c) = get_tag_conversion_fn(from, to) else { continue };
            if downcast_base_object(crate::groups::new_tag(f).as_ref()).is_none() { continue }
            let mut rec = json!({"op": "other", "from": f, "to": t});
            about_to(&rec);
            let tag = random_tag(&mut r, f, 3, 250);
            let kept = if t == "scenery" { "object" } else { "item" };
            match guard(|| {
                let was = base(kept, &tag);
                let mut new = c(tag.as_ref()).unwrap();
                let now = base(kept, &new);
                let same_group = new.group() == to;
                let mut blank = crate::groups::new_tag(t);
                if kept == "item" { *downcast_base_item_mut(new.as_mut()).unwrap() = Default::default(); *downcast_base_item_mut(blank.as_mut()).unwrap() = Default::default() }
                else { *downcast_base_object_mut(new.as_mut()).unwrap() = Default::default(); *downcast_base_object_mut(blank.as_mut()).unwrap() = Default::default() }
                (was, now, same_group && new.to_tag_file().unwrap() == blank.to_tag_file().unwrap())
            }) {
                Ok((w, n, s)) => { rec["kept"] = json!(kept); rec["was"] = w; rec["now"] = n; rec["rest"] = json!(s) }
                Err(e) => rec["crash"] = json!(e),
            }
            out.put(&rec);
        }
    }
    let path = |i: usize, g: TagGroup| TagPath::new(&format!("m{i}"), g).unwrap();
    for _ in 0..a.n.div_ceil(16) {
        let l: Vec<T> = (0..16).map(|_| {
            let nodes = match r.below(14) { 0 => 0, 1 => 1, 2 => 42, 3 => 43, 4 => 41, 5 => *r.pick(&[60, 130, 255]), _ => r.below(7) };
            let odd = *r.pick(&[0, 0, 3, 8, 8, 30]);
            let m = G { nodes, odd, r: &mut r }.model();
            if r.chance(2, 5) && !m.flags.parts_have_local_nodes || r.chance(1, 40) { Box::new(xbox(m)) as T } else { Box::new(m) as T }
        }).collect();
        about_to(&json!({"op": "model", "some": l.iter().map(|m| dump(m.as_ref())).collect::<Vec<_>>()}));
        match guard_ms(20000, || {
            let mut v = crate::c08::verify_tags(l.iter().enumerate().map(|(i, s)| (path(i, s.group()), s.clone_inner())).collect()).unwrap();
            l.iter().enumerate().map(|(i, t)| {
                let p = path(i, t.group());
                let mut rec = json!({"op": "model", "a": dump(t.as_ref())});
                let old = rest(t.as_ref());
                rec["ok"] = json!(downcast_model(t.as_ref()).unwrap().check_indices().is_ok());
                let file = t.to_tag_file().unwrap();
                let stored: T = ringhopper::definitions::read_any_tag_from_file_buffer(&file, ParseStrictness::Strict).unwrap();
                rec["stored"] = dump(stored.as_ref());
                rec["bad"] = json!(!v.remove(&p).unwrap().errors.is_empty());
                let mut b = t.clone_inner();
                rec["done"] = json!(matches!(bludgeon_tag(b.as_mut(), &p), BludgeonResult::Done));
                rec["repaired"] = dump(b.as_ref());
                let mut c = t.clone_inner();
                rec["did"] = json!(downcast_model_mut(c.as_mut()).unwrap().recompress_vertices());
                rec["recompressed"] = dump(c.as_ref());
                let to = if t.group() == TagGroup::Model { TagGroup::GBXModel } else { TagGroup::Model };
                let conv = get_tag_conversion_fn(t.group(), to).unwrap()(t.as_ref());
                let good = conv.as_ref().map(|n| n.group() == to && rest(n.as_ref()) == old).unwrap_or(false);
                rec["converted"] = match conv { Ok(n) => json!([dump(n.as_ref())]), Err(_) => json!([]) };
                rec["rest"] = json!([rest(b.as_ref()) == old, rest(c.as_ref()) == old, good]);
                let mut d = t.clone_inner();
                downcast_model_mut(d.as_mut()).unwrap().flip_lod_cutoffs();
                let once = dump(d.as_ref())["cut"].clone();
                downcast_model_mut(d.as_mut()).unwrap().flip_lod_cutoffs();
                rec["flip"] = json!([once, dump(d.as_ref())["cut"]]);
                rec
            }).collect::<Vec<_>>()
        }) {
            Ok(v) => for x in v { out.put(&x) },
            Err(e) => out.put(&json!({"op": "model", "crash": e, "some": l.iter().map(|m| dump(m.as_ref())).collect::<Vec<_>>()})),
        }
    }
    out.finish()
}
