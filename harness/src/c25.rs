//! Animations: how frame data is walked, and what extracting it from a cache file makes of it.
use crate::c15::*;
use crate::util::*;
use crate::value::*;
use ringhopper::definitions::*;
use ringhopper::map::*;
use ringhopper::primitives::engine::*;
use ringhopper::primitives::error::RinghopperResult;
use ringhopper::primitives::map::*;
use ringhopper::primitives::primitive::*;
use ringhopper::primitives::tag::*;
use ringhopper::tag::model_animations::*;
use serde_json::{json, Value};
use std::sync::Arc;

/// A loaded map, for what takes a map of a known type.
pub struct Whole(pub Arc<dyn MapTagTree + Send + Sync>);
impl Map for Whole {
    fn get_name(&self) -> &str { self.0.get_name() }
    fn get_build_string(&self) -> &str { self.0.get_build_string() }
    fn get_engine(&self) -> &'static Engine { self.0.get_engine() }
    fn extract_tag(&self, path: &TagPath) -> RinghopperResult<Box<dyn PrimaryTagStructDyn>> { self.0.extract_tag(path) }
    fn get_domain(&self, d: &DomainType) -> Option<(&[u8], usize)> { self.0.get_domain(d) }
    fn get_tag_by_id(&self, id: ID) -> Option<&Tag> { self.0.get_tag_by_id(id) }
    fn get_tag(&self, path: &TagPath) -> Option<&Tag> { self.0.get_tag(path) }
    fn get_scenario_tag(&self) -> &Tag { self.0.get_scenario_tag() }
    fn get_all_tags(&self) -> Vec<TagPath> { Map::get_all_tags(self.0.as_ref()) }
    fn get_data_at_address(&self, a: usize, d: &DomainType, n: usize) -> Option<&[u8]> { self.0.get_data_at_address(a, d, n) }
    fn get_c_string_at_address(&self, a: usize, d: &DomainType) -> Option<&str> { self.0.get_c_string_at_address(a, d) }
}

struct Plain { nodes: u16, frames: u16, kind: u16, rot: u64, pos: u64, scale: u64, compressed: bool, offset: u32, info: Vec<u8>, data: Vec<u8>, default: Vec<u8> }
const KINDS: [&str; 4] = ["none", "dx_dy", "dx_dy_dyaw", "dx_dy_dz_dyaw"];
fn pieces(m: u64) -> Value { json!((0..4).map(|i| m >> (16 * i) & 0xFFFF).collect::<Vec<_>>()) }
fn size(p: &Plain, inverted: bool) -> usize {
    (0..p.nodes.min(64)).map(|i| [(p.rot, 8), (p.pos, 12), (p.scale, 4)].iter().map(|(m, w)| if (m >> i & 1 == 1) != inverted { *w } else { 0 }).sum::<usize>()).sum()
}
fn plain(r: &mut Rng) -> Plain {
    let nodes = match r.below(9) { 0..=3 => r.below(6), 4 => r.below(20), 5 => 31 + r.below(4), 6 => 15 + r.below(3), 7 => 60 + r.below(5), _ => *r.pick(&[64usize, 65, 66, 127, 300, 65535, 0]) } as u16;
    let mask = |r: &mut Rng| match r.below(5) { 0 => 0, 1 => u64::MAX, 2 => r.next() & r.next() & r.next(), _ => r.next() };
    let mut p = Plain { nodes, frames: match r.below(5) { 0 => 0, 1 => 1, 2 => 2, _ => r.below(5) } as u16, kind: r.below(4) as u16, rot: mask(r), pos: mask(r), scale: mask(r), compressed: r.chance(1, 3), offset: r.next() as u32, info: vec![], data: vec![], default: vec![] };
    if nodes > 20 && p.frames > 2 { p.frames = 2 }
    let rnd = |r: &mut Rng, n: usize| -> Vec<u8> { (0..n).map(|_| { let b = r.next() as u8; if b & 0x7F == 0x7F { b ^ 1 } else { b } }).collect() }; // never NaN, whose bits may change
    let off = |r: &mut Rng, n: usize| if r.chance(1, 25) { (n as i64 + *r.pick(&[-4i64, -1, 1, 4, 12])).max(0) as usize } else { n };
    let n = [0usize, 8, 12, 16][p.kind as usize] * p.frames as usize;
    let n = off(r, n);
    p.info = rnd(r, n);
    let n = if p.compressed { r.below(30) } else { let n = size(&p, false) * p.frames as usize; off(r, n) };
    p.data = rnd(r, n);
    let n = if p.compressed { r.below(5) } else { let n = size(&p, true); off(r, n) };
    p.default = rnd(r, n);
    p
}
fn json_of(p: &Plain) -> Value {
    json!({"nodes": p.nodes, "frames": p.frames, "kind": KINDS[p.kind as usize], "rot": pieces(p.rot), "pos": pieces(p.pos), "scale": pieces(p.scale), "compressed": p.compressed, "offset": p.offset & 0x7FFF_FFFF, "info": bytes(&p.info), "data": bytes(&p.data), "default": bytes(&p.default)})
}
fn word(m: u64) -> [u32; 2] { [m as u32, (m >> 32) as u32] }
fn num(w: [u32; 2]) -> u64 { w[0] as u64 | (w[1] as u64) << 32 }
fn animation(p: &Plain) -> ModelAnimationsAnimation {
    let mut a = ModelAnimationsAnimation::default();
    a.node_count = p.nodes;
    a.node_rotation_flag_data = word(p.rot);
    a.node_transform_flag_data = word(p.pos);
    a.node_scale_flag_data = word(p.scale);
    a
}
fn back(a: &ModelAnimationsAnimation) -> Value {
    json_of(&Plain { nodes: a.node_count, frames: a.frame_count, kind: match a.frame_info_type { AnimationFrameInfoType::None => 0, AnimationFrameInfoType::DxDy => 1, AnimationFrameInfoType::DxDyDyaw => 2, AnimationFrameInfoType::DxDyDzDyaw => 3 },
        rot: num(a.node_rotation_flag_data), pos: num(a.node_transform_flag_data), scale: num(a.node_scale_flag_data), compressed: a.flags.compressed_data, offset: a.offset_to_compressed_data,
        info: a.frame_info.bytes.clone(), data: a.frame_data.bytes.clone(), default: a.default_data.bytes.clone() })
}
fn names(i: FrameDataIterator) -> Vec<&'static str> {
    i.map(|k| match k { FrameDataType::Rotate => "rotate", FrameDataType::Transform => "transform", FrameDataType::Scale => "scale" }).collect()
}
fn rest(t: &ModelAnimations) -> String {
    let mut t = t.clone();
    for a in &mut t.animations { a.frame_info.bytes.clear(); a.frame_data.bytes.clear(); a.default_data.bytes.clear(); a.offset_to_compressed_data = 0 }
    dump_all("ModelAnimations", &t).to_string()
}
const S: &str = "ModelAnimationsAnimation";
pub fn run(a: &Args) -> usize {
    let mut out = Out::new(&a.out);
    let mut r = Rng::new(a.seed);
    let dir = a.scratch.join("c25");
    fresh_dir(&dir);
    let compressed = layout()["bitfields"]["ModelAnimationsAnimationFlags"]["fields"].as_array().unwrap().iter().position(|f| f["n"] == "compressed_data").unwrap();
    for _ in 0..a.n {
        let eng = pick_engine(&mut r);
        let list: Vec<Plain> = (0..1 + r.below(3)).map(|_| plain(&mut r)).collect();
        let plan = Plan { groups: vec!["model_animations"], bsps: 0, tame: true, budget: 300, dense: 10, named: vec![] };
        let (b, mut im) = build(&mut r, eng, &plan, &mut |r, b, i, at| {
            if b.tags[i].group != "model_animations" { return false }
            b.fill(r, Dom::Tag, at, "ModelAnimations");
            let z = size_of(S);
            let start = b.alloc(Dom::Tag, z * list.len());
            let o = at + offset("ModelAnimations", "animations");
            b.u32at(Dom::Tag, o, list.len() as u32);
            let x = b.addr(Dom::Tag, start);
            b.u32at(Dom::Tag, o + 4, x);
            for (k, p) in list.iter().enumerate() {
                let q = start + k * z;
                b.fill(r, Dom::Tag, q, S);
                let mut w = |n: &str, v: &[u8]| put(&mut b.tagd, q + offset(S, n), v);
                w("frame_count", &p.frames.to_le_bytes());
                w("node_count", &p.nodes.to_le_bytes());
                w("frame_info_type", &p.kind.to_le_bytes());
                w("flags", &((p.compressed as u16) << compressed | r.next() as u16 & !(1 << compressed)).to_le_bytes());
                w("offset_to_compressed_data", &p.offset.to_le_bytes());
                for (n, m) in [("node_rotation_flag_data", p.rot), ("node_transform_flag_data", p.pos), ("node_scale_flag_data", p.scale)] { w(n, &m.to_le_bytes()) }
                for (n, d) in [("frame_info", &p.info), ("frame_data", &p.data), ("default_data", &p.default)] {
                    let s = b.alloc(Dom::Tag, d.len());
                    put(&mut b.tagd, s, d);
                    let h = q + offset(S, n);
                    b.u32at(Dom::Tag, h, d.len() as u32);
                    let x = b.addr(Dom::Tag, s);
                    b.u32at(Dom::Tag, h + 12, x);
                }
            }
            true
        });
        im.set_crc(u32::MAX);
        store(&dir, &im, eng, false);
        let Some(t) = b.tags.iter().find(|t| t.group == "model_animations" && !t.external) else { continue };
        let Ok(path) = TagPath::new(std::str::from_utf8(&t.path).unwrap(), TagGroup::ModelAnimations) else { continue };
        let mut rec = json!({"anims": list.iter().map(json_of).collect::<Vec<_>>()});
        about_to(&rec);
        match guard_ms(20000, || {
            let walks: Vec<Value> = list.iter().map(|p| { let a = animation(p); let (x, y) = (FrameDataIterator::for_animation(&a), FrameDataIterator::for_animation_inverted(&a)); json!({"own": names(x), "rest": names(y), "size": x.to_size(), "left": y.to_size()}) }).collect();
            let m = Whole(load(&dir, false).expect("the map"));
            let raw = read_any_tag_from_map(&path, &m).expect("the tag");
            (walks, rest(raw.as_any().downcast_ref().unwrap()), m.extract_tag(&path))
        }) {
            Ok((w, raw, got)) => {
                rec["walks"] = json!(w);
                rec["ok"] = json!(got.is_ok());
                match &got {
                    Ok(t) => {
                        let t: &ModelAnimations = t.as_any().downcast_ref().unwrap();
                        rec["got"] = json!(t.animations.items.iter().map(back).collect::<Vec<_>>());
                        rec["rest"] = json!(rest(t) == raw);
                    }
                    Err(e) => rec["why"] = json!(e.to_string().chars().take(200).collect::<String>()),
                }
            }
            Err(e) => rec["crash"] = json!(e),
        }
        out.put(&rec);
    }
    out.finish()
}
