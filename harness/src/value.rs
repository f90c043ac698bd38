//! The value of a tag as a tree (see specs/TagCodec.tla), and random tags, by way of the dynamic interface.
use crate::util::*;
use ringhopper::primitives::dynamic::DynamicTagData;
use ringhopper::primitives::primitive::*;
use serde_json::{json, Value};
use std::sync::OnceLock;

pub fn layout() -> &'static Value {
    static L: OnceLock<Value> = OnceLock::new();
    L.get_or_init(|| serde_json::from_str(include_str!("../../specs/layout.json")).unwrap())
}
pub fn groups() -> Vec<String> {
    layout()["groups"].as_object().unwrap().keys().cloned().collect()
}
pub fn all_groups() -> Vec<(String, u32)> {
    layout()["fourcc"].as_object().unwrap().iter().map(|(k, v)| (k.clone(), u32::from_be_bytes(to_bytes(v).try_into().unwrap()))).collect()
}
pub fn group_struct(g: &str) -> &'static str {
    layout()["groups"][g]["struct"].as_str().unwrap()
}
pub fn fields(s: &str) -> &'static Vec<Value> {
    layout()["structs"][s]["fields"].as_array().unwrap_or_else(|| panic!("struct {s}"))
}
fn flag(f: &Value, k: &str) -> bool {
    f[k].as_bool().unwrap_or(false)
}

// ------------------------------------------------------------------ leaves
pub fn f32_bytes(v: f64) -> Value {
    bits32(v as f32)
}
fn bits32(f: f32) -> Value {
    let b = if f.is_nan() { 0x7FC0_0000u32 } else { f.to_bits() };
    bytes(&b.to_be_bytes())
}
fn u32b(v: u32) -> Value {
    bytes(&v.to_be_bytes())
}
fn u16b(v: u16) -> Value {
    bytes(&v.to_be_bytes())
}

pub fn dump_prim(d: &dyn DynamicTagData) -> Value {
    let a = d.as_any();
    macro_rules! on { ($t:ty, $v:ident => $e:expr) => { if let Some($v) = a.downcast_ref::<$t>() { return json!($e); } } }
    on!(f64, v => [f32_bytes(*v)]);
    on!(i8, v => [bytes(&[*v as u8])]);
    on!(u8, v => [bytes(&[*v])]);
    on!(i16, v => [u16b(*v as u16)]);
    on!(u16, v => [u16b(*v)]);
    on!(i32, v => [u32b(*v as u32)]);
    on!(u32, v => [u32b(*v)]);
    on!(Index, v => [u16b(v.unwrap_or(0xFFFF))]);
    on!(ID, v => [u32b(v.as_u32())]);
    on!(Address, v => [u32b(v.address)]);
    on!(Angle, v => [bits32(v.angle)]);
    on!(Vector2D, v => [f32_bytes(v.x), f32_bytes(v.y)]);
    on!(Vector3D, v => [f32_bytes(v.x), f32_bytes(v.y), f32_bytes(v.z)]);
    on!(Quaternion, v => [f32_bytes(v.x), f32_bytes(v.y), f32_bytes(v.z), f32_bytes(v.w)]);
    on!(Euler2D, v => [bits32(v.yaw.angle), bits32(v.pitch.angle)]);
    on!(Euler3D, v => [bits32(v.yaw.angle), bits32(v.pitch.angle), bits32(v.roll.angle)]);
    on!(Plane2D, v => [f32_bytes(v.vector.x), f32_bytes(v.vector.y), f32_bytes(v.d)]);
    on!(Plane3D, v => [f32_bytes(v.vector.x), f32_bytes(v.vector.y), f32_bytes(v.vector.z), f32_bytes(v.d)]);
    on!(Matrix3x3, v => v.vectors.iter().flat_map(|v| [f32_bytes(v.x), f32_bytes(v.y), f32_bytes(v.z)]).collect::<Vec<_>>());
    on!(Vector2DInt, v => [u16b(v.x as u16), u16b(v.y as u16)]);
    on!(Rectangle, v => [u16b(v.top as u16), u16b(v.left as u16), u16b(v.bottom as u16), u16b(v.right as u16)]);
    on!(CompressedFloat, v => [u16b(v.data)]);
    on!(CompressedVector2D, v => [u32b(v.data)]);
    on!(CompressedVector3D, v => [u32b(v.data)]);
    on!(ColorARGBFloat, v => [f32_bytes(v.alpha), f32_bytes(v.red), f32_bytes(v.green), f32_bytes(v.blue)]);
    on!(ColorRGBFloat, v => [f32_bytes(v.red), f32_bytes(v.green), f32_bytes(v.blue)]);
    on!(ColorARGBInt, v => [u32b(v.color)]);
    on!(ScenarioScriptNodeValue, v => [u32b(v.data)]);
    panic!("unknown primitive {:?}", d.data_type());
}

pub fn dump_ref(r: &TagReference) -> Value {
    json!({"g": bytes(&r.group().as_fourcc().to_be_bytes()), "p": r.path().map(|p| bytes(p.path().as_bytes())).unwrap_or(json!([]))})
}
pub fn data_bytes(d: &dyn DynamicTagData) -> &[u8] {
    let a = d.as_any();
    if let Some(x) = a.downcast_ref::<Data>() { return &x.bytes }
    if let Some(x) = a.downcast_ref::<FileData>() { return &x.bytes }
    if let Some(x) = a.downcast_ref::<BSPVertexData>() { return &x.bytes }
    if let Some(x) = a.downcast_ref::<UTF16String>() { return x.get_utf16_bytes() }
    panic!("not data: {:?}", d.data_type())
}
pub fn str32_bytes(s: &String32) -> Vec<u8> {
    let mut b = s.as_str().as_bytes().to_vec();
    b.resize(32, 0);
    b
}

pub fn dump_one(f: &Value, d: &dyn DynamicTagData) -> Value {
    match f["k"].as_str().unwrap() {
        "prim" => dump_prim(d),
        "enum" => {
            let s = d.as_enum().expect("enum").get_enum_string_value();
            let o = layout()["enums"][f["s"].as_str().unwrap()].as_array().unwrap();
            json!(o.iter().position(|x| x == s).unwrap_or_else(|| panic!("option {s}")))
        }
        "bits" => {
            let b = layout()["bitfields"][f["s"].as_str().unwrap()]["fields"].as_array().unwrap();
            let mut set = vec![];
            for (i, x) in b.iter().enumerate() {
                if flag(x, "x") { continue }
                if *d.get_field(x["n"].as_str().unwrap()).expect("bit").as_any().downcast_ref::<bool>().unwrap() {
                    set.push(i);
                }
            }
            json!(set)
        }
        "struct" => dump_struct(f["s"].as_str().unwrap(), d),
        "refl" => {
            let a = d.as_array().expect("reflexive");
            Value::Array((0..a.len()).map(|i| dump_struct(f["s"].as_str().unwrap(), a.get_at_index(i).unwrap())).collect())
        }
        "ref" => dump_ref(d.as_any().downcast_ref::<TagReference>().expect("reference")),
        "group" => bytes(&d.as_any().downcast_ref::<TagGroup>().expect("group").as_fourcc().to_be_bytes()),
        "data" => bytes(data_bytes(d)),
        "str32" => bytes(&str32_bytes(d.as_any().downcast_ref::<String32>().expect("string32"))),
        k => panic!("kind {k}"),
    }
}
pub fn dump_field(f: &Value, d: &dyn DynamicTagData) -> Value {
    if f["form"] == "one" {
        return dump_one(f, d);
    }
    let a = d.as_array().expect("array");
    assert_eq!(a.len() as u64, f["cnt"].as_u64().unwrap());
    Value::Array((0..a.len()).map(|i| dump_one(f, a.get_at_index(i).unwrap())).collect())
}
thread_local! { static ALL: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
/// With what is only found in cache files.
pub fn dump_all(s: &str, d: &dyn DynamicTagData) -> Value {
    ALL.set(true);
    let v = dump_struct(s, d);
    ALL.set(false);
    v
}
/// Fields that are not stored in tag files are left out ([]).
pub fn dump_struct(s: &str, d: &dyn DynamicTagData) -> Value {
    Value::Array(fields(s).iter().map(|f| {
        if f["k"] == "pad" || (flag(f, "c") && !ALL.get()) || flag(f, "x") { return json!([]) }
        let n = f["n"].as_str().unwrap();
        dump_field(f, d.get_field(n).unwrap_or_else(|| panic!("{s} has no field {n}")))
    }).collect())
}

// ------------------------------------------------------------------ random tags
pub struct Fill {
    pub max_items: usize,
    pub budget: usize,
    pub paths: Vec<String>,
}
thread_local! { pub static PLAIN: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
/// Numbers that are default values of something.
const COMMON: &[f64] = &[0.0, 0.0, 0.0, 1.0, 1.0, -0.0, 0.125, 0.2, 0.5, 0.75, 0.9, 1.4, 2.0, 3.0, 4.0, 5.0, 8.0, 9.0, 10.0, 20.0, 70.0, 120.0, 360.0, -1.0];
pub fn rand_f32(r: &mut Rng) -> f32 {
    if PLAIN.get() {
        return match r.below(4) { 0 => r.range(-100, 100) as f32 / 8.0, 1 => (*r.pick(&[180.0f32, 360.0, 90.0, -90.0, -180.0, 70.0])).to_radians(), _ => *r.pick(COMMON) as f32 }
    }
    match r.below(8) {
        0 => 0.0,
        1 => *r.pick(&[-0.0f32, 1.0, -1.0, f32::INFINITY, f32::NEG_INFINITY, f32::from_bits(0x7FC00000), f32::MIN_POSITIVE, f32::from_bits(1), f32::MAX]),
        2 => r.range(-100, 100) as f32 / 10.0,
        _ => {
            let f = f32::from_bits(r.next() as u32);
            if f.is_nan() { 0.5 } else { f }
        }
    }
}
fn rf(r: &mut Rng) -> f64 {
    rand_f32(r) as f64
}
pub fn fill_prim(r: &mut Rng, d: &mut dyn DynamicTagData) {
    let a = d.as_any_mut();
    macro_rules! on { ($t:ty, $v:ident => $e:expr) => { if let Some($v) = a.downcast_mut::<$t>() { $e; return; } } }
    on!(f64, v => *v = rf(r));
    on!(i8, v => *v = r.next() as i8);
    on!(u8, v => *v = r.next() as u8);
    on!(i16, v => *v = r.next() as i16);
    on!(u16, v => *v = r.next() as u16);
    on!(i32, v => *v = r.next() as i32);
    on!(u32, v => *v = r.next() as u32);
    on!(Index, v => { let n = r.next() as u16; *v = if n == 0xFFFF || r.chance(1, 4) { None } else { Some(n) } });
    on!(ID, v => *v = ID::from_u32(r.next() as u32));
    on!(Address, v => v.address = r.next() as u32);
    on!(Angle, v => v.angle = rand_f32(r));
    on!(Vector2D, v => { v.x = rf(r); v.y = rf(r) });
    on!(Vector3D, v => { v.x = rf(r); v.y = rf(r); v.z = rf(r) });
    on!(Quaternion, v => { v.x = rf(r); v.y = rf(r); v.z = rf(r); v.w = rf(r) });
    on!(Euler2D, v => { v.yaw.angle = rand_f32(r); v.pitch.angle = rand_f32(r) });
    on!(Euler3D, v => { v.yaw.angle = rand_f32(r); v.pitch.angle = rand_f32(r); v.roll.angle = rand_f32(r) });
    on!(Plane2D, v => { v.vector.x = rf(r); v.vector.y = rf(r); v.d = rf(r) });
    on!(Plane3D, v => { v.vector.x = rf(r); v.vector.y = rf(r); v.vector.z = rf(r); v.d = rf(r) });
    on!(Matrix3x3, v => for w in v.vectors.iter_mut() { w.x = rf(r); w.y = rf(r); w.z = rf(r) });
    on!(Vector2DInt, v => { v.x = r.next() as i16; v.y = r.next() as i16 });
    on!(Rectangle, v => { v.top = r.next() as i16; v.left = r.next() as i16; v.bottom = r.next() as i16; v.right = r.next() as i16 });
    on!(CompressedFloat, v => v.data = r.next() as u16);
    on!(CompressedVector2D, v => v.data = r.next() as u32);
    on!(CompressedVector3D, v => v.data = r.next() as u32);
    on!(ColorARGBFloat, v => { v.alpha = rf(r); v.red = rf(r); v.green = rf(r); v.blue = rf(r) });
    on!(ColorRGBFloat, v => { v.red = rf(r); v.green = rf(r); v.blue = rf(r) });
    on!(ColorARGBInt, v => v.color = r.next() as u32);
    on!(ScenarioScriptNodeValue, v => v.data = r.next() as u32);
    panic!("unknown primitive {:?}", d.data_type());
}
pub fn rand_text(r: &mut Rng, max_bytes: usize) -> String {
    let mut s = String::new();
    let n = if r.chance(1, 3) { max_bytes } else { r.below(max_bytes + 1) };
    loop {
        let c = if r.chance(1, 8) { *r.pick(&['é', '漢', '🙂', '\u{7f}', '\u{FFFD}']) } else { (32 + r.below(95)) as u8 as char };
        if s.len() + c.len_utf8() > n { break }
        s.push(c);
    }
    s
}
pub fn rand_path(r: &mut Rng, o: &Fill) -> String {
    if !o.paths.is_empty() { return r.pick(&o.paths).clone() }
    if r.chance(1, 100) { return "long path\\".repeat(10 + r.below(60)) + "end" }
    let mut s = String::new();
    for i in 0..1 + r.below(3) {
        if i > 0 { s.push('\\') }
        for _ in 0..1 + r.below(6) { s.push(*r.pick(&['a', 'b', 'z', '_', ' ', '0', 'é', '漢', '-'])) }
    }
    s
}
pub fn fill_one(r: &mut Rng, o: &mut Fill, f: &Value, d: &mut dyn DynamicTagData) {
    match f["k"].as_str().unwrap() {
        "prim" => fill_prim(r, d),
        "enum" => {
            let vals = d.as_enum().unwrap().get_possible_enum_string_values();
            let v = *r.pick(vals);
            d.as_enum_mut().unwrap().set_enum_string_value(v).unwrap();
        }
        "bits" => {
            let all = r.chance(1, 4);
            for n in d.fields() {
                *d.get_field_mut(n).unwrap().as_any_mut().downcast_mut::<bool>().unwrap() = all || r.chance(1, 2);
            }
        }
        "struct" => fill_struct(r, o, f["s"].as_str().unwrap(), d),
        "refl" => {
            let s = f["s"].as_str().unwrap();
            let cost = layout()["structs"][s]["size"].as_u64().unwrap() as usize;
            let n = r.below(o.max_items + 1);
            for _ in 0..n {
                if o.budget < cost { break }
                o.budget -= cost;
                let len = d.as_array().unwrap().len();
                d.as_reflexive_mut_or_array(len);
                let a = d.as_array_mut().unwrap();
                fill_struct(r, o, s, a.get_at_index_mut(len).unwrap());
            }
        }
        "ref" => {
            let g = if r.chance(1, 8) || f["g"][0] == "*" {
                let a = all_groups();
                TagGroup::from_fourcc(r.pick(&a).1).unwrap()
            } else {
                let a = f["g"].as_array().unwrap();
                TagGroup::from_str(r.pick(a).as_str().unwrap()).unwrap()
            };
            let t = d.as_any_mut().downcast_mut::<TagReference>().unwrap();
            *t = if r.chance(1, 2) { TagReference::Null(g) } else if r.chance(1, 40) { TagReference::Set(TagPath::new("", g).unwrap()) } else { match TagPath::new(&rand_path(r, o), g) { Ok(p) => TagReference::Set(p), Err(_) => TagReference::Null(g) } };
        }
        "group" => {
            let a = all_groups();
            *d.as_any_mut().downcast_mut::<TagGroup>().unwrap() = TagGroup::from_fourcc(r.pick(&a).1).unwrap();
        }
        "data" => {
            let n = if r.chance(1, 3) { 0 } else { r.below(40) };
            let b: Vec<u8> = (0..n).map(|_| r.next() as u8).collect();
            let a = d.as_any_mut();
            if let Some(x) = a.downcast_mut::<Data>() { x.bytes = b; return }
            if let Some(x) = a.downcast_mut::<FileData>() { x.bytes = b; return }
            if let Some(x) = a.downcast_mut::<BSPVertexData>() { x.bytes = b; return }
            if let Some(x) = a.downcast_mut::<UTF16String>() { *x = UTF16String::from_str(&rand_text(r, 12)); return }
            panic!("data");
        }
        "str32" => *d.as_any_mut().downcast_mut::<String32>().unwrap() = String32::from_str(&rand_text(r, 31)).unwrap(),
        k => panic!("kind {k}"),
    }
}
/// Fields that are not stored in tag files get values, too: they must not reach the file.
pub fn fill_struct(r: &mut Rng, o: &mut Fill, s: &str, d: &mut dyn DynamicTagData) {
    for f in fields(s) {
        if f["k"] == "pad" || flag(f, "x") { continue }
        let n = f["n"].as_str().unwrap();
        let d = d.get_field_mut(n).unwrap_or_else(|| panic!("{s} has no field {n}"));
        if f["form"] == "one" {
            fill_one(r, o, f, d);
        } else {
            let c = f["cnt"].as_u64().unwrap() as usize;
            for i in 0..c {
                fill_one(r, o, f, d.as_array_mut().unwrap().get_at_index_mut(i).unwrap());
            }
        }
    }
}
trait Grow {
    fn as_reflexive_mut_or_array(&mut self, at: usize);
}
impl Grow for dyn DynamicTagData {
    fn as_reflexive_mut_or_array(&mut self, at: usize) {
        self.as_reflexive_mut().expect("reflexive").insert_default(at);
    }
}
pub fn grow(d: &mut dyn DynamicTagData, at: usize) {
    d.as_reflexive_mut_or_array(at)
}
