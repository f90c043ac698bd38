//! Nudging numbers to short decimals.
use crate::c11::*;
use crate::util::*;
use crate::value::*;
use ringhopper::definitions::*;
use ringhopper::primitives::dynamic::DynamicTagData;
use ringhopper::primitives::primitive::*;
use ringhopper::primitives::tag::*;
use ringhopper::tag::nudge::*;
use serde_json::{json, Value};

/// As printed: sign, digits before and after the point.
pub fn shown(v: f64) -> Value {
    let s = format!("{}", v.abs());
    if !v.is_finite() { return json!([if v.is_nan() { "nan".into() } else { format!("{v}") }]) }
    let digits = |s: &str| s.bytes().map(|b| b - b'0').collect::<Vec<_>>();
    let (i, f) = s.split_once('.').unwrap_or((&s, ""));
    json!([v.is_sign_negative(), digits(i), digits(f)])
}
/// A number near a short decimal, or any other.
fn number(r: &mut Rng) -> f64 {
    let short = |r: &mut Rng| {
        let digits = 1 + r.below(7) as u32;
        let m = match r.below(4) { 0 => 10u64.pow(digits) - 1 - r.below(2) as u64, 1 => 10u64.pow(digits - 1) * (1 + r.below(9) as u64), _ => r.next() % 10u64.pow(digits) };
        format!("{m}e{}", r.range(-10, 4)).parse::<f64>().unwrap()
    };
    let v = match r.below(16) {
        0..=4 => short(r),
        5..=8 => { let f = short(r) as f32; f32::from_bits(f.to_bits().wrapping_add(r.range(-30, 30) as u32)) as f64 }
        9 => f32::from_bits(r.next() as u32) as f64,
        10 => f64::from_bits(r.next()),
        11 => 10f64.powi(r.range(-6, 7) as i32) * (1.0 - 10f64.powi(-(r.range(4, 9) as i32))),
        12 => *r.pick(&[0.0, -0.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN_POSITIVE, 5e-324, f32::MAX as f64, 1e-45, 999999.5, 9.999995, 0.9999995, 99999.95, 1.0 / 3.0, (1.0f32 / 3.0) as f64]),
        13 => { let k = 10f64.powi(r.range(0, 6) as i32); (r.range(0, 2_000_000) as f64) / k + *r.pick(&[0.0, 5e-7, 5e-6, 1e-7]) }
        14 => (r.range(-100, 100) as f64) / 30.0,
        _ => (r.range(1, 5000) as f32 * 30.0 / 7.0) as f64,
    };
    let v = if r.chance(3, 4) { (v as f32) as f64 } else { v };
    if r.chance(1, 5) { -v } else { v }
}
pub type Found = (String, f64);
pub fn floats(s: &str, pre: &str, d: &mut dyn DynamicTagData, visit: &mut dyn FnMut(&str, &mut f64)) {
    for f in fields(s) {
        if f["k"] == "pad" || f["x"] == true { continue }
        let n = f["n"].as_str().unwrap();
        let p = if pre.is_empty() { n.to_string() } else { format!("{pre}.{n}") };
        let d = d.get_field_mut(n).unwrap();
        if f["k"] == "prim" && f["t"] == "float" {
            if f["form"] == "one" { visit(&p, d.as_any_mut().downcast_mut().unwrap()) }
            else {
                let a = d.as_array_mut().unwrap();
                for i in 0..a.len() { visit(&p, a.get_at_index_mut(i).unwrap().as_any_mut().downcast_mut().unwrap()) }
            }
        }
        else if f["k"] == "struct" && f["form"] == "one" { floats(f["s"].as_str().unwrap(), &p, d, visit) }
        else if f["k"] == "refl" {
            let a = d.as_array_mut().unwrap();
            for i in 0..a.len() { floats(f["s"].as_str().unwrap(), &p, a.get_at_index_mut(i).unwrap(), visit) }
        }
    }
}
pub const WEIGHT: &str = "change_colors.permutations.weight";
pub fn all(s: &str, t: &mut Box<dyn PrimaryTagStructDyn>) -> Vec<Found> {
    let mut v = vec![];
    floats(s, "", t.as_mut_dynamic(), &mut |p, f| v.push((p.to_string(), *f)));
    v
}
pub fn weights(t: &mut Box<dyn PrimaryTagStructDyn>) -> Vec<Vec<f64>> {
    match ringhopper::tag::object::downcast_base_object(t.as_ref()) {
        Some(o) => o.change_colors.items.iter().map(|c| c.permutations.items.iter().map(|p| p.weight).collect()).collect(),
        None => vec![],
    }
}
/// Everything else.
fn rest(s: &str, t: &Box<dyn PrimaryTagStructDyn>) -> Vec<u8> {
    let mut t = t.clone_inner();
    floats(s, "", t.as_mut_dynamic(), &mut |_, f| *f = 0.0);
    t.to_tag_file().unwrap()
}
fn same(a: f64, b: f64) -> bool { a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()) }

pub fn run(a: &Args) -> usize {
    let mut out = Out::new(&a.out);
    let mut r = Rng::new(a.seed);
    // numbers, by way of a tag with two of them
    for _ in 0..a.n / 64 {
        let l: Vec<f64> = (0..64).map(|_| number(&mut r)).collect();
        let mut rec = json!({"op": "values", "in": l.iter().map(|v| format!("{v}")).collect::<Vec<_>>()});
        about_to(&rec);
        match guard(|| l.iter().enumerate().map(|(i, v)| {
            let mut p = PointPhysics::default();
            *(if i % 2 == 0 { &mut p.air_friction } else { &mut p.water_friction }) = *v;
            let changed = nudge_tag(&mut p);
            let b = if i % 2 == 0 { p.air_friction } else { p.water_friction };
            nudge_tag(&mut p);
            let again = if i % 2 == 0 { p.air_friction } else { p.water_friction };
            json!({"a": shown(*v), "b": shown(b), "again": shown(again), "changed": changed})
        }).collect::<Vec<_>>()) {
            Ok(l) => rec["list"] = json!(l),
            Err(e) => rec["crash"] = json!(e),
        }
        out.put(&rec);
    }
    // tags
    for round in 0..1 + a.n / 3000 {
        for g in groups() {
            let s = group_struct(&g);
            let group = TagGroup::from_str(&g).unwrap();
            if !is_nudgeable(group) && round > 0 && !r.chance(1, 30) { continue }
            let mut t = random_tag(&mut r, &g, 3, 400);
            floats(s, "", t.as_mut_dynamic(), &mut |_, f| if r.chance(2, 3) { *f = number(&mut r) });
            if let Some(o) = ringhopper::tag::object::downcast_base_object_mut(t.as_mut()) {
                while o.change_colors.items.len() < 4 {
                    let mut c = ObjectChangeColors::default();
                    let n = 1 + r.below(8);
                    let mode = r.below(5);
                    for _ in 0..n {
                        let mut p = ObjectChangeColorsPermutation::default();
                        let w = 1.0 / n as f64;
                        p.weight = match mode {
                            0 => w as f32 as f64,
                            1 => w * (1.0 + r.range(-1200, 1200) as f64 * 1e-6),
                            2 => w * if r.chance(1, 6) { *r.pick(&[1.002, 0.998, -1.0, 2.0]) } else { 1.0 },
                            3 => 1.0,
                            _ => number(&mut r),
                        };
                        c.permutations.items.push(p);
                    }
                    o.change_colors.items.push(c);
                }
            }
            let mut rec = json!({"op": "tag", "group": g});
            about_to(&rec);
            match guard(|| {
                let nudgeable = is_nudgeable(group);
                let mut b = t.clone_inner();
                let changed = nudge_tag(b.as_mut());
                let mut c = b.clone_inner();
                let again = nudge_tag(c.as_mut());
                let (x, y, z) = (all(s, &mut t), all(s, &mut b), all(s, &mut c));
                let same_rest = rest(s, &t) == rest(s, &b) && rest(s, &b) == rest(s, &c);
                // floats that are not among the weights of an object, each with its path
                let fields: Vec<Value> = x.iter().zip(&y).filter(|(x, _)| !x.0.ends_with(WEIGHT)).map(|(x, y)| json!({"p": x.0, "a": shown(x.1), "b": shown(y.1)})).collect();
                let w: Vec<Value> = weights(&mut t).iter().zip(weights(&mut b)).map(|(a, b)| json!({"a": a.iter().map(|v| shown(*v)).collect::<Vec<_>>(), "b": b.iter().map(|v| shown(*v)).collect::<Vec<_>>()})).collect();
                (nudgeable, changed, same_rest, fields, w, json!([again, y.len() == z.len() && y.iter().zip(&z).all(|(a, b)| same(a.1, b.1))]))
            }) {
                Ok((n, c, s, f, w, again)) => { rec["nudgeable"] = json!(n); rec["changed"] = json!(c); rec["rest"] = json!(s); rec["fields"] = json!(f); rec["weights"] = json!(w); rec["again"] = again }
                Err(e) => rec["crash"] = json!(e),
            }
            out.put(&rec);
        }
    }
    out.finish()
}
