//! Repairing tags of every group, and what verification says before and after.
use crate::c11::*;
use crate::util::*;
use crate::value::*;
use ringhopper::definitions::*;

use ringhopper::primitives::dynamic::*;
use ringhopper::primitives::primitive::*;
use ringhopper::primitives::tag::*;
use ringhopper::tag::bludgeon::*;
use serde_json::{json, Value};

fn odd(r: &mut Rng) -> f64 {
    *r.pick(&[f64::NAN, f64::NAN, f64::NAN, f64::NAN, f64::NAN, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -0.0, 0.0, 1.0, 1.0f32.next_up() as f64, 1.0f32.next_down() as f64, -1e-30f32 as f64, 2.0, -1.0, 0.5])
}
/// Every number in a tag, with the kind of place it is at.
fn numbers(t: &mut dyn PrimaryTagStructDyn, with: &mut dyn FnMut(f64, &'static str, bool) -> f64) {
    fn look(f: &mut dyn DynamicTagData, inside: bool, with: &mut dyn FnMut(f64, &'static str, bool) -> f64) {
        if f.as_reflexive_mut().is_none() {
            if let Some(x) = f.as_array_mut() {
                for i in 0..x.len() { look(x.get_at_index_mut(i).unwrap(), true, with) }
                return
            }
        }
        let a = f.as_any_mut();
        macro_rules! nums { ($t:ty, $v:ident, [$($e:expr),*]) => { if let Some($v) = a.downcast_mut::<$t>() {
            $( { let x = &mut $e; *x = with(*x as f64, concat!(stringify!($t), stringify!($e)), inside) as _; } )*
            return
        } } }
        nums!(f64, v, [*v]);
        nums!(Angle, v, [v.angle]);
        nums!(Vector2D, v, [v.x, v.y]);
        nums!(Vector3D, v, [v.x, v.y, v.z]);
        nums!(Quaternion, v, [v.x, v.y, v.z, v.w]);
        nums!(Euler2D, v, [v.yaw.angle, v.pitch.angle]);
        nums!(Euler3D, v, [v.yaw.angle, v.pitch.angle, v.roll.angle]);
        nums!(Plane2D, v, [v.vector.x, v.vector.y, v.d]);
        nums!(Plane3D, v, [v.vector.x, v.vector.y, v.vector.z, v.d]);
        nums!(Matrix3x3, v, [v.vectors[0].x, v.vectors[0].y, v.vectors[0].z, v.vectors[1].x, v.vectors[1].y, v.vectors[1].z, v.vectors[2].x, v.vectors[2].y, v.vectors[2].z]);
        nums!(ColorARGBFloat, v, [v.alpha, v.red, v.green, v.blue]);
        nums!(ColorRGBFloat, v, [v.red, v.green, v.blue]);
    }
    for_each_field_mut(t.as_mut_dynamic(), true, |_, f| look(f, false, with));
}
/// No references (they would be looked for); and odd numbers: none, one, some or many.
fn prepare(r: &mut Rng, t: &mut dyn PrimaryTagStructDyn, how: usize, want: Option<(&'static str, bool)>) -> Vec<(&'static str, bool)> {
    for_each_field_mut(t.as_mut_dynamic(), true, |_, f| {
        if let Some(x) = f.as_any_mut().downcast_mut::<TagReference>() { *x = TagReference::Null(x.group()) }
    });
    let tame = r.chance(1, 2);
    let mut kinds: Vec<(&'static str, bool)> = vec![];
    numbers(t, &mut |x, kind, inside| {
        kinds.push((kind, inside));
        let colour = kind.starts_with("Color");
        let x = if (how <= 1 || tame) && colour && !(0.0..=1.0).contains(&x) { 0.5 } else if how <= 1 && x.is_nan() { 0.25 } else { x };
        if how > 1 && r.chance(1, [60, 8][how - 2]) { odd(r) } else { x }
    });
    if how == 1 && !kinds.is_empty() {
        let mut some = kinds.clone();
        some.sort();
        some.dedup();
        let kind = want.filter(|w| some.contains(w)).unwrap_or(*r.pick(&some));
        let places: Vec<usize> = (0..kinds.len()).filter(|i| kinds[*i] == kind).collect();
        let at = *r.pick(&places);
        let mut i = 0;
        numbers(t, &mut |x, _, _| { i += 1; if i - 1 == at { if want.is_some() { f64::NAN } else { odd(r) } } else { x } });
    }
    if let Some(s) = t.as_any_mut().downcast_mut::<Scenario>() {
        if r.chance(1, 2) { s.scripts.items.clear(); s.globals.items.clear() }
    }
    if let Some(s) = t.as_any_mut().downcast_mut::<UnicodeStringList>() {
        for s in &mut s.strings { s.string = string(r) }
    }
    kinds.sort();
    kinds.dedup();
    kinds
}
fn string(r: &mut Rng) -> UTF16String {
    let mut u: Vec<u16> = (0..r.below(8)).map(|_| *r.pick(&[97u16, 98, 32, 9, 13, 10, 0xD83D, 0xDE42, 0xE9, 0x6F22, 97, 97, 97, 97, 97, 97])).collect();
    if r.chance(2, 3) { u.retain(|c| !matches!(c, 0xD83D | 0xDE42 | 10 | 13)) }
    if r.chance(1, 10) { let k = r.below(u.len() + 1); u.insert(k, *r.pick(&[0, 7, 127])) }
    if r.chance(9, 10) { u.push(0) }
    let mut b: Vec<u8> = u.iter().flat_map(|c| c.to_le_bytes()).collect();
    if r.chance(1, 20) { b.push(1) }
    crate::c19::tag(&[b]).strings.items.remove(0).string
}
type T = Box<dyn PrimaryTagStructDyn>;
fn says(t: &dyn PrimaryTagStructDyn) -> [bool; 3] {
    let p = TagPath::new("some\\tag", t.group()).unwrap();
    let mut v = crate::c08::verify_tags(vec![(p.clone(), t.clone_inner())]).unwrap();
    let e = v.remove(&p).unwrap().errors;
    [e.iter().any(|e| e.contains("NaN")), e.iter().any(|e| e.contains("Color")), e.iter().any(|e| e.starts_with("String #"))]
}
fn one(t: &T, rec: &mut Value) -> Result<(), String> {
    let s = group_struct(t.group().as_str());
    let p = TagPath::new("some\\tag", t.group()).unwrap();
    *rec = json!({"group": t.group().as_str(), "a": dump_all(s, t.as_dynamic())});
    about_to(rec);
    if let Some(s) = t.as_any().downcast_ref::<Scenario>() { rec["lacks"] = json!(s.source_files.items.is_empty() && !(s.scripts.items.is_empty() && s.globals.items.is_empty())) }
    let x = guard_ms(20000, || {
        let mut b = t.clone_inner();
        let done = matches!(bludgeon_tag(b.as_mut(), &p), BludgeonResult::Done);
        let mut c = b.clone_inner();
        let again = matches!(bludgeon_tag(c.as_mut(), &p), BludgeonResult::Done);
        let d = dump_all(s, b.as_dynamic());
        let same = again == done && d == dump_all(s, c.as_dynamic());
        (done, d, same, says(t.as_ref()), says(b.as_ref()))
    })?;
    rec["done"] = json!(x.0);
    rec["b"] = x.1;
    rec["again"] = json!(x.2);
    rec["nan"] = json!(x.3[0]);
    rec["colour"] = json!(x.3[1]);
    rec["strings"] = json!(x.3[2]);
    rec["after"] = json!(x.4);
    Ok(())
}
pub fn run(a: &Args) -> usize {
    let mut out = Out::new(&a.out);
    let mut r = Rng::new(a.seed);
    let mut all: std::collections::BTreeMap<(&'static str, bool), std::collections::BTreeSet<String>> = Default::default();
    for round in 0..a.n {
        for g in groups() {
            let (items, budget) = match round % 3 { 0 => (1, 1500), 1 => (2, 2500), _ => (1, 6000) };
            let mut t = random_tag(&mut r, &g, items, budget);
            let how = *r.pick(&[0, 1, 1, 1, 2, 3]);
            for k in prepare(&mut r, t.as_mut(), how, None) { all.entry(k).or_default().insert(g.clone()); }
            let mut rec = Value::Null;
            if let Err(e) = one(&t, &mut rec) { rec["crash"] = json!(e) }
            out.put(&rec);
        }
    }
    // every kind of place, alone
    for (k, gs) in all {
        let gs: Vec<String> = gs.into_iter().collect();
        for _ in 0..4 {
            let g = r.pick(&gs).clone();
            for _ in 0..20 {
                let mut t = random_tag(&mut r, &g, 1, 6000);
                if !prepare(&mut r, t.as_mut(), 1, Some(k)).contains(&k) { continue }
                let mut rec = Value::Null;
                if let Err(e) = one(&t, &mut rec) { rec["crash"] = json!(e) }
                out.put(&rec);
                break
            }
        }
    }
    out.finish()
}
