//! Field matchers and growing blocks.
use crate::c11::*;
use crate::util::*;
use crate::value::*;
use ringhopper::definitions::*;
use ringhopper::primitives::dynamic::*;
use ringhopper::primitives::primitive::*;
use ringhopper::primitives::tag::*;
use serde_json::{json, Value};
use std::any::TypeId;
use std::collections::HashMap;

type Key = (usize, TypeId);
fn key(d: &dyn DynamicTagData) -> Key { (d as *const dyn DynamicTagData as *const u8 as usize, d.as_any().type_id()) }
type Places = HashMap<Key, Vec<String>>;
/// The path of everything in a tag, walking by hand; returns the shape the specification works on.
fn places_one(f: &Value, d: &dyn DynamicTagData, at: &mut Vec<String>, o: &mut Places) -> Value {
    o.insert(key(d), at.clone());
    match f["k"].as_str().unwrap() {
        "struct" => places(f["s"].as_str().unwrap(), d, at, o),
        "bits" => {
            for b in layout()["bitfields"][f["s"].as_str().unwrap()]["fields"].as_array().unwrap() {
                if b["x"] == true { continue }
                let n = b["n"].as_str().unwrap();
                at.push(n.to_string());
                o.insert(key(d.get_field(n).unwrap()), at.clone());
                at.pop();
            }
            json!([])
        }
        "refl" => {
            let a = d.as_array().unwrap();
            Value::Array((0..a.len()).map(|i| {
                at.push(format!("[{i}]"));
                let x = a.get_at_index(i).unwrap();
                o.insert(key(x), at.clone());
                let v = places(f["s"].as_str().unwrap(), x, at, o);
                at.pop();
                v
            }).collect())
        }
        _ => json!([]),
    }
}
fn places(s: &str, d: &dyn DynamicTagData, at: &mut Vec<String>, o: &mut Places) -> Value {
    Value::Array(fields(s).iter().map(|f| {
        if f["k"] == "pad" || f["x"] == true { return json!([]) }
        let n = f["n"].as_str().unwrap();
        let d = d.get_field(n).unwrap_or_else(|| panic!("{s} has no field {n}"));
        at.push(n.to_string());
        let v = if f["form"] == "one" { places_one(f, d, at, o) } else {
            o.insert(key(d), at.clone());
            let a = d.as_array().unwrap();
            Value::Array((0..f["cnt"].as_u64().unwrap() as usize).map(|i| {
                at.push(if f["form"] == "bounds" { ["lower", "upper"][i].to_string() } else { format!("[{i}]") });
                let v = places_one(f, a.get_at_index(i).unwrap(), at, o);
                at.pop();
                v
            }).collect())
        };
        at.pop();
        v
    }).collect())
}
/// Items without any fields have no address of their own.
fn hollow(f: &Value) -> bool { f["k"] == "refl" && fields(f["s"].as_str().unwrap()).iter().all(|f| f["k"] == "pad" || f["x"] == true) }
fn event(o: &Places, e: Result<&dyn DynamicTagData, &'static str>) -> Value {
    match e {
        Ok(d) => json!({"ok": true, "p": o.get(&key(d)).cloned().unwrap_or(vec!["?".into()])}),
        Err(_) => json!({"ok": false, "p": []}),
    }
}
fn subscript(r: &mut Rng, len: usize) -> String {
    let mut s = String::new();
    for i in 0..if r.chance(2, 3) { 1 } else { 1 + r.below(4) } {
        if i > 0 { s.push(',') }
        let pos = |r: &mut Rng| -> usize { if len == 0 || r.chance(1, 25) { len + r.below(2) } else { r.below(len) } };
        match r.below(8) {
            0 | 1 => s.push('*'),
            2 => s.push('e'),
            3 | 4 => { let (a, b) = (pos(r), pos(r)); let (a, b) = if r.chance(9, 10) { (a.min(b), a.max(b)) } else { (a, b) }; s += &format!("{a}-{b}") }
            5 => s += &format!("{}-e", pos(r)),
            6 => s += &format!("0{}", pos(r)),
            _ => s += &format!("{}", pos(r)),
        }
    }
    s
}
/// A matcher for something in the tag.
fn matcher(r: &mut Rng, s: &str, d: &dyn DynamicTagData) -> String {
    let mut m = String::new();
    let mut d = d;
    let mut s = Some(s.to_string());
    loop {
        if let Some(st) = &s {
            let fs: Vec<&Value> = fields(st).iter().filter(|f| f["k"] != "pad" && f["x"] != true && !hollow(f)).collect();
            if fs.is_empty() || (!m.is_empty() && r.chance(1, 6)) { return m }
            let deep: Vec<&&Value> = fs.iter().filter(|f| f["k"] == "refl" || f["k"] == "struct" || f["form"] != "one" || f["k"] == "bits").collect();
            let full: Vec<&&Value> = deep.iter().copied().filter(|f| d.get_field(f["n"].as_str().unwrap()).unwrap().as_array().map_or(false, |a| a.len() > 0)).collect();
            let f = if !full.is_empty() && r.chance(2, 3) { **r.pick(&full) } else if !deep.is_empty() && r.chance(1, 2) { **r.pick(&deep) } else { *r.pick(&fs) };
            let n = f["n"].as_str().unwrap();
            if !m.is_empty() { m.push('.') }
            m += n;
            d = d.get_field(n).unwrap();
            if f["form"] == "bounds" && r.chance(1, 2) { return m + r.pick(&[".lower", ".upper", ".middle"]) }
            let sub = f["form"] != "one" || f["k"] == "refl";
            if sub {
                let a = d.as_array().unwrap();
                if r.chance(1, 10) { return m }
                m += &format!("[{}]", subscript(r, a.len()));
                if a.len() == 0 {
                    if r.chance(1, 2) { m += ".anything" }
                    return m;
                }
                d = a.get_at_index(r.below(a.len())).unwrap();
            }
            s = if f["k"] == "struct" || f["k"] == "refl" { Some(f["s"].as_str().unwrap().to_string()) } else { None };
            if f["k"] == "bits" && r.chance(1, 2) {
                let b = d.fields();
                if !b.is_empty() { m = m + "." + r.pick(b) }
                return m;
            }
        } else { return m }
    }
}
fn spoil(r: &mut Rng, m: &mut String) {
    let mut c: Vec<char> = m.chars().collect();
    for _ in 0..1 + r.below(2) {
        let at = r.below(c.len() + 1);
        let x = *r.pick(&['.', '[', ']', '0', '1', '9', 'e', '*', '-', ',', 'x', ' ', '+', 'é', '_']);
        match r.below(3) {
            0 => c.insert(at, x),
            1 if at < c.len() => { c.remove(at); }
            _ if at < c.len() => c[at] = x,
            _ => c.push(x),
        }
    }
    *m = c.into_iter().collect();
}
fn replay(a: &Args) -> usize {
    let mut out = Out::new(&a.out);
    for c in a.cases() {
        let mut t = TagCollection::default();
        for _ in 0..c["len"].as_u64().unwrap() { t.tags.items.push(Default::default()) }
        let m = format!("tags[{}]", c["r"].as_str().unwrap());
        about_to(&c);
        let got = guard(|| {
            let at: Vec<usize> = t.tags.items.iter().map(|x| x as *const _ as *const u8 as usize).collect();
            let mut seen = vec![];
            (&t as &dyn DynamicTagData).foreach(&m, |e| { seen.push(e.map(|d| at.iter().position(|x| *x == key(d).0).map_or(-2, |x| x as i64)).unwrap_or(-1)); true });
            seen
        });
        let mut c = c.clone();
        c["got"] = match got { Ok(g) => json!(g), Err(e) => json!(e) };
        out.put(&c);
    }
    out.finish()
}
fn list(s: &str, d: &dyn DynamicTagDataArray) -> Value { Value::Array((0..d.len()).map(|i| dump_struct(s, d.get_at_index(i).unwrap())).collect()) }

pub fn run(a: &Args) -> usize {
    if a.cases.is_some() { return replay(a) }
    let mut out = Out::new(&a.out);
    let mut r = Rng::new(a.seed);
    for round in 0..a.n {
        for g in groups() {
            let mut t = random_tag(&mut r, &g, [1, 4, 2][round % 3], 1200);
            let s = group_struct(&g);
            let mut o = Places::new();
            let v = places(s, t.as_dynamic(), &mut vec![], &mut o);
            o.insert(key(t.as_dynamic()), vec![]);
            for k in 0..8 {
                let mut m = if r.chance(1, 30) { String::new() } else { matcher(&mut r, s, t.as_dynamic()) };
                if r.chance(1, 3) { spoil(&mut r, &mut m) }
                let stop = if r.chance(2, 3) { 0 } else { 1 + r.below(4) };
                let mut rec = json!({"op": "walk", "struct": s, "m": m, "stop": stop, "v": v});
                about_to(&json!({"struct": s, "m": m}));
                let _ = k;
                match guard(|| {
                    let mut read = vec![];
                    t.as_dynamic().foreach(&m, |e| { read.push(event(&o, e)); read.len() != stop });
                    let mut write = vec![];
                    t.as_mut_dynamic().foreach_mut(&m, |e| { write.push(event(&o, e.map(|d| &*d))); write.len() != stop });
                    (read, write, t.as_dynamic().validate_matcher(&m).is_ok())
                }) {
                    Ok((x, y, z)) => { rec["read"] = json!(x); rec["write"] = json!(y); rec["valid"] = json!(z) }
                    Err(e) => rec["crash"] = json!(e),
                }
                out.put(&rec);
            }
            // a block of the tag grows
            let blocks: Vec<&Value> = fields(s).iter().filter(|f| f["k"] == "refl" && f["x"] != true && f["c"] != true).collect();
            if blocks.is_empty() || round % 2 != 0 { continue }
            let f = *r.pick(&blocks);
            let (n, s) = (f["n"].as_str().unwrap(), f["s"].as_str().unwrap());
            let how = *r.pick(&["default", "copied", "moved"]);
            let mut donor = random_tag(&mut r, &g, 3, 3000);
            let b = t.get_field_mut(n).unwrap();
            let len = b.as_array().unwrap().len();
            let at = r.below(len + 1);
            let from = donor.get_field_mut(n).unwrap();
            if from.as_array().unwrap().len() == 0 { grow(from, 0) }
            let before = list(s, b.as_array().unwrap());
            let x = from.as_array_mut().unwrap().get_at_index_mut(0).unwrap();
            let item = dump_struct(s, x);
            let mut rec = json!({"op": "insert", "how": how, "at": at, "before": before, "item": item});
            match guard(|| {
                let q = b.as_reflexive_mut().unwrap();
                match how { "default" => q.insert_default(at), "copied" => q.insert_copy(at, x), _ => q.insert_moved(at, x) }
                let after = list(s, b.as_array().unwrap());
                let left = dump_struct(s, x);
                let mut fresh = crate::groups::new_tag(&g);
                let y = fresh.get_field_mut(n).unwrap();
                y.as_reflexive_mut().unwrap().insert_default(0);
                (after, left, dump_struct(s, y.as_array().unwrap().get_at_index(0).unwrap()))
            }) {
                Ok((a, l, z)) => { rec["after"] = a; rec["left"] = l; rec["blank"] = z }
                Err(e) => rec["crash"] = json!(e),
            }
            out.put(&rec);
        }
    }
    out.finish()
}
