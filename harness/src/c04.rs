//! Tag paths.
use crate::util::*;
use crate::value::*;
use ringhopper::primitives::primitive::*;
use serde_json::{json, Value};
use std::path::{Component, Path};

fn forms(p: &TagPath) -> Value {
    let (i, d, z, n) = (p.to_internal_path(), p.to_string(), p.to_zip_path(), p.to_native_path());
    let again: Vec<bool> = [&i, &d, &z, &n].iter().map(|s| TagPath::from_path(s).is_ok_and(|q| q == *p)).collect();
    let root = Path::new("/some/root");
    let joined = root.join(&n);
    let inside = joined.starts_with(root) && Path::new(&n).components().all(|c| matches!(c, Component::Normal(_)));
    json!({"ok": true, "p": cps(p.path()), "g": cps(p.group().as_str()), "base": cps(p.base_name()), "internal": cps(&i), "display": cps(&d), "zip": cps(&z),
        "native": cps(&n), "again": again, "inside": inside})
}
fn put(out: &mut Out, mut rec: Value, r: Result<Value, String>) {
    match r { Ok(v) => rec["out"] = v, Err(e) => rec["crash"] = json!(e) }
    out.put(&rec);
}
pub fn run(a: &Args) -> usize {
    let mut out = Out::new(&a.out);
    if a.cases.is_some() {
        for c in a.cases() {
            let t = from_cps(&c["t"]);
            let g = TagGroup::from_str(&from_cps(&c["g"])).unwrap();
            let got = guard(|| match TagPath::new(&t, g) {
                Ok(p) => { let f = forms(&p); json!({"ok": true, "p": f["p"], "base": f["base"], "internal": f["internal"], "native": f["native"]}) }
                Err(_) => json!({"ok": false, "p": [], "base": [], "internal": [], "native": []}),
            });
            out.put(&json!({"t": c["t"], "want": c["want"], "got": match got { Ok(v) => v, Err(e) => json!(e) }}));
        }
        return out.finish();
    }
    let mut r = Rng::new(a.seed);
    let all: Vec<(String, u32)> = all_groups().into_iter().filter(|g| g.0 != "<unset>").collect();
    let rec = json!({"op": "groups", "groups": all.iter().map(|(n, f)| json!({"name": cps(n), "fourcc": bytes(&f.to_be_bytes())})).collect::<Vec<_>>()});
    put(&mut out, rec, guard(|| Value::Array(all.iter().map(|(n, f)| {
        let g = TagGroup::from_str(n);
        let h = TagGroup::from_fourcc(*f);
        json!({"name": cps(h.map(|g| g.as_str()).unwrap_or("")), "fourcc": bytes(&g.map(|g| g.as_fourcc()).unwrap_or(0).to_be_bytes())})
    }).collect())));
    let names: Vec<&str> = all.iter().map(|g| g.0.as_str()).collect();
    let words = [
        "levels", "a10", "weapons", "con", "CON", "aux", "prn", "nul", "com1", "com10", "com", "coma", "lpt10", "conin$", "conout$", "clock$", "null", "aux1", "pr", "com²", "lpt9", "lpt", "lptx", "Con.wav", "con.", ".", "..", "...", ".hidden", "a.b", "é", "漢字", "🙂", "É", "Ω",
        "with space", " ", "-", "x.bitmap", "bitmap", "a\u{1f}", "a\u{7f}", "\u{0}", "a\u{80}", "q:", "a*", "?", "\"", "<", ">", "a|b", "c\u{2215}d", "tab\t", "_", "A.B.", "nul ", "Lpt3",
    ];
    for _ in 0..a.n {
        let mut t = String::new();
        match r.below(4) {
            0 => for _ in 0..r.below(12) { t.push(*r.pick(&['a', 'Z', '\\', '/', '.', 'c', 'o', 'n', '1', ' ', 'é', '\u{130}', 'ß', ':', '_'])) },
            _ => for i in 0..1 + r.below(4) {
                if i > 0 || r.chance(1, 12) { for _ in 0..1 + r.below(8) / 6 { t.push(*r.pick(&['\\', '/'])) } }
                let n = if r.chance(2, 3) { r.below(5) } else { r.below(words.len()) };
                t.push_str(if n == 4 { "x y" } else { words[n] });
            },
        }
        if r.chance(1, 40) { t = t.repeat(40) }
        let g = *r.pick(&names);
        let group = match TagGroup::from_str(g) { Ok(g) => g, Err(_) => continue };
        about_to(&json!({"t": t, "g": g}));
        match r.below(8) {
            0 | 1 | 2 => put(&mut out, json!({"op": "new", "t": cps(&t), "g": cps(g), "text": t}), guard(|| match TagPath::new(&t, group) { Ok(p) => forms(&p), Err(_) => json!({"ok": false}) })),
            3 | 4 => {
                let ext = match r.below(6) { 0 => g.to_uppercase(), 1 => words[r.below(words.len())].to_string(), 2 => String::new(), _ => g.to_string() };
                let f = if r.chance(1, 20) { t.clone() } else { format!("{t}.{ext}") };
                put(&mut out, json!({"op": "full", "t": cps(&f), "text": f}), guard(|| match TagPath::from_path(&f) { Ok(p) => forms(&p), Err(_) => json!({"ok": false}) }));
                put(&mut out, json!({"op": "split", "t": cps(&f), "text": f}), guard(|| match TagPath::split_str_path(&f) {
                    Some((p, g)) => json!({"ok": true, "p": cps(p), "g": cps(g.as_str())}),
                    None => json!({"ok": false}),
                }));
            }
            5 => {
                let mut n: String = g.to_string();
                match r.below(5) { 0 => { n.pop(); } 1 => n.push('s'), 2 => n = n.to_uppercase(), 3 => n = t.clone(), _ => () }
                put(&mut out, json!({"op": "group", "t": cps(&n), "text": n}), guard(|| json!(TagGroup::from_str(&n).is_ok_and(|g| g.as_str() == n))));
            }
            6 => {
                let Ok(p) = TagPath::new(&t, group) else { continue };
                let mut q = p.clone();
                if r.chance(1, 2) { q.set_group(TagGroup::from_str(*r.pick(&names)).unwrap()); }
                let (a, b) = (p.to_internal_path(), q.to_internal_path());
                put(&mut out, json!({"op": "order", "a": cps(&a), "b": cps(&b)}), guard(|| {
                    use std::hash::{Hash, Hasher};
                    let h = |p: &TagPath| { let mut h = std::collections::hash_map::DefaultHasher::new(); p.hash(&mut h); h.finish() };
                    let eq = p == q;
                    let consistent = eq == (p.cmp(&q) == std::cmp::Ordering::Equal) && p.cmp(&q) == q.cmp(&p).reverse() && (!eq || h(&p) == h(&q));
                    if !consistent { json!(-1) } else { json!(if eq { 0 } else { 1 }) }
                }));
            }
            _ => {
                let Ok(mut p) = TagPath::new(&t, group) else { continue };
                let g2 = *r.pick(&names);
                put(&mut out, json!({"op": "setgroup", "p": cps(p.path()), "g": cps(g2)}), guard(|| {
                    let mut rf = TagReference::Set(p.clone());
                    p.set_group(TagGroup::from_str(g2).unwrap());
                    rf.set_group(TagGroup::from_str(g2).unwrap());
                    assert!(rf.path() == Some(&p) && rf.group() == p.group() && rf.is_set() && !rf.is_null());
                    json!({"p": cps(p.path()), "g": cps(p.group().as_str())})
                }));
            }
        }
    }
    out.finish()
}
