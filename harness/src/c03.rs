use crate::util::*;
use ringhopper::primitives::primitive::{TagGroup, TagPath, TagReference};
use ringhopper::tag::tree::TagFilter;
use serde_json::json;

fn put(out: &mut Out, mut rec: serde_json::Value, r: Result<serde_json::Value, String>) {
    match r {
        Ok(v) => rec["out"] = v,
        Err(e) => rec["crash"] = json!(e),
    }
    out.put(&rec);
}

pub fn run(a: &Args) -> usize {
    let mut out = Out::new(&a.out);
    if a.cases.is_some() {
        // exhaustive cases of the specification: pattern f against the text s
        for c in a.cases() {
            let f = from_cps(&c["f"]);
            let s = from_cps(&c["s"]);
            let mut rec = c.clone();
            // a text that ends in a dot is not a tag path; it is still a null reference's path if empty
            let r = guard(|| {
                let t = TagFilter::new(&f, Some(TagGroup::Bitmap));
                if s.is_empty() {
                    let n = t.reference_matches(&TagReference::Null(TagGroup::Bitmap));
                    Some(n)
                } else {
                    TagPath::new(&s, TagGroup::Bitmap).ok().map(|p| t.passes(&p))
                }
            });
            match r {
                Ok(None) => continue,
                Ok(Some(b)) => rec["got"] = json!(b),
                Err(e) => rec["got"] = json!(e),
            }
            out.put(&rec);
        }
        return out.finish();
    }
    let mut r = Rng::new(a.seed);
    let groups = ["bitmap", "weapon", "scenario", "model", "gbxmodel", "model_animations", "sound", "hud_message_text"];
    let alpha: Vec<char> = "aab\\.é漢🙂xw".chars().collect();
    for _ in 0..a.n {
        let g: &str = if r.chance(1, 3) { "" } else { *r.pick(&groups) };
        let pg: &str = if !g.is_empty() && r.chance(4, 5) { g } else { *r.pick(&groups) };
        // a path
        let mut path = String::new();
        for _ in 0..r.below(9) {
            path.push(*r.pick(&alpha));
        }
        if r.chance(1, 6) {
            path = ["levels\\a10\\a10", "weapons\\pistol\\pistol", "ui\\é\\ü.bitmap", ".bitmap", "a.weapon"][r.below(5)].to_string();
        }
        let group = TagGroup::from_str(pg).unwrap();
        let tp = match TagPath::new(&path, group) {
            Ok(p) => p,
            Err(_) => continue,
        };
        let path = tp.path().to_string();
        // a pattern: a mutation of the whole text, so that matches are common
        let full = if g.is_empty() { format!("{path}.{pg}") } else { path.clone() };
        let mut f: Vec<char> = full.chars().collect();
        for _ in 0..r.below(5) {
            let i = r.below(f.len() + 1);
            match r.below(7) {
                0 => f.insert(i, '*'),
                1 if i < f.len() => f[i] = '?',
                2 if i < f.len() => f[i] = '*',
                3 if i < f.len() => {
                    f.remove(i);
                }
                4 if i < f.len() => {
                    let j = i + r.below(f.len() - i + 1);
                    f.splice(i..j, ['*']);
                }
                5 => f.insert(i, *r.pick(&alpha)),
                _ => f.insert(i, '?'),
            }
        }
        let mut f: String = f.into_iter().collect();
        if r.chance(1, 4) {
            f.push('.');
            f.push_str(if r.chance(2, 3) && !g.is_empty() { g } else { pg });
            if r.chance(1, 5) {
                f.push('.');
                f.push_str(pg);
            }
        }
        if r.chance(1, 5) {
            f = f.replace('\\', "/");
        }
        if r.chance(1, 20) {
            f = f.to_uppercase();
        }
        let base = json!({"f": cps(&f), "g": cps(g), "path": cps(&path), "pg": cps(pg), "text": f, "ptext": path});
        about_to(&base);
        let fg = if g.is_empty() { None } else { Some(TagGroup::from_str(g).unwrap()) };
        let with = |op: &str| {
            let mut b = base.clone();
            b["op"] = json!(op);
            b
        };
        put(&mut out, with("passes"), guard(|| json!(TagFilter::new(&f, fg).passes(&tp))));
        match r.below(4) {
            0 => put(&mut out, with("ref"), guard(|| json!(TagFilter::new(&f, fg).reference_matches(&TagReference::Set(tp.clone()))))),
            1 => put(&mut out, with("null"), guard(|| json!(TagFilter::new(&f, fg).reference_matches(&TagReference::Null(group))))),
            2 if fg.is_some() => put(&mut out, with("clean"), guard(|| cps(TagFilter::cleanup_extension(&f, fg.unwrap())))),
            3 => put(&mut out, with("is_filter"), guard(|| json!(TagFilter::is_filter(&f)))),
            _ => {}
        }
    }
    out.finish()
}
