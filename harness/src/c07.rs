//! Changing the groups of references.
use crate::c05::may_refer_to;
use crate::c11::*;
use crate::gtree::*;
use crate::util::*;
use crate::value::*;
use ringhopper::primitives::primitive::*;
use ringhopper::primitives::tag::*;
use ringhopper::tag::dependency::*;
use serde_json::json;

pub fn run(a: &Args) -> usize {
    let mut out = Out::new(&a.out);
    let mut r = Rng::new(a.seed);
    for round in 0..a.n {
        for g in groups() {
            let mut may: Vec<String> = may_refer_to(&g).into_iter().collect();
            may.sort();
            if may.is_empty() && round > 0 { continue }
            let (items, budget) = match round % 3 { 0 => (1, 1500), 1 => (3, 2000), _ => (2, 5000) };
            let all = all_groups();
            let any = |r: &mut Rng| -> TagGroup { if may.is_empty() || r.chance(1, 6) { TagGroup::from_fourcc(r.pick(&all).1).unwrap() } else { TagGroup::from_str(r.pick(&may)).unwrap() } };
            let base = linked_tag(&mut r, &g, &[], budget, 0);
            let mut t = { let mut t = random_tag(&mut r, &g, items, budget); if r.chance(1, 10) { t = base } t };
            let paths = ["x", "y", "a\\b", "é"];
            // few groups, so that many references are of the one that is changed
            let few: Vec<TagGroup> = (0..1 + r.below(3)).map(|_| any(&mut r)).collect();
            for_each_dependency_mut(t.as_mut_dynamic(), true, |allowed, rf| {
                let g = if allowed.is_empty() || r.chance(1, 3) { *r.pick(&few) } else {
                    let ok: Vec<&TagGroup> = few.iter().filter(|g| allowed.contains(g)).collect();
                    if !ok.is_empty() { **r.pick(&ok) } else { *r.pick(allowed) }
                };
                *rf = if r.chance(1, 4) { TagReference::Null(g) } else { TagReference::Set(TagPath::new(*r.pick(&paths), g).unwrap()) };
            });
            let t = canonical(t.as_ref()).unwrap();
            let refs = refs_of(t.as_ref());
            for _ in 0..3 {
                let from = if !refs.is_empty() && r.chance(4, 5) { r.pick(&refs).group() } else { any(&mut r) };
                let to = if r.chance(1, 12) { from } else { any(&mut r) };
                let mut tree = GTree::default();
                for p in paths {
                    for g in [from, to, any(&mut r)] { if r.chance(2, 3) { tree.tags.insert(TagPath::new(p, g).unwrap(), None); } }
                }
                let ro = r.chance(2, 3);
                let mut rec = json!({"group": g, "from": from.as_str(), "to": to.as_str(), "ro": ro, "before": dump_tag(t.as_ref()),
                    "present": tree.tags.keys().map(|p| json!({"g": p.group().as_str(), "p": bytes(p.path().as_bytes())})).collect::<Vec<_>>()});
                about_to(&json!({"group": g, "from": from.as_str(), "to": to.as_str()}));
                match guard(|| {
                    let mut x = t.clone_inner();
                    let changed = refactor_groups_for_block(x.as_mut_dynamic(), from, to, &tree, ro);
                    let after = dump_tag(x.as_ref());
                    let changed2 = refactor_groups_for_block(x.as_mut_dynamic(), from, to, &tree, ro);
                    (changed, after, changed2, dump_tag(x.as_ref()))
                }) {
                    Ok((c, v, c2, v2)) => {
                        rec["changed"] = json!(c);
                        rec["after"] = v;
                        rec["changed2"] = json!(c2);
                        rec["again"] = v2;
                    }
                    Err(e) => rec["crash"] = json!(e),
                }
                out.put(&rec);
            }
        }
    }
    out.finish()
}
