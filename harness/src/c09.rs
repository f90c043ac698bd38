//! C09: commands of the invader program over many tags, compared with the same command on each tag alone.
use crate::c10::{reference, untidy};
use crate::c11::random_tag;
use crate::gtree::canonical;
use crate::groups::new_tag;
use crate::inv::*;
use crate::util::*;
use ringhopper::definitions::*;
use ringhopper::primitives::primitive::*;
use ringhopper::primitives::tag::*;
use serde_json::{json, Value};
use std::path::Path;
use std::time::Duration;

const VERBS: &[&str] = &[
    "strip", "strip", "nudge", "undefault", "bludgeon", "recompress-vertices", "convert", "refactor-groups",
    "unicode-strings", "tag-collection", "recover", "compare", "verify-scenario",
];

struct T { path: String, group: &'static str, state: &'static str, data: &'static str, second: bool }
impl T {
    fn name(&self) -> String { format!("{}.{}", self.path, self.group) }
    fn file(&self) -> String { format!("{}.{}", self.path.replace('\\', "/"), self.group) }
}

struct World { verb: &'static str, tags: Vec<T>, files: Files, cow: bool, opts: Vec<String>, extra: Option<&'static str>, filter: String, group: Option<&'static str> }

fn content(r: &mut Rng, verb: &str, g: &str) -> Box<dyn PrimaryTagStructDyn> {
    match (verb, g) {
        ("verify-scenario", "scenario") => {
            let mut s = Scenario::default();
            if r.chance(1, 2) { s.skies.items.push(ScenarioSky { sky: reference("nowhere.sky") }) }
            return Box::new(s)
        }
        ("recover", "scenario") => return Box::new(Scenario::default()),
        ("recover", "unicode_string_list") => {
            let mut u = UnicodeStringList::default();
            for k in 0..r.below(3) { u.strings.items.push(UnicodeStringListString { string: UTF16String::from_str(&format!("text {k}")) }) }
            return Box::new(u)
        }
        ("recover", "bitmap") => {
            let mut b = Bitmap::default();
            if r.chance(2, 3) {
                b.color_plate.width = 1;
                b.color_plate.height = if r.chance(1, 4) { 2 } else { 1 };
                use std::io::Write;
                let mut z = flate2::write::ZlibEncoder::new(vec![], flate2::Compression::new(6));
                z.write_all(&[1, 2, 3, 4]).unwrap();
                let mut d = vec![0, 0, 0, 4];
                d.extend(z.finish().unwrap());
                b.color_plate.compressed_data.bytes = d;
            }
            return Box::new(b)
        }
        _ => (),
    }
    loop {
        let mut t = if r.chance(1, 4) { new_tag(g) } else { random_tag(r, g, 2, 300) };
        if verb == "refactor-groups" {
            ringhopper::tag::dependency::for_each_dependency_mut(t.as_mut_dynamic(), true, |allowed, rf| {
                *rf = if allowed.contains(&TagGroup::Model) && r.chance(1, 2) { reference(*r.pick(&["a.model", "b.model", "s\\a.model"])) }
                    else if allowed.contains(&TagGroup::Sound) && r.chance(1, 2) { reference("a.sound") }
                    else { TagReference::Null(rf.group()) };
            });
        }
        if let Some(t) = canonical(t.as_ref()) { return t }
    }
}

fn world(r: &mut Rng, big: bool) -> World {
    let verb = *r.pick(VERBS);
    let mut groups: Vec<&'static str> = vec!["scenery", "model", "gbxmodel", "object", "item", "unicode_string_list", "tag_collection", "bitmap", "scenario", "weapon", "sound", "actor_variant", "shader_model", "effect", "scenario_structure_bsp"];
    let fixed = match verb { "unicode-strings" => Some("unicode_string_list"), "tag-collection" => Some("tag_collection"), "verify-scenario" => Some("scenario"), _ => None };
    match verb {
        "recompress-vertices" => groups = vec!["model", "gbxmodel", "scenario_structure_bsp", "scenery", "bitmap"],
        "convert" => groups = vec!["model", "gbxmodel", "object", "item", "scenery", "weapon"],
        "recover" => groups = vec!["bitmap", "unicode_string_list", "scenario", "sound"],
        "nudge" => groups = vec!["scenario", "actor_variant", "effect", "weapon", "tag_collection", "bitmap", "unicode_string_list"],
        _ => (),
    }
    if let Some(f) = fixed { groups.truncate(6); for _ in 0..8 { groups.push(f) } }
    let mut tags: Vec<T> = vec![];
    let mut files = Files::new();
    let n = if big { 30 + r.below(30) } else { [0, 1, 2, 3, 5, 8, 12][r.below(7)] };
    for _ in 0..n {
        let path = format!("{}{}{}", r.pick(&["", "", "s\\", "s\\t\\", "ab\\"]), r.pick(&["a", "b", "ab", "a b", "x1", "ba"]), if big { format!("{}", r.below(20)) } else { String::new() });
        let group = *r.pick(&groups);
        if tags.iter().any(|t| t.path == path && t.group == group) { continue }
        // sources are named after their tags' folders and data files after their paths: no two of a kind may meet
        if fixed.is_some() && tags.iter().any(|t| t.path == path) { continue }
        let t = content(r, verb, group);
        let mut file = t.to_tag_file().unwrap();
        let mut state = "tidy";
        match r.below(9) {
            0 => { state = "junk"; file = b"not a tag at all".to_vec(); }
            1 => { state = "cut"; let l = file.len(); file.truncate(l.min(64 + r.below(l - 64))) }
            2 => { state = "crc"; file[40] ^= 1 << r.below(8) }
            3 | 4 => { state = "untidy"; file = untidy(t.as_ref()) }
            _ => (),
        }
        let mut tag = T { path, group, state, data: "none", second: false };
        let at = tag.file();
        if verb == "compare" && r.chance(2, 3) {
            tag.second = true;
            let mut other = if r.chance(1, 2) { t.to_tag_file().unwrap() } else { content(r, verb, group).to_tag_file().unwrap() };
            if state == "untidy" && r.chance(1, 3) { other = b"".to_vec(); tag.state = "junk" }
            files.insert(format!("tags2/{at}"), other);
        }
        files.insert(format!("tags/{at}"), file);
        tag.data = *r.pick(&["none", "bad", "good", "good"]);
        let text = match (verb, tag.data) {
            (_, "none") => None,
            ("tag-collection", "bad") => Some("nothing\r\n".to_string()),
            ("tag-collection", _) => Some(format!("a{}.model\r\n", r.below(3))),
            (_, "bad") => Some("no end".into()),
            _ => Some(format!("some text {}\r\n###END-STRING###\r\n", r.below(3))),
        };
        if let Some(t) = text { files.insert(format!("data/{}.txt", at[..at.rfind('.').unwrap()].to_owned()), t.into_bytes()); }
        tags.push(tag);
    }
    files.insert("tags/readme.txt".into(), b"not a tag".to_vec());
    files.insert("tags/s/no.group".into(), b"not a tag".to_vec());
    files.insert("tags/noextension".into(), b"".to_vec());
    if verb == "verify-scenario" {
        let e = ringhopper_engines::ALL_SUPPORTED_ENGINES.iter().find(|e| e.name == "mcc-cea").unwrap();
        for t in [e.required_tags.all, e.required_tags.singleplayer, e.required_tags.multiplayer, e.required_tags.user_interface].into_iter().flatten() {
            let t = TagPath::from_path(t).unwrap();
            files.insert(format!("tags/{}", t.to_native_path()), new_tag(t.group().as_str()).to_tag_file().unwrap());
        }
        let mut gl = Globals::default();
        gl.interface_bitmaps.items.push(GlobalsInterfaceBitmaps { hud_globals: reference("hud.hud_globals"), ..Default::default() });
        files.insert("tags/globals/globals.globals".into(), gl.to_tag_file().unwrap());
        files.insert("tags/hud.hud_globals".into(), HUDGlobals::default().to_tag_file().unwrap());
    }
    // options
    let mut opts = vec![];
    let cow = !["recover", "compare", "verify-scenario"].contains(&verb) && r.chance(1, 4);
    if cow { opts.extend(["--cow".to_string(), "cow".into()]) }
    let mut extra = None;
    match verb {
        "convert" => { extra = Some(*r.pick(&["gbxmodel", "model", "scenery", "weapon"])); if r.chance(1, 2) { opts.push("-o".into()) } }
        "refactor-groups" => extra = Some(*r.pick(&["gbxmodel", "sound_looping"])),
        "recover" => if r.chance(1, 2) { opts.push("-o".into()) },
        "compare" => { opts.extend(["-s".to_string(), "all".into()]); if r.chance(1, 3) { opts.push("-r".into()) } }
        "verify-scenario" => opts.extend(["-e".to_string(), "mcc-cea".into()]),
        _ => (),
    }
    if verb == "recover" && r.chance(1, 2) {
        if let Some(t) = tags.first() { files.insert(format!("data/{}.{}", t.path.replace('\\', "/"), if t.group == "bitmap" { "tif" } else { "txt" }), b"there".to_vec()); }
    }
    // a filter
    let mut filter: String = match r.below(6) {
        0 | 1 => "*".into(),
        2 => r.pick(&["a*", "s\\*", "s/*", "?", "??", "*\\*", "ab?*", "*b*", "s*\\?", "nothing*"]).to_string(),
        _ => match tags.len() {
            0 => "*".into(),
            l => {
                let t = &tags[r.below(l)];
                let full = if fixed.is_some() && r.chance(1, 2) { t.path.clone() } else { t.name() };
                let mut c: Vec<char> = full.chars().collect();
                let k = r.below(c.len());
                match r.below(4) { 0 => c[k] = '?', 1 => c[k] = '*', 2 => { let e = k + r.below(c.len() - k) + 1; c.splice(k..e, ['*']); } _ => c.insert(k, '*') }
                c.into_iter().map(|c| if c == '\\' && r.chance(1, 3) { '/' } else { c }).collect()
            }
        },
    };
    if filter == "*" && fixed.is_none() && r.chance(1, 3) { filter = format!("*.{}", r.pick(&groups)) }
    if let Some(g) = fixed { if r.chance(1, 3) && !filter.ends_with(g) { filter = format!("{filter}.{g}") } }
    World { verb, tags, files, cow, opts, extra, filter, group: fixed }
}

struct Done { code: i32, lines: Vec<String>, sum: Vec<String>, changed: Vec<String>, matched: bool, crash: Option<String> }

fn go(root: &Path, w: &World, what: &str, jobs: usize) -> Done {
    lay(root, &w.files, &["tags", "tags2", "data", "cow"]);
    let mut args: Vec<String> = vec![w.verb.into()];
    match w.verb {
        "refactor-groups" => args.extend([if w.extra == Some("gbxmodel") { "model".to_string() } else { "sound".into() }, w.extra.unwrap().into(), "--filter".into(), what.into()]),
        "compare" => args.extend(["tags".to_string(), "tags2".into(), "--filter".into(), what.into()]),
        "convert" => args.extend([what.to_string(), w.extra.unwrap().into()]),
        _ => args.push(what.into()),
    }
    args.extend(w.opts.iter().cloned());
    args.extend(["-j".to_string(), jobs.to_string()]);
    let run = invader(root, &args, Duration::from_secs(60));
    let changed = changes(&w.files, &read_all(root)).into_iter().map(|(k, v)| format!("{k} {}", v.map(|b| hash(&b)).unwrap_or("gone".into()))).collect();
    let (mut lines, mut sum) = (vec![], vec![]);
    let digit = |s: &str| s.bytes().next().is_some_and(|c| c.is_ascii_digit()) && s.contains(" / ");
    for l in &run.out {
        let s = ["Processed ", "Recovered ", "Matched "].iter().any(|p| l.strip_prefix(p).is_some_and(digit)) || l.starts_with("Failed to parse ") || l.starts_with("Error executing ");
        if s { sum.push(l.clone()) } else { lines.push(l.clone()) }
    }
    Done { code: run.code.unwrap_or(-1), crash: run.crash(), matched: run.out.iter().any(|l| l.starts_with("Matched: ")), lines, sum, changed }
}

pub fn run(a: &Args) -> usize {
    let recs = parallel(a.n, 8, |w, k| {
        let mut r = Rng::new(a.seed.wrapping_mul(1_000_003) + k as u64);
        let root = a.scratch.join(format!("w{w}"));
        let mut world = world(&mut r, k % 25 == 24);
        while a.has("bludgeon") && world.verb != "bludgeon" { world = self::world(&mut r, false) }
        let silent = ["recover", "compare", "verify-scenario"].contains(&world.verb);
        let tags: Vec<Value> = world.tags.iter().map(|t| json!({"p": cps(&t.path), "g": cps(t.group), "gname": t.group, "state": t.state, "data": t.data, "second": t.second})).collect();
        let mut crash = None;
        let alone: Vec<Value> = world.tags.iter().map(|t| {
            if world.group.is_some_and(|g| g != t.group) { return json!({"kind": "other"}) }
            let d = go(&root, &world, &t.name(), 1);
            let has = |p: &str| d.lines.iter().any(|l| l.starts_with(p));
            let kind = if d.sum.iter().any(|l| l.contains("No viable tags matched")) { "ignored" }
                else if has("Failed to process ") { "fail" }
                else if !silent { if has("Processed ") { "ok" } else if has("Skipped ") { "skip" } else { "?" } }
                else { match world.verb {
                    "recover" => if has("Recovered ") { "ok" } else { "skip" },
                    "compare" => if d.sum.iter().any(|l| l.ends_with(" / 1 tag")) { "ok" } else { "skip" },
                    _ => "ok",
                } };
            if d.crash.is_some() { crash = d.crash }
            json!({"kind": kind, "lines": d.lines, "changed": d.changed, "matched": d.matched})
        }).collect();
        let jobs: Vec<usize> = vec![1, *r.pick(&[2, 3]), *r.pick(&[4, 8, 0, 64, 4_000_000_000])];
        let runs: Vec<Value> = jobs.iter().map(|j| {
            let d = go(&root, &world, &world.filter, *j);
            if d.crash.is_some() { crash = d.crash }
            json!({"j": (*j).min(1000), "code": d.code, "lines": d.lines, "sum": d.sum, "changed": d.changed})
        }).collect();
        let mut rec = json!({"verb": world.verb, "filter": cps(&world.filter), "ftext": world.filter, "group": cps(world.group.unwrap_or("")), "cow": world.cow, "opts": world.opts, "tags": tags, "alone": alone, "runs": runs});
        if let Some(e) = crash { rec["crash"] = json!(e) }
        rec
    });
    let mut out = Out::new(&a.out);
    for rec in &recs { out.put(rec) }
    out.finish()
}
