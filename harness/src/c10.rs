//! C10: command lines of the invader program.  The table of verbs comes from the specification; command
//! lines are built from a meaning (and then rendered in many ways, or damaged), and run in prepared folders.
use crate::inv::*;
use crate::util::*;
use ringhopper::definitions::*;
use ringhopper::primitives::primitive::*;
use ringhopper::primitives::tag::PrimaryTagStructDyn;
use serde_json::{json, Value};
use std::time::Duration;

pub const TAG_DIRS: &[&str] = &["tags", "tags2", "-t"];
pub const DATA_DIRS: &[&str] = &["data", "data2", "--data"];
pub const COW_DIRS: &[&str] = &["cow", "-c"];

pub fn reference(p: &str) -> TagReference { TagReference::Set(TagPath::from_path(p).unwrap()) }
/// The file of a tag as another program might have saved it: nothing wrong, but not what saving gives.
pub fn untidy(t: &dyn PrimaryTagStructDyn) -> Vec<u8> {
    let mut f = t.to_tag_file().unwrap();
    f[3] ^= 0x55;
    f
}

fn world() -> Files {
    let mut f = Files::new();
    for d in TAG_DIRS {
        let mut put = |n: &str, b: Vec<u8>| { f.insert(format!("{d}/{n}"), b); };
        let mark = format!("from_{d}.");
        let mut s = Scenery::default();
        s.basic_object.object.modifier_shader = reference(&format!("{mark}shader_model"));
        put("s.scenery", untidy(&s));
        let mut o = ringhopper::definitions::Object::default();
        o.modifier_shader = reference(&format!("{mark}shader_model"));
        put("o.object", untidy(&o));
        let mut s = Scenery::default();
        s.basic_object.object.model = reference("old.gbxmodel");
        put("o.scenery", untidy(&s));
        for e in TAG_DIRS { put(&format!("from_{e}.shader_model"), untidy(&ShaderModel::default())) }
        put("m.model", untidy(&Model::default()));
        put("m.gbxmodel", untidy(&GBXModel::default()));
        let mut c = TagCollection::default();
        c.tags.items.push(TagCollectionTag { reference: reference("m.model") });
        c.tags.items.push(TagCollectionTag { reference: reference("s.scenery") });
        put("x.tag_collection", untidy(&c));
        put("x.ui_widget_collection", untidy(&UIWidgetCollection::default()));
        put("x.unicode_string_list", untidy(&UnicodeStringList::default()));
        put("b.bitmap", untidy(&Bitmap::default()));
        put("p.point_physics", untidy(&PointPhysics::default()));
        put("sc.scenario", untidy(&Scenario::default()));
    }
    for d in DATA_DIRS {
        let text = format!("from_{d}.scenery\r\n###END-STRING###\r\n");
        f.insert(format!("{d}/x.txt"), text.into_bytes());
    }
    f.insert("a file".into(), b"text".to_vec());
    f
}

/// The one text file serves as a list of tags in some commands and of strings in another.
fn for_verb(f: &Files, verb: &str) -> Files {
    let mut f = f.clone();
    if verb != "unicode-strings" {
        for d in DATA_DIRS { f.insert(format!("{d}/x.txt"), format!("from_{d}.scenery\r\n").into_bytes()); }
    }
    f
}

fn witness(b: &[u8]) -> &'static str {
    let has = |w: &[u8]| b.windows(w.len()).any(|x| x == w);
    // the longest name first: one folder's name may begin another's
    for d in ["tags2", "tags", "-t", "data2", "--data", "data"] {
        let m = format!("from_{d}");
        let w: Vec<u8> = m.encode_utf16().flat_map(u16::to_le_bytes).collect();
        if has(m.as_bytes()) || has(&w) { return d }
    }
    "?"
}

struct Case {
    verb: String,
    argv: Vec<String>,
    canon: Option<Vec<String>>,
    table: Option<String>,
}

fn text(r: &mut Rng, opt: &str) -> &'static str {
    match opt {
        "show" => *r.pick(&["all", "matched", "mismatched", "all", "nothing"]),
        "replace-type" => *r.pick(&["start", "all", "all", "end"]),
        "type" => *r.pick(&["general", "General", "other"]),
        _ => *r.pick(&["*", "s*", "*.scenery", "x.*", "?.scenery", "s.scenery", "--help", "-f", "none*"]),
    }
}
const GOOD_UINT: &[&str] = &["1", "2", "4", "0", "+3", "007", "8", "4294967295", "9", "000000000000000003"];
const BAD_UINT: &[&str] = &["-1", "", "x", "4294967296", "1.0", "99999999999", " 1", "1 ", "+", "0x1", "1e1", "\u{663}", "++2"];
const GOOD_ENGINE: &[&str] = &["mcc-cea", "pc-custom", "xbox-us", "mac-demo", "xbox-pro", "pc-retail"];
const BAD_ENGINE: &[&str] = &["pc-0268", "xbox-2247", "nope", "", "PC-CUSTOM", "pc-custo", "pc-customs", "xbox"];

fn good(r: &mut Rng, o: &Value) -> String {
    let n = o["name"].as_str().unwrap();
    match o["type"].as_str().unwrap() {
        "uint" => r.pick(GOOD_UINT).to_string(),
        "engine" => r.pick(GOOD_ENGINE).to_string(),
        "text" => text(r, n).into(),
        _ => match n {
            "tags" => r.pick(TAG_DIRS).to_string(),
            "data" => r.pick(DATA_DIRS).to_string(),
            "cow" => r.pick(COW_DIRS).to_string(),
            _ => r.pick(&["out.7z", "-O", "out.7z"]).to_string(),
        },
    }
}
fn positionals(r: &mut Rng, verb: &str) -> Vec<String> {
    let v: &[&str] = match verb {
        "strip" | "dependency-list" | "archive-tag" if r.chance(2, 3) => &["s.scenery"],
        "convert" => match r.below(5) { 0..=2 => &["o.object", "scenery"], 3 => &["*.model", "gbxmodel"], _ => &["s.scenery", "weapon"] },
        "unicode-strings" | "tag-collection" | "ui-widget-collection" => if r.chance(2, 3) { &["x"] } else { &["*"] },
        "compare" => match r.below(4) { 0 => &["tags", "-"], 1 => &["tags", "tags2"], 2 => &["tags2", "tags"], _ => &["tags", "nowhere"] },
        "refactor-groups" => match r.below(3) { 0 => &["model", "gbxmodel"], 1 => &["gbxmodel", "model"], _ => &["model", "nothing"] },
        "refactor-paths" => match r.below(3) { 0 => &["m", "n"], 1 => &["from_", "to_"], _ => &["q", "r"] },
        "verify-scenario" | "list-scenario-tags" | "archive-scenario" => &["sc"],
        "info" | "extract" => match r.below(3) { 0 => &["a file"], 1 => &["tags"], _ => &["no.map"] },
        "plate" => &["b"],
        "recover" => &["x.unicode_string_list"],
        _ => match r.below(5) { 0 => &["*"], 1 => &["*.scenery"], 2 => &["missing.scenery"], 3 => &["m.gbxmodel"], _ => &["s.scenery"] },
    };
    v.iter().filter(|w| **w != "-").map(|w| w.to_string()).chain(if v.contains(&"-") { Some("tags".to_string()) } else { None }).collect()
}

fn case(r: &mut Rng, table: &Value) -> Case {
    let verbs: Vec<&String> = table.as_object().unwrap().keys().collect();
    let mut verb = (*r.pick(&verbs)).clone();
    if r.chance(1, 12) { verb = "verify-scenario".into() }
    let opts = table[&verb]["opts"].as_array().unwrap();
    // the meaning
    let mut units: Vec<(usize, Option<String>)> = vec![];
    let mut lacking = false;
    for (k, o) in opts.iter().enumerate() {
        if o["need"] == json!(true) { if r.chance(1, 8) { lacking = true; continue } }
        else if !r.chance(1, 2) { continue }
        let times = if o["many"] == json!(true) { 1 + r.below(3) } else { 1 };
        for _ in 0..times { units.push((k, if o["type"] == "none" { None } else { Some(good(r, o)) })) }
    }
    let pos = positionals(r, &verb);
    // spelled out
    let mut canon = vec![];
    for (k, o) in opts.iter().enumerate() {
        let name = format!("--{}", o["name"].as_str().unwrap());
        let mine: Vec<&(usize, Option<String>)> = units.iter().filter(|u| u.0 == k).collect();
        if o["type"] == "none" { if !mine.is_empty() { canon.push(name) } }
        else if mine.is_empty() { for d in o["default"].as_array().unwrap() { canon.push(name.clone()); canon.push(d.as_str().unwrap().into()) } }
        else { for u in mine { canon.push(name.clone()); canon.push(u.1.clone().unwrap()) } }
    }
    canon.extend(pos.iter().cloned());
    // rendered: the order among repeated options and among arguments stays
    let mut order: Vec<usize> = (0..units.len()).collect();
    r.shuffle(&mut order);
    let mut slots = order.clone();
    for k in 0..opts.len() {
        let at: Vec<usize> = (0..order.len()).filter(|i| units[order[*i]].0 == k).collect();
        let mut ids: Vec<usize> = at.iter().map(|i| order[*i]).collect();
        ids.sort();
        for (i, id) in at.iter().zip(ids) { slots[*i] = id }
    }
    let mut argv: Vec<String> = vec![];
    let mut p = pos.iter();
    let mut i = 0;
    while i < slots.len() {
        while r.chance(1, 3) { if let Some(w) = p.next() { argv.push(w.clone()) } else { break } }
        if r.chance(1, 12) { argv.push("-".into()) }
        let group = if r.chance(1, 2) { 1 + r.below(4) } else { 0 };
        if group == 0 {
            let (k, v) = &units[slots[i]];
            argv.push(format!("--{}", opts[*k]["name"].as_str().unwrap()));
            argv.extend(v.clone());
            i += 1;
        } else {
            let end = (i + group).min(slots.len());
            let mut w = String::from("-");
            let mut vs = vec![];
            for s in &slots[i..end] { w += opts[units[*s].0]["short"].as_str().unwrap(); vs.extend(units[*s].1.clone()) }
            argv.push(w);
            argv.extend(vs);
            i = end;
        }
    }
    argv.extend(p.cloned());
    let mut shown = verb.clone();
    if r.chance(1, 6) { if verb == "compare" { shown = "cmp".into() } else if verb == "unicode-strings" { shown = "unicode-string-list".into() } }
    if r.chance(1, 8) { shown = shown.chars().map(|c| if r.chance(1, 2) { c.to_ascii_uppercase() } else { c }).collect() }
    let mut canon = if lacking { None } else { Some(canon) };
    // damage
    if !lacking && r.chance(1, 6) {
        for w in argv.iter_mut() { if GOOD_ENGINE.contains(&w.as_str()) { *w = r.pick(BAD_ENGINE).to_string(); canon = None } }
    }
    if canon.is_some() && r.chance(1, 2) {
        canon = None;
        for _ in 0..1 + r.below(2) {
            let at = r.below(argv.len() + 1);
            match r.below(9) {
                0 if !argv.is_empty() => { argv.remove(at % argv.len()); }
                1 if !argv.is_empty() => { let k = at % argv.len(); let w = argv[k].clone(); argv.insert(r.below(argv.len() + 1), w) }
                2 if argv.len() > 1 => { let k = r.below(argv.len() - 1); argv.swap(k, k + 1) }
                3 => argv.insert(at, r.pick(&["-h", "--help", "-", "--", "extra", "", "-x", "--bogus", "--tag", "--tagss", "--tags=tags", "-hx", "-oh", "--Tags", "--HELP", "-H", "-T", "--t", "-tags", "--jobs", "-j"]).to_string()),
                4 => { // a bad value for something that takes one
                    let o = r.pick(opts).clone();
                    let bad = match o["type"].as_str().unwrap() {
                        "uint" => *r.pick(BAD_UINT),
                        "engine" => *r.pick(BAD_ENGINE),
                        "path" => *r.pick(&["missing", "", "a file", "missing/x"]),
                        _ => continue,
                    };
                    let name = format!("--{}", o["name"].as_str().unwrap());
                    let short = format!("-{}", o["short"].as_str().unwrap());
                    match argv.iter().position(|w| *w == name || *w == short) {
                        Some(k) if k + 1 < argv.len() => argv[k + 1] = bad.into(),
                        _ => { argv.insert(0, bad.into()); argv.insert(0, if r.chance(1, 2) { name } else { short }) }
                    }
                }
                5 if !argv.is_empty() => { let k = at % argv.len(); if argv[k].starts_with('-') { argv[k] += r.pick(&["h", "x", "j", "t", "o"]) } }
                6 => argv.truncate(at),
                7 => { let o = r.pick(opts); argv.push(format!("-{}", o["short"].as_str().unwrap())) }
                _ => { let o = r.pick(opts); argv.insert(at, format!("--{}", o["name"].as_str().unwrap())) }
            }
        }
    }
    Case { verb: shown, argv, canon, table: Some(verb) }
}

fn other(r: &mut Rng) -> Case {
    let verb = *r.pick(&["version", "v", "V", "list-engines", "List-Engines", "", "strips", "stri", "-h", "--help", "help", "c", "dependency", "cmpr", "unicode_strings"]);
    let mut argv = vec![];
    for _ in 0..r.below(3) { argv.push(r.pick(&["pc-custom", "mcc-cea", "nope", "-h", "--tags", "s.scenery", "xbox-2247", ""]).to_string()) }
    Case { verb: verb.into(), argv, canon: None, table: None }
}

struct Outcome { code: i32, out: Vec<String>, changed: Vec<Value>, says: Vec<String>, help: Vec<String>, argerr: bool, crash: Option<String> }

fn go(root: &std::path::Path, files: &Files, verb: &str, argv: &[String]) -> Outcome {
    let mut dirs = TAG_DIRS.to_vec();
    dirs.extend(DATA_DIRS);
    dirs.extend(COW_DIRS);
    lay(root, files, &dirs);
    let mut args = vec![verb.to_string()];
    args.extend(argv.iter().cloned());
    let run = invader(root, &args, Duration::from_secs(30));
    let mut changed = vec![];
    for (k, v) in changes(files, &read_all(root)) {
        let (d, f) = k.split_once('/').unwrap_or((".", &k));
        changed.push(match v {
            None => json!({"dir": d, "file": f, "from": "gone", "hash": ""}),
            Some(b) => json!({"dir": d, "file": f, "from": if d == "." { "?" } else { witness(&b) }, "hash": if d == "." { String::from("archive") } else { hash(&b) }}),
        });
    }
    let help = if run.code == Some(0) && run.out.first().is_some_and(|l| l.starts_with("Usage: ")) {
        run.out.iter().filter_map(|l| {
            let w: Vec<&str> = l.split(' ').collect();
            let k = w.iter().position(|x| x.starts_with("--"))?;
            if k == 0 || (k == 1 && w[0].starts_with('-') && w[0].ends_with(',')) { Some(w[k][2..].to_owned()) } else { None }
        }).collect()
    } else { vec![] };
    let mut says: Vec<String> = TAG_DIRS.iter().filter(|d| run.out.iter().any(|l| l.contains(&format!("from_{d}.")))).map(|d| d.to_string()).collect();
    says.sort();
    let argerr = run.out.iter().any(|l| l.contains("Argument parse error"));
    let mut out = run.out.clone();
    out.sort();
    Outcome { code: run.code.unwrap_or(-1), crash: run.crash(), out, changed, says, help, argerr }
}

pub fn run(a: &Args) -> usize {
    let table = a.cases().remove(0);
    let mut r = Rng::new(a.seed);
    let cases: Vec<Case> = (0..a.n).map(|k| if k % 40 == 0 { other(&mut r) } else { case(&mut r, &table) }).collect();
    let files = world();
    let dirs: Vec<&str> = TAG_DIRS.iter().chain(DATA_DIRS).chain(COW_DIRS).copied().collect();
    let recs = parallel(cases.len(), 8, |w, k| {
        let c = &cases[k];
        let root = a.scratch.join(format!("w{w}"));
        let files = for_verb(&files, c.table.as_deref().unwrap_or(""));
        let o = go(&root, &files, &c.verb, &c.argv);
        let says = if c.table.as_deref() == Some("dependency-list") { o.says.clone() } else { vec![] };
        let mut rec = json!({"verb": c.verb, "argv": c.argv, "dirs": dirs, "code": o.code, "out": o.out, "changed": o.changed, "says": says, "help": o.help, "argerr": o.argerr});
        if let Some(e) = o.crash { rec["crash"] = json!(e) }
        if let Some(canon) = &c.canon {
            let q = go(&root, &files, c.table.as_ref().unwrap(), canon);
            rec["canon"] = json!({"argv": canon, "code": q.code, "out": q.out, "changed": q.changed});
            if let Some(e) = q.crash { rec["crash"] = json!(e) }
        }
        rec
    });
    let mut out = Out::new(&a.out);
    for rec in &recs { out.put(rec) }
    out.finish()
}
