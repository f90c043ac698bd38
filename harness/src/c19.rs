//! Unicode string lists: stored strings, text, and back.
use crate::util::*;
use ringhopper::definitions::*;
use ringhopper::primitives::parse::TagData;
use ringhopper::primitives::primitive::*;
use ringhopper::primitives::tag::*;
use ringhopper::tag::unicode_string_list::*;
use serde_json::{json, Value};

const END: &str = "###END-STRING###";
/// Text made of pieces that matter.
fn piece(r: &mut Rng) -> String {
    match r.below(24) {
        0..=3 => "\r\n".into(),
        4 | 5 => "\n".into(),
        6 => "\r".into(),
        7 | 8 => "a".into(),
        9 => " ".into(),
        10 => "\t".into(),
        11 => (*r.pick(&["\u{1}", "\u{7f}", "\u{1f}", "\u{b}", "\u{c}"])).into(),
        12 => (*r.pick(&["\u{feff}", "\u{85}", "\u{2028}", "\u{a0}", "\u{d7ff}", "\u{e000}", "\u{ffff}", "\u{fffd}", "\u{fffe}"])).into(),
        13 => (*r.pick(&["é", "日", "😀", "\u{10ffff}", "\u{10000}", "ß"])).into(),
        14 => END.into(),
        15 => (*r.pick(&["###END-STRING##", "###end-string###", " ###END-STRING###", "###END-STRING### ", "###END-\rSTRING###", "####END-STRING###", "#", "###END-STRING###\r"])).into(),
        16 => if r.chance(1, 8) { "\u{0}".into() } else { "zz".into() },
        _ => (0..1 + r.below(6)).map(|_| *r.pick(&['b', 'c', ' ', 'D', '%', '7'])).collect(),
    }
}
fn some(r: &mut Rng, n: usize) -> String { (0..r.below(n + 1)).map(|_| piece(r)).collect() }
fn text(r: &mut Rng) -> String {
    if r.chance(1, 4) { return some(r, 12) }
    let mut s = String::new();
    let nl = *r.pick(&["\r\n", "\n", ""]);
    for _ in 0..r.below(4) {
        let body = some(r, 5);
        s += &body;
        if !body.is_empty() && !body.ends_with('\n') && !r.chance(1, 10) { s += if nl.is_empty() { "\n" } else { nl } }
        s += END;
        s += if nl.is_empty() { if r.chance(1, 2) { "\n" } else { "\r\n" } } else { nl };
    }
    match r.below(8) { 0 => s += &some(r, 2), 1 => { s.pop(); } 2 => s += "\n\r\n\n", 3 => s = s.trim_end().into(), _ => {} }
    s
}
fn u16s(s: &str, little: bool) -> Vec<u8> { s.encode_utf16().flat_map(|u| if little { u.to_le_bytes() } else { u.to_be_bytes() }).collect() }
fn damage(r: &mut Rng, b: &mut Vec<u8>) {
    for _ in 0..1 + r.below(2) {
        if b.is_empty() { b.push(r.next() as u8); continue }
        let i = r.below(b.len());
        match r.below(6) {
            0 => { b.remove(i); }
            1 => b.insert(i, r.next() as u8),
            2 => b[i] = r.next() as u8,
            3 => b.truncate(i),
            4 => { let j = i & !1; if j + 1 < b.len() { b[j + r.below(2)] = 0xD8 + r.below(8) as u8 } }
            _ => b[i] = *r.pick(&[0, 0x80, 0xFF, 0xFE, 0xC0, 0xED, 0xF4, 13, 10]),
        }
    }
}
fn list_of(t: &UnicodeStringList) -> Value { t.strings.items.iter().map(|s| bytes(s.string.get_utf16_bytes())).collect() }
pub fn tag(l: &[Vec<u8>]) -> UnicodeStringList {
    let mut t = UnicodeStringList::default();
    for b in l {
        let mut d = (b.len() as u32).to_be_bytes().to_vec();
        d.resize(20, 0);
        let mut c = 0;
        c += 20;
        let s = UTF16String::read_from_tag_file(&with(&d, b), 0, 20, &mut c).unwrap();
        t.strings.items.push(UnicodeStringListString { string: s });
    }
    t
}
fn with(d: &[u8], b: &[u8]) -> Vec<u8> { let mut v = d.to_vec(); v.extend(b); v }

pub fn run(a: &Args) -> usize {
    let mut out = Out::new(&a.out);
    let mut r = Rng::new(a.seed);
    for k in 0..a.n {
        if k % 2 == 0 {
            let s = text(&mut r);
            let mut b = match r.below(5) {
                0 => with(&[0xFF, 0xFE], &u16s(&s, true)),
                1 => with(&[0xFE, 0xFF], &u16s(&s, false)),
                2 if r.chance(1, 4) => u16s(&s, r.chance(1, 2)),
                _ => s.into_bytes(),
            };
            if r.chance(1, 6) { damage(&mut r, &mut b) }
            if r.chance(1, 100) { b = vec![*r.pick(&[0xFF, 0xFE, 0xEF]); r.below(3)] }
            let mut rec = json!({"op": "text", "text": bytes(&b)});
            about_to(&rec);
            match guard(|| UnicodeStringList::from_text_data(&b).map(|t| { assert_eq!(t.string_count(), t.strings.items.len()); list_of(&t) })) {
                Ok(Ok(l)) => rec["list"] = l,
                Ok(Err(e)) => rec["error"] = json!(e.to_string()),
                Err(e) => rec["crash"] = json!(e),
            }
            out.put(&rec);
        } else {
            let l: Vec<Vec<u8>> = (0..r.below(5)).map(|_| {
                let s = some(&mut r, 6);
                let s = if r.chance(3, 4) { s.replace("\r\n", "\n").replace(['\r', '\0', '\u{1}', '\u{7f}', '\u{1f}', '\u{b}', '\u{c}'], "").replace('\n', "\r\n") } else { s };
                let s = if r.chance(3, 4) { s.replace(END, "x") } else { s };
                let mut b = u16s(&s, true);
                b.extend([0, 0]);
                if r.chance(1, 16) { damage(&mut r, &mut b) }
                b
            }).collect();
            let mut rec = json!({"op": "list", "list": l.iter().map(|b| bytes(b)).collect::<Vec<_>>()});
            about_to(&rec);
            let g = guard(|| {
                let t = tag(&l);
                let path = TagPath::from_path("a\\b.unicode_string_list").unwrap();
                let mut read = vec![];
                for i in 0..t.string_count() {
                    let (ok, s) = match t.strings.items[i].string.get_string_lossy() { Ok(s) => (true, s), Err(s) => (false, s) };
                    match t.read_string_data(i) { Ok(x) => assert!(ok && x == s), Err(_) => assert!(!ok) }
                    // asked again, the answer is the same
                    assert_eq!(t.strings.items[i].string.clone().get_string().is_ok(), ok);
                    assert_eq!(t.strings.items[i].string.to_string(), *s);
                    read.push(json!({"ok": ok, "s": cps(&s)}));
                }
                let mut fixed: Box<dyn PrimaryTagStructDyn> = t.clone_inner();
                ringhopper::tag::bludgeon::bludgeon_tag(fixed.as_mut(), &path);
                let fixed = list_of(fixed.as_any().downcast_ref().unwrap());
                let text = t.as_text_data().ok();
                let again = text.as_ref().map(|x| UnicodeStringList::from_text_data(x).map(|t| list_of(&t)).map_err(|e| e.to_string()));
                let rc = ringhopper::tag::recover::get_recover_function(TagGroup::UnicodeStringList).unwrap()(&path, &t.clone_inner());
                (read, fixed, text, again, rc)
            });
            match g {
                Ok((read, fixed, text, again, rc)) => {
                    rec["read"] = json!(read);
                    rec["fixed"] = fixed;
                    if let Some(t) = text { rec["text"] = bytes(&t) }
                    if let Some(x) = again { rec["again"] = match x { Ok(v) => v, Err(e) => json!(e) } }
                    if let Ok(Some(m)) = rc { for (k, v) in m { rec["name"] = json!(k.to_str().unwrap()); rec["recovered"] = bytes(&v) } }
                }
                Err(e) => rec["crash"] = json!(e),
            }
            out.put(&rec);
        }
    }
    out.finish()
}
