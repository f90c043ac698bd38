//! Colour plates: pictures of every kind as loose files, and the plate made of them.
use crate::util::*;
use ringhopper::data::bitmap::plate::*;
use ringhopper::data::bitmap::*;
use ringhopper::primitives::primitive::{ColorARGBInt, ColorARGBIntBytes};
use serde_json::{json, Value};
use std::io::Write;
use std::path::Path;

pub fn picture(i: &Image) -> Value {
    let c: Vec<ColorARGBIntBytes> = i.data.iter().map(|p| (*p).into()).collect();
    json!({"w": i.width, "h": i.height,
        "rgb": c.iter().map(|c| ((c.red as u32) << 16) | ((c.green as u32) << 8) | c.blue as u32).collect::<Vec<_>>(),
        "al": c.iter().map(|c| c.alpha).collect::<Vec<_>>()})
}
fn zlib(d: &[u8]) -> Vec<u8> {
    let mut e = flate2::write::ZlibEncoder::new(vec![], flate2::Compression::fast());
    e.write_all(d).unwrap();
    e.finish().unwrap()
}
fn chunk(out: &mut Vec<u8>, name: &[u8; 4], d: &[u8]) {
    out.extend((d.len() as u32).to_be_bytes());
    let mut c = flate2::Crc::new();
    c.update(name);
    c.update(d);
    out.extend(name);
    out.extend(d);
    out.extend(c.sum().to_be_bytes());
}
/// `n` samples per pixel of `bits` bits.
fn png(w: usize, h: usize, n: usize, bits: u8, palette: bool, s: &[u8]) -> Vec<u8> {
    let mut o = b"\x89PNG\r\n\x1a\n".to_vec();
    let mut head = vec![];
    head.extend((w as u32).to_be_bytes());
    head.extend((h as u32).to_be_bytes());
    head.extend([bits, if palette { 3 } else { [0, 0, 4, 2, 6][n] }, 0, 0, 0]);
    chunk(&mut o, b"IHDR", &head);
    if palette { chunk(&mut o, b"PLTE", &[7; 768]) }
    let row = w * n * bits as usize / 8;
    let mut d = vec![];
    for y in 0..h { d.push(0); d.extend(&s[y * row..(y + 1) * row]) }
    chunk(&mut o, b"IDAT", &zlib(&d));
    chunk(&mut o, b"IEND", &[]);
    o
}
fn tiff(w: usize, h: usize, n: usize, bits: u16, photo: u16, planar: bool, big: bool, per: usize, s: &[u8]) -> Vec<u8> {
    let u16b = |v: u16| if big { v.to_be_bytes() } else { v.to_le_bytes() };
    let u32b = |v: u32| if big { v.to_be_bytes() } else { v.to_le_bytes() };
    let mut o = if big { b"MM\0\x2a".to_vec() } else { b"II\x2a\0".to_vec() };
    o.extend([0; 4]);
    let row = w * n * bits as usize / 8;
    let mut strips = vec![];
    if planar {
        for k in 0..n { let d: Vec<u8> = s.iter().skip(k).step_by(n).copied().collect(); strips.push(d) }
    } else {
        for y in (0..h).step_by(per) { strips.push(s[y * row..(y + per).min(h) * row].to_vec()) }
    }
    let mut at = vec![];
    for d in &strips { at.push(o.len() as u32); o.extend(d); if o.len() % 2 == 1 { o.push(0) } }
    let lens: Vec<u32> = strips.iter().map(|d| d.len() as u32).collect();
    let mut tags: Vec<(u16, u16, Vec<u32>)> = vec![
        (256, 3, vec![w as u32]), (257, 3, vec![h as u32]), (258, 3, vec![bits as u32; n]), (259, 3, vec![1]), (262, 3, vec![photo as u32]),
        (273, 4, at), (277, 3, vec![n as u32]), (278, 3, vec![if planar { h } else { per } as u32]), (279, 4, lens),
    ];
    if planar { tags.push((284, 3, vec![2])) }
    if n == 2 || (n == 4 && photo == 2) { tags.push((338, 3, vec![2])) }
    let mut body = vec![];
    let mut extra_at = vec![];
    for (_, ty, v) in &tags {
        let b: Vec<u8> = v.iter().flat_map(|x| if *ty == 3 { u16b(*x as u16).to_vec() } else { u32b(*x).to_vec() }).collect();
        if b.len() > 4 { extra_at.push(Some(o.len() as u32)); o.extend(&b); if o.len() % 2 == 1 { o.push(0) } } else { extra_at.push(None) }
        body.push(b);
    }
    let ifd = o.len() as u32;
    o[4..8].copy_from_slice(&u32b(ifd));
    o.extend(u16b(tags.len() as u16));
    for (i, (t, ty, v)) in tags.iter().enumerate() {
        o.extend(u16b(*t));
        o.extend(u16b(*ty));
        o.extend(u32b(v.len() as u32));
        match extra_at[i] { Some(p) => o.extend(u32b(p)), None => { let mut b = body[i].clone(); b.resize(4, 0); o.extend(b) } }
    }
    o.extend([0; 4]);
    o
}

pub const EXTENSIONS: &[&str] = &["jxl", "tif", "tiff", "png"];
/// Write a file of a kind; the record of it.
fn make(r: &mut Rng, dir: &Path, stem: &str, ext: &str, kind: &str, w: usize, h: usize, colours: &[[u8; 4]]) -> Value {
    let n = match kind { "grey" | "palette" => 1, "greya" => 2, "rgb" | "planar" | "deep" => 3, _ => 4 };
    let bits = if kind == "deep" { 2 } else { 1 };
    let mut s = vec![];
    for _ in 0..w * h {
        let c = if r.chance(2, 3) { *r.pick(colours) } else { [r.next() as u8, r.next() as u8, r.next() as u8, r.next() as u8] };
        match n { 1 => s.push(c[0]), 2 => s.extend([c[0], c[3]]), 3 => s.extend(&c[..3]), _ => s.extend(c) }
    }
    if bits == 2 { s = s.iter().flat_map(|b| [*b, *b]).collect() }
    let is_png = ext.eq_ignore_ascii_case("png");
    let mut data = if ext.eq_ignore_ascii_case("jxl") { vec![0xFF, 0x0A, 1, 2, 3] }
        else if is_png && kind == "huge" { png(0x7FFF_FFF0, 0, 4, 8, false, &[]) }
        else if is_png && kind == "foreign" { tiff(w, h, 4, 8, 2, false, false, h, &s) }
        else if is_png { png(w, h, n, 8 * bits as u8, kind == "palette", &s) }
        else if kind == "foreign" { png(w, h, 4, 8, false, &s) }
        else { tiff(w, h, n, 8 * bits, match kind { "cmyk" => 5, "palette" => 3, _ => if n <= 2 { 1 } else { 2 } }, kind == "planar", r.chance(1, 2), 1 + r.below(h), &s) };
    match kind {
        "huge" if is_png => { // a header that promises far too much
            let mut head = vec![];
            head.extend(0x7FFF_FFF0u32.to_be_bytes());
            head.extend((if r.chance(1, 2) { 0x7FFF_FFF0u32 } else { 40 }).to_be_bytes());
            head.extend([8, 6, 0, 0, 0]);
            data = b"\x89PNG\r\n\x1a\n".to_vec();
            chunk(&mut data, b"IHDR", &head);
            chunk(&mut data, b"IDAT", &zlib(&[0; 30]));
            chunk(&mut data, b"IEND", &[]);
        }
        "cut" => { let l = if is_png { 8 + 25 + r.below(10) } else { r.below(data.len().saturating_sub(20)) }; data.truncate(l) }
        "garbage" => for b in data.iter_mut().take(8) { *b = r.next() as u8 },
        "empty" => data.clear(),
        _ => (),
    }
    std::fs::write(dir.join(format!("{stem}.{ext}")), &data).unwrap();
    json!({"kind": kind, "w": w, "h": h, "s": bytes(&s), "ext": ext, "name": format!("{stem}.{ext}"), "seq": -1, "idx": -1})
}

fn observe(out: &mut Out, dir: &Path, files: Vec<Value>, pad: Option<Vec<u8>>) {
    let mut rec = json!({"files": files, "haspad": pad.is_some(), "pad": bytes(&pad.clone().unwrap_or_default()), "ok": false, "again": false, "loaded": [], "order": []});
    if let Some(p) = &pad { std::fs::write(dir.join("padding.txt"), p).unwrap() }
    about_to(&rec);
    let g = guard(|| {
        let mut loaded = vec![];
        for f in &files {
            loaded.push(match load_image_from_path(dir.join(f["name"].as_str().unwrap())) {
                Ok(i) => json!({"ok": true, "pic": picture(&i)}),
                Err(_) => json!({"ok": false}),
            });
        }
        rec["loaded"] = Value::Array(loaded);
        let d = dir.to_path_buf();
        let mut order = vec![];
        for (p, q, i) in LooseColorPlateIterator::interate_on(&d).unwrap() {
            let name = p.file_name().unwrap().to_str().unwrap().to_string();
            let k = files.iter().position(|f| f["name"] == json!(name)).expect("an unknown file");
            assert!(files[k]["seq"] == json!(q) && files[k]["idx"] == json!(i), "numbers of {name}");
            order.push(k + 1);
        }
        rec["order"] = json!(order);
        if let Ok(p) = make_color_plate_from_loose(dir) {
            rec["ok"] = json!(true);
            rec["plate"] = picture(&p);
            let t = Image::from_tiff(&p.to_tiff()).unwrap();
            rec["again"] = json!(picture(&t) == picture(&p) && t.width == p.width);
        }
    });
    if let Err(e) = g { rec["crash"] = json!(e) }
    out.put(&rec);
}

const KINDS: &[&str] = &["grey", "greya", "rgb", "rgba"];
const BAD: &[&str] = &["deep", "palette", "cmyk", "planar", "cut", "garbage", "empty", "foreign", "huge"];
pub fn run(a: &Args) -> usize {
    let mut out = Out::new(&a.out);
    let mut r = Rng::new(a.seed);
    let base = a.scratch.join("plates");
    let dir = base.join("d");
    // every pattern of present files
    if a.has("all") {
        for bits in 0..512u32 {
            fresh_dir(&dir);
            let mut files = vec![];
            for k in 0..9 {
                if bits >> k & 1 == 0 { continue }
                let mut f = make(&mut r, &dir, &format!("s{}_{}", k / 3, k % 3), "png", "grey", 1, 1, &[[k as u8; 4]]);
                f["seq"] = json!(k / 3);
                f["idx"] = json!(k % 3);
                files.push(f);
            }
            observe(&mut out, &dir, files, None);
        }
        // every colour that would be tried first is in use
        for k in [0, 1, 2, 3, 5] {
            fresh_dir(&dir);
            let c: Vec<u32> = match k {
                0 => (0..255).chain([0xFF00FF]).collect(),
                1 => (0..256).chain([0xFF00FF]).collect(),
                2 => (0..255).chain([0xFFFFFF, 0xFF00FF]).collect(),
                3 => (0xFF0100..=0xFFFFFF).chain([0xFF]).collect(),
                _ => (0xFFFF00..=0xFFFFFF).chain([0xFF, 0xFF00FF, 0]).collect(),
            };
            let w = if c.len() > 1000 { 512 } else { 16 };
            let h = c.len().div_ceil(w);
            let mut s = vec![];
            for i in 0..w * h { s.extend(&c[i.min(c.len() - 1)].to_be_bytes()[1..]) }
            std::fs::write(dir.join("s0_0.png"), png(w, h, 3, 8, false, &s)).unwrap();
            let f = json!({"kind": "rgb", "w": w, "h": h, "s": bytes(&s), "ext": "png", "name": "s0_0.png", "seq": 0, "idx": 0});
            observe(&mut out, &dir, vec![f], if k == 2 || k == 5 { Some(b"#0000FE".to_vec()) } else { None });
        }
        fresh_dir(&base);
        assert!(LooseColorPlateIterator::interate_on(&dir).is_none() && make_color_plate_from_loose(&dir).is_err());
    }
    for n in 0..a.n {
        fresh_dir(&dir);
        // colours worth mixing: the standard ones, the first replacements, and a few more
        let mut colours: Vec<[u8; 4]> = vec![[1, 2, 3, 255], [0, 0, 254, 255], [254, 0, 255, 255]];
        let one = |r: &mut Rng, c: [u8; 3]| [c[0], c[1], c[2], *r.pick(&[255u8, 255, 0, 128])];
        for c in [[0, 0, 255], [255, 0, 255], [255, 255, 255], [0, 0, 0], [255, 255, 254], [0, 0, 1]] { if r.chance(1, 3) { let c = one(&mut r, c); colours.push(c) } }
        let mut files = vec![];
        let seqs = 1 + r.below(3);
        let big = 2 + r.below(8);
        let trouble = n % 4 == 0;
        for q in 0..seqs {
            for i in 0..1 + r.below(4) {
                let mut bad = trouble && r.chance(1, 4);
                let ext = if bad && r.chance(1, 5) { "jxl" } else { *r.pick(&EXTENSIONS[1..]) };
                let kind = if bad { *r.pick(BAD) } else { *r.pick(KINDS) };
                if kind == "cmyk" && ext == "png" || kind == "planar" && ext == "png" || kind == "huge" && ext != "png" { bad = false }
                let kind = if bad { kind } else if ext == "jxl" { "garbage" } else { *r.pick(KINDS) };
                let (w, h) = (1 + r.below(big), 1 + r.below(big));
                let mut f = make(&mut r, &dir, &format!("s{q}_{i}"), ext, kind, w, h, &colours);
                f["seq"] = json!(q);
                f["idx"] = json!(i);
                files.push(f);
                if r.chance(1, 12) {
                    // the same place again, as another kind of file
                    let other = *EXTENSIONS[1..].iter().find(|e| **e != ext).unwrap();
                    let kind = *r.pick(KINDS); let mut f = make(&mut r, &dir, &format!("s{q}_{i}"), other, kind, 2, 1, &colours);
                    f["seq"] = json!(q);
                    f["idx"] = json!(i);
                    files.push(f);
                }
            }
        }
        // files that are not of the plate
        if r.chance(1, 3) {
            for stem in ["s0", "s0_00", "S0_0", "image", "s9_0", "s0_9", "s00_0"] {
                if r.chance(1, 3) {
                    let ext = *r.pick(&["png", "TIF", "Png", "tiff"]);
                    let kind = *r.pick(KINDS); let mut f = make(&mut r, &dir, stem, ext, kind, 1, 1, &colours);
                    if stem == "s9_0" || stem == "s0_9" { if ext != "TIF" && ext != "Png" { f["seq"] = json!(if stem == "s9_0" { 9 } else { 0 }); f["idx"] = json!(if stem == "s9_0" { 0 } else { 9 }) } }
                    files.push(f);
                }
            }
        }
        let pad = match r.below(10) {
            8 => Some(r.pick(&["#FFF", "#000", "#FFFFFE", "#000001", "#F0F", "#00F"]).as_bytes().to_vec()),
            0 => Some(b"#0000FF".to_vec()), 1 => Some(b" #f0F\r\n".to_vec()),
            2 => { let c = r.pick(&colours); Some(format!("#{:02x}{:02X}{:02X}\n", c[0], c[1], c[2]).into_bytes()) }
            3 => Some(format!("#{:06X}", r.below(1 << 24)).into_bytes()),
            4 if trouble => Some(r.pick(&[&b""[..], b"  \n", b"#", b"#12", b"#1234", b"#GGGGGG", b"FF00FF", b"#0000F", b"#\xc3\xa9\xc3\xa9\xc3\xa9", b"\xc3\xa9#000", b"\xff#000", b"#\xe2\x82\xac", b"#00 00F", b"##0000F", b"#+12", b"#0000FF #", b"#-1-1-1", b"##00", b"#\xc3\xa9a", b"\xe2\x82\xac123"]).to_vec()),
            _ => None,
        };
        observe(&mut out, &dir, files, pad);
    }
    let _ = std::fs::remove_dir_all(&base);
    out.finish()
}
