use crate::groups::new_tag;
use crate::util::*;
use crate::value::*;
use ringhopper::definitions::read_any_tag_from_file_buffer;
use ringhopper::primitives::primitive::*;
use ringhopper::primitives::tag::*;
use serde_json::{json, Value};

pub fn random_tag(r: &mut Rng, g: &str, max_items: usize, budget: usize) -> Box<dyn PrimaryTagStructDyn> {
    let mut t = new_tag(g);
    let mut o = Fill { max_items, budget, paths: vec![] };
    fill_struct(r, &mut o, group_struct(g), t.as_mut_dynamic());
    t
}
/// The same value as the tree says it is after everything that is not stored is forgotten.
pub fn dump_tag(t: &dyn PrimaryTagStructDyn) -> Value {
    dump_struct(group_struct(t.group().as_str()), t.as_dynamic())
}

pub fn run(a: &Args) -> usize {
    let mut out = Out::new(&a.out);
    let mut r = Rng::new(a.seed);
    for round in 0..a.n {
        for g in groups() {
            let (items, budget) = match round % 3 { 0 => (1, 1500), 1 => (3, 2500), _ => (2, 6000) };
            let mut t = random_tag(&mut r, &g, items, budget);
            if round == 0 && r.chance(1, 4) { t = new_tag(&g) }
            if round == 0 && g == "bitmap" { t = big_tag(&mut r) }
            let v = dump_tag(t.as_ref());
            let mut rec = json!({"group": g, "v": v});
            match guard(|| {
                let file = t.to_tag_file().map_err(|e| e.to_string())?;
                let w = read_any_tag_from_file_buffer(&file, ParseStrictness::Strict).map_err(|e| e.to_string())?;
                let file2 = w.to_tag_file().map_err(|e| e.to_string())?;
                Ok::<_, String>((file, w, file2))
            }) {
                Ok(Ok((file, w, file2))) => {
                    rec["file"] = bytes(&file);
                    rec["w"] = dump_tag(w.as_ref());
                    rec["rg"] = json!(w.group().as_str());
                    rec["same"] = json!(file == file2);
                }
                Ok(Err(e)) => rec["crash"] = json!(e),
                Err(e) => rec["crash"] = json!(e),
            }
            out.put(&rec);
        }
    }
    out.finish()
}

/// A tag of more than 64 KiB.
fn big_tag(r: &mut Rng) -> Box<dyn PrimaryTagStructDyn> {
    let mut b = ringhopper::definitions::Bitmap::default();
    b.processed_pixel_data.bytes = (0..66_000 + r.below(8000)).map(|_| r.next() as u8).collect();
    Box::new(b)
}
// ------------------------------------------------------------------ C12
fn crc(data: &[u8]) -> u32 {
    let mut c = u32::MAX;
    for &b in data {
        c ^= b as u32;
        for _ in 0..8 { c = if c & 1 == 1 { (c >> 1) ^ 0xEDB88320 } else { c >> 1 } }
    }
    c
}
pub fn fix_crc(f: &mut [u8]) {
    if f.len() >= 64 {
        let c = crc(&f[64..]);
        f[0x28..0x2C].copy_from_slice(&c.to_be_bytes());
    }
}

/// Offsets (in the body) of the 32-bit lengths of a structure's own blocks, references and data.
fn length_fields(s: &str, base: usize, o: &mut Vec<usize>) {
    let mut at = base;
    for f in fields(s) {
        let cnt = f["cnt"].as_u64().unwrap() as usize;
        let one = field_size(f);
        for i in 0..cnt {
            let p = at + i * one;
            match f["k"].as_str().unwrap() {
                "refl" | "data" => o.push(p),
                "ref" => o.push(p + 8),
                "struct" => length_fields(f["s"].as_str().unwrap(), p, o),
                _ => (),
            }
        }
        at += one * cnt;
    }
}
fn field_size(f: &Value) -> usize {
    let l = layout();
    match f["k"].as_str().unwrap() {
        "prim" | "pad" => f["w"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).sum(),
        "enum" => 2,
        "bits" => l["bitfields"][f["s"].as_str().unwrap()]["bytes"].as_u64().unwrap() as usize,
        "struct" => l["structs"][f["s"].as_str().unwrap()]["size"].as_u64().unwrap() as usize,
        "refl" => 12,
        "ref" => 16,
        "group" => 4,
        "data" => 20,
        _ => 32,
    }
}

pub fn mutate(r: &mut Rng, g: &str, file: &mut Vec<u8>) {
    let mut lens = vec![];
    length_fields(group_struct(g), 64, &mut lens);
    let mut recrc = true;
    for _ in 0..1 + r.below(3) {
        match r.below(13) {
            12 => { // the end of a text moves
                let ends: Vec<usize> = (65..file.len()).filter(|k| file[*k] == 0 && file[*k - 1].is_ascii_alphanumeric()).collect();
                if !ends.is_empty() { let k = *r.pick(&ends); file[k] = b'x'; if r.chance(3, 4) { file[k - 1] = 0 } }
            }
            0 => { let k = r.below(file.len() + 1); file.truncate(k) }
            1 => { let k = 64.min(file.len()) + r.below(file.len().saturating_sub(64) + 1); file.truncate(k) }
            2 => for _ in 0..1 + r.below(8) { file.push(r.next() as u8) },
            3 => if file.len() >= 64 { let k = r.below(64); file[k] = if r.chance(1, 2) { 0xFF } else { r.next() as u8 }; if (0x28..0x2C).contains(&k) { recrc = false } },
            4 | 5 if !lens.is_empty() => {
                let p = *r.pick(&lens);
                if p + 4 <= file.len() {
                    let old = u32::from_be_bytes(file[p..p + 4].try_into().unwrap());
                    let new = match r.below(8) { 0 => u32::MAX, 1 => 0x7FFF_FFFF, 2 => 0x00FF_FFFF, 3 => old.wrapping_add(1), 4 => old.wrapping_sub(1), 5 => 0, 6 => r.below(5) as u32, _ => (1u32 << r.below(32)) };
                    file[p..p + 4].copy_from_slice(&new.to_be_bytes());
                }
            }
            6 => { // one 32-bit word anywhere becomes a large or small number
                if file.len() > 72 {
                    let p = 64 + 4 * r.below((file.len() - 68) / 4);
                    let new = *r.pick(&[u32::MAX, 0x7FFF_FFFF, 0x8000_0000, 1, 2, 0, 0x00FF_FFFF, 65536]);
                    file[p..p + 4].copy_from_slice(&new.to_be_bytes());
                }
            }
            7 | 8 => for _ in 0..1 + r.below(4) { if file.len() > 64 { let k = 64 + r.below(file.len() - 64); file[k] = *r.pick(&[0, 0xFF, 0x80, 1, b'a', 0xC3, 0xED]) } },
            9 => if file.len() > 66 { let k = 64 + r.below(file.len() - 64); let n = 1 + r.below((file.len() - k).min(20)); file.drain(k..k + n); },
            10 => for _ in 0..12 { if file.len() > 64 { let k = 64 + r.below(file.len() - 64); file[k] = r.next() as u8 } },
            _ => recrc = false,
        }
    }
    match r.below(12) {
        0 => if file.len() >= 64 { file[0x28..0x2C].fill(0xFF) },
        1 => (),
        _ => if recrc { fix_crc(file) },
    }
}

pub fn run12(a: &Args) -> usize {
    let mut out = Out::new(&a.out);
    let mut r = Rng::new(a.seed ^ 0xC12);
    let gs = groups();
    let known = all_groups();
    for i in 0..a.n {
        let g = gs[i % gs.len()].clone();
        let t = random_tag(&mut r, &g, 2, 1200);
        let mut file = match guard(|| t.to_tag_file()) { Ok(Ok(f)) => f, _ => continue };
        if g == "bitmap" && i < 4 * gs.len() { file = big_tag(&mut r).to_tag_file().unwrap(); let n = file.len(); file[n - 1 - r.below(100)] ^= 4; }
        else { match r.below(40) {
            0 => { file = (0..r.below(200)).map(|_| r.next() as u8).collect() }
            1 => { // a header of any group, followed by anything
                let (_, c) = r.pick(&known).clone();
                file[0x24..0x28].copy_from_slice(&c.to_be_bytes());
                if r.chance(1, 2) { fix_crc(&mut file) }
            }
            2 => { let k = r.below(32); file[0x24 + k / 8] ^= 1 << (k % 8); }
            3 => { let k = [0x2F, 0x38, 0x39, 0x3A, 0x3B, 0x3C, 0x3D, 0x3E, 0x3F, 0x2C][r.below(10)]; file[k] ^= 1 << r.below(8); }
            4 => { for b in file[..0x24].iter_mut() { *b = r.next() as u8 } for b in file[0x30..0x38].iter_mut() { *b = r.next() as u8 } }
            _ => mutate(&mut r, &g, &mut file),
        } }
        let relaxed = r.chance(1, 3) && !(g == "bitmap" && i < 4 * gs.len());
        let strictness = if relaxed { ParseStrictness::Relaxed } else { ParseStrictness::Strict };
        about_to(&json!({"group": g, "relaxed": relaxed, "file": bytes(&file)}));
        let (res, peak) = with_peak(|| guard_ms(20_000, || read_any_tag_from_file_buffer(&file, strictness)));
        let mut rec = json!({"file": bytes(&file), "relaxed": relaxed, "peak_kb": peak / 1024, "ok": false});
        match res {
            Err(e) => rec["crash"] = json!(e),
            Ok(Err(_)) => (),
            Ok(Ok(t)) => {
                rec["ok"] = json!(true);
                rec["rg"] = json!(t.group().as_str());
                match guard(|| dump_tag(t.as_ref())) { Ok(v) => rec["w"] = v, Err(e) => rec["crash"] = json!(e) }
            }
        }
        out.put(&rec);
    }
    out.finish()
}
