//! Recovering what a tag was made from.
use crate::util::*;
use ringhopper::data::bitmap::Image;
use ringhopper::definitions::*;
use ringhopper::primitives::primitive::*;
use ringhopper::primitives::tag::PrimaryTagStructDyn;
use ringhopper::primitives::dynamic::DynamicEnumImpl;
use ringhopper::tag::recover::get_recover_function;
use serde_json::json;
use std::io::Write;

fn path(r: &mut Rng, g: &str) -> TagPath {
    let p = *r.pick(&["a", "levels/a10/a10", "x/y.z/w", "x.y/z", "some folder/some file", "scripts/scripts", "a/b.c.d"]);
    TagPath::from_path(&format!("{p}.{g}")).unwrap()
}
pub fn run(a: &Args) -> usize {
    let mut out = Out::new(&a.out);
    let mut r = Rng::new(a.seed);
    for g in crate::value::groups() {
        let can = get_recover_function(TagGroup::from_str(&g).unwrap()).is_some();
        out.put(&json!({"op": "groups", "g": g, "can": can}));
    }
    for _ in 0..a.n {
        let p = path(&mut r, "scenario");
        let mut s = Scenario::default();
        let mut files = vec![];
        let names = ["a", "b10", "global_scripts", "Global_Scripts", "the scripts", "x.y", "", "..", ".", "abc_def", "0123456789012345678901234567890"];
        let n = *r.pick(&[0, 1, 1, 2, 3, 4]);
        let odd = r.chance(1, 5);
        let mut rest: Vec<&str> = names.to_vec();
        for _ in 0..n {
            let k = r.below(rest.len());
            let name = if odd && r.chance(1, 2) { *r.pick(&["../a", "/a", "a/b", "../../../a", "a", "global_scripts", "a/", "b10"]) } else { rest.remove(k) };
            let mut src: Vec<u8> = (0..r.below(30)).map(|_| if r.chance(1, 15) { 0 } else { r.next() as u8 | 1 }).collect();
            if r.chance(1, 2) { src.push(0) }
            let mut f = ScenarioSourceFile::default();
            f.name = String32::from_str(name).unwrap();
            f.source.bytes = src.clone();
            s.source_files.items.push(f);
            files.push(json!({"name": bytes(name.as_bytes()), "src": bytes(&src)}));
        }
        let mut rec = json!({"op": "scripts", "path": bytes(p.to_native_path().as_bytes()), "files": files, "got": []});
        about_to(&rec);
        let t: Box<dyn PrimaryTagStructDyn> = Box::new(s);
        match guard(|| get_recover_function(TagGroup::Scenario).unwrap()(&p, &t)) {
            Err(e) => rec["crash"] = json!(e),
            Ok(Err(_)) => rec["out"] = json!("error"),
            Ok(Ok(None)) => rec["out"] = json!("none"),
            Ok(Ok(Some(m))) => {
                rec["out"] = json!("ok");
                rec["got"] = m.iter().map(|(k, v)| json!({"name": bytes(k.to_str().unwrap().as_bytes()), "data": bytes(v)})).collect();
            }
        }
        out.put(&rec);

        let p = path(&mut r, "bitmap");
        let mut b = Bitmap::default();
        let (mut w, mut h) = (1 + r.below(12), 1 + r.below(12));
        let mut raw: Vec<u8> = (0..w * h * 4).map(|_| r.next() as u8).collect();
        let mut head = raw.len() as u64;
        let mut damage = "none";
        let mut level = r.below(10) as u32;
        let mut short = None;
        match r.below(16) {
            0 => w = 0,
            1 => h = 0,
            2 => head = r.below(600) as u64,
            3 => { raw.truncate(r.below(raw.len())) }
            4 => { for _ in 0..1 + r.below(9) { raw.push(r.next() as u8) } }
            5 => { for _ in 0..1 + r.below(9) { raw.push(r.next() as u8) } head = raw.len() as u64 }
            6 => { raw.truncate(r.below(raw.len())); head = raw.len() as u64 }
            7 => { damage = "cut"; level = 0 }
            8 | 9 => damage = "noise",
            10 => short = Some(r.below(4)),
            11 => { w = *r.pick(&[65535, 65536 / 2, 40000]); h = *r.pick(&[65535, 65536 / 2, 40000]); head = (w * h * 4) as u64 % (1 << 32) }
            _ => (),
        }
        let mut z = flate2::write::ZlibEncoder::new(vec![], flate2::Compression::new(level));
        z.write_all(&raw).unwrap();
        let mut z = z.finish().unwrap();
        if damage == "cut" { z.truncate(r.below(z.len() - 6)) }
        if damage == "noise" { for _ in 0..1 + r.below(3) { let k = r.below(z.len()); z[k] = r.next() as u8 } }
        let mut data = (head as u32).to_be_bytes().to_vec();
        data.extend(z);
        if let Some(n) = short { data.truncate(n) }
        let len = data.len();
        b.color_plate.width = w as u16;
        b.color_plate.height = h as u16;
        b.color_plate.compressed_data.bytes = data;
        let head = if head < 1 << 31 { head as i64 } else { -1 };
        let mut rec = json!({"op": "plate", "path": bytes(p.to_native_path().as_bytes()), "w": w as u16, "h": h as u16, "len": len, "head": head, "raw": bytes(&raw), "damage": damage});
        about_to(&rec);
        let t: Box<dyn PrimaryTagStructDyn> = Box::new(b);
        match guard(|| get_recover_function(TagGroup::Bitmap).unwrap()(&p, &t)) {
            Err(e) => rec["crash"] = json!(e),
            Ok(Err(_)) => rec["out"] = json!("error"),
            Ok(Ok(None)) => rec["out"] = json!("none"),
            Ok(Ok(Some(m))) => {
                rec["out"] = json!("ok");
                assert_eq!(m.len(), 1);
                for (k, v) in m {
                    rec["name"] = bytes(k.to_str().unwrap().as_bytes());
                    rec["pic"] = crate::c18::picture(&Image::from_tiff(&v).unwrap());
                }
            }
        }
        out.put(&rec);
    }
    out.finish()
}
