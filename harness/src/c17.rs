//! Mipmap layout and swizzling.
use crate::util::*;
use ringhopper::definitions::*;
use ringhopper::primitives::dynamic::DynamicEnumImpl;
use ringhopper::primitives::primitive::*;
use ringhopper::tag::bitmap::*;
use serde_json::{json, Value};
use std::num::NonZeroUsize;

fn meta(m: MipmapMetadata) -> Value {
    json!({"mip": m.mipmap_index, "face": m.face_index, "w": m.width, "h": m.height, "d": m.depth, "off": m.block_offset, "bw": m.block_width, "bh": m.block_height, "n": m.block_count})
}
const FORMATS: &[(&str, BitmapDataFormat, BitmapFormat)] = &[
    ("dxt1", BitmapDataFormat::DXT1, BitmapFormat::DXT1), ("dxt3", BitmapDataFormat::DXT3, BitmapFormat::DXT3), ("dxt5", BitmapDataFormat::DXT5, BitmapFormat::DXT5), ("bc7", BitmapDataFormat::BC7, BitmapFormat::BC7),
    ("a8", BitmapDataFormat::A8, BitmapFormat::Monochrome), ("y8", BitmapDataFormat::Y8, BitmapFormat::Monochrome), ("ay8", BitmapDataFormat::AY8, BitmapFormat::Monochrome), ("a8y8", BitmapDataFormat::A8Y8, BitmapFormat::Monochrome),
    ("r5g6b5", BitmapDataFormat::R5G6B5, BitmapFormat::_16Bit), ("a1r5g5b5", BitmapDataFormat::A1R5G5B5, BitmapFormat::_16Bit), ("a4r4g4b4", BitmapDataFormat::A4R4G4B4, BitmapFormat::_16Bit),
    ("x8r8g8b8", BitmapDataFormat::X8R8G8B8, BitmapFormat::_32Bit), ("a8r8g8b8", BitmapDataFormat::A8R8G8B8, BitmapFormat::_32Bit), ("p8", BitmapDataFormat::P8, BitmapFormat::_32Bit),
];
const KINDS: &[&str] = &["2d", "3d", "cube"];
fn nz(x: usize) -> NonZeroUsize { NonZeroUsize::new(x).unwrap() }
fn mip_type(k: &str, d: usize) -> MipmapType { match k { "2d" => MipmapType::TwoDimensional, "3d" => MipmapType::ThreeDimensional(nz(d)), _ => MipmapType::Cubemap } }
fn data_type(k: &str) -> BitmapDataType { match k { "2d" => BitmapDataType::_2dTexture, "3d" => BitmapDataType::_3dTexture, _ => BitmapDataType::CubeMap } }
fn side(r: &mut Rng) -> usize { match r.below(5) { 0 => 1 << r.below(7), 1 => 1 + r.below(5), 2 => (1 << r.below(7)) + r.below(3), 3 => 1 + r.below(100), _ => 1 + r.below(20) } }

fn swiz<T: Swizzlable>(rec: &mut Value, data: &[T], w: usize, h: usize, d: usize, show: impl Fn(&T) -> Value) {
    let list = |v: &[T]| Value::Array(v.iter().map(&show).collect());
    let mut s = vec![T::default(); data.len()];
    let mut t = vec![T::default(); data.len()];
    let mut b = vec![T::default(); data.len()];
    rec["data"] = list(data);
    let g = guard(|| {
        let x = swizzle(data, &mut s, w, h, d, false);
        let y = swizzle(data, &mut t, w, h, d, true);
        if x.is_err() || y.is_err() { return x.is_err() != y.is_err() }
        swizzle(&s, &mut b, w, h, d, true).unwrap();
        rec["swizzled"] = list(&s);
        rec["deswizzled"] = list(&t);
        rec["back"] = list(&b);
        false
    });
    match g {
        Err(e) => rec["crash"] = json!(e),
        Ok(true) => rec["out"] = json!("only one way"),
        Ok(false) => rec["out"] = json!(if rec.get("back").is_some() { "ok" } else { "error" }),
    }
}

pub fn run(a: &Args) -> usize {
    let mut out = Out::new(&a.out);
    let mut r = Rng::new(a.seed);
    for (n, f, _) in FORMATS {
        out.put(&json!({"op": "format", "f": n, "side": pixels_per_block_length(*f).get(), "bits": bits_per_pixel(*f).get(), "bytes": bytes_per_block(*f).get()}));
        assert_eq!(BitmapDataFormat::from_str(&f.to_str()).unwrap(), *f);
    }
    // small ones, all of them
    let mut shapes = vec![];
    for w in 1..=9 { for h in 1..=9 { for k in KINDS { for d in if *k == "3d" { 1..=5 } else { 1..=1 } { shapes.push((w, h, d, *k)) } } } }
    r.shuffle(&mut shapes);
    shapes.truncate(a.n);
    for _ in 0..a.n { shapes.push((side(&mut r), side(&mut r), 1 + r.below(9), *r.pick(KINDS))) }
    for (w, h, d, k) in shapes {
        let bl = *r.pick(&[1usize, 4]);
        let count: i64 = if r.chance(1, 2) { -1 } else { r.below(9) as i64 };
        let mut rec = json!({"op": "mips", "w": w, "h": h, "d": d, "kind": k, "bl": bl, "count": count});
        about_to(&rec);
        let c = (count >= 0).then_some(count as usize);
        match guard(|| (MipmapFaceIterator::new(nz(w), nz(h), mip_type(k, d), nz(bl), c).map(meta).take(5000).collect::<Vec<_>>(), MipmapTextureIterator::new(nz(w), nz(h), mip_type(k, d), nz(bl), c).map(meta).take(5000).collect::<Vec<_>>())) {
            Ok((x, y)) => { rec["faces"] = json!(x); rec["texs"] = json!(y) }
            Err(e) => rec["crash"] = json!(e),
        }
        out.put(&rec);
    }
    for _ in 0..a.n {
        // large ones
        let (w, h, k) = (*r.pick(&[65535, 65536 / 2, 1, 4095, 2048, 1000]), *r.pick(&[1, 2, 37, 4096, 16384]), *r.pick(KINDS));
        let d = if w * h > 1 << 22 { 1 + r.below(12) } else { *r.pick(&[1, 2, 31, 128]) };
        let bl = if w * h > 1 << 26 { 4 } else { *r.pick(&[1usize, 4]) };
        if w * h / bl / bl * 8 / 3 * (if k == "cube" { 6 } else if k == "3d" { d } else { 1 }) > 1 << 30 { continue }
        let count: i64 = if r.chance(1, 2) { -1 } else { r.below(20) as i64 };
        let mut rec = json!({"op": "mips1", "w": w, "h": h, "d": d, "kind": k, "bl": bl, "count": count});
        about_to(&rec);
        let c = (count >= 0).then_some(count as usize);
        match guard(|| MipmapFaceIterator::new(nz(w), nz(h), mip_type(k, d), nz(bl), c).collect::<Vec<_>>()) {
            Ok(x) => { rec["mip"] = meta(*r.pick(&x)); rec["total"] = json!(x.iter().map(|m| m.block_count).sum::<usize>()) }
            Err(e) => rec["crash"] = json!(e),
        }
        out.put(&rec);
    }
    for _ in 0..a.n {
        // from descriptions
        let (f, k) = (r.pick(FORMATS), *r.pick(KINDS));
        let z = |r: &mut Rng, x: usize| if r.chance(1, 12) { 0 } else { x };
        let (w, h, d) = (side(&mut r), side(&mut r), 1 + r.below(8));
        let (w, h, d) = (z(&mut r, w), z(&mut r, h), z(&mut r, d));
        let count = if r.chance(1, 8) { 65535 } else { r.below(9) };
        let b = BitmapData { width: w as u16, height: h as u16, depth: d as u16, _type: data_type(k), format: f.1, mipmap_count: count as u16, ..Default::default() };
        let mut rec = json!({"op": "of", "w": w, "h": h, "d": d, "kind": k, "f": f.0, "count": count});
        about_to(&rec);
        match guard(|| (MipmapFaceIterator::new_from_bitmap_data(&b).map(|i| i.map(meta).take(5000).collect::<Vec<_>>()), MipmapTextureIterator::new_from_bitmap_data(&b).map(|i| i.map(meta).take(5000).collect::<Vec<_>>()))) {
            Ok((Ok(x), Ok(y))) => { rec["faces"] = json!(x); rec["texs"] = json!(y); rec["out"] = json!("ok") }
            Ok((Err(_), Err(_))) => rec["out"] = json!("error"),
            Ok(_) => rec["out"] = json!("only one"),
            Err(e) => rec["crash"] = json!(e),
        }
        out.put(&rec);
    }
    // swizzling
    let mut sizes = vec![];
    for w in 0..6 { for h in 0..6 { sizes.push((1usize << w, 1usize << h, 1usize)) } }
    for d in 1..5 { sizes.push((1 << d, 1 << d, 1 << d)) }
    for (w, h, d) in [(3, 4, 1), (4, 6, 1), (0, 4, 1), (4, 0, 1), (4, 4, 0), (4, 4, 3), (4, 4, 2), (2, 4, 4), (4, 2, 4), (8, 8, 4), (128, 2, 1), (2, 128, 1), (1, 256, 1), (256, 1, 1), (64, 64, 1), (128, 32, 1)] { sizes.push((w, h, d)) }
    for (i, (w, h, d)) in sizes.into_iter().enumerate() {
        let n = w * h * d;
        let mut rec = json!({"op": "swizzle", "w": w, "h": h, "d": d});
        about_to(&rec);
        match (i + a.seed as usize) % 3 {
            0 => swiz(&mut rec, &(0..n).map(|_| r.next() as u8).collect::<Vec<_>>(), w, h, d, |x| json!(x)),
            1 => swiz(&mut rec, &(0..n).map(|x| x as u16).collect::<Vec<_>>(), w, h, d, |x| json!(x)),
            _ => swiz(&mut rec, &(0..n).map(|x| ColorARGBInt { color: x as u32 }).collect::<Vec<_>>(), w, h, d, |x| json!(x.color)),
        }
        out.put(&rec);
    }
    // whether tags are found to hold what their descriptions say
    for _ in 0..a.n {
        let count = 1 + r.below(3);
        let enc = r.pick(FORMATS).2;
        let mut t = Bitmap::default();
        t.encoding_format = enc;
        t.flags.disable_height_map_compression = false;
        let mut bs = vec![];
        let mut offset = 0usize;
        for _ in 0..count {
            let f = *r.pick(&FORMATS.iter().filter(|f| f.2 == enc && f.0 != "p8").collect::<Vec<_>>());
            let k = *r.pick(KINDS);
            let z = |r: &mut Rng, x: usize| if r.chance(1, 25) { 0 } else { x };
            let (w, h, d) = (1 + r.below(33), 1 + r.below(33), 1 + r.below(6));
            let (w, h, d) = (z(&mut r, w), z(&mut r, h), z(&mut r, d));
            let m = r.below(8);
            let b = BitmapData { width: w as u16, height: h as u16, depth: d as u16, _type: data_type(k), format: f.1, mipmap_count: m as u16, pixel_data_offset: offset as u32, ..Default::default() };
            bs.push(json!({"w": w, "h": h, "d": d, "kind": k, "f": f.0, "count": m, "offset": offset}));
            if let Ok(i) = MipmapFaceIterator::new_from_bitmap_data(&b) { offset += i.map(|m| m.block_count).sum::<usize>() * bytes_per_block(f.1).get() }
            t.bitmap_data.items.push(b);
        }
        let len = match r.below(4) { 0 => offset.saturating_sub(1), 1 => r.below(offset + 2), _ => offset };
        t.processed_pixel_data.bytes = vec![0; len];
        let mut rec = json!({"op": "verify", "bitmaps": bs, "len": len});
        about_to(&rec);
        let p = TagPath::new("b", TagGroup::Bitmap).unwrap();
        match guard(|| crate::c08::verify_tags(vec![(p.clone(), Box::new(t))])) {
            Err(e) => rec["crash"] = json!(e),
            Ok(Err(e)) => rec["crash"] = json!(e),
            Ok(Ok(m)) => {
                let none = vec![];
                let errors = m.get(&p).map(|x| &x.errors).unwrap_or(&none);
                rec["flagged"] = json!((0..count).map(|i| errors.iter().any(|e| e.contains(&format!("itmap data #{i} ")) || e.contains(&format!("for bitmap #{i}:")))).collect::<Vec<_>>());
            }
        }
        out.put(&rec);
    }
    out.finish()
}
