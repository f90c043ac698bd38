//! Values packed into a fixed number of bits.
use crate::util::*;
use ringhopper::primitives::byteorder::{BigEndian, LittleEndian};
use ringhopper::primitives::parse::*;
use ringhopper::primitives::primitive::*;
use serde_json::{json, Value};

fn half(v: u32) -> Value { json!([v >> 16, v & 0xFFFF]) }
fn opt(v: Option<u16>) -> i32 { v.map(|v| v as i32).unwrap_or(-1) }
fn each<T>(out: &mut Out, op: &str, extra: Value, it: impl Iterator<Item = T>, mut f: impl FnMut(T) -> Value) {
    let it: Vec<T> = it.collect();
    let mut it = it.into_iter().peekable();
    while it.peek().is_some() {
        let mut rec = json!({"op": op});
        for (k, v) in extra.as_object().unwrap() { rec[k] = v.clone() }
        let mut list = vec![];
        while let Some(x) = it.next() {
            match guard(|| f(x)) { Ok(v) => list.push(v), Err(e) => { rec["crash"] = json!(e); break } }
            if list.len() == 256 { break }
        }
        rec["list"] = json!(list);
        out.put(&rec);
    }
}
/// Numbers that are likely to matter, and others.
fn words(r: &mut Rng, n: usize) -> Vec<u32> {
    let mut v = vec![0, 1, 2, 0x7F, 0x80, 0xFF, 0x100, 0x7FFE, 0x7FFF, 0x8000, 0x8001, 0xFFFE, 0xFFFF, 0x10000, 0x7FFF_FFFF, 0x8000_0000, 0x8000_0001, 0xFFFE_FFFF, 0xFFFF_0000, 0xFFFF_7FFF, 0xFFFF_FFFE, 0xFFFF_FFFF, 0x7FFF_8000, 0xECEC_0000, 0xE174_0000];
    for i in 0..32 { v.push(1 << i); v.push(!(1u32 << i)); v.push((1u64 << (i + 1)) as u32 - (i < 31) as u32) }
    while v.len() < n { v.push(r.next() as u32); let x = r.next() as u32; v.push(x & 0xFFFF); v.push(x | 0xFFFF); v.push(x << 16) }
    v
}
enum Kind { Float, V2x, V2y, V3x, V3y, V3z }
use Kind::*;
fn bits(k: &Kind) -> u32 { match k { Float | V2x | V2y => 16, V3x | V3y => 11, V3z => 10 } }
fn dec(k: &Kind, c: u32, other: u32) -> f64 {
    match k {
        Float => f64::from(CompressedFloat { data: c as u16 }),
        V2x => Vector2D::from(CompressedVector2D { data: c | (other << 16) }).x,
        V2y => Vector2D::from(CompressedVector2D { data: (other & 0xFFFF) | (c << 16) }).y,
        V3x => Vector3D::from(CompressedVector3D { data: c | (other << 11) }).x,
        V3y => Vector3D::from(CompressedVector3D { data: (c << 11) | (other & 0x7FF) | (other & 0xFFC0_0000) }).y,
        V3z => Vector3D::from(CompressedVector3D { data: (c << 22) | (other & 0x3F_FFFF) }).z,
    }
}
fn enc(k: &Kind, v: f64, o: (f64, f64)) -> u32 {
    match k {
        Float => CompressedFloat::from(v).data as u32,
        V2x => CompressedVector2D::from(Vector2D { x: v, y: o.0 }).data & 0xFFFF,
        V2y => CompressedVector2D::from(Vector2D { x: o.0, y: v }).data >> 16,
        V3x => CompressedVector3D::from(Vector3D { x: v, y: o.0, z: o.1 }).data & 0x7FF,
        V3y => (CompressedVector3D::from(Vector3D { x: o.0, y: v, z: o.1 }).data >> 11) & 0x7FF,
        V3z => CompressedVector3D::from(Vector3D { x: o.0, y: o.1, z: v }).data >> 22,
    }
}
fn sized<T: SimpleTagData + PartialEq + Sized + 'static>(out: &mut Out, r: &mut Rng, name: &str) where [T; 3]: TagData {
    let mut rec = json!({"op": "size", "type": name});
    let g = guard(|| {
        let (n, m) = (<T as TagData>::size(), <[T; 3] as TagData>::size());
        let mut same = true;
        let mut short = true;
        for i in 0..60 {
            let mut b: Vec<u8> = (0..n * 3).map(|_| r.next() as u8).collect();
            // leave out what cannot be read, and numbers that are not numbers
            if i % 3 == 0 { for x in &mut b { *x &= 0x3F } }
            let Ok(v) = <[T; 3] as TagData>::read_from_tag_file(&b, 0, b.len(), &mut 0) else { continue };
            let nan = v.iter().any(|x| *x != *x);
            let mut w = vec![0; n * 3];
            v.write_to_tag_file(&mut w, 0, n * 3).unwrap();
            let again = <[T; 3] as TagData>::read_from_tag_file(&w, 0, w.len(), &mut 0).unwrap();
            same &= nan || v == again;
            for k in 0..3 {
                // by itself, at the very end of the data, little endian and big endian
                let one = T::read::<BigEndian>(&b[..n * (k + 1)], n * k, n * (k + 1)).unwrap();
                same &= nan || one == v[k];
                let mut l = vec![0; n];
                if one.write::<LittleEndian>(&mut l, 0, n).is_ok() { same &= nan || T::read::<LittleEndian>(&l, 0, n).is_ok_and(|x| x == one) }
                // and one byte less is not enough
                short &= T::read::<BigEndian>(&b[..n * (k + 1) - 1], n * k, n * (k + 1)).is_err();
            }
        }
        (n, m, same, short)
    });
    match g {
        Ok((n, m, same, short)) => { rec["size"] = json!(n); rec["array"] = json!(m); rec["same"] = json!(same); rec["short"] = json!(short) }
        Err(e) => rec["crash"] = json!(e),
    }
    out.put(&rec);
}
pub fn run(a: &Args) -> usize {
    let mut out = Out::new(&a.out);
    let mut r = Rng::new(a.seed);
    let n = a.n;
    let ids = words(&mut r, n);
    each(&mut out, "id", json!({}), ids.iter(), |v| {
        let id = ID::from_u32(*v);
        // nothing else looks like these when rebuilt
        let rebuilt = if id.is_valid() { ID::new(id.index(), id.salt().unwrap_or(0)) } else { id };
        json!({"id": half(*v), "index": opt(id.index()), "salt": opt(id.salt()), "null": id.is_null(), "valid": id.is_valid(), "checked": ID::from_u32_checked(*v).is_ok_and(|i| i == id),
            "back": half(id.as_u32()), "rebuilt": half(rebuilt.as_u32())})
    });
    let pairs: Vec<(Option<u16>, u16)> = (0..n).map(|i| (if i % 50 == 0 { None } else { Some(*r.pick(&ids) as u16) }, *r.pick(&ids) as u16)).filter(|(i, s)| *i != Some(0xFFFF) || s & 0x7FFF != 0).collect();
    each(&mut out, "made", json!({}), pairs.iter(), |(i, s)| json!({"index": opt(*i), "salt": s, "id": half(ID::new(*i, *s).as_u32())}));
    // every 16-bit index
    each(&mut out, "index", json!({}), 0..=0xFFFFu16, |v| json!({"n": v, "read": opt(Index::read::<BigEndian>(&v.to_be_bytes(), 0, 2).unwrap())}));
    each(&mut out, "stored", json!({}), (-1..=0xFFFFi32).filter(|v| *v < 300 || *v > 0xFF00 || v % 17 == 0), |v| {
        let mut b = [0; 2];
        let ok = (if v < 0 { None } else { Some(v as u16) }).write::<LittleEndian>(&mut b, 0, 2).is_ok();
        json!({"v": v, "ok": ok, "n": u16::from_le_bytes(b)})
    });
    for k in [Float, V2x, V2y, V3x, V3y, V3z] {
        let b = bits(&k);
        let (top, others) = (1u32 << (b - 1), [0u32, 0xFFFF_FFFF, 0xAAAA_AAAA, 0x5555_5555]);
        // every code there is
        each(&mut out, "code", json!({"bits": b}), 0..1u32 << b, |c| {
            let v = dec(&k, c, others[c as usize % 4]);
            let m = if c >= top { top } else { top - 1 };
            let q = (v * m as f64).round();
            json!({"c": c, "v": [q as i64, m], "exact": q / m as f64 == v, "again": enc(&k, v, (1.0, -1.0))})
        });
        let d = 1i64 << 14;
        let nums: Vec<(i64, i64)> = (0..n).map(|i| match i % 4 { 0 => (r.range(-d - 40, d + 40), d), 1 => (r.range(-2000, 2000), 1000), 2 => (r.range(-300, 300), 1 + r.range(0, 200)), _ => { let m = (top - 1).min(8191) as i64; (2 * r.range(-m, m) + 1, 2 * m) } }).collect();
        each(&mut out, "num", json!({"bits": b}), nums.iter(), |(n, d)| json!({"kind": "num", "n": n, "d": d, "c": enc(&k, *n as f64 / *d as f64, [(0.0, 0.0), (1.0, -1.0), (-0.5, 2.0)][*n as usize % 3])}));
        let tiny: Vec<f64> = (b as i32 + 1..60).flat_map(|e| [2f64.powi(-e), -2f64.powi(-e), -1.5 * 2f64.powi(-e - 1)]).chain([0.0, -0.0, f64::MIN_POSITIVE, -f64::MIN_POSITIVE]).collect();
        each(&mut out, "num", json!({"bits": b}), tiny.iter(), |v| json!({"kind": "tiny", "n": 0, "d": 1, "c": enc(&k, *v, (0.0, 0.0))}));
        each(&mut out, "num", json!({"bits": b}), [1.0, 1.0000001, 2.0, 1e9, f64::MAX, f64::INFINITY].into_iter().flat_map(|v| [v, -v]), |v| json!({"kind": "huge", "n": v.signum() as i64, "d": 1, "c": enc(&k, v, (0.0, 0.0))}));
    }
    let mut colours = ids.clone();
    for i in 0..256u32 { colours.push(i * 0x01010101); colours.push(i << 24 | (255 - i) << 16 | (i ^ 85) << 8 | (i * 7 & 255)) }
    each(&mut out, "colour", json!({}), colours.iter(), |v| {
        let c = ColorARGBInt { color: *v };
        let b = ColorARGBIntBytes::from(c);
        let f = ColorARGBFloat { alpha: c.alpha_float(), red: c.rgb_float().red, green: c.rgb_float().green, blue: c.rgb_float().blue };
        json!({"v": half(*v), "bytes": [b.alpha, b.red, b.green, b.blue], "back": half(ColorARGBInt::from(b).into()), "viafloat": half(ColorARGBInt::from_argb_float(&f).into()),
            "opaque": half(ColorARGBInt::from_y8(*v as u8).into()), "mono": half(ColorARGBInt::from_a8y8(*v as u16).into())})
    });
    each(&mut out, "node", json!({}), ids.iter(), |v| {
        let x = ScenarioScriptNodeValue { data: *v };
        let (a, b, c, d, e, f) = (i8::from(x), i16::from(x), i32::from(x), f32::from(x), ID::from(x), bool::from(x));
        let s = |y: ScenarioScriptNodeValue| y;
        json!({"v": half(*v), "i8": a, "i16": b, "i32": half(c as u32), "f32": half(d.to_bits()), "id": half(e.as_u32()), "bool": f,
            "i8back": i8::from(s(a.into())), "i16back": i16::from(s(b.into())), "i32back": half(i32::from(s(c.into())) as u32), "f32back": half(f32::from(s(d.into())).to_bits()), "idback": half(ID::from(s(e.into())).as_u32()), "boolback": bool::from(s(f.into()))})
    });
    let pads: Vec<(usize, usize)> = (0..n).map(|i| (if i % 3 == 0 { i / 3 } else { r.below(1 << 30) }, *r.pick(&[1, 2, 3, 4, 16, 100, 2048, 4096, 65536]))).collect();
    each(&mut out, "pad", json!({}), pads.iter(), |(n, m)| json!({"n": n, "a": m, "p": calculate_padding_for_alignment(*n, *m)}));
    // strings
    let chars = ["a", "Z", " ", "é", "日", "\u{10FFFF}", "\u{FFFD}", "_", "\t", "0"];
    for i in 0..n / 4 {
        let mut s = String::new();
        let len = if i % 3 == 0 { 26 + r.below(8) } else { r.below(40) };
        while s.len() < len { s += if r.chance(3, 4) { "x" } else { *r.pick(&chars) } }
        let mut rec = json!({"op": "text", "s": bytes(s.as_bytes())});
        match guard(|| String32::from_str(&s).map(|t| { let mut b = [0xFFu8; 32]; t.write::<BigEndian>(&mut b, 0, 32).unwrap(); (t.as_str().as_bytes().to_vec(), b) })) {
            Ok(Ok((t, b))) => { rec["ok"] = json!(true); rec["read"] = bytes(&t); rec["stored"] = bytes(&b) }
            Ok(Err(_)) => rec["ok"] = json!(false),
            Err(e) => rec["crash"] = json!(e),
        }
        out.put(&rec);
        let mut b = [0u8; 32];
        let src: Vec<u8> = s.bytes().chain((0..32).map(|_| if i % 2 == 0 { 0 } else { 65 })).collect();
        b.copy_from_slice(&src[..32]);
        for _ in 0..r.below(4) { b[r.below(32)] = *r.pick(&[0, 0x80, 0xFF, 0xC3, 0xE2, 0xF0, 0x41, 0xA0]) }
        let mut rec = json!({"op": "bytes", "b": bytes(&b)});
        match guard(|| { let t = String32::from_bytes_lossy(&b); let mut w = [0xFFu8; 32]; t.write::<BigEndian>(&mut w, 0, 32).unwrap(); (t.as_str().as_bytes().to_vec(), w) }) {
            Ok((t, w)) => { rec["read"] = bytes(&t); rec["stored"] = bytes(&w) }
            Err(e) => rec["crash"] = json!(e),
        }
        out.put(&rec);
    }
    macro_rules! sizes { ($($name:literal $t:ty),*) => { $(sized::<$t>(&mut out, &mut r, $name);)* } }
    sizes!("Bool" bool, "I8" i8, "U8" u8, "I16" i16, "U16" u16, "I32" i32, "U32" u32, "Float" f64, "Angle" Angle, "Index" Index, "ID" ID, "TagGroup" TagGroup, "Address" Address, "String32" String32,
        "Vector2D" Vector2D, "Vector3D" Vector3D, "Plane2D" Plane2D, "Plane3D" Plane3D, "Euler2D" Euler2D, "Euler3D" Euler3D, "Quaternion" Quaternion, "Matrix3x3" Matrix3x3, "Vector2DInt" Vector2DInt,
        "Rectangle" Rectangle, "CompressedVector3D" CompressedVector3D, "CompressedVector2D" CompressedVector2D, "CompressedFloat" CompressedFloat, "ColorRGBFloat" ColorRGBFloat, "ColorARGBFloat" ColorARGBFloat,
        "ColorARGBInt" ColorARGBInt, "ColorARGBIntBytes" ColorARGBIntBytes, "ScenarioScriptNodeValue" ScenarioScriptNodeValue);
    out.finish()
}
