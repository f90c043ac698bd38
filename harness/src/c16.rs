//! Decompiling scripts: node trees next to the source texts made of them.
use crate::util::*;
use crate::value::*;
use ringhopper::definitions::*;
use ringhopper::primitives::parse::SimpleTagData;
use ringhopper::primitives::primitive::*;
use ringhopper::tag::scenario::decompile_scripts;
use serde_json::{json, Value};
use std::collections::HashMap;

#[derive(Clone, Default)]
struct N { prim: bool, glob: bool, loc: bool, call: bool, ty: u16, next: i64, child: i64, off: u32, val: u32 }
enum Ast { Call(Vec<Ast>), Atom(N) }

fn rle(b: &[u8]) -> Value {
    let mut v: Vec<u64> = vec![];
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        let n = b[i..].iter().take_while(|x| **x == c).count();
        if n >= 4 && (c.is_ascii_lowercase() || c == b' ' || c == b'\n') { v.push(c as u64 + 256 * n as u64); i += n } else { v.push(c as u64); i += 1 }
    }
    json!(v)
}
fn types() -> Vec<String> { layout()["enums"]["ScenarioScriptValueType"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().replace('_', "_")).collect() }
const KINDS: &[&str] = &["startup", "dormant", "continuous", "static", "stub"];
const WORDS: &[&str] = &["begin", "if", "print", "sleep", "and", "player0", "ai_place", "begin", "set", "true", "none", "x", "unit", "levels\\a10\\a10", "global", "script", "static"];
struct G<'a> { r: &'a mut Rng, data: Vec<u8>, known: HashMap<Vec<u8>, u32>, odd: bool }
impl G<'_> {
    fn text(&mut self) -> Vec<u8> {
        let r = &mut *self.r;
        let mut v: Vec<u8> = match r.below(10) {
            0..=4 => r.pick(WORDS).as_bytes().to_vec(),
            5 => { let n = 1 + r.below(30); (0..n).map(|_| *r.pick(b"abcxyz01_:-.*") ).collect() }
            6 => r.pick(&["", "two words", "(", ")", "()", ";", "a;b", "a\tb", "a\nb", ";* *;", "*;", "\"", "a\"b", "\"quoted text\"", "a\\\"b", "x y\"z", " ", "tail ", "\u{b}", "#", "'", "\\\\", "semi;colon here"]).as_bytes().to_vec(),
            7 => r.pick(&["é", "né e", "漢字", "🙂 x", "a\u{a0}b", "\u{fffd}", "\u{3000}"]).as_bytes().to_vec(),
            8 => { let n = r.below(12); (0..n).map(|_| *r.pick(b"ab ();\"\\\t\n*c")).collect() }
            _ => { let mut v = vec![b'a']; for _ in 0..r.below(4) { v.push(*r.pick(&[0xFFu8, 0xC3, 0x80, b' ', b'q', 0xE6])) } v }
        };
        // a backslash before the closing quote cannot be told from an escaped quote
        if v.last() == Some(&b'\\') { v.push(b'z') }
        v
    }
    fn put(&mut self, t: &[u8]) -> u32 {
        if self.r.chance(3, 4) { if let Some(o) = self.known.get(t) { return *o } }
        let o = self.data.len() as u32;
        self.data.extend(t);
        self.data.push(0);
        self.known.insert(t.to_vec(), o);
        o
    }
    fn any(&mut self) -> u32 { let t = self.text(); self.put(&t) }
    fn name_node(&mut self) -> Ast {
        let off = if self.r.chance(2, 3) { let t = *self.r.pick(&WORDS[..8]); self.put(t.as_bytes()) } else { self.any() };
        let call = self.r.chance(1, 4);
        Ast::Atom(N { prim: true, ty: 2, off, call, next: -1, child: -1, val: self.r.next() as u32, ..N::default() })
    }
    fn atom(&mut self) -> Ast {
        let ty = if self.r.chance(2, 3) { 3 + self.r.below(7) } else { self.r.below(types().len()) } as u16;
        let val = match ty {
            5 => *self.r.pick(&[0u32, 1, 2, 0x100, 0xFF, 0xFFFF_FF00, 0x80]),
            6 => { let v = match self.r.below(4) { 0 => self.r.range(-80, 80) as f32 / 16.0, 1 => *self.r.pick(&[0.1f32, -0.0, 1e-7, 16777216.0, 3.0e10, 0.3333333, 1e20]), 2 => self.r.range(-9999, 9999) as f32 / 100.0, _ => f32::from_bits(self.r.next() as u32 & 0x4FFF_FFFF | 0x2000_0000) }; if v.is_finite() { v.to_bits() } else { 0 } }
            7 | 8 => match self.r.below(4) { 0 => *self.r.pick(&[0u32, 1, 0xFFFF, 0x7FFF, 0x8000, 0xFFFF_FFFF, 0x8000_0000, 0x7FFF_FFFF, 0x1_0000]), 1 => self.r.range(-2000, 2000) as u32, _ => self.r.next() as u32 },
            _ => self.r.next() as u32,
        };
        let glob = self.r.chance(1, 8);
        let loc = self.r.chance(1, 8);
        let plain = matches!(ty, 4..=8) && !glob && !loc;
        let off = if plain && self.odd { *self.r.pick(&[0u32, u32::MAX, 0x7FFF_FFFF, 5]) } else { self.any() };
        Ast::Atom(N { prim: true, glob, loc, ty, next: -1, child: -1, off, val, ..N::default() })
    }
    fn call(&mut self, depth: usize) -> Ast {
        let mut v = vec![if depth > 0 && self.r.chance(1, 25) { self.call(depth - 1) } else { self.name_node() }];
        for _ in 0..self.r.below(4) { let x = self.expr(depth); v.push(x) }
        Ast::Call(v)
    }
    fn expr(&mut self, depth: usize) -> Ast { if depth > 0 && self.r.chance(2, 5) { self.call(depth - 1) } else { self.atom() } }
    fn block(&mut self, depth: usize) -> Vec<Ast> { (0..1 + self.r.below(3)).map(|_| self.expr(depth)).collect() }
}
/// Puts a block into the table; the number of its first node.
fn flatten(b: Vec<Ast>, out: &mut Vec<N>) -> i64 {
    let mut first = -1i64;
    let mut prev: Option<usize> = None;
    for a in b {
        let at = out.len();
        match a {
            Ast::Atom(n) => out.push(n),
            Ast::Call(v) => { out.push(N { next: -1, ty: 4, ..N::default() }); let c = flatten(v, out); out[at].child = c }
        }
        if let Some(p) = prev { out[p].next = at as i64 } else { first = at as i64 }
        prev = Some(at);
    }
    first
}
fn id(r: &mut Rng, i: i64) -> u32 { if i < 0 { u32::MAX } else { (0x8000 | r.below(0x7000) as u32) << 16 | i as u32 & 0xFFFF } }
fn name(g: &mut G) -> String {
    if g.r.chance(1, 8) { let t = g.text(); let t = String::from_utf8_lossy(&t).to_string(); return if t.len() <= 31 { t } else { "n".into() } }
    format!("{}{}", g.r.pick(&["mission", "x", "go_", "music", "g"]), g.r.below(60))
}
fn source(f: &[ScenarioSourceFile]) -> Value { json!(f.iter().map(|f| json!({"name": bytes(f.name.as_str().as_bytes()), "text": rle(&f.source.bytes)})).collect::<Vec<_>>()) }

pub fn run(a: &Args) -> usize {
    let mut out = Out::new(&a.out);
    let mut r = Rng::new(a.seed);
    let names = types();
    for k in 0..a.n {
        let pages = k % 40 == 7;
        let deep = k % 40 == 19;
        let mut rr = Rng::new(r.next());
        let mut g = G { r: &mut rr, data: vec![], known: Default::default(), odd: true };
        let mut nodes: Vec<N> = vec![];
        let mut s = Scenario::default();
        let (mut gl, mut sc) = (vec![], vec![]);
        let (ng, ns) = if pages { (g.r.below(4), 1 + g.r.below(5)) } else { (g.r.below(3), g.r.below(4)) };
        let huge = pages && g.r.chance(1, 4);
        let body = |g: &mut G, nodes: &mut Vec<N>| {
            if pages {
                let n = if huge { 524_100 + g.r.below(400) } else { *g.r.pick(&[100usize, 60_000, 200_000, 300_000, 524_200, 600_000]) };
                let t: Vec<u8> = vec![*g.r.pick(b"xyz"); n];
                let off = g.put(&t);
                let n = g.name_node();
                return flatten(vec![Ast::Call(vec![n, Ast::Atom(N { prim: true, ty: 9, next: -1, child: -1, off, ..N::default() })])], nodes)
            }
            if deep && nodes.is_empty() {
                let n = *g.r.pick(&[40usize, 200, 511, 512, 513, 514]);
                let mut x = g.atom();
                for _ in 0..n { let f = g.name_node(); x = Ast::Call(if g.r.chance(1, 30) { let y = g.atom(); vec![f, x, y] } else { vec![f, x] }) }
                return flatten(vec![x], nodes)
            }
            let d = g.r.below(4);
            let b = g.block(d);
            flatten(b, nodes)
        };
        let ng = if huge { 11 } else { ng };
        for i in 0..ng { let n = if huge { format!("g{i}") } else { name(&mut g) }; let root = body(&mut g, &mut nodes); gl.push((n, g.r.below(names.len()), root)) }
        for _ in 0..ns {
            let n = name(&mut g);
            let root = body(&mut g, &mut nodes);
            let params: Vec<(String, usize)> = if g.r.chance(1, 4) { (0..1 + g.r.below(3)).map(|_| (name(&mut g), g.r.below(names.len()))).collect() } else { vec![] };
            sc.push((n, g.r.below(5), g.r.below(names.len()), params, root));
        }
        if g.r.chance(9, 10) { let mut seen = std::collections::HashSet::new(); gl.retain(|x| seen.insert(x.0.clone())); let mut seen = std::collections::HashSet::new(); sc.retain(|x| seen.insert(x.0.clone())) }
        // in any order
        let n = nodes.len();
        let spare = g.r.below(3);
        let mut place: Vec<usize> = (0..n + spare).collect();
        if g.r.chance(2, 3) { g.r.shuffle(&mut place) }
        let mut table: Vec<N> = (0..n + spare).map(|_| N { next: -1, child: -1, prim: g.r.chance(1, 2), ..N::default() }).collect();
        let to = |i: i64| if i < 0 { i } else { place[i as usize] as i64 };
        for (i, x) in nodes.iter().enumerate() { table[place[i]] = N { next: to(x.next), child: to(x.child), ..x.clone() } }
        for x in &mut gl { x.2 = to(x.2) }
        for x in &mut sc { x.4 = to(x.4) }
        // damage
        let (mut size, mut max, mut count, mut cut) = (20u16, table.len() + g.r.below(4), table.len(), 0i64);
        let damage = if g.r.chance(1, 4) { 1 + g.r.below(18) } else { 0 };
        let t = table.len();
        if t > 0 {
            let i = g.r.below(t);
            match damage {
                1 => table[i].next = g.r.below(t) as i64,
                2 => if !table[i].prim { table[i].child = g.r.below(t) as i64 },
                3 => table[i].next = (t + g.r.below(2)) as i64,
                4 => if !table[i].prim { table[i].child = *g.r.pick(&[-1, t as i64, 60000]) },
                5 => table[i].prim = !table[i].prim,
                6 => table[i].off = g.data.len() as u32 + g.r.below(2) as u32,
                7 => { g.data.pop(); }
                8 => if let Some(x) = sc.first_mut() { x.4 = *g.r.pick(&[-1, t as i64]) },
                9 => if let Some(x) = gl.first_mut() { x.2 = *g.r.pick(&[-1, t as i64, 0]) },
                10 => { let j = g.r.below(t); table[i].next = table[j].next }
                // many ways to the same nodes
                11 => for j in 0..t { table[j].prim = false; table[j].next = if j + 1 < t { j as i64 + 1 } else { -1 }; table[j].child = if j + 1 < t { j as i64 + 1 } else { 0 } },
                _ => (),
            }
        }
        match damage {
            12 => size = *g.r.pick(&[19, 21, 0, 40]),
            13 => count += 1 + g.r.below(4),
            14 => max = (max as i64 + *g.r.pick(&[1, -1])).max(0) as usize,
            15 => cut = *g.r.pick(&[1, -1, 20, 30, 57]),
            17 if !gl.is_empty() => { let x = gl[g.r.below(gl.len())].clone(); let at = g.r.below(gl.len() + 1); gl.insert(at, x) }
            18 if !sc.is_empty() => { let x = sc[g.r.below(sc.len())].clone(); let at = g.r.below(sc.len() + 1); sc.insert(at, x) }
            16 => table[t - t.min(1)..].iter_mut().for_each(|n| n.ty = 49 + (n.val % 3) as u16),
            _ => (),
        }
        if t == 0 && damage == 16 { continue }
        let mut b = vec![0u8; 56];
        for (o, v) in [(32, max as u16), (34, size), (46, count as u16), (48, 7), (50, 9)] { b[o..o + 2].copy_from_slice(&v.to_be_bytes()) }
        b[36] = 1;
        let real = if damage == 14 { table.len() } else { max };
        for i in 0..real {
            let x = table.get(i).cloned();
            let Some(x) = x else { for _ in 0..20 { b.push(g.r.next() as u8) } continue };
            b.extend((g.r.next() as u16).to_be_bytes());
            b.extend((g.r.next() as u16).to_be_bytes());
            b.extend(x.ty.to_be_bytes());
            b.extend((x.prim as u16 | (x.call as u16) << 1 | (x.glob as u16) << 2 | (g.r.chance(1, 3) as u16) << 3 | (x.loc as u16) << 4).to_be_bytes());
            b.extend(id(g.r, x.next).to_be_bytes());
            b.extend(x.off.to_be_bytes());
            b.extend(if x.prim { x.val } else { id(g.r, x.child) }.to_be_bytes());
        }
        let len = (b.len() as i64 + cut).max(0) as usize;
        b.resize(len, 0);
        // as they are read
        let node = |i: usize| table.get(i).cloned().or_else(|| { let o = 56 + 20 * i; let c = b.get(o..o + 20)?; let w = |k: usize| u32::from_be_bytes(c[k..k + 4].try_into().unwrap()); let f = u16::from_be_bytes([c[6], c[7]]);
            let i = |v: u32| if v == u32::MAX { -1 } else { (v & 0xFFFF) as i64 };
            Some(N { prim: f & 1 != 0, call: f & 2 != 0, glob: f & 4 != 0, loc: f & 16 != 0, ty: u16::from_be_bytes([c[4], c[5]]), next: i(w(8)), child: i(w(16)), off: w(12), val: w(16) }) });
        let read: Vec<N> = (0..count).filter_map(node).collect();
        let data = g.data.clone();
        let txt = |o: u32| -> Value { let Some(t) = data.get(o as usize..) else { return json!([]) }; match t.iter().position(|c| *c == 0) { Some(e) => json!([rle(&t[..e])]), None => json!([]) } };
        let base = match g.r.below(12) { 0 => "a30".into(), 1 => "n".repeat(27 + g.r.below(6)), 2 => format!("{}é漢🙂{}", "m".repeat(12 + g.r.below(5)), "z".repeat(5 + g.r.below(4))), 3 => String::new(), 4 => "é".repeat(14 + g.r.below(3)), _ => format!("level{}", g.r.below(10)) };
        let str32 = |t: &str| String32::from_str(t).unwrap();
        let ty = |i: usize| ScenarioScriptValueType::read::<ringhopper::primitives::byteorder::BigEndian>(&(i as u16).to_be_bytes(), 0, 2).unwrap();
        for (n, t, root) in &gl { s.globals.items.push(ScenarioGlobal { name: str32(n), _type: ty(*t), initialization_expression_index: ID::from_u32(id(g.r, *root)), ..Default::default() }) }
        for (n, kind, t, params, root) in &sc {
            let mut x = ScenarioScript { name: str32(n), return_type: ty(*t), root_expression_index: ID::from_u32(id(g.r, *root)), ..Default::default() };
            x.script_type = ScenarioScriptType::read::<ringhopper::primitives::byteorder::BigEndian>(&(*kind as u16).to_be_bytes(), 0, 2).unwrap();
            for (n, t) in params { x.parameters.items.push(ScenarioScriptParameter { name: str32(n), return_type: ty(*t), ..Default::default() }) }
            s.scripts.items.push(x);
        }
        s.script_syntax_data = Data::new(b);
        s.script_string_data = Data::new(g.data.clone());
        if g.r.chance(1, 2) { s.source_files.items.push(ScenarioSourceFile { name: str32("old"), source: Data::new(b"; old".to_vec()) }) }
        let tyn = |i: usize| (names.get(i).cloned().unwrap_or("other".into()), bytes(names.get(i).map(|n| n.as_str()).unwrap_or("").as_bytes()));
        let rec = json!({"name": bytes(base.as_bytes()), "len": len, "size": size, "max": max, "count": count,
            "nodes": read.iter().map(|x| json!({"prim": x.prim, "glob": x.glob, "loc": x.loc, "ty": tyn(x.ty as usize).0, "next": x.next, "child": x.child, "txt": txt(x.off), "val": {"lo": x.val & 0xFFFF, "hi": x.val >> 16, "f": bytes(if x.ty == 6 { f32::from_bits(x.val).to_string() } else { String::new() }.as_bytes())}})).collect::<Vec<_>>(),
            "globals": gl.iter().map(|x| json!({"name": rle(x.0.as_bytes()), "tyc": tyn(x.1).1, "root": x.2})).collect::<Vec<_>>(),
            "scripts": sc.iter().map(|x| json!({"name": rle(x.0.as_bytes()), "kind": KINDS[x.1], "kindc": bytes(KINDS[x.1].as_bytes()), "tyc": tyn(x.2).1, "root": x.4, "params": x.3.iter().map(|p| json!({"name": rle(p.0.as_bytes()), "tyc": tyn(p.1).1})).collect::<Vec<_>>()})).collect::<Vec<_>>()});
        let mut rec = json!({"s": rec, "before": source(&s.source_files.items), "damage": damage});
        if !pages { about_to(&rec) } else { about_to(&json!({"pages": true})) }
        let mut x = s.clone();
        match guard(|| decompile_scripts(&mut x, &base)) {
            Ok(q) => {
                rec["ok"] = json!(q.is_ok());
                if let Err(e) = q { rec["why"] = json!(e.to_string()) }
                rec["after"] = source(&x.source_files.items);
                x.source_files = s.source_files.clone();
                rec["same"] = json!(dump_all("Scenario", &x) == dump_all("Scenario", &s));
            }
            Err(e) => rec["crash"] = json!(e),
        }
        out.put(&rec);
    }
    out.finish()
}
