mod util;
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod gtree;
mod c11;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c22;
mod c20;
mod c19;
mod c18;
mod c29;
mod c30;
mod c09;
mod c10;
mod inv;
mod c23;
mod c21;
mod c24;
mod c26;
mod c25;
mod c27;
mod c28;
mod groups;
mod value;

use std::path::PathBuf;
use util::*;

#[global_allocator]
static ALLOC: TrackAlloc = TrackAlloc;

fn main() {
    let mut it = std::env::args().skip(1);
    let what = it.next().expect("command");
    let mut a = Args { seed: 1, n: 100, out: PathBuf::from("/dev/null"), cases: None, scratch: PathBuf::new(), extra: vec![] };
    let mut cur = None;
    while let Some(k) = it.next() {
        match k.as_str() {
            "--seed" => a.seed = it.next().unwrap().parse().unwrap(),
            "--n" => a.n = it.next().unwrap().parse().unwrap(),
            "--out" => a.out = it.next().unwrap().into(),
            "--cases" => a.cases = Some(it.next().unwrap().into()),
            "--scratch" => a.scratch = it.next().unwrap().into(),
            "--cur" => cur = Some(PathBuf::from(it.next().unwrap())),
            _ => a.extra.push(k),
        }
    }
    init(cur);
    let n = match what.as_str() {
        "c01" => c01::run(&a),
        "c02" => c02::run(&a),
        "c03" => c03::run(&a),
        "c04" => c04::run(&a),
        "c05" => c05::run(&a),
        "c06" => c06::run(&a),
        "c07" => c07::run(&a),
        "c08" => c08::run(&a),
        "c11" => c11::run(&a),
        "c12" => c11::run12(&a),
        "c13" => c13::run(&a),
        "c14" => c14::run(&a),
        "c15" => c15::run(&a),
        "c16" => c16::run(&a),
        "c17" => c17::run(&a),
        "c18" => c18::run(&a),
        "c29" => c29::run(&a),
        "c30" => c30::run(&a),
        "c09" => c09::run(&a),
        "c10" => c10::run(&a),
        "c22" => c22::run(&a),
        "c20" => c20::run(&a),
        "c19" => c19::run(&a),
        "c23" => c23::run(&a),
        "c21" => c21::run(&a),
        "c24" => c24::run(&a),
        "c25" => c25::run(&a),
        "c26" => c26::run(&a),
        "c27" => c27::run(&a),
        "c28" => c28::run(&a),
        _ => panic!("unknown command {what}"),
    };
    println!("records {n}");
}
