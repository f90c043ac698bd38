//! Sounds: what is wrong with them and repairing them.
use crate::util::*;
use ringhopper::definitions::*;
use ringhopper::primitives::primitive::*;
use ringhopper::primitives::tag::*;
use ringhopper::tag::bludgeon::*;
use ringhopper::tag::sound::*;
use serde_json::{json, Value};

type Ogg = (&'static [u8], Option<(i32, i32, i32)>);
const OGGS: [Ogg; 11] = [
    (include_bytes!("../fixtures/1_22050_700.ogg"), Some((1, 22050, 700))),
    (include_bytes!("../fixtures/1_44100_1.ogg"), Some((1, 44100, 1))),
    (include_bytes!("../fixtures/2_44100_1234.ogg"), Some((2, 44100, 1234))),
    (include_bytes!("../fixtures/2_22050_5000.ogg"), Some((2, 22050, 5000))),
    (include_bytes!("../fixtures/1_22050_0.ogg"), Some((1, 22050, 0))),
    (include_bytes!("../fixtures/1_48000_300.ogg"), Some((1, 48000, 300))),
    (include_bytes!("../fixtures/3_44100_64.ogg"), Some((3, 44100, 64))),
    (include_bytes!("../fixtures/1_11025_100.ogg"), Some((1, 11025, 100))),
    (b"", None),
    (b"OggS\0\x02\0\0\0\0\0\0\0\0", None),
    (b"no Ogg data at all, but long enough to look at.", None),
];
fn fmt(f: SoundFormat) -> &'static str {
    match f { SoundFormat::PCM => "pcm", SoundFormat::XboxADPCM => "xbox_adpcm", SoundFormat::ImaADPCM => "ima_adpcm", SoundFormat::OggVorbis => "ogg" }
}
fn ogg(b: &[u8]) -> Value {
    match OGGS.iter().find(|o| o.0 == b).and_then(|o| o.1) { Some((c, r, n)) => json!([c, r, n]), None => json!([]) }
}
fn times4(v: f64) -> i64 { assert_eq!((v * 4.0).fract(), 0.0); (v * 4.0) as i64 }
fn dump(s: &Sound) -> Value {
    json!({
        "split": s.flags.split_long_sound_into_permutations, "fmt": fmt(s.format), "ch": channel_count_to_u32(s.channel_count), "rate": sample_rate_to_u32(s.sample_rate),
        "prs": s.pitch_ranges.items.iter().map(|r| json!({
            "count": r.actual_permutation_count, "nat": times4(r.natural_pitch), "lo": times4(r.bend_bounds.lower), "hi": times4(r.bend_bounds.upper),
            "perms": r.permutations.items.iter().map(|p| json!({
                "next": p.next_permutation_index.map(|n| n as i32).unwrap_or(-1), "fmt": fmt(p.format), "buf": p.buffer_size, "len": p.samples.bytes.len(),
                "ogg": if p.format == SoundFormat::OggVorbis { ogg(&p.samples.bytes) } else { json!([]) },
            })).collect::<Vec<_>>()
        })).collect::<Vec<_>>()
    })
}
/// Everything but what a repair may change.
fn rest(s: &Sound) -> Vec<u8> {
    let mut s = s.clone();
    s.flags.split_long_sound_into_permutations = false;
    s.format = SoundFormat::PCM;
    s.channel_count = SoundChannelCount::Mono;
    s.sample_rate = SoundSampleRate::_22050Hz;
    for r in &mut s.pitch_ranges { r.actual_permutation_count = 0; for p in &mut r.permutations { p.buffer_size = 0; if p.next_permutation_index == Some(0) { p.next_permutation_index = None } } }
    s.to_tag_file().unwrap()
}
const FMTS: [SoundFormat; 4] = [SoundFormat::PCM, SoundFormat::XboxADPCM, SoundFormat::ImaADPCM, SoundFormat::OggVorbis];
fn sample(r: &mut Rng, s: &Sound, f: SoundFormat, good: usize) -> SoundPermutation {
    let mut p = SoundPermutation::default();
    p.format = f;
    p.name = String32::from_str(*r.pick(&["a", "b #7 of pitch range", "", "Permutation #3"])).unwrap();
    let ch = channel_count_to_u32(s.channel_count) as usize;
    p.samples.bytes = match f {
        SoundFormat::OggVorbis => {
            let fit: Vec<&Ogg> = OGGS.iter().filter(|o| o.1.is_some_and(|x| x.0 == ch as i32 && x.1 == sample_rate_to_u32(s.sample_rate) as i32)).collect();
            if r.below(40) < good { r.pick(&fit).0.to_vec() } else { r.pick(&OGGS).0.to_vec() }
        }
        SoundFormat::PCM => vec![7; r.below(5) * 2 * ch + if r.below(40) < good { 0 } else { r.below(4) }],
        SoundFormat::XboxADPCM => vec![9; r.below(3) * 36 * ch + if r.below(40) < good { 0 } else { r.below(72) }],
        SoundFormat::ImaADPCM => vec![5; r.below(50)],
    };
    p.buffer_size = match SoundPermutationMetadata::read_from_sound_permutation(s, &p) { Ok(m) => m.buffer_size, _ => 0 };
    if r.below(40) >= good { p.buffer_size = *r.pick(&[0, 1, 700, 1400, 4936, 0x7FFF_FFFF, p.buffer_size * 2]) }
    p.skip_fraction = 0.5;
    p
}
fn sound(r: &mut Rng) -> Sound {
    let mut s = Sound::default();
    s.channel_count = *r.pick(&[SoundChannelCount::Mono, SoundChannelCount::Stereo]);
    s.sample_rate = *r.pick(&[SoundSampleRate::_22050Hz, SoundSampleRate::_44100Hz]);
    s.format = *r.pick(&FMTS);
    let good = *r.pick(&[20, 36, 39, 39, 40, 40, 40]);
    let tidy = r.chance(1, 2);
    let split = r.chance(2, 3);
    s.flags.split_long_sound_into_permutations = split;
    if r.chance(1, 6) { s.flags.split_long_sound_into_permutations ^= true }
    let f = s.format;
    if r.chance(1, 6) { s.format = *r.pick(&FMTS) }
    for _ in 0..*r.pick(&[0, 1, 1, 1, 2, 3]) {
        let mut p = SoundPitchRange::default();
        p.natural_pitch = *r.pick(&[0.0, 1.0, 1.0, 0.5, -1.0, 2.0]);
        (p.bend_bounds.lower, p.bend_bounds.upper) = *r.pick(&[(0.0, 0.0), (0.0, 0.0), (0.5, 2.0), (1.0, 1.0), (1.25, 2.0), (0.25, 0.75), (-1.0, 0.0), (3.0, 1.0), (0.0, -0.5)]);
        // parts of chains, the first parts first
        let heads = r.below(4) + tidy as usize;
        let mut links: Vec<Option<u16>> = vec![None; heads];
        if split {
            let mut tails: Vec<usize> = (0..heads).collect();
            for _ in 0..if heads == 0 { 0 } else { r.below(9) } {
                let h = r.below(heads);
                links[tails[h]] = Some(links.len() as u16);
                tails[h] = links.len();
                links.push(None);
            }
        }
        let n = links.len();
        let mut count = links.iter().filter_map(|x| *x).min().unwrap_or(n as u16);
        if !tidy {
            for l in &mut links { if r.chance(1, 6) { let k = r.below(n) as u16; *l = *r.pick(&[None, Some(0), Some(k), Some(n as u16), Some(n as u16 + 1), Some(0x7FFF), Some(0xFFFE)]) } }
            if r.chance(1, 2) { count = links.iter().filter_map(|x| *x).filter(|x| *x > 0).min().unwrap_or(n as u16).min(n as u16) }
        } else {
            // one flaw at most
            if n > 1 && r.chance(1, 2) {
                let i = r.below(n);
                links[i] = match r.below(5) { 0 => Some(0), 1 => None, 2 => Some(n as u16), 3 => Some((count as usize + r.below(n - count.min(n as u16 - 1) as usize)) as u16), _ => Some(r.below(n) as u16) };
                if r.chance(2, 3) { count = links.iter().filter_map(|x| *x).filter(|x| *x > 0).min().unwrap_or(n as u16).min(n as u16) }
            }
        }
        if r.chance(1, 12) { count = r.below(n + 2) as u16 }
        p.actual_permutation_count = count;
        for l in links {
            let f = if r.chance(1, 60) { *r.pick(&FMTS) } else { f };
            let mut q = sample(r, &s, f, good);
            q.next_permutation_index = l;
            p.permutations.items.push(q);
        }
        s.pitch_ranges.items.push(p);
    }
    match r.below(20) { 0 => s.channel_count = SoundChannelCount::Mono, 1 => s.sample_rate = SoundSampleRate::_44100Hz, 2 => s.channel_count = SoundChannelCount::Stereo, _ => {} }
    s
}
fn number(m: &str, after: &str) -> Option<usize> {
    let i = m.find(after)? + after.len();
    let d: String = m[i..].chars().take_while(|c| c.is_ascii_digit()).collect();
    d.parse().ok()
}
fn seen(r: &ringhopper::tag::result::TagResult) -> Value {
    let last = |m: &str| m.rfind("of pitch range #").and_then(|i| number(&m[i..], "pitch range #"));
    json!({
        "errors": !r.errors.is_empty(),
        "named": r.errors.iter().filter(|m| m.starts_with("Permutation #")).map(|m| json!([last(m).unwrap() + 1, number(m, "Permutation #").unwrap() + 1])).collect::<Vec<_>>(),
        "warned": r.warnings.iter().map(|m| json!(number(m, "itch range #").map(|n| n + 1))).collect::<Vec<_>>(),
    })
}

pub fn run(a: &Args) -> usize {
    let mut out = Out::new(&a.out);
    let mut r = Rng::new(a.seed);
    let words: Vec<u32> = (0..200).chain([11025, 22049, 22050, 22051, 44099, 44100, 44101, 48000, 65536 + 22050, 65537, u32::MAX >> 1]).collect();
    let mut rec = json!({"op": "conversions"});
    match guard(|| json!([
        words.iter().map(|w| json!([w, channel_count_from_u32(*w).map(|c| channel_count_to_u32(c) as i64).unwrap_or(-1)])).collect::<Vec<_>>(),
        words.iter().map(|w| json!([w, sample_rate_from_u32(*w).map(|c| sample_rate_to_u32(c) as i64).unwrap_or(-1)])).collect::<Vec<_>>(),
        [channel_count_to_u32(SoundChannelCount::Mono), channel_count_to_u32(SoundChannelCount::Stereo), sample_rate_to_u32(SoundSampleRate::_22050Hz), sample_rate_to_u32(SoundSampleRate::_44100Hz)],
    ])) {
        Ok(v) => { rec["ch"] = v[0].clone(); rec["rate"] = v[1].clone(); rec["names"] = v[2].clone() }
        Err(e) => rec["crash"] = json!(e),
    }
    out.put(&rec);
    let path = |i: usize| TagPath::from_path(&format!("sound\\x{i}.sound")).unwrap();
    for _ in 0..a.n.div_ceil(16) {
        let l: Vec<Sound> = (0..16).map(|_| sound(&mut r)).collect();
        about_to(&json!({"op": "sound", "some": l.iter().map(dump).collect::<Vec<_>>()}));
        let verify = |l: &[Sound]| {
            let mut v = crate::c08::verify_tags(l.iter().enumerate().map(|(i, s)| (path(i), Box::new(s.clone()) as Box<dyn PrimaryTagStructDyn>)).collect()).unwrap();
            (0..l.len()).map(|i| seen(&v.remove(&path(i)).unwrap())).collect::<Vec<_>>()
        };
        match guard_ms(20000, || {
            let v = verify(&l);
            let fixed: Vec<(bool, Sound)> = l.iter().enumerate().map(|(i, s)| {
                let mut b: Box<dyn PrimaryTagStructDyn> = Box::new(s.clone());
                let done = matches!(bludgeon_tag(b.as_mut(), &path(i)), BludgeonResult::Done);
                (done, b.as_any().downcast_ref::<Sound>().unwrap().clone())
            }).collect();
            let after = verify(&fixed.iter().map(|x| x.1.clone()).collect::<Vec<_>>());
            (v, fixed, after)
        }) {
            Ok((v, fixed, after)) => for (i, s) in l.iter().enumerate() {
                let b = &fixed[i].1;
                out.put(&json!({"op": "sound", "a": dump(s), "seen": v[i], "done": fixed[i].0, "b": dump(b), "rest": rest(b) == rest(s), "after": after[i]}));
            }
            Err(e) => out.put(&json!({"op": "sound", "crash": e, "some": l.iter().map(dump).collect::<Vec<_>>()})),
        }
    }
    out.finish()
}
