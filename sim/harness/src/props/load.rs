//! C02 and C03: work and memory in proportion to the file.
use super::*;
use crate::bad;
use crate::bitio::BitW;
use crate::rec::{CacheR, Ev, FrameR, Tail, HP};
use crate::seam::{self, Limits, Meter};
use crate::tables::{self, Tag};
use crate::text::Txt;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Case {
    /// Any damaged file.
    Shot { shot: Shot, opt: (u8, u8) },
    /// A shape recorded at n, 2n and 4n.
    Grow { shape: String, n: u32, seed: u64, opt: (u8, u8) },
    /// A small file whose words claim what is not there.
    Claim { shot: Shot, opt: (u8, u8) },
    /// Nested claims inside header properties.
    Nest { depth: u32, claim: u32, opt: (u8, u8) },
    /// Many different files after each other, 4n of them.
    Many { n: u32, seed: u64, opt: (u8, u8) },
    /// The known quadratic shape: objects, properties of their class.
    Tables { objects: u32, props: u32 },
}

pub const SHAPES: &[&str] = &[
    "frames", "new_actors", "updates", "one_update_per_frame", "recreate", "deletes", "ids", "strings", "products", "props", "array",
    "nested_arrays", "long_texts", "levels", "levels_wide", "keyframes", "debug", "ticks", "names", "objects_unknown", "objects_same",
    "objects_instances", "objects_known", "classes", "cache_empty", "cache_one_class", "cache_same_decl", "cache_sparse", "cache_foreign",
    "noise", "damaged_tail", "cache_repeated", "text_empty", "cache_root", "cache_spread",
    "burst_updates", "burst_new", "burst_deletes", "burst_mixed", "text_narrow", "text_wide", "text_key", "game_wide", "stream_text", "live_ids",
    "props_distinct", "array_fields", "array_deep", "packages_distinct", "levels_distinct",
];

fn base() -> Rec {
    let mut r = Rec {
        ver: (868, 24, 10),
        game: Txt::from("TAGame.Replay_Soccar_TA"),
        props: vec![("MaxChannels".into(), HP::Int(2047))],
        levels: vec![],
        keys: vec![],
        debug: vec![],
        ticks: vec![],
        packages: vec![],
        objects: ["TAGame.Car_TA", "TAGame.RBActor_TA", "Core.Object", "TAGame.PRI_TA", "Engine.PlayerReplicationInfo"].iter().map(|s| Txt::from(*s)).collect(),
        names: vec![],
        classes: vec![],
        cache: vec![],
        frames: vec![],
        tail: Tail::default(),
        junk: 1,
        slack: vec![],
        after: vec![],
        wild: false,
    };
    let pick = |t: Tag| tables::ATTRS.iter().find(|a| a.1 == t).unwrap().0;
    let mut props = vec![];
    for (i, t) in [Tag::Boolean, Tag::Byte, Tag::Int, Tag::RigidBody, Tag::String, Tag::LoadoutOnline].into_iter().enumerate() {
        r.objects.push(Txt::from(pick(t)));
        props.push((5 + i as i32, i as i32));
    }
    r.cache.push(CacheR { o: 0, p: 0, c: 0, props });
    r
}

fn t(i: u32) -> FrameR {
    FrameR { t: (1.0 + i as f32 / 32.0).to_bits(), d: 0.03125f32.to_bits(), ev: vec![] }
}

pub fn shape(name: &str, n: u32, seed: u64) -> Vec<u8> {
    shape_end(name, n, seed, 0)
}

/// `end` 1 to 3: the stream ends with something that cannot be.
pub fn shape_end(name: &str, n: u32, seed: u64, end: u8) -> Vec<u8> {
    let mut r = base();
    let mut g = Rng::new(seed);
    let mut raw: Option<Vec<u8>> = None;
    match name {
        "frames" => r.frames = (0..n).map(t).collect(),
        "new_actors" => {
            let mut f = t(0);
            f.ev = (0..n).map(|i| Ev::New(i % 2000, 1, false, 0, 1 + i as u64)).collect();
            r.frames.push(f);
        }
        "updates" => {
            let mut f = t(0);
            f.ev.push(Ev::New(1, 1, false, 0, 5));
            f.ev.push(Ev::Upd(1, (0..n).map(|i| (0, 1 + i as u64)).collect()));
            r.frames.push(f);
        }
        "one_update_per_frame" => {
            r.frames = (0..n).map(t).collect();
            r.frames[0].ev.push(Ev::New(1, 1, false, 0, 5));
            for f in &mut r.frames {
                f.ev.push(Ev::Upd(1, vec![(2, 7)]));
            }
        }
        "recreate" => {
            r.frames = (0..n).map(t).collect();
            for (i, f) in r.frames.iter_mut().enumerate() {
                f.ev.push(Ev::New(300 + (i as u32 % 3), 1, false, 0, 5));
                f.ev.push(Ev::Del(300 + (i as u32 % 3)));
            }
        }
        "deletes" => {
            let mut f = t(0);
            f.ev = (0..n).map(|i| Ev::Del(i % 2000)).collect();
            r.frames.push(f);
        }
        "ids" => {
            r.set_int("MaxChannels", i32::MAX);
            let mut f = t(0);
            f.ev = (0..n).map(|i| Ev::New(i * 101, 1, false, 0, 1)).collect();
            r.frames.push(f);
        }
        "strings" => {
            let mut f = t(0);
            f.ev.push(Ev::New(1, 1, false, 0, 5));
            f.ev.push(Ev::Upd(1, (0..n / 8 + 1).map(|_| (4, g.u64() | 1)).collect()));
            r.frames.push(f);
        }
        "products" => {
            // lists of empty lists, the cheapest entries there are
            let mut pieces = vec![];
            for _ in 0..n / 64 + 1 {
                pieces.push((1, 1));
                let mut w = BitW::default();
                w.max(5, 6);
                for k in 0..w.len {
                    pieces.push(((w.bytes[k / 8] >> (k % 8) & 1) as u64, 1));
                }
                pieces.push((255, 8));
                for _ in 0..255 {
                    pieces.push((0, 8));
                }
            }
            pieces.push((0, 1));
            pieces.push((0, 1));
            let mut f = t(0);
            f.ev.push(Ev::New(1, 1, false, 0, 5));
            f.ev.push(Ev::Raw(1, -1, pieces));
            r.frames.push(f);
        }
        "props" => r.props.extend((0..n).map(|i| (format!("p{}", i % 7), HP::Int(i as i32)))),
        "props_distinct" => r.props.extend((0..n).map(|i| (format!("property {i:06}"), HP::Int(i as i32)))),
        "array_fields" => r.props.push(("Goals".into(), HP::Array(vec![(0..n).map(|i| (format!("field {i:06}"), HP::Int(i as i32))).collect()]))),
        "array_deep" => r.props.push((
            "Stats".into(),
            HP::Array(vec![vec![("in".to_string(), HP::Array((0..n.min(25_000)).map(|i| vec![(format!("f{i:06}"), HP::F(i))]).collect()))]]),
        )),
        "packages_distinct" => r.packages = (0..n.min(25_000)).map(|i| Txt::from(format!("package {i:06}").as_str())).collect(),
        "levels_distinct" => r.levels = (0..n.min(25_000)).map(|i| Txt::from(format!("level {i:06}").as_str())).collect(),
        "array" => r.props.push(("Goals".into(), HP::Array((0..n.min(25_000)).map(|i| vec![("frame".to_string(), HP::Int(i as i32))]).collect()))),
        "nested_arrays" => r.props.extend((0..n / 4 + 1).map(|_| {
            ("a".to_string(), HP::Array(vec![vec![("b".to_string(), HP::Array(vec![vec![("c".to_string(), HP::Bool(1))]; 2]))]]))
        })),
        "long_texts" => r.levels = (0..n / 64 + 1).map(|_| Txt { s: "x".repeat(9000), w: false, z: false }).collect(),
        "levels" => r.levels = (0..n.min(25_000)).map(|i| Txt::from(format!("level{i}").as_str())).collect(),
        "levels_wide" => r.levels = (0..n.min(25_000)).map(|i| Txt { s: format!("ünï{i}"), w: true, z: false }).collect(),
        "text_empty" => r.names = (0..n.min(25_000)).map(|_| Txt { s: String::new(), w: false, z: true }).collect(),
        "keyframes" => r.keys = (0..n.min(25_000)).map(|i| (i, i as i32, i as i32)).collect(),
        "debug" => r.debug = (0..n.min(25_000)).map(|i| (i as i32, Txt::from("u"), Txt::from("t"))).collect(),
        "ticks" => r.ticks = (0..n.min(25_000)).map(|i| (Txt::from("Team0Goal"), i as i32)).collect(),
        "names" => r.names = (0..n.min(25_000)).map(|i| Txt::from(format!("Name_{i}").as_str())).collect(),
        "objects_unknown" => r.objects.extend((0..n.min(20_000)).map(|i| Txt::from(format!("Some.Thing{i}").as_str()))),
        "objects_same" => r.objects.extend((0..n.min(20_000)).map(|_| Txt::from("TAGame.Car_TA"))),
        "objects_instances" => r.objects.extend(
            (0..n.min(20_000)).map(|i| Txt::from(format!("p{}.TheWorld:PersistentLevel.CrowdActor_TA_{i}", i % 9).as_str())),
        ),
        "objects_known" => r.objects.extend((0..n.min(20_000)).map(|i| Txt::from(tables::PARENTS[i as usize % tables::PARENTS.len()].0))),
        "classes" => r.classes = (0..n.min(25_000)).map(|i| ("TAGame.Car_TA".to_string(), i as i32)).collect(),
        "cache_empty" => r.cache = (0..n.min(25_000)).map(|i| CacheR { o: i as i32, p: 0, c: i as i32, props: vec![] }).collect(),
        "cache_one_class" => r.cache[0].props = (0..n.min(25_000)).map(|i| (5 + (i % 6) as i32, i as i32)).collect(),
        "cache_same_decl" => r.cache[0].props = (0..n.min(25_000)).map(|i| (5 + (i % 6) as i32, (i % 5) as i32)).collect(),
        "cache_sparse" => r.cache[0].props = (0..n.min(20_000)).map(|i| (5 + (i % 6) as i32, i as i32 * 100_003)).collect(),
        "cache_foreign" => {
            r.cache = (0..n.min(25_000)).map(|i| CacheR { o: 1_000_000 + i as i32, p: 0, c: 0, props: vec![(5, 1)] }).collect();
        }
        "cache_repeated" => r.cache = (0..n.min(25_000)).map(|i| CacheR { o: 0, p: 0, c: 0, props: vec![(5, i as i32)] }).collect(),
        "cache_root" => {
            // every known class, the root of which declares n/8 attributes
            for (c, _) in tables::PARENTS {
                if !r.objects.iter().any(|o| o.s == *c) {
                    r.objects.push(Txt::from(*c));
                }
            }
            r.cache[0].o = r.objects.iter().position(|o| o.s == "Engine.Actor").unwrap_or(0) as i32;
            r.cache[0].props = (0..n / 8 + 1).map(|i| (5 + (i % 6) as i32, i as i32)).collect();
        }
        "cache_spread" => {
            // n attributes spread over all known classes
            for (c, _) in tables::PARENTS {
                if !r.objects.iter().any(|o| o.s == *c) {
                    r.objects.push(Txt::from(*c));
                }
            }
            let k = r.objects.len() as u32;
            r.cache = (0..k).map(|i| CacheR { o: i as i32, p: 0, c: 0, props: (0..n / k + 1).map(|j| (5 + (j % 6) as i32, (i + j * k) as i32)).collect() }).collect();
        }
        // one crowded frame, then many calm ones
        "burst_updates" | "burst_new" | "burst_deletes" | "burst_mixed" => {
            let mut f = t(0);
            f.ev.push(Ev::New(1, 1, false, 0, 5));
            if name != "burst_new" && name != "burst_deletes" {
                f.ev.push(Ev::Upd(1, (0..n).map(|i| (0, 1 + i as u64)).collect()));
            }
            if name == "burst_new" || name == "burst_mixed" {
                f.ev.extend((0..n).map(|i| Ev::New(2 + i % 2000, 1, false, 0, 5)));
            }
            if name == "burst_deletes" || name == "burst_mixed" {
                f.ev.extend((0..n).map(|i| Ev::Del(2 + i % 2000)));
            }
            r.frames.push(f);
            for i in 0..n / 2 {
                let mut f = t(1 + i);
                f.ev.push(match (name, i % 3) {
                    ("burst_new", _) | ("burst_mixed", 0) => Ev::New(1, 1, false, 0, 5),
                    ("burst_deletes", _) | ("burst_mixed", 1) => Ev::Del(7),
                    _ => Ev::Upd(1, vec![(0, 3)]),
                });
                r.frames.push(f);
            }
        }
        // n actors stay alive through n frames
        "live_ids" => {
            r.set_int("MaxChannels", 65_535);
            let mut f = t(0);
            f.ev = (0..n).map(|i| Ev::New(i * 7 % 65_000, 1, false, 0, 5)).collect();
            r.frames.push(f);
            for i in 0..n {
                let mut f = t(1 + i);
                f.ev.push(Ev::Upd((i * 7) % 65_000, vec![(0, 3)]));
                r.frames.push(f);
            }
        }
        "text_narrow" => r.levels.push(Txt { s: "\u{e9}".repeat(n.min(9_999) as usize), w: false, z: false }),
        "text_wide" => r.names.push(Txt { s: "\u{661f}".repeat(n.min(9_999) as usize), w: true, z: false }),
        "game_wide" => r.game = Txt { s: "\u{661f}".repeat(n.min(9_999) as usize), w: true, z: false },
        "text_key" => r.props.push(("\u{661f}".repeat(n as usize), HP::Byte("k".repeat(n as usize), "v".repeat(n as usize)))),
        "stream_text" => {
            let mut f = t(0);
            f.ev.push(Ev::New(1, 1, false, 0, 5));
            // at 500, 1,000 and 2,000: a text of 250 to 1,000 bytes
            let k = (n / 2).min(1_000) as u64;
            let mut p = vec![(k + 1, 32)];
            p.extend((0..k).map(|i| (0x41 + i % 26, 8)));
            p.push((0, 8));
            p.push((0, 2));
            f.ev.push(Ev::Raw(1, 4, p));
            r.frames.push(f);
        }
        "noise" => {
            let mut b = vec![0u8; n as usize * 8];
            for x in &mut b {
                *x = g.u64() as u8;
            }
            r.frames.push(t(0));
            r.tail.extra = b;
        }
        "damaged_tail" => {
            r.frames = (0..n).map(t).collect();
            r.frames.push(FrameR { t: (-1.0f32).to_bits(), d: 0, ev: vec![] });
        }
        _ => raw = Some(vec![]),
    }
    if let Some(r) = raw {
        return r;
    }
    if end > 0 {
        let mut f = t(n + 1);
        match end {
            1 => f.t = (-1.0f32).to_bits(),
            2 => f.ev.push(Ev::Upd(2046, vec![(0, 1)])),
            _ => {
                // a text that is impossibly long
                f.ev.push(Ev::New(1, 1, false, 0, 5));
                f.ev.push(Ev::Raw(1, 4, vec![(1 << 20, 32)]));
            }
        }
        r.frames.push(f);
    }
    let nf = r.frames.len() as i32;
    r.set_int("NumFrames", nf);
    r.image().bytes
}

/// n distinct instances of a class that declares m attributes.
pub fn tables_image(objects: u32, props: u32) -> Vec<u8> {
    let mut r = base();
    r.objects = vec![Txt::from("TheWorld:PersistentLevel.CrowdActor_TA"), Txt::from("Core.Object"), Txt::from("TAGame.CrowdActor_TA")];
    r.objects.push(Txt::from(tables::ATTRS[0].0));
    r.cache = vec![CacheR { o: 2, p: 0, c: 0, props: (0..props.min(25_000)).map(|i| (3, i as i32)).collect() }];
    for i in 0..objects.min(20_000) {
        r.objects.push(Txt::from(format!("p{i}.TheWorld:PersistentLevel.CrowdActor_TA_{i}").as_str()));
    }
    r.set_int("NumFrames", 0);
    r.image().bytes
}

fn nest(depth: u32, claim: u32) -> Vec<u8> {
    let put = |b: &mut Vec<u8>, s: &str| {
        b.extend_from_slice(&(s.len() as u32 + 1).to_le_bytes());
        b.extend_from_slice(s.as_bytes());
        b.push(0);
    };
    let mut h = vec![];
    h.extend_from_slice(&868i32.to_le_bytes());
    h.extend_from_slice(&12i32.to_le_bytes());
    put(&mut h, "T");
    for _ in 0..depth {
        put(&mut h, "k");
        put(&mut h, "ArrayProperty");
        h.extend_from_slice(&[0; 8]);
        h.extend_from_slice(&claim.to_le_bytes());
    }
    let mut b = vec![0; 8];
    b.extend(h);
    let n = b.len();
    b.extend([0u8; 16]);
    let e = b.len();
    rec::finalize(&mut b, (8, n), (n + 8, e));
    b
}

fn gen(r: &mut Rng, idx: u64) -> Case {
    let opt = opts(r);
    match r.below(100) {
        0..=7 => {
            let i = (idx as usize / 3) % SHAPES.len();
            let shape = if r.bool() { SHAPES[i] } else { *r.pick(SHAPES) };
            Case::Grow { shape: shape.into(), n: *r.pick(&[500, 700, 1000, 1500, 2000, 2400]), seed: r.u64(), opt: (r.below(3) as u8, *r.pick(&[0, 0, 2])) }
        }
        8 if idx % 3 == 0 => Case::Many { n: 12 + r.below(20) as u32, seed: r.u64(), opt },
        8..=9 => Case::Nest { depth: r.below(40) as u32, claim: *r.pick(&[1, 2, 24_999, 25_000, 25_001, 1 << 20, 0x7fff_ffff, 0xffff_ffff]), opt },
        10..=49 => {
            let k = Knobs::small(r);
            let mut shot = Shot { rec: rec::gen(r, &k), faults: vec![], close: *r.pick(&[0, 2]) };
            for _ in 0..1 + r.below(3) {
                let f = if r.one_in(4) { Fault::Nudge(r.u32(), 1 << r.below(31)) } else { Fault::Word(r.u32(), faults::gen_word(r)) };
                shot.faults.push(f);
            }
            if r.one_in(3) {
                let n = faults::gen_word(r) as i32;
                shot.rec.set_int("NumFrames", n);
            }
            if r.one_in(4) {
                let n = faults::gen_word(r) as i32;
                shot.rec.set_int("MaxChannels", n);
            }
            Case::Claim { shot, opt }
        }
        _ => {
            let mut k = Knobs::swarm(r);
            k.long_text = r.one_in(30);
            k.odd_tables = r.bool();
            Case::Shot { shot: Shot::gen(r, &k, 4), opt }
        }
    }
}

fn many(n: u32, seed: u64, st: &mut Stats) -> Vec<Vec<u8>> {
    (0..4 * n.clamp(8, 200) as u64)
        .map(|i| {
            let mut r = Rng::new(crate::rng::mix(seed).wrapping_add(i));
            let k = if r.bool() { Knobs::small(&mut r) } else { Knobs::swarm(&mut r) };
            let mut s = Shot::gen(&mut r, &k, 2);
            if r.bool() {
                s.faults.clear();
            }
            s.build(st).1.bytes
        })
        .collect()
}

fn measure(st: &mut Stats, d: &[u8], opt: (u8, u8), lim: Limits) -> Result<(Out, Meter), Viol> {
    read_m(st, d, CRCS[opt.0 as usize % 3], NETS[opt.1 as usize % 3], lim)
}

pub struct C02;
/// Work allowed: logical steps per byte plus a constant.
const STEP_A: f64 = 150.0;
const STEP_B: f64 = 400_000.0;
/// For the shape where every known class inherits every property.
const STEP_A_ROOT: f64 = 4000.0;

impl Prop for C02 {
    type Case = Case;
    const ID: &'static str = "C02";
    const QUICK: u64 = 120_000;
    const RULE: &'static str = "runs whose (set of control-flow edges reached, outcome) differ";
    fn gen(r: &mut Rng, idx: u64) -> Case {
        gen(r, idx)
    }
    fn exec(c: &Case, st: &mut Stats) -> Result<(), Viol> {
        let lim = Limits { steps: 6_000_000_000, mem: 3 << 30 };
        let one = |d: &[u8], opt, st: &mut Stats, what: &str| -> Result<u64, Viol> {
            let a = if what.ends_with("cache_root") || what.ends_with("cache_spread") { STEP_A_ROOT } else { STEP_A };
            let lim = Limits { steps: lim.steps.min((a * d.len() as f64 + STEP_B) as u64 * 3), mem: lim.mem };
            let (o, m) = measure(st, d, opt, lim)?;
            see_out(st, &o);
            let per = m.steps as f64 / (d.len() as f64 + 1000.0);
            st.max(&format!("steps per byte: {what}"), per);
            if m.steps as f64 > a * d.len() as f64 + STEP_B {
                bad!("work", "reading {} bytes took {} logical steps ({:.0} per byte), {}", d.len(), m.steps, per, show(&o));
            }
            Ok(m.steps)
        };
        match c {
            Case::Shot { shot, opt } => {
                let d = shot.build(st).1.bytes;
                one(&d, *opt, st, "damaged").map(|_| ())
            }
            Case::Claim { shot, opt } => {
                let d = shot.build(st).1.bytes;
                one(&d, *opt, st, "claims").map(|_| ())
            }
            Case::Many { n, seed, opt } => {
                // What a reading costs is not more for what was read before.
                let files = many(*n, *seed, st);
                let first = one(&files[0], *opt, st, "many")?;
                for d in &files[1..] {
                    one(d, *opt, st, "many")?;
                }
                let last = one(&files[0], *opt, st, "many")?;
                st.max("steps a reading gains over many", last as f64 - first as f64);
                if last as f64 > 1.5 * first as f64 + 20_000.0 {
                    bad!("work after many", "reading a file of {} bytes took {first} logical steps, and {last} after {} other files", files[0].len(), files.len() - 1);
                }
                Ok(())
            }
            Case::Nest { depth, claim, opt } => {
                st.fault("nested_claims");
                one(&nest((*depth).min(1000), *claim), *opt, st, "nested claims").map(|_| ())
            }
            Case::Tables { objects, props } => {
                let mut v = vec![];
                for k in [1, 2, 4] {
                    let d = tables_image(*objects * k, *props * k);
                    v.push((d.len(), measure(st, &d, (1, 2), lim)?.1.steps));
                }
                if v[2].1 - v[1].1 > 3 * (v[1].1 - v[0].1) {
                    bad!("growth: class tables", "files of {} / {} / {} bytes took {} / {} / {} steps", v[0].0, v[1].0, v[2].0, v[0].1, v[1].1, v[2].1);
                }
                Ok(())
            }
            Case::Grow { shape: s, n, seed, opt } => {
                let n = (*n).clamp(1, 5000);
                let mut v = vec![];
                for k in [1, 2, 4] {
                    let d = shape(s, n * k, *seed);
                    v.push((d.len(), one(&d, *opt, st, &format!("shape {s}"))?));
                }
                st.count(&format!("doubled: {s}"));
                // Doubling what is recorded at most about doubles the added work.
                let (a, b) = (v[1].1 as f64 - v[0].1 as f64, v[2].1 as f64 - v[1].1 as f64);
                st.max(&format!("growth: {s}"), b / a.max(10_000.0));
                if b > 3.0 * a.max(0.0) + 300_000.0 {
                    bad!("growth", "shape {s}: recorded sizes {} / {} / {} bytes took {} / {} / {} steps: more than proportional", v[0].0, v[1].0, v[2].0, v[0].1, v[1].1, v[2].1);
                }
                Ok(())
            }
        }
    }
}

pub struct C03;
const MEM_A: f64 = 700.0;
const MEM_B: f64 = 8e6;
const MEM_A_ROOT: f64 = 4000.0;
/// Claims inside claims, down to the nesting limit.
const MEM_B_NEST: f64 = 26e6;
const REQ_A: f64 = 400.0;
const REQ_B: f64 = 2.5e6;

impl Prop for C03 {
    type Case = Case;
    const ID: &'static str = "C03";
    const QUICK: u64 = 120_000;
    const RULE: &'static str = "runs whose (set of control-flow edges reached, outcome) differ";
    fn gen(r: &mut Rng, idx: u64) -> Case {
        gen(r, idx)
    }
    fn exec(c: &Case, st: &mut Stats) -> Result<(), Viol> {
        let lim = Limits { steps: 6_000_000_000, mem: 3 << 30 };
        let one = |d: &[u8], opt: (u8, u8), st: &mut Stats, what: &str| -> Result<Meter, Viol> {
            let a = if what.ends_with("cache_root") || what.ends_with("cache_spread") { MEM_A_ROOT } else { MEM_A };
            let b = if what == "nested claims" { MEM_B_NEST } else { MEM_B };
            let lim = Limits { steps: lim.steps, mem: lim.mem.min(((a * d.len() as f64 + b) * 2.0) as i64) };
            // Reading and dropping in one window: what is still held at its
            // end was never given back.
            let (crc, net) = (CRCS[opt.0 as usize % 3], NETS[opt.1 as usize % 3]);
            let mut k = String::new();
            let (r, m) = seam::metered(lim, || {
                let o = glue::parse(d, crc, net);
                let was = seam::set_active(false);
                k = match &o {
                    Ok(r) => r.network_frames.is_some().to_string(),
                    Err(e) => kind(e),
                };
                seam::set_active(was);
                glue::drop_outcome(o);
            });
            st.calls += 1;
            st.steps += m.steps;
            if let Err(p) = r {
                bad!("panic", "{p}");
            }
            st.see_str(&k);
            let n = d.len() as f64;
            st.max(&format!("peak bytes per byte: {what}"), m.peak as f64 / (n + 4000.0));
            st.max(&format!("largest request: {what}"), (m.max_req as f64 - 300.0 * n).max(0.0));
            if m.held != 0 {
                // Something set up once and kept is no leak; what every
                // further reading adds to is.
                let again: Vec<i64> = (0..2)
                    .map(|_| {
                        seam::metered(lim, || glue::drop_outcome(glue::parse(d, crc, net))).1.held
                    })
                    .collect();
                if again.iter().all(|h| *h != 0) {
                    bad!("held", "{} bytes, then {again:?} more, are still held after the result was dropped ({k})", m.held);
                }
            }
            if m.peak as f64 > a * n + b {
                bad!("peak", "reading {} bytes held {} bytes of memory ({k})", d.len(), m.peak);
            }
            if m.max_req as f64 > REQ_A * n + REQ_B {
                bad!("request", "reading {} bytes requested {} bytes at once ({k})", d.len(), m.max_req);
            }
            Ok(m)
        };
        match c {
            Case::Shot { shot, opt } => {
                let d = shot.build(st).1.bytes;
                one(&d, *opt, st, "damaged").map(|_| ())
            }
            Case::Claim { shot, opt } => {
                let d = shot.build(st).1.bytes;
                one(&d, *opt, st, "claims").map(|_| ())
            }
            Case::Many { n, seed, opt } => {
                let (crc, net) = (CRCS[opt.0 as usize % 3], NETS[opt.1 as usize % 3]);
                let files = many(*n, *seed, st);
                let mut held = vec![];
                for part in files.chunks(files.len() / 4) {
                    let (r, m) = seam::metered(lim, || {
                        for d in part {
                            glue::drop_outcome(glue::parse(d, crc, net));
                        }
                    });
                    st.calls += part.len() as u64;
                    st.steps += m.steps;
                    if let Err(p) = r {
                        bad!("panic", "{p}");
                    }
                    held.push(m.held);
                }
                st.max("bytes held by the later of many files", held[1..].iter().copied().max().unwrap_or(0) as f64);
                // Set up once is no leak; growing with the files read is.
                if held[1..4].iter().all(|h| *h > 16 * (files.len() as i64 / 4)) {
                    bad!("held over many", "four times {} different files left {held:?} bytes held after their results were dropped", files.len() / 4);
                }
                Ok(())
            }
            Case::Nest { depth, claim, opt } => {
                st.fault("nested_claims");
                one(&nest((*depth).min(1000), *claim), *opt, st, "nested claims").map(|_| ())
            }
            Case::Tables { objects, props } => {
                let mut v = vec![];
                for k in [1, 2, 4] {
                    let d = tables_image(*objects * k, *props * k);
                    v.push((d.len(), measure(st, &d, (1, 2), lim)?.1.peak));
                }
                if v[2].1 - v[1].1 > 3 * (v[1].1 - v[0].1) {
                    bad!("growth: class tables", "files of {} / {} / {} bytes held {} / {} / {} bytes", v[0].0, v[1].0, v[2].0, v[0].1, v[1].1, v[2].1);
                }
                Ok(())
            }
            Case::Grow { shape: s, n, seed, opt } => {
                let n = (*n).clamp(1, 5000);
                let mut v = vec![];
                for k in [1, 2, 4] {
                    let d = shape(s, n * k, *seed);
                    let m = one(&d, *opt, st, &format!("shape {s}"))?;
                    // Whatever is set up once for such a file was set up by
                    // the first reading: more of the same must leave nothing.
                    if k > 1 && m.held != 0 {
                        bad!("held", "shape {s}: after reading it at {n}, reading it at {} leaves {} more bytes held", n * k, m.held);
                    }
                    v.push((d.len(), m.peak));
                }
                st.count(&format!("doubled: {s}"));
                let (a, b) = (v[1].1 as f64 - v[0].1 as f64, v[2].1 as f64 - v[1].1 as f64);
                // Vectors and maps grow in powers of two: one doubling may
                // cost twice its share.
                if b > 4.5 * a.max(v[1].1 as f64 / 4.0) + 1e6 {
                    bad!("growth", "shape {s}: recorded sizes {} / {} / {} bytes held {} / {} / {} bytes", v[0].0, v[1].0, v[2].0, v[0].1, v[1].1, v[2].1);
                }
                Ok(())
            }
        }
    }
}
