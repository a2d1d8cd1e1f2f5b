//! C08 to C12 and C15: what was recorded is what is read, and what cannot be
//! is diagnosed.
use super::*;
use crate::attrs;
use crate::bad;
use crate::bitio::fits_max;
use crate::faults::Reg;
use crate::rec::{Ev, FrameR, HP};
use crate::refdec::{self, AErr, Decoded};
use crate::tables::{self, Tag};
use crate::val;
use crate::world::{TableErr, World};
use boxcars::{AttributeError, Frame, FrameError, NetworkError, NetworkFrames, NetworkParse, ParseError, Replay};
use std::collections::{BTreeMap, BTreeSet};

fn net_error(e: &ParseError) -> Option<&NetworkError> {
    match chain(e).last() {
        Some(ParseError::NetworkError(n)) => Some(n),
        _ => None,
    }
}
fn frame_error(e: &ParseError) -> Option<&FrameError> {
    match net_error(e) {
        Some(NetworkError::FrameError(f, _)) => Some(f),
        _ => None,
    }
}
/// The reported table error equals the expected one.
fn same_table(e: &ParseError, w: &TableErr) -> bool {
    match (net_error(e), w) {
        (Some(NetworkError::StreamTooLargeIndex(a, b)), TableErr::StreamTooLarge(c, d)) => a == c && b == d,
        (Some(NetworkError::TooManyFrames(a)), TableErr::TooManyFrames(b)) => a == b,
        _ => false,
    }
}

/// What the simulated game and disk did that an orderly match would not.
fn histories(rec: &Rec, st: &mut Stats) {
    if !rec.tail.extra.is_empty() {
        st.fault("stale_stream_tail");
    }
    if rec.tail.ones {
        st.fault("dirty_padding_bits");
    }
    if !rec.slack.is_empty() {
        st.fault("slack_in_section");
    }
    if !rec.after.is_empty() {
        st.fault("stale_file_tail");
    }
    let (mut live, mut dead) = (BTreeSet::new(), BTreeSet::new());
    for e in rec.frames.iter().flat_map(|f| &f.ev) {
        match e {
            Ev::New(a, ..) => {
                if !live.insert(*a) {
                    st.fault("actor_replaced_without_deletion");
                } else if dead.contains(a) {
                    st.fault("actor_id_recycled");
                }
            }
            Ev::Del(a) => {
                if !live.remove(a) {
                    st.fault("deletion_of_unknown_actor");
                }
                dead.insert(*a);
            }
            _ => {}
        }
    }
}

/// Reads an intact recording and judges all of it. `None`: the recording is
/// not one to be judged on.
fn intact(rec: &Rec, img: &Image, crc: u8, net: u8, st: &mut Stats) -> Result<Option<Replay>, Viol> {
    let Some(exp) = rec::expected_frames(rec, img) else { return Ok(None) };
    if rec.props.iter().any(|p| p.0 == "None") {
        return Ok(None);
    }
    let net = NETS[net as usize % 3];
    histories(rec, st);
    // The reference decoder must agree with the recorder about what is there.
    if let (Ok(w), Ok(f)) = (&img.world, &exp) {
        if w.num_frames.is_some() {
            let d = refdec::decode(w, &img.bytes[img.net.0..img.net.1], w.num_frames.unwrap() as i64 as usize);
            if d.fault.is_some() || val::diff_frames(f, &d.frames).is_some() {
                bad!("harness", "reference decoder and recorder disagree: {:?} {:?}", d.fault, val::diff_frames(f, &d.frames));
            }
        }
    }
    let out = read(st, &img.bytes, CRCS[crc as usize % 3], net)?;
    see_out(st, &out);
    let want = match (&exp, net) {
        (_, NetworkParse::Never) => None,
        (Err(e), NetworkParse::Always) => {
            return match &out {
                Err(x) if same_table(x, e) => Ok(None),
                o => viol("table error", format!("expected {e:?}, got {}", show(o))),
            };
        }
        (Err(_), _) => None,
        (Ok(f), _) => Some(NetworkFrames { frames: f.clone() }),
    };
    let got = match out {
        Ok(r) => r,
        Err(e) => bad!("refused", "an intact recording is refused: [{}] {}", kind(&e), e.to_string().lines().next().unwrap_or("")),
    };
    // Recordings without a frame count have no frames; either spelling does.
    let mut got2 = got;
    let none = want.as_ref().is_some_and(|w| w.frames.is_empty()) && rec.int("NumFrames").is_none();
    let want = if none && got2.network_frames.is_none() { None } else { want };
    let want = rec.expect(img, want);
    if let Some(d) = val::diff_replay(&want, &got2) {
        // Name the frames by position before anything else differs.
        let d = match (&want.network_frames, &got2.network_frames) {
            (Some(a), Some(b)) => val::diff_frames(&a.frames, &b.frames).unwrap_or(d),
            _ => d,
        };
        let c = if d.starts_with("frame") || d.contains("frames instead") || d.starts_with(".network_frames") { "frames" } else { "record" };
        bad!(c, "{d}");
    }
    // Hand the wanted frames back for further judging by the caller.
    got2.network_frames = want.network_frames;
    Ok(Some(got2))
}

// ------------------------------------------------------------------ C08
pub struct C08;
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Hurt {
    /// The stream stops after this many bytes (modulo its length).
    Cut(u32),
    /// The same, and the stream keeps its size: zeros or other bytes follow.
    Torn(u32, u8),
    /// Same-length damage.
    Hit(Vec<Fault>),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case8 {
    rec: Rec,
    hurts: Vec<Hurt>,
    /// Every cut point is tried.
    all: bool,
    crc: u8,
}

fn same_length(r: &mut Rng) -> Fault {
    loop {
        match faults::gen_in(r, Reg::Net) {
            Fault::Dup(..) | Fault::Drop(..) | Fault::Trunc(..) | Fault::Slack(..) => continue,
            f => return f,
        }
    }
}

/// "Current frame: N" as rendered, when it is there.
fn current_frame(text: &str) -> Option<usize> {
    let i = text.find("Current frame: ")?;
    let t = &text[i + 15..];
    t[..t.find(|c: char| !c.is_ascii_digit()).unwrap_or(t.len())].parse().ok()
}

/// The stream as the reference sees it, judged against what the reader said.
fn against(dec: &Decoded, limit: usize, out: &Out) -> Option<String> {
    match (out, &dec.fault) {
        (Ok(r), None) => {
            let f = r.network_frames.as_ref().map(|f| f.frames.as_slice()).unwrap_or(&[]);
            val::diff_frames(&dec.frames, f)
        }
        (Ok(r), Some(f)) => Some(format!(
            "{} frames returned although the stream holds {f:?} after {} of {limit} frames",
            r.network_frames.as_ref().map(|f| f.frames.len()).unwrap_or(0),
            dec.frames.len()
        )),
        (Err(_), Some(_)) => None,
        (Err(e), None) => Some(format!("[{}] although the stream holds {} readable frames", kind(e), dec.frames.len())),
    }
}

fn c08_one(rec: &Rec, img: &Image, w: &World, n: usize, h: &Hurt, crc: u8, st: &mut Stats) -> Result<(), Viol> {
    let mut d = Dmg::new(img);
    let len = img.net.1 - img.net.0;
    let mut cut_to = None;
    match h {
        Hurt::Cut(k) => {
            let k = *k as usize % (len + 1);
            d.bytes.drain(img.net.0 + k..img.net.1);
            let lost = len - k;
            d.net.1 -= lost;
            d.content.1 -= lost;
            cut_to = Some(k);
            if lost > 0 {
                st.fault("stream_cut");
            }
        }
        Hurt::Torn(k, v) => {
            let k = *k as usize % (len + 1);
            d.bytes[img.net.0 + k..img.net.1].fill(*v);
            st.fault("stream_torn");
        }
        Hurt::Hit(f) => {
            for f in f {
                d.apply(f);
            }
            for f in &d.fired {
                st.fault(f);
            }
        }
    }
    d.refinalize();
    let net = &d.bytes[d.net.0..d.net.1];
    let old = &img.bytes[img.net.0..img.net.1];
    // First damaged bit, and the frames wholly recorded before it.
    let first = old
        .iter()
        .zip(net)
        .position(|(a, b)| a != b)
        .map(|i| i * 8 + (old[i] ^ net[i]).trailing_zeros() as usize)
        .unwrap_or(net.len().min(old.len()) * 8);
    let whole = img.ends.iter().take(n).take_while(|&&e| e <= first).count();
    let out = read(st, &d.bytes, CRCS[crc as usize % 3], NetworkParse::Always)?;
    see_out(st, &out);
    if crc == 0 && img.frames.is_empty() {
        st.count("empty recordings");
    }
    // Table errors are the business of other properties.
    if n > net.len() {
        return match &out {
            Err(_) => Ok(()),
            Ok(_) => viol("cut accepted", format!("{n} frames claimed in {} bytes of stream", net.len())),
        };
    }
    let recorded = &img.frames[..whole];
    match &out {
        Ok(r) => {
            let got = match &r.network_frames {
                Some(f) => f.frames.as_slice(),
                None => bad!("no frames", "network data required, but the replay has none"),
            };
            if let Some(k) = cut_to {
                // Whole frames before the cut, and nothing else.
                if k < len {
                    let want = &img.frames[..whole];
                    if let Some(x) = val::diff_frames(want, got) {
                        bad!("cut", "stream cut after {k} of {len} bytes: {whole} whole frames were recorded before the cut; {x}");
                    }
                }
            }
            if let Some(x) = val::diff_frames(recorded, &got[..got.len().min(whole)]) {
                bad!("completed frame changed", "damage from bit {first} on, {whole} frames complete before it: {x}");
            }
        }
        Err(e) => {
            if net_error(e).is_none() {
                bad!("other error", "only the stream is damaged, yet [{}]", kind(e));
            }
            if let Some(c) = current_frame(&e.to_string()) {
                if c < whole {
                    bad!("completed frame lost", "damage from bit {first} on, {whole} frames complete before it, error after {c} frames");
                }
            }
        }
    }
    // What the bytes now say, read by the reference.
    let dec = refdec::decode(w, net, n);
    if let Some(x) = against(&dec, n, &out) {
        let c = if cut_to.is_some() { "cut" } else { "damage" };
        bad!(c, "{x}");
    }
    // A caller who ignores network errors sees the same frames or none.
    let ign = read(st, &d.bytes, CRCS[crc as usize % 3], NetworkParse::IgnoreOnError)?;
    match (&out, &ign) {
        (Ok(a), Ok(b)) => {
            if let Some(x) = val::diff_replay(a, b) {
                bad!("modes", "required against ignored: {x}");
            }
        }
        (Err(_), Ok(b)) if b.network_frames.is_some() => bad!("modes", "frames returned from a stream that cannot be read"),
        (_, Err(e)) => bad!("modes", "network errors ignored, yet [{}]", kind(e)),
        _ => {}
    }
    let _ = rec;
    Ok(())
}

impl Prop for C08 {
    type Case = Case8;
    const ID: &'static str = "C08";
    const QUICK: u64 = 200_000;
    const RULE: &'static str = "runs whose (set of control-flow edges reached, outcomes) differ";
    fn gen(r: &mut Rng, idx: u64) -> Case8 {
        let mut k = Knobs::small(r);
        k.bulk = 1000;
        k.frames = 1 + r.size(6);
        k.header = k.header.min(2);
        k.text_rich = false;
        k.focus = Some(attrs::ALL_TAGS[(idx % attrs::ALL_TAGS.len() as u64) as usize]);
        let all = idx % 40 == 0;
        if all {
            k.frames = 1 + r.below(3);
            k.events = k.events.min(3);
        }
        let rec = rec::gen(r, &k);
        let hurts = (0..4)
            .map(|_| match r.below(8) {
                0..=2 => Hurt::Cut(r.u32()),
                3 => Hurt::Torn(r.u32(), *r.pick(&[0u8, 0, 0xff, 0x55])),
                4 => {
                    let n = 1 + r.below(3);
                    Hurt::Hit((0..n).map(|_| same_length(r)).collect())
                }
                _ => Hurt::Hit(vec![same_length(r)]),
            })
            .collect();
        Case8 { rec, hurts, all, crc: r.below(3) as u8 }
    }
    fn exec(c: &Case8, st: &mut Stats) -> Result<(), Viol> {
        let img = c.rec.image();
        let Ok(w) = &img.world else { return Ok(()) };
        let Some(Ok(_)) = rec::expected_frames(&c.rec, &img) else { return Ok(()) };
        let Some(n) = w.num_frames else { return Ok(()) };
        if c.rec.props.iter().any(|p| p.0 == "None") || n < 0 {
            return Ok(());
        }
        for h in &c.hurts {
            c08_one(&c.rec, &img, w, n as usize, h, c.crc, st)?;
        }
        if c.all && img.net.1 - img.net.0 < 600 {
            for k in 0..(img.net.1 - img.net.0) {
                c08_one(&c.rec, &img, w, n as usize, &Hurt::Cut(k as u32), c.crc, st)?;
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ C09
pub struct C09;
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct CaseRec {
    rec: Rec,
    crc: u8,
    net: u8,
}

fn simple_net(r: &mut Rng) -> u8 {
    if r.one_in(4) {
        2
    } else {
        0
    }
}

impl Prop for C09 {
    type Case = CaseRec;
    const ID: &'static str = "C09";
    const QUICK: u64 = 300_000;
    const RULE: &'static str = "runs whose (set of control-flow edges reached, outcome) differ";
    fn gen(r: &mut Rng, idx: u64) -> CaseRec {
        let mut k = Knobs::swarm(r);
        k.bulk = 300;
        k.frames = 1 + r.size(60);
        k.events = 1 + r.size(24);
        k.header = k.header.min(3);
        k.footer = k.footer.min(2);
        k.text_rich = false;
        k.long_text = false;
        k.cheap_attrs = !r.one_in(4);
        k.odd_channels = r.bool();
        if idx % 200 == 7 {
            k.frames = 300 + r.below(300);
            k.events = 6;
        }
        CaseRec { rec: rec::gen(r, &k), crc: r.below(3) as u8, net: simple_net(r) }
    }
    fn exec(c: &CaseRec, st: &mut Stats) -> Result<(), Viol> {
        let img = c.rec.image();
        if let Some(r) = intact(&c.rec, &img, c.crc, c.net, st)? {
            let mut ids = BTreeSet::new();
            if let Some(f) = &r.network_frames {
                for f in &f.frames {
                    st.add("actors created", f.new_actors.len() as u64);
                    st.add("actors deleted", f.deleted_actors.len() as u64);
                    st.add("updates", f.updated_actors.len() as u64);
                    for n in &f.new_actors {
                        if !ids.insert(n.actor_id.0) {
                            st.count("actor ids reused");
                        }
                    }
                }
                st.add("frames", f.frames.len() as u64);
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ C10
pub struct C10;
static VERS: &[(i32, i32, i32)] = &[
    (868, 32, 10),
    (868, 11, 0),
    (868, 12, 0),
    (868, 14, 0),
    (868, 17, 0),
    (868, 18, 0),
    (868, 18, 7),
    (868, 19, 5),
    (868, 20, 0),
    (868, 20, 7),
    (868, 20, 10),
    (868, 22, 7),
    (868, 23, 7),
    (868, 23, 8),
    (868, 24, 9),
    (868, 24, 10),
    (867, 32, 10),
    (0, 0, 0),
    (869, 1, 1),
    (868, 22, 9),
    (868, 18, 6),
    (868, 20, 1),
];

impl Prop for C10 {
    type Case = CaseRec;
    const ID: &'static str = "C10";
    const QUICK: u64 = 400_000;
    const RULE: &'static str = "runs whose (set of control-flow edges reached, outcome) differ";
    fn gen(r: &mut Rng, idx: u64) -> CaseRec {
        let tags = attrs::ALL_TAGS;
        let mut k = Knobs::small(r);
        k.bulk = 500;
        k.frames = 2 + r.size(8);
        k.events = 2 + r.size(8);
        k.leaves = 1 + r.below(3);
        k.header = k.header.min(2);
        k.footer = k.footer.min(2);
        k.text_rich = false;
        k.cheap_attrs = r.one_in(4);
        k.hot_ids = true;
        k.wild = r.bool();
        k.focus = Some(tags[(idx % tags.len() as u64) as usize]);
        if !r.one_in(3) {
            k.ver = Some(VERS[(idx / tags.len() as u64) as usize % VERS.len()]);
        }
        CaseRec { rec: rec::gen(r, &k), crc: 1, net: 0 }
    }
    fn exec(c: &CaseRec, st: &mut Stats) -> Result<(), Viol> {
        let img = c.rec.image();
        if let Some(r) = intact(&c.rec, &img, c.crc, c.net, st)? {
            if let Some(f) = &r.network_frames {
                for u in f.frames.iter().flat_map(|f| &f.updated_actors) {
                    st.count(&format!("attribute: {}", attr_kind(&u.attribute)));
                }
            }
        }
        Ok(())
    }
}
fn attr_kind(a: &boxcars::Attribute) -> String {
    let s = match val::V::v(a) {
        val::Val::Obj(o) if !o.is_empty() => o[0].0.to_string(),
        val::Val::Str(s) => s,
        _ => "?".into(),
    };
    s
}

// ------------------------------------------------------------------ C11
pub struct C11;
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case11 {
    rec: Rec,
    crc: u8,
    net: u8,
    /// Stored checksums that do not match (header, content).
    stored: Option<(u32, u32)>,
}

impl Prop for C11 {
    type Case = Case11;
    const ID: &'static str = "C11";
    const QUICK: u64 = 400_000;
    const RULE: &'static str = "runs whose (set of control-flow edges reached, outcome) differ";
    fn gen(r: &mut Rng, idx: u64) -> Case11 {
        let mut k = Knobs::small(r);
        k.bulk = 300;
        k.frames = r.below(3);
        k.header = r.size(30);
        k.footer = r.size(20);
        k.text_rich = !r.one_in(6);
        k.long_text = r.one_in(16);
        k.odd_tables = r.bool();
        let mut rec = rec::gen(r, &k);
        if idx % 31 == 0 {
            // as deep as the format is read
            let d = 1 + r.below(30);
            let mut p = vec![("x".to_string(), HP::Int(r.u32() as i32))];
            for _ in 0..d {
                p = vec![(
                    "n".to_string(),
                    if r.bool() { HP::Struct("S".into(), p) } else { HP::Array(vec![p]) },
                )];
            }
            rec.props.extend(p);
        }
        let stored = if r.one_in(6) { Some((r.u32(), r.u32())) } else { None };
        Case11 { rec, crc: r.below(3) as u8, net: r.below(3) as u8, stored }
    }
    fn exec(c: &Case11, st: &mut Stats) -> Result<(), Viol> {
        let mut img = c.rec.image();
        let mut crc = c.crc;
        if let Some((a, b)) = c.stored {
            let (h, k) = (img.header.0, img.content.0);
            img.bytes[h - 4..h].copy_from_slice(&a.to_le_bytes());
            img.bytes[k - 4..k].copy_from_slice(&b.to_le_bytes());
            st.fault("checksum_overwritten");
            crc = 1 + crc % 2;
        }
        intact(&c.rec, &img, crc, c.net, st)?;
        Ok(())
    }
}

// ------------------------------------------------------------------ C12
pub struct C12;
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case12 {
    rec: Rec,
    net: u8,
    /// Add an update of an undeclared attribute: (frame, actor choice, stream
    /// choice).
    odd: Option<(u32, u32, u32)>,
}

/// Live actors after `upto` whole frames.
fn live_after(rec: &Rec, w: &World, upto: usize) -> BTreeMap<u32, i32> {
    let mut live = BTreeMap::new();
    for f in rec.frames.iter().take(upto) {
        for e in &f.ev {
            match e {
                Ev::New(a, _, _, o, _) if fits_max(*a as u64, w.max_channels as u64) && w.table(*o).is_some() => {
                    live.insert(*a, *o);
                }
                Ev::Del(a) => {
                    live.remove(a);
                }
                _ => {}
            }
        }
    }
    live
}

/// Streams a table has room for but does not declare, or declares without a
/// known attribute.
fn undeclared(w: &World, obj: i32) -> Vec<i32> {
    let Some(t) = w.table(obj) else { return vec![] };
    if t.max < 0 {
        return vec![];
    }
    let room = (2u64 << t.bits()).min(4096) as i32;
    (0..room)
        .filter(|&s| fits_max(s as u64, t.max_u64()) && !matches!(t.attrs.get(&s), Some((Some(_), _))))
        .collect()
}

impl Prop for C12 {
    type Case = Case12;
    const ID: &'static str = "C12";
    const QUICK: u64 = 400_000;
    const RULE: &'static str = "runs whose (set of control-flow edges reached, outcome) differ";
    fn gen(r: &mut Rng, _: u64) -> Case12 {
        let mut k = Knobs::small(r);
        k.bulk = 400;
        k.frames = 1 + r.size(4);
        k.events = 2 + r.size(8);
        k.leaves = 1 + r.size(8);
        k.odd_tables = !r.one_in(5);
        k.cheap_attrs = true;
        k.hot_ids = true;
        k.text_rich = false;
        k.header = k.header.min(2);
        let mut rec = rec::gen(r, &k);
        let mut touched = false;
        // Lists of more than 25000 are refused by design.
        let room = rec.objects.len().max(rec.cache.len()) < 24_990;
        // Widths around powers of two.
        if r.one_in(3) && !rec.cache.is_empty() {
            let i = r.below(rec.cache.len());
            let obj = r.below(rec.objects.len()) as i32;
            let p = *r.pick(&[1i32, 2, 3, 4, 6, 7, 8, 14, 15, 16, 30, 31, 32, 62, 63, 64, 65, 126, 127, 128, 254, 255, 256, 510, 511, 512, 1023]);
            rec.cache[i].props.push((obj, p));
            touched = true;
        }
        // An instance of a class, near-misses included.
        if room && r.one_in(3) {
            let (s, _) = *r.pick(crate::world::INSTANCES);
            let n = match r.below(8) {
                0 => format!("TheWorld:PersistentLevel.{s}_7"),
                1 => format!("a_p.TheWorld:PersistentLevel.{s}_0"),
                2 => format!("a.b.TheWorld:PersistentLevel.{s}_1"),
                3 => format!("TheWorld:PersistentLevel.X{s}_1"),
                4 => format!("TheWorld:PersistentLevel.{s}"),
                5 => format!("xTheWorld:PersistentLevel.{s}_12"),
                6 => format!("thewrld:PersistentLevel.{s}_12345678"),
                _ => format!("Farm_p.TheWorld:PersistentLevel.{s}_{}", r.below(1000)),
            };
            rec.objects.push(n.as_str().into());
            touched = true;
        }
        // The same class declared again, or under a repeated object name.
        if room && r.one_in(4) && !rec.cache.is_empty() {
            let mut c = rec.cache[r.below(rec.cache.len())].clone();
            for p in &mut c.props {
                if r.bool() {
                    p.0 = r.below(rec.objects.len()) as i32;
                }
            }
            let at = r.below(rec.cache.len() + 1);
            rec.cache.insert(at, c);
            touched = true;
        }
        if room && r.one_in(10) && !rec.objects.is_empty() {
            let i = r.below(rec.objects.len());
            let d = rec.objects[i].clone();
            rec.objects.push(d);
            touched = true;
        }
        if r.one_in(30) {
            if let Some(c) = rec.cache.iter_mut().find(|c| !c.props.is_empty()) {
                c.props[0].0 = *r.pick(&[-1, i32::MAX, i32::MIN, 100_000]);
            }
            touched = true;
        }
        if touched {
            rec.frames.clear();
            rec.tail = Default::default();
            rec::gen_frames(r, &mut rec, &k);
        }
        let odd = if r.one_in(3) { Some((r.u32(), r.u32(), r.u32())) } else { None };
        Case12 { rec, net: simple_net(r), odd }
    }
    fn exec(c: &Case12, st: &mut Stats) -> Result<(), Viol> {
        let img = c.rec.image();
        let sane = intact(&c.rec, &img, 1, c.net, st)?.is_some();
        let (Some((f, a, s)), Ok(w), true) = (c.odd, &img.world, sane) else { return Ok(()) };
        let n = c.rec.frames.len();
        if n == 0 || w.num_frames.is_none() {
            return Ok(());
        }
        // One update nobody declared, with something behind it.
        let f = f as usize % n;
        let live: Vec<(u32, i32)> = live_after(&c.rec, w, f).into_iter().collect();
        if live.is_empty() {
            return Ok(());
        }
        let (id, obj) = live[a as usize % live.len()];
        let und = undeclared(w, obj);
        if und.is_empty() {
            return Ok(());
        }
        let stream = und[s as usize % und.len()];
        let mut rec = c.rec.clone();
        rec.frames[f].ev.insert(0, Ev::Raw(id, stream, vec![(s as u64 * 0x9E37_79B9, 64), (0, 64), (u64::MAX, 64)]));
        let img = rec.image();
        st.fault("undeclared_attribute");
        if w.num_frames.is_some_and(|n| n as i64 as usize > img.net.1 - img.net.0 || (n as i64 as usize) <= f) {
            return Ok(());
        }
        match read(st, &img.bytes, boxcars::CrcCheck::Always, NetworkParse::Always)? {
            Err(e) => match frame_error(&e) {
                Some(FrameError::MissingAttribute { actor, actor_object, attribute_stream })
                    if actor.0 as u32 == id && actor_object.0 == obj && attribute_stream.0 == stream =>
                {
                    Ok(())
                }
                _ => viol(
                    "undeclared",
                    format!("actor {id} of object {obj} has no attribute {stream}; expected it to be reported missing, got {}", show(&Err(e))),
                ),
            },
            Ok(r) => viol("undeclared", format!("actor {id} of object {obj} has no attribute {stream}, yet {}", show(&Ok(r)))),
        }
    }
}

// ------------------------------------------------------------------ C15
pub struct C15;
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case15 {
    rec: Rec,
    /// Further damage to the stream, closed over by the writer.
    faults: Vec<Fault>,
    cut: Option<u32>,
    crc: u8,
}

/// Puts an event that cannot be at some point of the history.
pub fn plant(r: &mut Rng, rec: &mut Rec) {
    if rec.frames.is_empty() || r.one_in(3) {
        return super::sect::impossible(r, rec);
    }
    let Ok(w) = rec.world() else { return };
    let f = r.below(rec.frames.len());
    let live: Vec<(u32, i32)> = live_after(rec, &w, f).into_iter().collect();
    let junk = |r: &mut Rng| -> Vec<(u64, u32)> { (0..2 + r.below(30)).map(|_| (r.u64(), 64)).collect() };
    let ev = match r.below(8) {
        // an actor deleted before
        0 | 1 => {
            let gone: Vec<u32> = rec.frames[..f]
                .iter()
                .flat_map(|f| &f.ev)
                .filter_map(|e| if let Ev::Del(a) = e { Some(*a) } else { None })
                .filter(|a| !live.iter().any(|l| l.0 == *a))
                .collect();
            if gone.is_empty() {
                match live.first() {
                    Some(&(id, _)) => {
                        rec.frames[f].ev.insert(0, Ev::Del(id));
                        rec.frames[f].ev.insert(1, Ev::Upd(id, vec![(r.below(4) as i32, 1)]));
                    }
                    None => super::sect::impossible(r, rec),
                }
                return;
            }
            Ev::Upd(*r.pick(&gone), vec![(r.below(4) as i32, 1)])
        }
        2 | 3 if !live.is_empty() => {
            let (id, obj) = *r.pick(&live);
            let u = undeclared(&w, obj);
            if u.is_empty() {
                return super::sect::impossible(r, rec);
            }
            Ev::Raw(id, *r.pick(&u), junk(r))
        }
        4..=6 if !live.is_empty() => {
            // a payload that cannot be read
            let mut cand = vec![];
            for &(id, obj) in &live {
                let t = w.table(obj).unwrap();
                for (s, (tag, _)) in &t.attrs {
                    if *s < 0 || t.max < 0 || !fits_max(*s as u64, t.max_u64()) {
                        continue;
                    }
                    if let Some(tag) = tag {
                        if matches!(
                            tag,
                            Tag::String | Tag::QWordString | Tag::UniqueId | Tag::PartyLeader | Tag::Reservation | Tag::PrivateMatchSettings | Tag::RepStatTitle
                        ) {
                            cand.push((id, *s, *tag));
                        }
                    }
                }
            }
            if cand.is_empty() {
                return super::sect::impossible(r, rec);
            }
            let (id, s, tag) = *r.pick(&cand);
            let size = *r.pick(&[1025i32, 1026, -513, -514, i32::MAX, i32::MIN, i32::MIN + 1, -1_000_000, 65536, 1_000_000]);
            let sys = *r.pick(&[3u64, 8, 9, 10, 12, 13, 100, 255]);
            let mut p = match tag {
                Tag::UniqueId | Tag::PartyLeader => {
                    if r.one_in(3) {
                        vec![(11, 8), (size as u32 as u64, 32)]
                    } else {
                        vec![(sys, 8)]
                    }
                }
                Tag::Reservation => vec![(r.u64(), 3), (sys, 8)],
                Tag::RepStatTitle => vec![(1, 1), (size as u32 as u64, 32)],
                _ => vec![(size as u32 as u64, 32)],
            };
            let j = junk(r);
            let n = r.below(j.len() + 1);
            p.extend(j.into_iter().take(n));
            Ev::Raw(id, s, p)
        }
        _ => return super::sect::impossible(r, rec),
    };
    let at = if r.bool() { 0 } else { r.below(rec.frames[f].ev.len() + 1) };
    rec.frames[f].ev.insert(at, ev);
}

/// `key: value` lines of a rendered block.
fn facts(lines: &[&str]) -> BTreeMap<String, String> {
    lines
        .iter()
        .filter_map(|l| l.split_once(": ").or_else(|| l.strip_suffix(':').map(|k| (k, ""))))
        .map(|(k, v)| (k.to_string(), v.to_string()))
        .collect()
}
fn numbers(s: &str) -> Vec<i64> {
    let mut v = vec![];
    let mut cur = String::new();
    for c in s.chars().chain(" ".chars()) {
        if c.is_ascii_digit() || (c == '-' && cur.is_empty()) {
            cur.push(c);
        } else {
            if let Ok(n) = cur.parse() {
                v.push(n);
            }
            cur.clear();
            if c == '-' {
                cur.push(c);
            }
        }
    }
    v
}

/// What the report must say about the fault the reference found.
fn same_fault(e: &FrameError, f: &refdec::Fault, left: usize) -> Result<(), String> {
    use refdec::Fault as F;
    let ok = match (f, e) {
        (F::NotEnough, FrameError::NotEnoughDataFor(_)) => true,
        (F::Time(t), FrameError::TimeOutOfRange { time }) => time.to_bits() == *t,
        (F::Delta(t), FrameError::DeltaOutOfRange { delta }) => delta.to_bits() == *t,
        (F::Object(o), FrameError::ObjectIdOutOfRange { obj }) => obj.0 == *o,
        (F::MissingActor(a), FrameError::MissingActor { actor }) => actor.0 == *a,
        (F::MissingCache(a, o), FrameError::MissingCache { actor, actor_object }) => actor.0 == *a && actor_object.0 == *o,
        (F::MissingAttr(a, o, s), FrameError::MissingAttribute { actor, actor_object, attribute_stream }) => {
            actor.0 == *a && actor_object.0 == *o && attribute_stream.0 == *s
        }
        (F::Attr(a, o, s, w), FrameError::AttributeError { actor, actor_object, attribute_stream, error }) => {
            actor.0 == *a
                && actor_object.0 == *o
                && attribute_stream.0 == *s
                && match (w, error) {
                    (AErr::NotEnough, AttributeError::NotEnoughDataFor(_)) => true,
                    (AErr::Remote(x), AttributeError::UnrecognizedRemoteId(y)) => x == y,
                    (AErr::BigString(x), AttributeError::TooBigString(y)) => x == y,
                    _ => false,
                }
        }
        // At the very end of the data a reader may find the end first.
        (_, FrameError::NotEnoughDataFor(_)) => left == 0,
        _ => false,
    };
    if ok {
        Ok(())
    } else {
        Err(format!("{e:?} reported, first impossible event is {f:?}"))
    }
}

fn judge_render(text: &str, d: &Decoded, f: &FrameError, w: &World) -> Result<(), String> {
    let Some(c) = current_frame(text) else { return Err(format!("the rendering does not say which frame: {text:?}")) };
    if c != d.frames.len() {
        return Err(format!("the rendering says {c} frames were complete, {} were", d.frames.len()));
    }
    let at = text.find("Current frame: ").unwrap();
    let head = &text[..at];
    let nums = numbers(head);
    let has = |n: i64, what: &str| -> Result<(), String> {
        if nums.contains(&n) {
            Ok(())
        } else {
            Err(format!("the rendering does not name {what} {n}: {head:?}"))
        }
    };
    let name = |o: i32| w.objects.get(o as usize).cloned().unwrap_or_default();
    match f {
        FrameError::MissingActor { actor } => has(actor.0 as i64, "actor")?,
        FrameError::ObjectIdOutOfRange { obj } => has(obj.0 as i64, "object")?,
        FrameError::MissingCache { actor, actor_object } => {
            has(actor.0 as i64, "actor")?;
            has(actor_object.0 as i64, "object")?;
            if !head.contains(&name(actor_object.0)) {
                return Err(format!("the rendering does not name {:?}: {head:?}", name(actor_object.0)));
            }
        }
        FrameError::MissingAttribute { actor, actor_object, attribute_stream }
        | FrameError::AttributeError { actor, actor_object, attribute_stream, .. } => {
            has(actor.0 as i64, "actor")?;
            has(actor_object.0 as i64, "object")?;
            has(attribute_stream.0 as i64, "stream")?;
            let t = w.table(actor_object.0);
            let own = t.and_then(|t| t.attrs.get(&attribute_stream.0));
            match own {
                // declared, but nobody knows how to read it: its name helps
                Some((None, po)) => {
                    if !head.contains(&name(*po)) {
                        return Err(format!("the rendering does not name the unknown attribute {:?}: {head:?}", name(*po)));
                    }
                }
                _ => {
                    if !head.contains(&name(actor_object.0)) {
                        return Err(format!("the rendering does not name {:?}: {head:?}", name(actor_object.0)));
                    }
                    for t in w.tables.iter().flatten() {
                        if let Some((_, po)) = t.attrs.get(&attribute_stream.0) {
                            if !head.contains(&name(*po)) {
                                return Err(format!("{:?} has stream {} too but is not listed: {head:?}", name(*po), attribute_stream.0));
                            }
                        }
                    }
                }
            }
        }
        FrameError::TimeOutOfRange { time } => {
            if !head.contains(&time.to_string()) {
                return Err(format!("the rendering does not give the time {time}: {head:?}"));
            }
        }
        FrameError::DeltaOutOfRange { delta } => {
            if !head.contains(&delta.to_string()) {
                return Err(format!("the rendering does not give the delta {delta}: {head:?}"));
            }
        }
        FrameError::NotEnoughDataFor(_) => {}
    }
    // The last thing read before it: in this frame, else in the latest frame
    // that has something.
    let lines: Vec<&str> = text[at..].lines().collect();
    let last = d.frames.last();
    for (what, v) in [("time: ", last.map(|f| f.time).unwrap_or(0.0)), ("delta: ", last.map(|f| f.delta).unwrap_or(0.0))] {
        if !lines[0].contains(&format!("{what}{v}")) {
            return Err(format!("the rendering does not give {what}{v} of the last complete frame: {:?}", lines[0]));
        }
    }
    let here: (&[boxcars::UpdatedAttribute], &[boxcars::NewActor]) = (&d.upd_before, &d.new_before);
    let (upd, new) = if here.0.is_empty() && here.1.is_empty() {
        match d.frames.iter().enumerate().rev().find(|(_, f)| !f.new_actors.is_empty() || !f.updated_actors.is_empty()) {
            Some((i, f)) => {
                let k = format!("Retrace frame: {i} ");
                if !lines.iter().any(|l| l.starts_with(&k) && l.contains(&format!("time: {}", f.time))) {
                    return Err(format!("the rendering does not go back to frame {i}: {:?}", &lines[..lines.len().min(4)]));
                }
                (f.updated_actors.last(), f.new_actors.last())
            }
            None => (None, None),
        }
    } else {
        (here.0.last(), here.1.last())
    };
    let fa = facts(&lines);
    let want = |k: &str, v: String| -> Result<(), String> {
        match fa.get(k) {
            Some(x) if *x == v => Ok(()),
            x => Err(format!("the last event read has {k}: {v}, the rendering says {x:?}")),
        }
    };
    match (upd, new) {
        (Some(u), _) => {
            if !fa.contains_key("Last actor update") {
                return Err("the rendering does not show the last update".into());
            }
            want("actor id", u.actor_id.0.to_string())?;
            // The actor's object, unless the id changed hands since.
            let a = u.actor_id.0;
            let mut made = d.frames.iter().flat_map(|f| &f.new_actors).chain(&d.new_before).filter(|n| n.actor_id.0 == a);
            if let Some(&o) = d.live.get(&a) {
                if made.all(|n| n.object_id.0 == o) {
                    want("object id", o.to_string())?;
                    want("object name", name(o))?;
                }
            }
            want("attribute stream id", u.stream_id.0.to_string())?;
            want("attribute object id", u.object_id.0.to_string())?;
            want("attribute object name", name(u.object_id.0))?;
            let a = format!("{:?}", u.attribute);
            if !text[at..].contains(&format!("attribute: {a}")) {
                return Err(format!("the last update's value {a} is not in the rendering"));
            }
        }
        (None, Some(n)) => {
            if !fa.contains_key("Last new actor") {
                return Err("the rendering does not show the last new actor".into());
            }
            want("actor id", n.actor_id.0.to_string())?;
            want("object id", n.object_id.0.to_string())?;
            want("object name", name(n.object_id.0))?;
            want("name id", n.name_id.map(|x| x.to_string()).unwrap_or("<none>".into()))?;
            want("location", format!("{:?}", n.initial_trajectory.location))?;
            want("rotation", format!("{:?}", n.initial_trajectory.rotation))?;
        }
        (None, None) => {
            if fa.contains_key("Last actor update") || fa.contains_key("Last new actor") {
                return Err("the rendering shows an event though none was read".into());
            }
        }
    }
    Ok(())
}

impl Prop for C15 {
    type Case = Case15;
    const ID: &'static str = "C15";
    const QUICK: u64 = 300_000;
    const RULE: &'static str = "runs whose (set of control-flow edges reached, outcome) differ";
    fn gen(r: &mut Rng, _: u64) -> Case15 {
        let mut k = Knobs::small(r);
        k.bulk = 400;
        k.frames = 1 + r.size(10);
        k.events = 1 + r.size(6);
        k.header = k.header.min(2);
        k.text_rich = false;
        k.odd_tables = r.bool();
        k.wild = r.one_in(4);
        if r.one_in(3) {
            k.focus = Some(*r.pick(&[Tag::String, Tag::UniqueId, Tag::Reservation, Tag::PartyLeader, Tag::PrivateMatchSettings, Tag::QWordString]));
        }
        let mut rec = rec::gen(r, &k);
        let mut faults = vec![];
        let mut cut = None;
        match r.below(8) {
            0 => faults = (0..1 + r.below(2)).map(|_| same_length(r)).collect(),
            1 => cut = Some(r.u32()),
            2 => {
                plant(r, &mut rec);
                plant(r, &mut rec);
            }
            3 => {
                plant(r, &mut rec);
                cut = Some(u32::MAX - r.below(12) as u32);
            }
            _ => plant(r, &mut rec),
        }
        let n = r.size(60);
        rec.tail.extra.extend((0..n).map(|_| r.u64() as u8));
        Case15 { rec, faults, cut, crc: r.below(3) as u8 }
    }
    fn exec(c: &Case15, st: &mut Stats) -> Result<(), Viol> {
        let img = c.rec.image();
        let Ok(w) = &img.world else { return Ok(()) };
        let Some(n) = w.num_frames else { return Ok(()) };
        if c.rec.props.iter().any(|p| p.0 == "None") {
            return Ok(());
        }
        let mut d = Dmg::new(&img);
        for f in &c.faults {
            d.apply(f);
        }
        if let Some(k) = c.cut {
            let len = d.net.1 - d.net.0;
            let k = if k > u32::MAX - 64 { len.saturating_sub((u32::MAX - k) as usize) } else { k as usize % (len + 1) };
            let lost = len - k;
            let (a, b) = (d.net.0 + k, d.net.1);
            d.bytes.drain(a..b);
            d.net.1 -= lost;
            d.content.1 -= lost;
            if lost > 0 {
                d.fired.push("stream_cut");
            }
        }
        for f in &d.fired {
            st.fault(f);
        }
        if img.bad_frame.is_some() {
            st.fault("impossible_event");
        }
        d.refinalize();
        let net = &d.bytes[d.net.0..d.net.1];
        let out = read(st, &d.bytes, CRCS[c.crc as usize % 3], NetworkParse::Always)?;
        see_out(st, &out);
        if n as i64 as usize > net.len() {
            return match &out {
                Err(e) if same_table(e, &TableErr::TooManyFrames(n)) => Ok(()),
                o => viol("count", format!("{n} frames claimed in {} bytes of stream: {}", net.len(), show(o))),
            };
        }
        let dec = refdec::decode(w, net, n as usize);
        let Some(f) = &dec.fault else {
            if let Some(x) = against(&dec, n as usize, &out) {
                bad!("possible", "{x}");
            }
            return Ok(());
        };
        let e = match &out {
            Ok(r) => bad!("undiagnosed", "{f:?} in frame {} went unnoticed: {}", dec.frames.len(), show(&Ok(r.clone()))),
            Err(e) => e,
        };
        st.count(&format!("first fault: {}", format!("{f:?}").chars().take_while(|c| c.is_alphanumeric()).collect::<String>()));
        let Some(fe) = frame_error(e) else { bad!("kind", "[{}] for {f:?}", kind(e)) };
        if let Err(m) = same_fault(fe, f, net.len() * 8 - dec.pos.min(net.len() * 8)) {
            bad!("fault", "{m}");
        }
        // A reader that met the end of the data first may not have the event.
        let near_end = matches!(fe, FrameError::NotEnoughDataFor(_)) && !matches!(f, refdec::Fault::NotEnough);
        if !near_end {
            let text = e.to_string();
            if let Err(m) = judge_render(&text, &dec, fe, w) {
                bad!("rendering", "{m}");
            }
            // The cause chain ends in the same fault.
            let chain = glue::render_error(e);
            if let FrameError::AttributeError { error, .. } = fe {
                if chain.last() != Some(&error.to_string()) {
                    bad!("causes", "the cause chain ends in {:?}, not in {:?}", chain.last(), error.to_string());
                }
            }
        }
        Ok(())
    }
}
#[allow(dead_code)]
fn _unused(_: &[Frame], _: &FrameR) {
    let _ = tables::ATTRS;
}
