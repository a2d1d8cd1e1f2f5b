//! C04 to C07: checksums, readability of sections, torn files.
use super::*;
use crate::bad;
use crate::faults::Reg;
use crate::refbody::{self, Ref, Stop, Why};
use crate::val;
use boxcars::{CrcCheck, NetworkParse, ParseError};

fn mismatch(e: &ParseError) -> Option<(u32, u32)> {
    chain(e).into_iter().find_map(|e| match e {
        ParseError::CrcMismatch(a, b) => Some((*a, *b)),
        _ => None,
    })
}
fn corrupt(e: &ParseError) -> Option<&str> {
    chain(e).into_iter().find_map(|e| match e {
        ParseError::CorruptReplay(s, _) => Some(s.as_str()),
        _ => None,
    })
}
fn net_err(e: &ParseError) -> bool {
    matches!(chain(e).last(), Some(ParseError::NetworkError(_)))
}

/// Two outcomes that must be the same.
pub fn differ(a: &Out, b: &Out) -> Option<String> {
    match (a, b) {
        (Ok(x), Ok(y)) => val::diff_replay(x, y),
        (Err(x), Err(y)) => {
            if kind(x) != kind(y) {
                return Some(format!("[{}] against [{}]", kind(x), kind(y)));
            }
            let (p, q) = (glue::render_error(x), glue::render_error(y));
            (p != q).then(|| format!("{p:?} against {q:?}"))
        }
        _ => Some(format!("{} against {}", show(a), show(b))),
    }
}
/// The replay without its frames against what the reference read.
pub fn same_rest(want: &Replay, got: &Replay) -> Option<String> {
    let mut g = got.clone();
    g.network_frames = None;
    let mut w = want.clone();
    w.network_frames = None;
    val::diff_replay(&w, &g)
}
use boxcars::Replay;

// ------------------------------------------------------------------ C04
pub struct C04;
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case4 {
    shot: Shot,
    net: u8,
    /// Slack bytes appended to the content, to reach long sections.
    pad: u32,
}

fn burst(r: &mut Rng, reg: Reg) -> Fault {
    let at = match r.below(4) {
        0 => r.below(256) as u32,
        _ => r.u32(),
    };
    let mask = match r.below(4) {
        0 => 1,
        1 => 1 | 1 << r.below(32),
        2 => 1 | r.u32(),
        _ => 0xff,
    };
    Fault::Burst(reg, at, mask)
}

impl Prop for C04 {
    type Case = Case4;
    const ID: &'static str = "C04";
    const QUICK: u64 = 800_000;
    const RULE: &'static str = "runs whose (set of control-flow edges reached, outcome) differ";
    fn gen(r: &mut Rng, _: u64) -> Case4 {
        let mut k = Knobs::small(r);
        k.bulk = 600;
        let mut rec = rec::gen(r, &k);
        let pad = if r.one_in(60) { 60_000 + r.below(20_000) as u32 } else { 0 };
        let pad = if r.one_in(3000) { *r.pick(&[1u32 << 20, 4 << 20, 5 << 20, 8 << 20, 17 << 20]) + r.below(3) as u32 } else { pad };
        if r.bool() {
            let n = r.size(80);
            rec.slack = (0..n).map(|_| r.u64() as u8).collect();
        }
        let mut faults = vec![];
        let mut close = 0;
        match r.below(10) {
            0 => {}
            1..=5 => faults.push({
                let reg = *r.pick(&[Reg::Header, Reg::Content, Reg::Content, Reg::Net, Reg::Footer, Reg::Front]);
                burst(r, reg)
            }),
            6 => {
                for _ in 0..2 {
                    let reg = *r.pick(&[Reg::Header, Reg::Content]);
                    faults.push(burst(r, reg));
                }
            }
            7 => faults.push({
                let reg = *r.pick(&[Reg::Words, Reg::Words2]);
                burst(r, reg)
            }),
            8 => {
                for _ in 0..1 + r.below(3) {
                    faults.push(faults::gen_any(r));
                }
                close = r.below(3) as u8;
            }
            _ => {
                // Damage the writer itself recorded: right checksums.
                for _ in 0..1 + r.below(2) {
                    faults.push(faults::gen_any(r));
                }
                close = 1 + r.below(2) as u8;
            }
        }
        Case4 { shot: Shot { rec, faults, close }, net: r.below(3) as u8, pad }
    }
    fn exec(c: &Case4, st: &mut Stats) -> Result<(), Viol> {
        let mut shot = c.shot.clone();
        if c.pad > 0 {
            let mut g = Rng::new(shot.rec.junk);
            shot.rec.slack.extend((0..c.pad.min(20 << 20)).map(|_| g.u64() as u8));
        }
        let (img, d) = shot.build(st);
        let r = refbody::read(&d.bytes);
        let net = NETS[c.net as usize % 3];
        let o = read(st, &d.bytes, CrcCheck::Always, net)?;
        see_out(st, &o);
        // Single bursts inside a section: whatever the reference thinks.
        let inside = |f: &Fault| matches!(f, Fault::Burst(Reg::Header | Reg::Content | Reg::Net | Reg::Footer | Reg::Front, ..));
        if shot.faults.len() == 1 && inside(&shot.faults[0]) && shot.close == 0 && d.bytes != img.bytes && o.is_ok() {
            bad!("accepted", "a replay with a damaged burst {:?} was accepted", shot.faults[0]);
        }
        for (s, name) in [(&r.header, "header"), (&r.content, "body")] {
            let Some(s) = s else { break };
            if !s.covered {
                break;
            }
            if !s.crc_ok() {
                st.count("judged: checksum wrong");
                return match &o {
                    Ok(_) => viol("accepted", format!("the {name} stores checksum {} but its bytes have {}: accepted", s.stored, s.computed)),
                    Err(e) => match mismatch(e) {
                        Some((a, b)) if (a, b) == (s.stored, s.computed) => Ok(()),
                        Some((a, b)) => viol("mismatch report", format!("the {name} stores {} and has {}, reported {a} and {b}", s.stored, s.computed)),
                        None => viol("mismatch report", format!("the {name}'s checksum is wrong, reported {}", show(&o))),
                    },
                };
            }
            if s.read.is_err() {
                break;
            }
        }
        st.count("judged: checksums right as far as read");
        match &o {
            Err(e) if mismatch(e).is_some() => {
                bad!("false mismatch", "both checksums are right, reported [{}]", kind(e))
            }
            Err(e) if r.replay.is_some() && !(net_err(e) && net == NetworkParse::Always) => {
                bad!("refused", "checksums right and sections readable, got error [{}]", kind(e))
            }
            Ok(_) if r.replay.is_none() => bad!("accepted unreadable", "a section is unreadable, a replay was returned"),
            _ => Ok(()),
        }
    }
}

// ------------------------------------------------------------------ C05
pub struct C05;
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case5 {
    shot: Shot,
    /// Stored checksum words afterwards, when not as closed.
    words: Vec<(u8, u32)>,
    net: u8,
    dirty: Vec<u8>,
}

/// Overwrites the stored checksum of a section.
fn set_word(b: &mut [u8], r: &Ref, which: u8, v: u32) {
    let s = if which % 2 == 0 { r.header.as_ref() } else { r.content.as_ref() };
    if let Some(s) = s {
        b[s.at - 4..s.at].copy_from_slice(&v.to_le_bytes());
    }
}

impl Prop for C05 {
    type Case = Case5;
    const ID: &'static str = "C05";
    const QUICK: u64 = 300_000;
    const RULE: &'static str = "runs whose (set of control-flow edges reached, outcomes) differ";
    fn gen(r: &mut Rng, _: u64) -> Case5 {
        let mut k = Knobs::small(r);
        k.bulk = 600;
        let mut shot = Shot::gen(r, &k, 3);
        shot.close = *r.pick(&[0, 0, 0, 1, 1, 2, 2, 2]);
        let mut words = vec![];
        for _ in 0..r.below(3) {
            words.push((r.below(2) as u8, r.edgy(32) as u32));
        }
        Case5 { shot, words, net: r.below(3) as u8, dirty: (0..2).map(|_| r.below(64) as u8).collect() }
    }
    fn exec(c: &Case5, st: &mut Stats) -> Result<(), Viol> {
        let mut d = c.shot.build(st).1.bytes;
        let r0 = refbody::read(&d);
        for (w, v) in &c.words {
            st.fault("checksum_word_overwritten");
            set_word(&mut d, &r0, *w, *v);
        }
        let r = refbody::read(&d);
        // Verification off, network data skipped: the plain truth.
        let plain = read(st, &d, CrcCheck::Never, NetworkParse::Never)?;
        see_out(st, &plain);
        match (&plain, &r.replay) {
            (Ok(a), Some(b)) => {
                if let Some(x) = val::diff_replay(b, a) {
                    bad!("readable section altered", "{x}");
                }
            }
            (Err(e), None) => {
                if mismatch(e).is_some() || corrupt(e).is_some() {
                    bad!("checksum used", "verification is off, reported [{}]", kind(e));
                }
            }
            (Ok(_), None) => bad!("unreadable returned", "a section cannot be read (header {:?}, content {:?}) but a replay was returned", r.header.as_ref().map(|h| h.read.clone()), r.content.as_ref().map(|h| h.read.clone())),
            (Err(e), Some(_)) => bad!("readable refused", "both sections are readable, reported [{}]", kind(e)),
        }
        // The section to blame.
        let bad = [(&r.header, "header"), (&r.content, "body")].into_iter().find_map(|(s, n)| s.as_ref().filter(|s| s.read.is_err()).map(|s| (s, n)));
        let got = read(st, &d, CrcCheck::OnError, NetworkParse::Never)?;
        match (&plain, &got) {
            (Ok(a), Ok(b)) => {
                if let Some(x) = val::diff_replay(a, b) {
                    bad!("on error differs", "a readable replay differs between verification off and on error: {x}");
                }
            }
            (Ok(_), Err(e)) => bad!("readable blamed", "both sections are readable, on-error verification reports [{}]", kind(e)),
            (Err(e), Ok(_)) => bad!("error lost", "unreadable ([{}]) but on-error verification returns a replay", kind(e)),
            (Err(e), Err(g)) => {
                let blame = bad.filter(|b| b.0.covered && !b.0.crc_ok());
                st.count(if blame.is_some() { "judged: unreadable and checksum wrong" } else { "judged: unreadable, checksum right or beyond the file" });
                match (blame, g) {
                    (Some((_, n)), ParseError::CorruptReplay(s, cause)) => {
                        let named = s.to_lowercase();
                        let ok = named.contains(n) || (n == "body" && named.contains("content"));
                        if !ok {
                            bad!("wrong section", "the {n} is corrupt, reported {s:?}");
                        }
                        if let Some(x) = differ(&Err(e.clone()), &Err((**cause).clone())) {
                            bad!("cause lost", "cause without verification against the kept cause: {x}");
                        }
                    }
                    (Some((_, n)), _) => bad!("not blamed", "the {n} is unreadable and its checksum wrong, reported [{}]", kind(g)),
                    (None, _) => {
                        if let Some(x) = differ(&Err(e.clone()), &Err(g.clone())) {
                            bad!("blamed", "the failing bytes match their checksum, plain cause expected: {x}");
                        }
                    }
                }
            }
        }
        // Network options on top.
        let net = NETS[c.net as usize % 3];
        let off = read(st, &d, CrcCheck::Never, net)?;
        let one = read(st, &d, CrcCheck::OnError, net)?;
        if plain.is_ok() {
            if let Some(x) = differ(&off, &one) {
                bad!("network error blamed", "sections readable, verification off against on error ({net:?}): {x}");
            }
        } else {
            if let Some(x) = differ(&plain, &off) {
                bad!("option leak", "unreadable section, network data skipped against {net:?}: {x}");
            }
            if let Some(x) = differ(&got, &one) {
                bad!("option leak", "unreadable section on error, network data skipped against {net:?}: {x}");
            }
        }
        // With verification off the stored checksums never matter.
        let mut d2 = d.clone();
        set_word(&mut d2, &r, 0, !r.header.as_ref().map(|h| h.stored).unwrap_or(0));
        set_word(&mut d2, &r, 1, r.content.as_ref().map(|h| h.stored ^ 0x8001).unwrap_or(0));
        let off2 = read(st, &d2, CrcCheck::Never, net)?;
        let norm = |o: &Out| -> Out {
            let mut o = o.clone();
            if let Ok(r) = &mut o {
                r.header_crc = 0;
                r.content_crc = 0;
            }
            o
        };
        if let Some(x) = differ(&norm(&off), &norm(&off2)) {
            bad!("checksum used", "verification off, other stored checksums: {x}");
        }
        // Spellings of the same options.
        for (i, &dirty) in c.dirty.iter().enumerate() {
            let (cr, ne) = ((dirty as usize + i) % 4, (c.net as usize + (dirty as usize >> 2)) % 4);
            let want = read(
                st,
                &d,
                [CrcCheck::Always, CrcCheck::Never, CrcCheck::OnError, CrcCheck::OnError][cr],
                [NetworkParse::Always, NetworkParse::Never, NetworkParse::IgnoreOnError, NetworkParse::IgnoreOnError][ne],
            )?;
            let (g, m) = crate::seam::metered(Default::default(), || glue::parse_spelled(&d, cr as u8, ne as u8, dirty));
            st.calls += 1;
            st.steps += m.steps;
            match g {
                Err(p) => bad!("panic", "{p}"),
                Ok(g) => {
                    if let Some(x) = differ(&want, &g) {
                        bad!("spelling", "checksum option {cr}, network option {ne} (3 = default), history {dirty}: {x}");
                    }
                }
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ C06
pub struct C06;
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case6 {
    shot: Shot,
    crc: u8,
    /// NumFrames as claimed, when not the recorded count.
    claim: Option<i32>,
}

impl Prop for C06 {
    type Case = Case6;
    const ID: &'static str = "C06";
    const QUICK: u64 = 300_000;
    const RULE: &'static str = "runs whose (set of control-flow edges reached, outcomes) differ";
    fn gen(r: &mut Rng, _: u64) -> Case6 {
        let mut k = Knobs::small(r);
        k.bulk = 600;
        k.frames = 1 + r.size(8);
        k.odd_tables = r.bool();
        let mut rec = rec::gen(r, &k);
        if r.one_in(5) {
            impossible(r, &mut rec);
        }
        if r.one_in(12) {
            // a class table that points outside the objects
            if let Some(c) = rec.cache.iter_mut().find(|c| !c.props.is_empty()) {
                c.props[0].0 = *r.pick(&[-1, i32::MAX, 100_000]);
            }
        }
        let n = if r.one_in(6) { 0 } else { 1 + r.below(3) };
        let faults = (0..n)
            .map(|_| match r.below(8) {
                0 => Fault::Drop(Reg::Net, r.u32(), u32::MAX >> 1),
                _ => match faults::gen_in(r, Reg::Net) {
                    Fault::Trunc(..) => Fault::Drop(Reg::Net, r.u32(), u32::MAX >> 1),
                    f => f,
                },
            })
            .collect();
        let claim = if r.one_in(6) { Some(faults::gen_word(r) as i32) } else { None };
        Case6 { shot: Shot { rec, faults, close: 1 }, crc: r.below(3) as u8, claim }
    }
    fn exec(c: &Case6, st: &mut Stats) -> Result<(), Viol> {
        let mut shot = c.shot.clone();
        if let Some(n) = c.claim {
            shot.rec.set_int("NumFrames", n);
            st.fault("frame_count_claimed");
        }
        let (img, d) = shot.build(st);
        let crc = CRCS[c.crc as usize % 3];
        let r = refbody::read(&d.bytes);
        // What was recorded, with the sizes and checksums as written.
        let mut want = shot.rec.expect(&img, None);
        match &r.replay {
            Some(x) => {
                want.content_size = x.content_size;
                want.content_crc = x.content_crc;
                if val::diff_replay(&want, x).is_some() {
                    bad!("harness", "reference reader and recorder disagree: {:?}", val::diff_replay(&want, x));
                }
            }
            // Names and properties the format cannot hold.
            None => return Ok(()),
        }
        let skip = read(st, &d.bytes, crc, NetworkParse::Never)?;
        let ign = read(st, &d.bytes, crc, NetworkParse::IgnoreOnError)?;
        let req = read(st, &d.bytes, crc, NetworkParse::Always)?;
        see_out(st, &req);
        match &skip {
            Err(e) => bad!("skip fails", "network data skipped: [{}]", kind(e)),
            Ok(s) => {
                if s.network_frames.is_some() {
                    bad!("skip has frames", "network data skipped, frames returned");
                }
                if let Some(x) = same_rest(&want, s) {
                    bad!("skip altered", "{x}");
                }
            }
        }
        let frames = match &ign {
            Err(e) => bad!("ignore fails", "network errors ignored: [{}]", kind(e)),
            Ok(s) => {
                if let Some(x) = same_rest(&want, s) {
                    bad!("ignore altered", "{x}");
                }
                s.network_frames.as_ref()
            }
        };
        match (&req, frames) {
            (Ok(s), Some(f)) => {
                if let Some(x) = same_rest(&want, s) {
                    bad!("require altered", "{x}");
                }
                match &s.network_frames {
                    None => bad!("require lacks frames", "network data required, none returned"),
                    Some(g) => {
                        if let Some(x) = val::diff_frames(&g.frames, &f.frames) {
                            bad!("frames disagree", "requiring against ignoring: {x}");
                        }
                    }
                }
            }
            (Err(e), None) => {
                if !net_err(e) || corrupt(e).is_some() || mismatch(e).is_some() {
                    bad!("wrong error", "damage to network data reported as [{}]", kind(e));
                }
            }
            (Ok(_), None) => bad!("frames lost", "requiring returns frames, ignoring does not"),
            (Err(e), Some(_)) => bad!("frames invented", "requiring fails with [{}], ignoring returns frames", kind(e)),
        }
        Ok(())
    }
}

/// Puts one event that cannot be somewhere into the history.
pub fn impossible(r: &mut Rng, rec: &mut Rec) {
    use crate::rec::{Ev, FrameR};
    if rec.frames.is_empty() {
        rec.frames.push(FrameR { t: 1.0f32.to_bits(), d: 0.5f32.to_bits(), ev: vec![] });
        rec.set_int("NumFrames", 1);
    }
    let i = r.below(rec.frames.len());
    let f = &mut rec.frames[i];
    let at = r.below(f.ev.len() + 1);
    let id = *r.pick(&[0u32, 1, 5, 198, 199, 200, 201, 900]);
    match r.below(7) {
        0 => f.t = *r.pick(&[(-1.0f32).to_bits(), 1e-11f32.to_bits(), 1, 0xff80_0000, (-1e-30f32).to_bits()]),
        1 => f.d = *r.pick(&[(-1.0f32).to_bits(), 1e-11f32.to_bits(), 1, 0xff80_0000, 0x2edb_e6fe]),
        2 => f.ev.insert(at, Ev::New(id, 1, false, *r.pick(&[-1, i32::MAX, i32::MIN, 5000]), 1)),
        3 => f.ev.insert(at, Ev::New(id, 1, false, r.below(60) as i32, 1)),
        4 => f.ev.insert(at, Ev::Upd(id, vec![(0, 1)])),
        _ => {
            let stream = r.below(20) as i32;
            f.ev.insert(at, Ev::Raw(id, stream, (0..r.below(40)).map(|_| (r.u64(), 1 + r.below(64) as u32)).collect()))
        }
    }
}

// ------------------------------------------------------------------ C07
pub struct C07;
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case7 {
    rec: Rec,
    cuts: Vec<u32>,
    all: bool,
    tails: Vec<(u8, u32, u64)>,
}

impl Prop for C07 {
    type Case = Case7;
    const ID: &'static str = "C07";
    const QUICK: u64 = 120_000;
    const RULE: &'static str = "runs whose (set of control-flow edges reached, outcomes over the cuts) differ";
    fn gen(r: &mut Rng, idx: u64) -> Case7 {
        let mut k = Knobs::small(r);
        k.bulk = 500;
        let all = idx % 64 == 0;
        if all {
            k.header = k.header.min(2);
            k.footer = k.footer.min(1);
            k.leaves = 1;
            k.text_rich = false;
        }
        let mut rec = rec::gen(r, &k);
        if r.one_in(3) {
            rec.cache.clear();
        }
        Case7 {
            rec,
            cuts: (0..12)
                .map(|_| match r.below(4) {
                    0 => u32::MAX - r.size(200) as u32,
                    1 => r.size(300) as u32,
                    _ => r.u32() >> 1,
                })
                .collect(),
            all,
            tails: (0..2).map(|_| (r.below(5) as u8, r.size(4096) as u32, r.u64())).collect(),
        }
    }
    fn exec(c: &Case7, st: &mut Stats) -> Result<(), Viol> {
        let mut rec = c.rec.clone();
        rec.after.clear();
        let img = rec.image();
        let end = img.content.1;
        let mut g = Rng::new(rec.junk);
        let mut cuts: Vec<usize> = c
            .cuts
            .iter()
            .map(|&x| if x > u32::MAX / 2 { end.saturating_sub(1 + (u32::MAX - x) as usize) } else { x as usize % end })
            .collect();
        if c.all {
            cuts = (0..end).collect();
            if end > 4000 {
                cuts.retain(|&c| c % (end / 2000) == 0 || c + 200 > end);
            }
        }
        for x in [img.header.0, img.header.1, img.content.0, img.net.0, img.net.1, end - 1] {
            if x < end && !c.all && g.one_in(3) {
                cuts.push(x);
            }
        }
        for cut in cuts {
            st.fault("short_write");
            // A copy of exactly the bytes that exist.
            let part = img.bytes[..cut].to_vec();
            let all = g.one_in(8);
            let (a, b) = (g.below(3), g.below(3));
            for (i, crc) in CRCS.into_iter().enumerate() {
                for (j, net) in NETS.into_iter().enumerate() {
                    if !all && (i, j) != (a, b) && (i, j) != (1, 1) {
                        continue;
                    }
                    let o = read(st, &part, crc, net)?;
                    st.see_str(&show(&o));
                    if o.is_ok() {
                        bad!("torn file accepted", "the first {cut} of {end} bytes read with {crc:?}/{net:?} as {}", show(&o));
                    }
                }
            }
        }
        // What is left after the content.
        for &(k, n, seed) in &c.tails {
            st.fault("trailing_slack");
            let mut d = img.bytes[..end].to_vec();
            let mut t = Rng::new(seed);
            match k % 5 {
                0 => d.extend((0..n).map(|_| t.u64() as u8)),
                1 => d.extend(std::iter::repeat(0u8).take(n as usize)),
                2 => d.extend(std::iter::repeat(0xffu8).take(n as usize)),
                3 => d.extend_from_slice(&img.bytes[..end.min(n as usize)]),
                _ => d.extend_from_slice(&img.bytes[end.saturating_sub(n as usize)..end]),
            }
            for (crc, net) in [(CRCS[t.below(3)], NETS[t.below(3)]), (CrcCheck::Always, NetworkParse::Always)] {
                let a = read(st, &img.bytes[..end], crc, net)?;
                let b = read(st, &d, crc, net)?;
                if let Some(x) = differ(&a, &b) {
                    bad!("slack matters", "{} bytes after the content change the outcome ({crc:?}/{net:?}): {x}", d.len() - end);
                }
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ C23
pub struct C23;
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case23 {
    shot: Shot,
    /// Bytes of stream in front of the footer.
    pad: u32,
    net: u8,
}

/// `back` is how far before the stop the report points: a part read in one
/// go is short as a whole.
fn same_why(w: &Why, back: i64, e: &ParseError) -> bool {
    match (w, e) {
        (Why::End(a, b), ParseError::InsufficientData(c, d)) => {
            // The fields hold 32 bits with a sign; sizes beyond wrap.
            let need = *a as i64 + back;
            *d as i64 == *b as i64 + back && (need as i32 == *c || (need..=need + 16).contains(&(*c as i64)))
        }
        (Why::Utf8(a), ParseError::Utf8Error(b)) => a == b,
        (Why::TextTooLarge(a), ParseError::TextTooLarge(b)) => a == b,
        (Why::ListTooLarge(a), ParseError::ListTooLarge(b)) => *a as i64 as usize == *b,
        (Why::Kind(a), ParseError::UnexpectedProperty(b)) => a == b,
        _ => false,
    }
}

/// What the error says against what the reference met.
fn diagnosed(stop: &Stop, e: &ParseError) -> Result<(), String> {
    let c = chain(e);
    // Parts inside parts are fine, the outermost one is the part of the file.
    let mut parts = c.iter().filter_map(|e| match e {
        ParseError::ParseError(s, at, _) => Some((*s, *at)),
        _ => None,
    });
    let Some((part, at)) = parts.next() else {
        return Err(format!("the {} cannot be read, no part is named: [{}]", stop.part, kind(e)));
    };
    if part != stop.part {
        return Err(format!("the {} cannot be read, reported: {part}", stop.part));
    }
    let back = stop.at as i64 - at as i64;
    let slack = if matches!(stop.why, Why::End(..)) { 8 } else { 0 };
    if !(0..=slack).contains(&back) {
        return Err(format!("reading stopped after {} bytes, reported {at}", stop.at));
    }
    if let Some((s, x)) = parts.find(|p| p.1 != at) {
        return Err(format!("reading stopped after {at} bytes, reported {x} for {s}"));
    }
    let last = c.last().unwrap();
    if !same_why(&stop.why, back, last) {
        return Err(format!("{:?} after {} bytes expected, {last:?} after {at} reported", stop.why, stop.at));
    }
    let text = glue::render_error(e).join("\n");
    let mut facts = vec![stop.part.to_string(), at.to_string()];
    match last {
        ParseError::InsufficientData(a, b) => facts.extend([a.to_string(), b.to_string()]),
        ParseError::Utf8Error(e) => facts.push(e.to_string()),
        ParseError::TextTooLarge(n) => facts.push(n.to_string()),
        ParseError::ListTooLarge(n) => facts.push(n.to_string()),
        ParseError::UnexpectedProperty(k) => facts.push(k.clone()),
        _ => {}
    }
    for f in facts {
        if !text.contains(&f) {
            return Err(format!("the rendering lacks {f:?}: {text:?}"));
        }
    }
    Ok(())
}

impl Prop for C23 {
    type Case = Case23;
    const ID: &'static str = "C23";
    const QUICK: u64 = 500_000;
    const RULE: &'static str = "runs whose (set of control-flow edges reached, outcomes) differ";
    fn gen(r: &mut Rng, _: u64) -> Case23 {
        let mut k = Knobs::small(r);
        k.bulk = 800;
        k.frames = k.frames.min(2);
        k.header = 1 + r.size(6);
        k.footer = 1 + r.size(4);
        let mut rec = rec::gen(r, &k);
        if r.one_in(20) {
            // property kinds nobody knows; texts that are not what they say
            let i = r.below(rec.props.len() + 1);
            let s = r.pick(&["", "ByteProperty\0", "MapProperty", "intProperty", "Nope"]).to_string();
            rec.props.insert(i, (s.clone(), rec::HP::Byte(s.clone(), s)));
        }
        let n = 1 + r.below(3);
        let reg = *r.pick(&[Reg::Header, Reg::Header, Reg::Front, Reg::Footer, Reg::Footer]);
        let faults = (0..n)
            .map(|_| match r.below(4) {
                0 => faults::gen_any(r),
                1 => Fault::Word(r.u32(), faults::gen_word(r)),
                _ => faults::gen_in(r, reg),
            })
            .collect();
        let pad = match r.below(300) {
            0..=9 => 33_000 + r.below(40_000) as u32,
            10 => 70_000 + r.below(1 << 20) as u32,
            11 if r.one_in(25) => (16 << 20) + r.below(1 << 10) as u32,
            _ => 0,
        };
        Case23 { shot: Shot { rec, faults, close: *r.pick(&[0, 0, 1, 2, 2]) }, pad, net: r.below(3) as u8 }
    }
    fn exec(c: &Case23, st: &mut Stats) -> Result<(), Viol> {
        let mut shot = c.shot.clone();
        if c.pad > 0 {
            let mut g = Rng::new(shot.rec.junk);
            shot.rec.tail.extra.extend((0..c.pad.min(32 << 20)).map(|_| g.u64() as u8));
        }
        let d = shot.build(st).1.bytes;
        let r = refbody::read(&d);
        let net = NETS[c.net as usize % 3];
        for crc in CRCS {
            if crc == CrcCheck::Always && [&r.header, &r.content].into_iter().flatten().any(|s| !s.covered || !s.crc_ok()) {
                // the checksum is the first thing wrong
                continue;
            }
            let o = read(st, &d, crc, net)?;
            see_out(st, &o);
            match (&r.stop, &o) {
                (None, Err(e)) if !net_err(e) => bad!("readable", "header and body are readable, got [{}]", kind(e)),
                (None, _) => {}
                (Some(s), Ok(_)) => bad!("unnoticed", "{s:?}, got a replay"),
                (Some(s), Err(e)) => {
                    if let Err(m) = diagnosed(s, e) {
                        bad!("diagnosis", "{crc:?}: {m}");
                    }
                }
            }
        }
        if let Some(s) = &r.stop {
            st.count(&format!("stopped in {}", s.part));
            st.count(&format!("stopped for {}", format!("{:?}", s.why).chars().take_while(|c| c.is_alphanumeric()).collect::<String>()));
        }
        Ok(())
    }
}
