//! C24: what is done with a result costs in proportion to it.
use super::load::{self, SHAPES};
use super::*;
use crate::bad;
use crate::faults::Reg;
use crate::posfmt;
use crate::seam::{self, Limits, Meter};
use boxcars::{CrcCheck, Frame, NetworkParse, ParseError, Replay};

pub struct C24;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum What {
    Shot(Shot),
    /// A shape recorded at n, 2n and 4n, with an ending that the reader
    /// refuses when `end` is not 0.
    Grow { shape: String, n: u32, seed: u64, end: u8 },
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case24 {
    what: What,
    opt: (u8, u8),
    /// What happens to the save before it is loaded again.
    save: Vec<SaveFault>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum SaveFault {
    Flip(u32, u8),
    Word(u32, u32),
    Wide(u32, u64),
    Cut(u32),
    Copy(u32, u32, u32),
    /// A token of a document put somewhere else.
    Token(u32, u8),
}

const TOKENS: &[&str] = &["null", "1e999", "-1", "18446744073709551616", "\"9999999999999999999999\"", "\"\"", "[", "{", "]", "}", "1.5", "\"\\ud800\"", "true", "{\"Int64\":12}", "[[[[[[[[", "0.1e-400"];

fn damage(b: &mut Vec<u8>, f: &SaveFault) {
    let n = b.len();
    if n == 0 {
        return;
    }
    let put = |b: &mut Vec<u8>, at: usize, v: &[u8]| {
        for (i, x) in v.iter().enumerate() {
            if let Some(p) = b.get_mut(at + i) {
                *p = *x;
            }
        }
    };
    match f {
        SaveFault::Flip(at, m) => b[*at as usize % n] ^= *m,
        SaveFault::Word(at, v) => put(b, *at as usize % n, &v.to_le_bytes()),
        SaveFault::Wide(at, v) => put(b, *at as usize % n, &v.to_le_bytes()),
        SaveFault::Cut(at) => b.truncate(*at as usize % n),
        SaveFault::Copy(from, to, len) => {
            let (f, t) = (*from as usize % n, *to as usize % n);
            let l = (*len as usize % 64).min(n - f);
            let v = b[f..f + l].to_vec();
            put(b, t, &v);
        }
        SaveFault::Token(at, k) => put(b, *at as usize % n, TOKENS[*k as usize % TOKENS.len()].as_bytes()),
    }
}

/// One thing done with a result: at most so many steps and bytes per unit.
struct Bound {
    steps: f64,
    steps0: f64,
    mem: f64,
    mem0: f64,
}
const BOUND: Bound = Bound { steps: 0.0, steps0: 400_000.0, mem: 0.0, mem0: 2.5e6 };
/// Per byte of the file that was read.
const RENDER: Bound = Bound { steps: 60.0, mem: 40.0, ..BOUND };
const COPY: Bound = Bound { steps: 40.0, mem: 700.0, mem0: 8e6, ..BOUND };
/// Per byte of the document.
const SAVE: Bound = Bound { steps: 60.0, mem: 1.0, ..BOUND };
const LOAD: Bound = Bound { steps: 150.0, mem: 100.0, mem0: 8e6, ..BOUND };

struct Null(u64);
impl std::io::Write for Null {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0 += b.len() as u64;
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

struct Costs {
    /// Names, units and steps, in order.
    v: Vec<(&'static str, f64, u64)>,
    /// How far the reader got: costs are compared between like results.
    got: (bool, Option<usize>),
}

fn measured<T>(st: &mut Stats, out: &mut Costs, what: &'static str, unit: usize, b: &Bound, f: impl FnOnce() -> T) -> Result<T, Viol> {
    let cap = Limits { steps: ((b.steps * unit as f64 + b.steps0) * 4.0) as u64, mem: ((b.mem * unit as f64 + b.mem0) * 2.0) as i64 };
    let (r, m): (Result<T, String>, Meter) = seam::metered(cap, f);
    st.calls += 1;
    st.steps += m.steps;
    let u = unit as f64;
    let x = match r {
        Ok(x) => x,
        Err(p) => return viol("panic", format!("{what}: {p}")),
    };
    st.max(&format!("steps per byte: {what}"), m.steps as f64 / (u + 2000.0));
    st.max(&format!("bytes per byte: {what}"), m.peak as f64 / (u + 4000.0));
    if m.steps as f64 > b.steps * u + b.steps0 {
        bad!("work", "{what}: {} logical steps for {unit} bytes", m.steps);
    }
    if m.peak as f64 > b.mem * u + b.mem0 {
        bad!("memory", "{what}: {} bytes of memory for {unit} bytes", m.peak);
    }
    out.v.push((what, u, m.steps));
    Ok(x)
}

fn use_error(st: &mut Stats, c: &mut Costs, n: usize, e: &ParseError) -> Result<(), Viol> {
    let text = measured(st, c, "rendering an error", n, &RENDER, || glue::render_error(e))?;
    let len: usize = text.iter().map(|t| t.len()).sum();
    if len > 4 * n + 40_000 {
        bad!("long message", "{len} bytes of message about {n} bytes of replay");
    }
    // An error carries the state at the time with it: as large as it prints.
    let mut k = Null(0);
    let _ = seam::metered(Limits::default(), || {
        use std::io::Write;
        write!(k, "{e:?}")
    });
    let x = measured(st, c, "copying an error", n.max(k.0 as usize), &COPY, || glue::clone_eq_error(e).1)?;
    st.see(x as u64);
    Ok(())
}

fn use_replay(st: &mut Stats, c: &mut Costs, n: usize, r: &Replay, save: &[SaveFault]) -> Result<(), Viol> {
    let x = measured(st, c, "copying a replay", n, &COPY, || glue::clone_eq_replay(r).1)?;
    st.see(x as u64);
    // The length of the document first.
    let mut k = Null(0);
    let _ = crate::seam::metered(Limits::default(), || glue::json_sink(r, false, &mut k));
    let mut s = Null(0);
    let o = measured(st, c, "writing JSON", k.0 as usize, &SAVE, || glue::json_sink(r, false, &mut s))?;
    if let Err(e) = o {
        bad!("not written", "{e}");
    }
    let Some(f) = &r.network_frames else { return Ok(()) };
    let mut doc = vec![];
    if let Err(e) = seam::metered(Limits::default(), || glue::json_frames(&f.frames, false, &mut doc)).0.unwrap_or(Ok(())) {
        bad!("not written", "{e}");
    }
    let mut bin = match posfmt::save(&f.frames) {
        Ok(b) => b,
        Err(e) => bad!("not saved", "positional format: {e}"),
    };
    let o = measured(st, c, "loading JSON", doc.len(), &LOAD, || glue::load_frames_slice(&doc).map(|v| v.len()))?;
    st.see(o.is_ok() as u64);
    let o = measured(st, c, "loading a positional save", bin.len(), &LOAD, || posfmt::load::<Vec<Frame>>(&mut &bin[..]).map(|v| v.len()))?;
    st.see(o.is_ok() as u64);
    if save.is_empty() {
        return Ok(());
    }
    for f in save {
        damage(&mut doc, f);
        damage(&mut bin, f);
        st.fault("damaged_save");
    }
    let o = measured(st, c, "loading damaged JSON", doc.len(), &LOAD, || glue::load_frames_slice(&doc).map(|v| v.len()))?;
    st.count(if o.is_ok() { "damaged JSON save: loads" } else { "damaged JSON save: refused" });
    let o = measured(st, c, "loading a damaged positional save", bin.len(), &LOAD, || posfmt::load::<Vec<Frame>>(&mut &bin[..]).map(|v| v.len()))?;
    st.count(if o.is_ok() { "damaged positional save: loads" } else { "damaged positional save: refused" });
    Ok(())
}

fn one(st: &mut Stats, d: &[u8], c: &Case24) -> Result<Costs, Viol> {
    let (crc, net) = (CRCS[c.opt.0 as usize % 3], NETS[c.opt.1 as usize % 3]);
    let o = read(st, d, crc, net)?;
    see_out(st, &o);
    let got = match &o {
        Ok(r) => (true, r.network_frames.as_ref().map(|f| f.frames.len())),
        Err(_) => (false, None),
    };
    let mut costs = Costs { v: vec![], got };
    match &o {
        Ok(r) => use_replay(st, &mut costs, d.len(), r, &c.save)?,
        Err(e) => use_error(st, &mut costs, d.len(), e)?,
    }
    Ok(costs)
}

fn save_fault(r: &mut Rng) -> SaveFault {
    match r.below(8) {
        0 => SaveFault::Flip(r.u32(), 1 << r.below(8)),
        1 | 2 => SaveFault::Word(r.u32(), faults::gen_word(r)),
        3 | 4 => SaveFault::Wide(if r.one_in(4) { 0 } else { r.u32() }, r.edgy(64)),
        5 => SaveFault::Cut(r.u32()),
        6 => SaveFault::Copy(r.u32(), r.u32(), r.u32()),
        _ => SaveFault::Token(r.u32(), r.below(TOKENS.len()) as u8),
    }
}

impl Prop for C24 {
    type Case = Case24;
    const ID: &'static str = "C24";
    const QUICK: u64 = 120_000;
    const RULE: &'static str = "runs whose (set of control-flow edges reached, outcomes) differ";
    fn gen(r: &mut Rng, idx: u64) -> Case24 {
        if r.one_in(12) {
            let i = (idx as usize / 3) % SHAPES.len();
            let shape = if r.bool() { SHAPES[i] } else { *r.pick(SHAPES) };
            return Case24 {
                what: What::Grow { shape: shape.into(), n: *r.pick(&[500, 700, 1000, 1500, 2000]), seed: r.u64(), end: r.below(4) as u8 },
                opt: (1, *r.pick(&[0, 0, 2])),
                save: vec![],
            };
        }
        let mut k = Knobs::swarm(r);
        k.long_text = r.one_in(30);
        k.odd_tables = r.bool();
        k.bulk = 800;
        let mut shot = Shot::gen(r, &k, 3);
        if r.bool() {
            shot.faults.clear();
            if r.one_in(3) {
                sect::impossible(r, &mut shot.rec);
            }
        }
        Case24 { what: What::Shot(shot), opt: (*r.pick(&[1, 1, 1, 0, 2]), *r.pick(&[0, 0, 0, 2, 1])), save: (0..r.below(4)).map(|_| save_fault(r)).collect() }
    }
    fn exec(c: &Case24, st: &mut Stats) -> Result<(), Viol> {
        match &c.what {
            What::Shot(shot) => {
                let d = shot.build(st).1.bytes;
                one(st, &d, c).map(|_| ())
            }
            What::Grow { shape, n, seed, end } => {
                let n = (*n).clamp(1, 5000);
                let mut v: Vec<(usize, Costs)> = vec![];
                for k in [1, 2, 4] {
                    let d = load::shape_end(shape, n * k, *seed, *end);
                    let x = one(st, &d, c)?;
                    v.push((d.len(), x));
                }
                // How far did the reader get at each size?
                let g = |k: usize| v[k].1.got;
                let grown = |a: (bool, Option<usize>), b: (bool, Option<usize>)| a.0 == b.0 && a.1.is_some() == b.1.is_some() && a.1.unwrap_or(0) <= b.1.unwrap_or(0);
                if !grown(g(0), g(1)) || !grown(g(1), g(2)) {
                    st.count("doubling: the three are read differently");
                    return Ok(());
                }
                let names: Vec<&str> = v[0].1.v.iter().map(|x| x.0).collect();
                for w in names.iter() {
                    let at = |k: usize| v[k].1.v.iter().find(|x| x.0 == *w).map(|x| (x.1, x.2 as f64));
                    let (Some((ux, x)), Some((uy, y)), Some((uz, z))) = (at(0), at(1), at(2)) else { continue };
                    st.count(&format!("doubled: {w}"));
                    let f = (uz - uy).max(0.0) / (uy - ux).max(1.0);
                    if z - y > 1.5 * f.max(2.0) * (y - x).max(0.0) + 300_000.0 {
                        bad!("growth", "{w}, shape {shape} (ending {end}): {x} / {y} / {z} steps for files of {} / {} / {} bytes: more than proportional", v[0].0, v[1].0, v[2].0);
                    }
                }
                Ok(())
            }
        }
    }
}

// ---------------------------------------------------------------- C25

/// C25: what is not asked for is not paid for.
pub struct C25;

/// What takes the place of the recorded network stream.
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Stream {
    len: u32,
    /// 0: zeros, 1: ones, 2: noise, 3: the recorded stream over and over.
    fill: u8,
    seed: u64,
    /// The stored checksum of the content is wrong.
    stale: bool,
    /// Bytes after the content.
    #[serde(default)]
    slack: u32,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Case25 {
    /// Other streams in the same recording, read by someone who skips them.
    Skip { shot: Shot, streams: Vec<Stream>, crc: u8 },
    /// A file read with the check on error and without a check.
    Unchecked { file: What, net: u8, slack: u32 },
}

/// Steps and bytes that do not count as paying.
const SMALL: (u64, i64) = (4_000, 32 << 10);

fn with_stream(d: &faults::Dmg, s: &Stream) -> Vec<u8> {
    let old = &d.bytes[d.net.0..d.net.1];
    let n = s.len as usize;
    let mut g = Rng::new(s.seed);
    let new: Vec<u8> = match s.fill % 4 {
        0 => vec![0; n],
        1 => vec![255; n],
        3 if !old.is_empty() => old.iter().copied().cycle().take(n).collect(),
        _ => (0..n).map(|_| g.u64() as u8).collect(),
    };
    let mut b = d.bytes[..d.net.0].to_vec();
    b[d.net.0 - 4..].copy_from_slice(&(n as u32).to_le_bytes());
    b.extend_from_slice(&new);
    b.extend_from_slice(&d.bytes[d.net.1..]);
    let c = (d.content.0, d.content.1 - old.len() + n);
    b[c.0 - 8..c.0 - 4].copy_from_slice(&((c.1 - c.0) as u32).to_le_bytes());
    let sum = crate::crc::fast(&b[c.0..c.1]) ^ s.stale as u32;
    b[c.0 - 4..c.0].copy_from_slice(&sum.to_le_bytes());
    b.resize(b.len() + (s.slack as usize).min(1 << 20), s.seed as u8);
    b
}

/// The outcome without the words the stream itself changes.
fn without_words(o: &Out) -> String {
    match o {
        Ok(r) => {
            let mut r = r.clone();
            r.content_size = 0;
            r.content_crc = 0;
            format!("{r:?}")
        }
        Err(e) => format!("{e:?}"),
    }
}

impl Prop for C25 {
    type Case = Case25;
    const ID: &'static str = "C25";
    const QUICK: u64 = 60_000;
    const RULE: &'static str = "runs whose (set of control-flow edges reached, outcomes) differ";
    fn gen(r: &mut Rng, idx: u64) -> Case25 {
        if r.one_in(3) {
            let file = if r.one_in(12) {
                let i = (idx as usize / 3) % SHAPES.len();
                What::Grow { shape: SHAPES[i].into(), n: *r.pick(&[500, 1000, 2000, 4000]), seed: r.u64(), end: r.below(4) as u8 }
            } else {
                let mut k = Knobs::swarm(r);
                k.bulk = 60;
                let mut shot = Shot::gen(r, &k, 2);
                shot.faults.retain(|f| matches!(f, faults::Fault::Flip(..) | faults::Fault::Burst(..) | faults::Fault::Junk(..) | faults::Fault::Fill(..)));
                What::Shot(shot)
            };
            return Case25::Unchecked { file, net: r.below(3) as u8, slack: if r.bool() { 0 } else { r.size(400_000) as u32 } };
        }
        let mut k = Knobs::small(r);
        k.bulk = 400;
        let mut shot = Shot::gen(r, &k, 1);
        shot.faults = match r.below(6) {
            0 => vec![faults::gen_in(r, Reg::Footer)],
            1 => vec![faults::gen_in(r, Reg::Header)],
            2 => vec![faults::gen_in(r, Reg::Net)],
            _ => vec![],
        };
        shot.close = *r.pick(&[0, 1]);
        let streams = (0..2 + r.below(2))
            .map(|_| Stream {
                len: match r.below(8) {
                    0 => 0,
                    1 => r.size(5000) as u32,
                    2..=6 => (100_000 + r.below(300_000)) as u32,
                    _ => 1 << 20,
                },
                fill: r.below(4) as u8,
                seed: r.u64(),
                stale: r.one_in(3),
                slack: if r.one_in(4) { r.size(300_000) as u32 } else { 0 },
            })
            .collect();
        Case25::Skip { shot, streams, crc: 1 + r.below(2) as u8 }
    }
    fn exec(c: &Case25, st: &mut Stats) -> Result<(), Viol> {
        match c {
            Case25::Skip { shot, streams, crc } => {
                let (img, d) = shot.build(st);
                let n = d.bytes.len();
                let sound = d.header.0 >= 8 && d.header.1 <= n && d.content.0 >= d.header.1 + 8 && d.net.0 >= d.content.0 + 4 && d.net.1 >= d.net.0 && d.content.1 >= d.net.1 && d.content.1 <= n;
                if !sound {
                    return Ok(());
                }
                let crc = CRCS[1 + *crc as usize % 2];
                // Unless a section cannot be read no checksum is called for.
                let mut first: Option<(String, Meter, u32)> = None;
                for s in streams {
                    let s = Stream { len: s.len.min(2 << 20), ..s.clone() };
                    let b = with_stream(&d, &s);
                    st.fault("network stream replaced");
                    let (o, m) = read_m(st, &b, crc, NetworkParse::Never, Limits::default())?;
                    see_out(st, &o);
                    st.max("bytes skipped in one read", s.len as f64);
                    if let Err(e) = &o {
                        // A damaged header can send the reader into the
                        // stream: what counts is a stop within the header.
                        let at = crate::prop::chain(e).iter().find_map(|x| match x {
                            ParseError::ParseError(_, at, _) => Some(*at as i64),
                            _ => None,
                        });
                        let within = at.is_some_and(|a| a + 8 <= d.header.1 as i64);
                        let touched = d.bytes[..d.content.0.min(n)] != img.bytes[..img.content.0];
                        if !within && (matches!(crc, CrcCheck::OnError) || touched) {
                            st.count("content cannot be read: checksum called for");
                            return Ok(());
                        }
                    }
                    let what = without_words(&o);
                    let Some((w, m0, l0)) = &first else {
                        first = Some((what, m, s.len));
                        continue;
                    };
                    if what != *w {
                        st.count("told apart by the stream");
                        return Ok(());
                    }
                    st.count(if o.is_ok() { "compared: a replay" } else { "compared: an error" });
                    st.max("difference in steps", m.steps.abs_diff(m0.steps) as f64);
                    st.max("difference in bytes", m.peak.abs_diff(m0.peak) as f64);
                    if m.steps.abs_diff(m0.steps) > SMALL.0 {
                        bad!("work", "reading without network data ({crc:?}) takes {} steps with a stream of {l0} bytes in the file and {} steps with one of {} bytes (fill {}, stale checksum {})", m0.steps, m.steps, s.len, s.fill, s.stale);
                    }
                    for (k, a, b) in [("peak", m0.peak, m.peak), ("held", m0.held, m.held), ("largest request", m0.max_req as i64, m.max_req as i64)] {
                        if (a - b).abs() > SMALL.1 {
                            bad!("memory", "reading without network data ({crc:?}): {k} of {a} bytes with a stream of {l0} bytes in the file and of {b} bytes with one of {} bytes", s.len);
                        }
                    }
                }
            }
            Case25::Unchecked { file, net, slack } => {
                let mut b = match file {
                    What::Shot(s) => s.build(st).1.bytes,
                    What::Grow { shape, n, seed, end } => load::shape_end(shape, (*n).clamp(1, 8000), *seed, *end),
                };
                let net = NETS[*net as usize % 3];
                let (o, m0) = read_m(st, &b, CrcCheck::Never, net, Limits::default())?;
                see_out(st, &o);
                let readable = matches!(&o, Ok(_) | Err(ParseError::NetworkError(_)));
                let bare = b.len();
                b.resize(b.len() + (*slack as usize).min(1 << 20), 0x5a);
                if readable && b.len() > bare {
                    // What follows the content is nobody's business, checked
                    // or not.
                    let before = read_m(st, &b[..bare], CrcCheck::Always, net, Limits::default())?.1;
                    for (crc, a) in [(CrcCheck::Never, &m0), (CrcCheck::Always, &before)] {
                        let m = read_m(st, &b, crc, net, Limits::default())?.1;
                        st.count("compared: slack");
                        st.max("difference in steps", m.steps.abs_diff(a.steps) as f64);
                        if m.steps.abs_diff(a.steps) > SMALL.0 || (m.peak - a.peak).abs() > SMALL.1 {
                            bad!("slack", "{} bytes after the content of {bare} bytes: {} steps and {} bytes of memory instead of {} and {} ({crc:?} / {net:?})", b.len() - bare, m.steps, m.peak, a.steps, a.peak);
                        }
                    }
                }
                let (p, m) = read_m(st, &b, CrcCheck::OnError, net, Limits::default())?;
                if !readable || p.is_ok() != o.is_ok() {
                    st.count("cannot be read: checksum called for");
                    return Ok(());
                }
                st.count("compared: checked on error");
                st.max("bytes not checked in one read", b.len() as f64);
                st.max("difference in steps", m.steps.abs_diff(m0.steps) as f64);
                if m.steps > m0.steps + SMALL.0 {
                    bad!("check", "a readable file of {} bytes ({net:?}): {} steps without a check, {} steps with a check on error only", b.len(), m0.steps, m.steps);
                }
                if m.peak - m0.peak > SMALL.1 {
                    bad!("memory", "a readable file of {} bytes ({net:?}): {} bytes held without a check, {} bytes with a check on error only", b.len(), m0.peak, m.peak);
                }
            }
        }
        Ok(())
    }
}
