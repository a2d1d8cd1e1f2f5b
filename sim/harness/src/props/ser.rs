//! C16 and C17: what is written, and what is restored from it.
use super::*;
use crate::attrs;
use crate::bad;
use crate::io::{self, End, Plan, Sink, Source, Step};
use crate::json;
use crate::posfmt;
use crate::seam::{self, Limits};
use crate::val::{self, Val, V};
use boxcars::{CrcCheck, Frame, NetworkParse, Replay};

pub fn plan(r: &mut Rng) -> Plan {
    let steps = match r.below(5) {
        0 => vec![],
        1 => vec![Step::Short(1)],
        2 => vec![Step::Interrupted, Step::Whole],
        _ => (0..1 + r.below(6))
            .map(|_| match r.below(4) {
                0 => Step::Interrupted,
                1 => Step::Whole,
                _ => Step::Short(1 + r.size(60) as u16),
            })
            .collect(),
    };
    let end = *r.pick(&[End::Open, End::Open, End::Full, End::Full, End::Zero, End::Broken, End::Pipe, End::Once, End::Once, End::Panic]);
    let at = match r.below(4) {
        0 => r.below(64) as u64,
        1 => u64::MAX - r.below(64) as u64,
        _ => r.u64() >> 1,
    };
    let inner = if r.one_in(3) { 1 + r.size(30) as u16 } else { 0 };
    Plan { steps, at, end, inner }
}
/// Where the plan's end lies in a document of `n` bytes.
pub fn place(p: &Plan, n: usize) -> usize {
    if p.at > u64::MAX - 64 {
        (n + 8).saturating_sub((u64::MAX - p.at) as usize)
    } else if p.at < 64 {
        (p.at as usize).min(n)
    } else {
        (p.at % (n as u64 + 1)) as usize
    }
}

fn run<T>(st: &mut Stats, what: &str, f: impl FnOnce() -> T) -> Result<T, Viol> {
    let (r, m) = seam::metered(Limits::default(), f);
    st.calls += 1;
    st.steps += m.steps;
    match r {
        Ok(x) => Ok(x),
        Err(p) => viol("panic", format!("{what} panicked: {p}")),
    }
}

/// Where the caller's own code may panic: None when it did.
fn run_with<T>(st: &mut Stats, what: &str, f: impl FnOnce() -> T) -> Result<Option<T>, Viol> {
    match run(st, what, f) {
        Err(v) if v.msg.contains(io::CRY) => Ok(None),
        o => o.map(Some),
    }
}

fn content(r: &mut Rng, idx: u64, rich: bool) -> Rec {
    let mut k = Knobs::small(r);
    k.bulk = 500;
    k.frames = r.size(6);
    k.events = 1 + r.size(6);
    k.header = if rich { r.size(12) } else { 1 };
    k.footer = if rich { r.size(6) } else { 1 };
    k.text_rich = rich;
    k.focus = Some(attrs::ALL_TAGS[(idx % attrs::ALL_TAGS.len() as u64) as usize]);
    k.hot_ids = true;
    k.cheap_attrs = false;
    k.wild = r.one_in(3);
    k.odd_channels = false;
    rec::gen(r, &k)
}

// ------------------------------------------------------------------ C16
pub struct C16;
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case16 {
    shot: Shot,
    net: u8,
    plans: Vec<(Plan, bool)>,
}

/// A save through a faulty sink, judged against the whole document.
fn c16_sink(st: &mut Stats, file: &[u8], r: &Replay, compact: &[u8], doc: &[u8], p: &Plan, pretty: bool) -> Result<(), Viol> {
    let at = place(p, doc.len());
    // What the caller's sink does meanwhile.
    let odd = std::cell::Cell::new(None);
    let mut s = Sink::new(p, at);
    s.hook = Some(Box::new(|| {
        let same = glue::json_bytes(r).is_ok_and(|b| b == compact);
        let read = glue::parse(file, CrcCheck::Never, NetworkParse::IgnoreOnError).is_ok();
        if !same || !read {
            odd.set(Some(if same { "reading the file fails" } else { "the replay serializes differently" }));
        }
    }));
    let o = run_with(st, "writing to a faulty sink", || glue::json_sink(r, pretty, &mut s))?;
    for f in &s.fired {
        st.fault(f);
    }
    let got = std::mem::take(&mut s.got);
    drop(s);
    if let Some(m) = odd.get() {
        bad!("inner", "while the replay is being written, inside the sink {m}");
    }
    if !doc.starts_with(&got) {
        let i = got.iter().zip(doc).take_while(|(a, b)| a == b).count();
        bad!("not a prefix", "what the sink took differs from the document from byte {i} of {} on", doc.len());
    }
    let fails = p.end != End::Open && at < doc.len();
    st.see(got.len() as u64 ^ (fails as u64) << 40);
    let Some(o) = o else { return Ok(()) };
    match (o, fails) {
        (Ok(()), _) if got.len() != doc.len() => viol("incomplete", format!("reported written, but only {} of {} bytes were", got.len(), doc.len())),
        (Err(e), false) => viol("failed", format!("no write failed, yet writing failed: {e}")),
        _ => Ok(()),
    }
}

impl Prop for C16 {
    type Case = Case16;
    const ID: &'static str = "C16";
    const QUICK: u64 = 300_000;
    const RULE: &'static str = "runs whose (set of control-flow edges reached, bytes taken by each sink) differ";
    fn gen(r: &mut Rng, idx: u64) -> Case16 {
        let mut rec = content(r, idx, true);
        if r.one_in(4) {
            // keys and texts that need care in JSON
            let odd = ["\"", "\\", "\u{8}\u{c}\n\r\t", "\u{0}\u{1}\u{1f}", "\u{7f}", "é\u{2028}", "", "a\"b\\c", "</script>", "None"];
            for p in rec.props.iter_mut() {
                if !matches!(p.0.as_str(), "NumFrames" | "MaxChannels" | "MatchType" | "BuildVersion") && r.bool() {
                    let k = r.pick(&odd).to_string();
                    p.0 = if k == "None" { "None_".into() } else { k };
                }
            }
            for t in rec.names.iter_mut().chain(rec.levels.iter_mut()) {
                if r.bool() {
                    *t = (*r.pick(&odd)).into();
                }
            }
        }
        let faults = if r.one_in(5) { (0..1 + r.below(2)).map(|_| faults::gen_any(r)).collect() } else { vec![] };
        let plans = (0..2).map(|_| (plan(r), r.one_in(3))).collect();
        Case16 { shot: Shot { rec, faults, close: 1 }, net: *r.pick(&[0, 2, 2, 2, 1]), plans }
    }
    fn exec(c: &Case16, st: &mut Stats) -> Result<(), Viol> {
        let (_, d) = c.shot.build(st);
        let Ok(r) = read(st, &d.bytes, CrcCheck::Never, NETS[c.net as usize % 3])? else { return Ok(()) };
        let want = val::plain(r.v());
        let doc = match run(st, "serializing", || glue::json_bytes(&r))? {
            Ok(b) => b,
            Err(e) => bad!("no document", "a replay cannot be serialized: {e}"),
        };
        let j = match json::parse(&doc) {
            Ok(j) => j,
            Err(e) => bad!("malformed", "the document is not JSON: {e}"),
        };
        if let Some(m) = json::states(&want, &j, "replay") {
            bad!("inexact", "{m}");
        }
        st.add("document bytes", doc.len() as u64);
        let mut nice: Option<Vec<u8>> = None;
        for (p, pretty) in &c.plans {
            if *pretty {
                if nice.is_none() {
                    let mut v: Vec<u8> = vec![];
                    if let Err(e) = run(st, "serializing", || glue::json_sink(&r, true, &mut v))? {
                        bad!("no document", "a replay cannot be serialized: {e}");
                    }
                    match json::parse(&v) {
                        Ok(k) if k == j => {}
                        Ok(_) => bad!("inexact", "the indented document states something else than the compact one"),
                        Err(e) => bad!("malformed", "the indented document is not JSON: {e}"),
                    }
                    nice = Some(v);
                }
                c16_sink(st, &d.bytes, &r, &doc, nice.as_ref().unwrap(), p, true)?;
            } else {
                c16_sink(st, &d.bytes, &r, &doc, &doc, p, false)?;
            }
        }
        // The caller's second look at the same replay.
        let again = run(st, "serializing", || glue::json_bytes(&r))?;
        if again.ok().as_deref() != Some(&doc[..]) {
            bad!("not repeatable", "serializing the same replay again gives another document");
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ C17
pub struct C17;
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case17 {
    rec: Rec,
    plans: Vec<(Plan, bool)>,
    all: bool,
}

fn finite(v: &Val) -> bool {
    match v {
        Val::F(b) => f32::from_bits(*b).is_finite(),
        Val::List(l) => l.iter().all(finite),
        Val::Obj(o) => o.iter().all(|x| finite(&x.1)),
        Val::Pairs(o) => o.iter().all(|x| finite(&x.1)),
        _ => true,
    }
}

fn exact_or_error<E: std::fmt::Display>(how: &str, want: &[Frame], got: &Result<Vec<Frame>, E>) -> Result<(), Viol> {
    if let Ok(g) = got {
        if let Some(d) = val::diff_frames(want, g) {
            return viol("different", format!("{how}: loads as another history: {d}"));
        }
    }
    Ok(())
}
fn exact<E: std::fmt::Display>(how: &str, want: &[Frame], got: &Result<Vec<Frame>, E>) -> Result<(), Viol> {
    if let Err(e) = got {
        return viol("not restored", format!("{how}: an intact save does not load: {e}"));
    }
    exact_or_error(how, want, got)
}
fn torn<E: std::fmt::Display>(how: &str, k: usize, n: usize, got: &Result<Vec<Frame>, E>) -> Result<(), Viol> {
    match got {
        Ok(g) if k < n => viol("torn accepted", format!("{how}: the first {k} of {n} bytes load as {} frames", g.len())),
        _ => Ok(()),
    }
}

impl Prop for C17 {
    type Case = Case17;
    const ID: &'static str = "C17";
    const QUICK: u64 = 240_000;
    const RULE: &'static str = "runs whose (set of control-flow edges reached, bytes read) differ";
    fn gen(r: &mut Rng, idx: u64) -> Case17 {
        let mut rec = content(r, idx, false);
        let all = idx % 50 == 0;
        if all {
            rec.frames.truncate(2);
            for f in &mut rec.frames {
                f.ev.truncate(2);
            }
            let n = rec.frames.len() as i32;
            rec.set_int("NumFrames", n);
            rec.tail = Default::default();
        }
        let plans = (0..3).map(|_| (plan(r), r.bool())).collect();
        Case17 { rec, plans, all }
    }
    fn exec(c: &Case17, st: &mut Stats) -> Result<(), Viol> {
        let img = c.rec.image();
        let Ok(r) = read(st, &img.bytes, CrcCheck::Never, NetworkParse::IgnoreOnError)? else { return Ok(()) };
        let Some(nf) = r.network_frames else { return Ok(()) };
        let frames = nf.frames;
        let plain = finite(&frames.v());
        st.count(if plain { "histories of finite floats" } else { "histories with non-finite floats" });
        // ---- positional
        let bin = match posfmt::save(&frames) {
            Ok(b) => b,
            Err(e) => bad!("not saved", "positional format: {e}"),
        };
        let inner_bad = std::cell::Cell::new(false);
        // What the caller's sink or source does meanwhile.
        let meanwhile = || {
            let ok = match posfmt::save(&frames) {
                Ok(b) => b == bin && (!plain || posfmt::load::<Vec<Frame>>(&mut &b[..]).is_ok_and(|g| val::diff_frames(&frames, &g).is_none())),
                Err(_) => false,
            };
            if !ok {
                inner_bad.set(true);
            }
        };
        let load = |st: &mut Stats, p: &Plan, b: &[u8], at: usize| -> Result<(Option<Result<Vec<Frame>, posfmt::E>>, usize), Viol> {
            let mut s = Source::new(p, b, at);
            s.hook = Some(Box::new(meanwhile));
            let o = run_with(st, "loading", || posfmt::load::<Vec<Frame>>(&mut s))?;
            for f in &s.fired {
                st.fault(f);
            }
            if inner_bad.get() {
                bad!("inner", "while frames are being loaded, inside the source saving and loading them fails");
            }
            Ok((o, s.pos))
        };
        let open = Plan { steps: vec![], at: 0, end: End::Open, inner: 0 };
        let o = load(st, &open, &bin, bin.len())?.0.unwrap();
        if plain {
            exact("positional format", &frames, &o)?;
        } else {
            exact_or_error("positional format", &frames, &o)?;
        }
        // ---- JSON
        let mut doc: Vec<u8> = vec![];
        if let Err(e) = run(st, "saving", || glue::json_frames(&frames, false, &mut doc))? {
            bad!("not saved", "JSON: {e}");
        }
        if plain {
            let o = run(st, "loading", || glue::load_frames_slice(&doc))?;
            exact("JSON", &frames, &o)?;
            let o = run(st, "loading", || glue::value_roundtrip(&frames))?;
            exact("JSON value", &frames, &o)?;
        }
        for (p, pretty) in &c.plans {
            // positional, through a faulty source
            let at = place(p, bin.len());
            let (o, pos) = load(st, p, &bin, at)?;
            st.see(pos as u64);
            let o = match o {
                Some(o) => o,
                None => Err(posfmt::E(String::new())),
            };
            if p.end == End::Once {
                // it may be tried again, or be an error
            } else if p.end != End::Open {
                torn("positional format", at, bin.len(), &o)?;
                if at < bin.len() {
                    st.fault("torn_save");
                }
            } else if plain {
                exact("positional format through short and interrupted reads", &frames, &o)?;
            }
            exact_or_error("positional format", &frames, &o)?;
            if !plain {
                continue;
            }
            // JSON saved through a faulty sink, then what arrived is loaded
            let mut nice: Vec<u8> = vec![];
            let whole: &[u8] = if *pretty {
                if let Err(e) = run(st, "saving", || glue::json_frames(&frames, true, &mut nice))? {
                    bad!("not saved", "JSON: {e}");
                }
                &nice
            } else {
                &doc
            };
            let at = place(p, whole.len());
            let mut s = Sink::new(p, at);
            s.hook = Some(Box::new(meanwhile));
            let saved = run_with(st, "saving", || glue::json_frames(&frames, *pretty, &mut s))?;
            for f in &s.fired {
                st.fault(f);
            }
            let got = std::mem::take(&mut s.got);
            drop(s);
            if inner_bad.get() {
                bad!("inner", "while frames are being saved, inside the sink saving and loading them fails");
            }
            if saved.is_some_and(|s| s.is_ok()) && got != whole {
                bad!("save", "reported saved, but what arrived is not the document");
            }
            let o = run(st, "loading", || glue::load_frames_slice(&got))?;
            torn("JSON", got.len(), whole.len(), &o)?;
            if got.len() == whole.len() {
                exact("JSON", &frames, &o)?;
            }
            exact_or_error("JSON", &frames, &o)?;
            // a whole save, loaded through a faulty source
            let mut s = Source::new(p, whole, at);
            s.hook = Some(Box::new(meanwhile));
            let o = run_with(st, "loading", || glue::load_frames(&mut s))?;
            for f in &s.fired {
                st.fault(f);
            }
            st.see(s.pos as u64 ^ 0x77);
            drop(s);
            if inner_bad.get() {
                bad!("inner", "while frames are being loaded, inside the source saving and loading them fails");
            }
            // The caller's own panic went through.
            let Some(o) = o else { continue };
            if p.end == End::Open {
                exact("JSON through short and interrupted reads", &frames, &o)?;
            } else if p.end != End::Once {
                torn("JSON through a failing source", at, whole.len(), &o)?;
                if at < whole.len() {
                    st.fault("torn_save");
                }
            }
            exact_or_error("JSON", &frames, &o)?;
        }
        if c.all {
            if bin.len() < 1500 {
                for k in 0..bin.len() {
                    let o = load(st, &open, &bin[..k], k)?.0.unwrap();
                    torn("positional format", k, bin.len(), &o)?;
                }
            }
            if plain && doc.len() < 3000 {
                for k in 0..doc.len() {
                    let o = run(st, "loading", || glue::load_frames_slice(&doc[..k]))?;
                    torn("JSON", k, doc.len(), &o)?;
                }
            }
            st.count("every cut point tried");
        }
        Ok(())
    }
}
