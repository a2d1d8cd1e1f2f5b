//! C01: damaged replays never crash the caller.
use super::*;
use crate::bad;
use crate::io::{End, Pen, Plan};
use crate::seam::{self, Limits};
use std::sync::{Arc, Mutex};

pub struct C01;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Case {
    Shot { shot: Shot, opts: Vec<(u8, u8)> },
    /// Nested header properties. depth, kind (0 array, 1 struct, 2 mixed),
    /// version 0.0, closed properly, entries before the nested one.
    Deep { depth: u32, kind: u8, quirk: bool, closed: bool, before: u8, opts: Vec<(u8, u8)> },
    /// No structure at all.
    Noise { bytes: Vec<u8>, opts: Vec<(u8, u8)> },
}

fn put_str(b: &mut Vec<u8>, s: &str) {
    b.extend_from_slice(&(s.len() as u32 + 1).to_le_bytes());
    b.extend_from_slice(s.as_bytes());
    b.push(0);
}

pub fn deep(depth: u32, kind: u8, quirk: bool, closed: bool, before: u8) -> Vec<u8> {
    let mut h = vec![];
    let v: (i32, i32) = if quirk { (0, 0) } else { (868, 12) };
    h.extend_from_slice(&v.0.to_le_bytes());
    h.extend_from_slice(&v.1.to_le_bytes());
    put_str(&mut h, "TAGame.Replay_Soccar_TA");
    for d in 0..depth {
        for i in 0..before {
            put_str(&mut h, ["a", "b", "c"][i as usize % 3]);
            put_str(&mut h, "IntProperty");
            h.extend_from_slice(&[4, 0, 0, 0, 0, 0, 0, 0, 7, 0, 0, 0]);
        }
        put_str(&mut h, "k");
        let arr = match kind {
            0 => true,
            1 => false,
            _ => d % 3 == 1,
        };
        put_str(&mut h, if arr { "ArrayProperty" } else { "StructProperty" });
        h.extend_from_slice(&[0; 8]);
        if arr {
            h.extend_from_slice(&1u32.to_le_bytes());
        } else {
            put_str(&mut h, "s");
        }
    }
    if closed {
        for _ in 0..=depth {
            put_str(&mut h, "None");
        }
    }
    let mut b = vec![0; 8];
    b.extend_from_slice(&h);
    let he = b.len();
    b.extend_from_slice(&[0; 8]);
    let cs = b.len();
    b.extend_from_slice(&[0u8; 40]);
    let n = b.len();
    rec::finalize(&mut b, (8, he), (cs, n));
    b
}

fn gen_opts(r: &mut Rng) -> Vec<(u8, u8)> {
    let mut v: Vec<(u8, u8)> = (0..3).flat_map(|c| (0..3).map(move |n| (c, n))).collect();
    r.shuffle(&mut v);
    v.truncate(*r.pick(&[1, 2, 2, 3]));
    v
}

/// What happened on the caller's thread.
#[derive(Default, Clone)]
struct Log {
    note: Vec<String>,
    bad: Option<Viol>,
    steps: u64,
    calls: u64,
    out: u64,
}

fn caller(data: &[u8], opts: &[(u8, u8)], log: &mut Log) {
    for &(c, n) in opts {
        let lim = Limits { steps: 3_000_000_000, mem: 3 << 30 };
        let (crc, net) = (CRCS[c as usize % 3], NETS[n as usize % 3]);
        let (r, m) = seam::metered(lim, || glue::parse(data, crc, net));
        log.steps += m.steps;
        log.calls += 1;
        let o = match r {
            Ok(o) => o,
            Err(p) => {
                log.bad = Some(Viol { class: "panic".into(), msg: format!("reading with {crc:?}/{net:?} panicked: {p}") });
                return;
            }
        };
        let mut go = |what: &str, f: &mut dyn FnMut()| -> bool {
            let (r, m) = seam::metered(lim, f);
            log.steps += m.steps;
            log.calls += 1;
            match r {
                Ok(()) => true,
                Err(p) => {
                    log.bad = Some(Viol { class: format!("panic: {what}"), msg: format!("{what} panicked after reading with {crc:?}/{net:?}: {p}") });
                    false
                }
            }
        };
        let mut held = None;
        let ok = match &o {
            Err(e) => {
                let mut text = vec![];
                let mut ok = go("rendering the error", &mut || text = glue::render_error(e));
                let cut = text.first().map_or(0, |t: &String| t.len() * 2 / 3);
                ok = ok && go("rendering the error into a text sink that fails", &mut || {
                    let p = Plan { steps: vec![], at: 0, end: End::Full, inner: 0 };
                    let mut w = Pen::new(&p, cut);
                    let _ = glue::render_into(e, &mut w);
                });
                ok = ok && go("printing the error", &mut || drop(glue::debug_error(e)));
                ok && go("cloning the error", &mut || held = Some(Err(glue::clone_eq_error(e).0)))
            }
            Ok(rp) => {
                let mut ok = go("printing the replay", &mut || drop(glue::debug_replay(rp)));
                ok = ok && go("cloning the replay", &mut || held = Some(Ok(glue::clone_eq_replay(rp).0)));
                ok = ok && go("serializing the replay", &mut || drop(glue::json_bytes(rp)));
                ok && go("serializing the replay prettily", &mut || drop(glue::json_sink(rp, true, &mut std::io::sink())))
            }
        };
        if !ok {
            return;
        }
        log.note.push(match &o {
            Ok(r) => if r.network_frames.is_some() { "replay with frames".into() } else { "replay without frames".into() },
            Err(e) => kind(e),
        });
        let mut both = Some((o, held));
        let (r, _) = seam::metered(lim, || {
            let (o, h) = both.take().unwrap();
            glue::drop_outcome(o);
            if let Some(h) = h {
                glue::drop_outcome(h);
            }
        });
        if let Err(p) = r {
            log.bad = Some(Viol { class: "panic: dropping".into(), msg: p });
            return;
        }
    }
}

impl Prop for C01 {
    type Case = Case;
    const ID: &'static str = "C01";
    const QUICK: u64 = 240_000;
    const RULE: &'static str = "runs whose (set of control-flow edges reached, outcomes under the chosen options) differ";
    fn gen(r: &mut Rng, _: u64) -> Case {
        match r.below(200) {
            0 => Case::Deep {
                depth: *r.pick(&[1, 16, 30, 31, 32, 33, 64, 1000, 5000, 20_000]),
                kind: r.below(3) as u8,
                quirk: r.bool(),
                closed: r.bool(),
                before: r.below(2) as u8,
                opts: gen_opts(r),
            },
            1..=4 => {
                let n = r.size(300);
                Case::Noise { bytes: (0..n).map(|_| r.edgy(8) as u8).collect(), opts: gen_opts(r) }
            }
            _ => {
                let mut k = Knobs::small(r);
                k.bulk = 500;
                k.wild = r.one_in(4);
                let mut shot = Shot::gen(r, &k, 4);
                if r.one_in(3) {
                    // the writer itself recorded something impossible
                    for _ in 0..1 + r.below(2) {
                        super::net::plant(r, &mut shot.rec);
                    }
                    let n = r.size(40);
                    shot.rec.tail.extra.extend((0..n).map(|_| r.u64() as u8));
                    if r.bool() {
                        shot.faults.clear();
                    }
                    shot.close = 1;
                }
                Case::Shot { shot, opts: gen_opts(r) }
            }
        }
    }
    fn exec(c: &Case, st: &mut Stats) -> Result<(), Viol> {
        let (data, opts) = match c {
            Case::Shot { shot, opts } => {
                if shot.rec.image().bad_frame.is_some() {
                    st.fault("impossible_event");
                }
                (shot.build(st).1.bytes, opts)
            },
            Case::Deep { depth, kind, quirk, closed, before, opts } => {
                st.fault("deep_nesting");
                (deep(*depth, *kind, *quirk, *closed, *before), opts)
            }
            Case::Noise { bytes, opts } => {
                st.fault("noise_file");
                (bytes.clone(), opts)
            }
        };
        let log = Arc::new(Mutex::new(Log::default()));
        let (l2, o2) = (log.clone(), opts.clone());
        let j = seam::on_thread(2 << 20, move || {
            let mut l = Log::default();
            caller(&data, &o2, &mut l);
            *l2.lock().unwrap() = l;
        });
        if j.is_err() {
            bad!("harness", "the simulated caller failed");
        }
        let l = log.lock().unwrap().clone();
        st.steps += l.steps;
        st.calls += l.calls;
        for n in &l.note {
            st.see_str(n);
            st.count(&format!("outcome: {n}"));
        }
        match l.bad {
            Some(v) => Err(v),
            None => Ok(()),
        }
    }
}
