//! C27: nothing is touched but memory.
use super::*;
use crate::attrs;
use crate::bad;
use crate::io::{self, Plan};
use crate::posfmt;
use crate::seam::{self, Limits};
use std::io::Write;
use std::sync::atomic::Ordering::Relaxed;

pub struct C27;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum What {
    Shot(Shot),
    Deep { depth: u32, kind: u8, quirk: bool, closed: bool },
    Noise(Vec<u8>),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case {
    file: What,
    opts: Vec<(u8, u8)>,
    spell: u8,
    /// What the outcome is written to, and saves are read from.
    plan: Plan,
    /// Damage to the save before it is loaded (0: none).
    flip: u32,
    /// How the system would answer, and what environment it would show.
    system: u64,
}

fn all(c: &Case, data: &[u8], notes: &mut Vec<String>) {
    for &(k, n) in &c.opts {
        let o = glue::parse(data, CRCS[k as usize % 3], NETS[n as usize % 3]);
        notes.push(match &o {
            Ok(r) => if r.network_frames.is_some() { "replay with frames".into() } else { "replay without frames".into() },
            Err(e) => kind(e),
        });
        let held = match &o {
            Err(e) => {
                let t = glue::render_error(e);
                let mut p = io::Pen::new(&c.plan, super::ser::place(&c.plan, t[0].len()));
                let _ = glue::render_into(e, &mut p);
                drop(glue::debug_error(e));
                Err(glue::clone_eq_error(e).0)
            }
            Ok(r) => {
                drop(glue::debug_replay(r));
                let _ = r.as_props();
                let n = glue::json_bytes(r).map_or(0, |b| b.len());
                let mut s = io::Sink::new(&c.plan, super::ser::place(&c.plan, n));
                drop(glue::json_sink(r, c.flip & 8 != 0, &mut s));
                if let Some(f) = &r.network_frames {
                    for json in [true, false] {
                        let mut save = vec![];
                        if json {
                            drop(glue::json_frames(&f.frames, false, &mut save));
                        } else {
                            save = posfmt::save(&f.frames).unwrap_or_default();
                        }
                        if c.flip != 0 && !save.is_empty() {
                            let k = save.len();
                            save[(c.flip >> 4) as usize % k] ^= 1 << (c.flip >> 1 & 7);
                        }
                        let mut s = io::Source::new(&c.plan, &save, super::ser::place(&c.plan, save.len()));
                        if json {
                            drop(glue::load_frames(&mut s));
                            drop(glue::load_frames_slice(&save));
                        } else {
                            drop(posfmt::load::<Vec<boxcars::Frame>>(&mut s));
                        }
                    }
                }
                Ok(glue::clone_eq_replay(r).0)
            }
        };
        glue::drop_outcome(o);
        glue::drop_outcome(held);
    }
    drop(glue::parse_spelled(data, c.spell & 3, c.spell >> 2 & 3, c.spell >> 3));
    let _ = glue::calc_crc(data);
    // What was printed without a line end.
    let _ = std::io::stdout().flush();
}

/// What the header's own accessors say.
trait Props {
    fn as_props(&self) -> usize;
}
impl Props for boxcars::Replay {
    fn as_props(&self) -> usize {
        self.properties
            .iter()
            .map(|(_, p)| {
                p.as_array().is_some() as usize
                    + p.as_bool().is_some() as usize
                    + p.as_float().is_some() as usize
                    + p.as_i32().is_some() as usize
                    + p.as_u64().is_some() as usize
                    + p.as_string().is_some() as usize
                    + p.is_byte() as usize
            })
            .sum()
    }
}

impl Prop for C27 {
    type Case = Case;
    const ID: &'static str = "C27";
    const QUICK: u64 = 150_000;
    const RULE: &'static str = "runs whose (set of control-flow edges reached, outcomes) differ";
    const STUB: &'static str = "recorder (game), disk and transfer, allocator accounting, entropy, clock, environment, and the operating system: every call for a file, terminal, socket, thread, process, signal or sleep is noted and answered by the simulator";
    fn gen(r: &mut Rng, idx: u64) -> Case {
        let file = match r.below(100) {
            0 => What::Deep { depth: *r.pick(&[1, 30, 31, 32, 33, 64, 1000]), kind: r.below(3) as u8, quirk: r.bool(), closed: r.bool() },
            1 => What::Noise((0..r.size(200)).map(|_| r.edgy(8) as u8).collect()),
            _ => {
                let mut k = Knobs::small(r);
                k.bulk = 700;
                k.wild = r.one_in(4);
                k.long_text = r.one_in(12);
                if r.bool() {
                    k.focus = Some(attrs::ALL_TAGS[(idx % attrs::ALL_TAGS.len() as u64) as usize]);
                    k.cheap_attrs = false;
                }
                let mut shot = if r.one_in(3) { Shot { rec: rec::gen(r, &k), faults: vec![], close: 1 } } else { Shot::gen(r, &k, 3) };
                if r.one_in(4) {
                    super::net::plant(r, &mut shot.rec);
                    shot.close = 1;
                }
                What::Shot(shot)
            }
        };
        let opts = (0..1 + r.below(2)).map(|_| opts(r)).collect();
        let mut plan = super::ser::plan(r);
        plan.inner = 0;
        if matches!(plan.end, io::End::Panic) {
            plan.end = io::End::Broken;
        }
        Case { file, opts, spell: r.below(256) as u8, plan, flip: if r.bool() { r.u32() } else { 0 }, system: r.u64() }
    }
    fn exec(c: &Case, st: &mut Stats) -> Result<(), Viol> {
        let data = match &c.file {
            What::Shot(s) => s.build(st).1.bytes,
            What::Deep { depth, kind, quirk, closed } => super::c01::deep((*depth).min(5000), *kind, *quirk, *closed, 0),
            What::Noise(b) => b.clone(),
        };
        let _ = std::io::stdout().flush();
        let vars = |m: &mut u64| std::env::vars_os().for_each(|(k, v)| *m = crate::rng::fnv(crate::rng::fnv(*m, k.as_encoded_bytes()), v.as_encoded_bytes()));
        let (mut before, mut after) = (0, 0);
        vars(&mut before);
        let raised = seam::panics();
        seam::touched();
        seam::ENV.store(c.system | 1, Relaxed);
        seam::WATCH.store(c.system | 1, Relaxed);
        let mut notes = vec![];
        let (r, m) = seam::metered(Limits::default(), || all(c, &data, &mut notes));
        seam::WATCH.store(0, Relaxed);
        seam::ENV.store(0, Relaxed);
        let t = seam::touched();
        st.calls += 8;
        st.steps += m.steps;
        for n in &notes {
            st.see_str(n);
            st.count(&format!("outcome: {n}"));
        }
        st.count("calls to the system watched for");
        if let Some(w) = t.first() {
            let k: String = w.chars().take_while(|c| c.is_alphanumeric()).collect();
            bad!(&format!("touched: {k}"), "using the library reached the operating system: {}", t.join("; "));
        }
        if let Err(p) = r {
            bad!("panic", "{p}");
        }
        if seam::panics() != raised {
            bad!("panic reported", "{} panics were raised inside the library and reported to the process, although the calls returned", seam::panics() - raised);
        }
        vars(&mut after);
        if before != after {
            bad!("environment", "the environment variables of the process changed");
        }
        // Whoever handles panics still does.
        let n = seam::panics();
        if seam::sut(|| panic!("probe")).is_ok() || seam::panics() != n + 1 {
            bad!("panic hook", "the handler of the process for panics has been replaced");
        }
        Ok(())
    }
}
