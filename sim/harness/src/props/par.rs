//! C13 (concurrent callers) and C14 (the outcome depends only on the bytes and
//! the options). Both start every execution from a process that has never
//! called the library, and take as the truth what a process that does nothing
//! else gets.
use super::*;
use crate::bad;
use crate::rng::fnv;
use crate::attrs::Ver;
use crate::tables::Tag;
use crate::seam::{self, Limits};
use crate::io::{self, Plan};
use crate::{posfmt, sched, sup};
use std::collections::BTreeMap;
use std::sync::atomic::Ordering::Relaxed;
use std::sync::{Arc, Mutex};

pub struct C13;
pub struct C14;

const STACK: usize = 2 << 20;

/// Everything seen of one outcome: what it is, and each way of looking at it.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct Obs(BTreeMap<String, String>);

fn digest(b: &[u8]) -> String {
    format!("{} bytes, hash {:016x}", b.len(), fnv(3, b))
}

/// The ways of looking at an outcome.
const LOOKS: [&str; 5] = ["what", "json", "pretty json", "debug", "clone"];

/// Looks at an outcome in one way; every step runs in the library.
fn look(o: &Out, way: usize) -> Result<String, String> {
    Ok(match (LOOKS[way % 5], o) {
        ("what", Ok(_)) => show(o),
        ("what", Err(e)) => format!("{} {:?}", show(o), seam::sut(|| glue::render_error(e))?),
        ("json", Ok(r)) => match seam::sut(|| glue::json_bytes(r))? {
            Ok(b) => digest(&b),
            Err(e) => format!("error {e}"),
        },
        ("pretty json", Ok(r)) => {
            let mut v = vec![];
            let k = seam::sut(|| glue::json_sink(r, true, &mut v).map_err(|e| e.to_string()))?;
            format!("{k:?} {}", digest(&v))
        }
        ("debug", Ok(r)) => digest(seam::sut(|| glue::debug_replay(r))?.as_bytes()),
        ("clone", Ok(r)) => {
            let (c, e) = seam::sut(|| glue::clone_eq_replay(r))?;
            let d = digest(seam::sut(|| glue::debug_replay(&c))?.as_bytes());
            // A replay with a NaN in it is not equal to itself.
            format!("{e} {d}")
        }
        ("debug", Err(e)) => seam::sut(|| glue::debug_error(e))?,
        ("clone", Err(e)) => {
            let (c, q) = seam::sut(|| glue::clone_eq_error(e))?;
            format!("{q} {:?}", seam::sut(|| glue::render_error(&c))?)
        }
        (_, Err(e)) => seam::sut(|| glue::render_error(e))?.join(" / "),
        _ => unreachable!(),
    })
}

fn all_looks(o: &Out) -> Obs {
    let mut m = BTreeMap::new();
    for (i, w) in LOOKS.iter().enumerate() {
        m.insert(w.to_string(), look(o, i).unwrap_or_else(|p| format!("panic: {p}")));
    }
    Obs(m)
}

fn read_in(data: &[u8], c: u8, n: u8) -> Result<Out, String> {
    seam::sut(|| glue::parse(data, CRCS[c as usize % 3], NETS[n as usize % 3]))
}
fn caps() -> Limits {
    Limits { steps: 3_000_000_000, mem: 3 << 30 }
}

/// Runs `f` on a fresh thread with the stack an application thread has.
fn on_thread<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    seam::on_thread(STACK, f).expect("harness thread")
}

/// What a process that does nothing else observes.
fn alone(data: &[u8], c: u8, n: u8) -> Result<Obs, Viol> {
    sup::fork_value(|| {
        let d = data.to_vec();
        on_thread(move || {
            seam::arm(caps());
            let o = match read_in(&d, c, n) {
                Ok(o) => all_looks(&o),
                Err(p) => Obs([("what".to_string(), format!("panic: {p}"))].into()),
            };
            seam::disarm();
            o
        })
    })
}

// ---------------------------------------------------------------- C13

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Op {
    /// Read image (index modulo the number of images); the result becomes the
    /// thread's current one and the old one is dropped.
    Read { img: u8, c: u8, n: u8 },
    Look(u8),
    /// Put the current result where other threads find it.
    Share,
    /// Continue with the newest shared result.
    Take,
    Crc { img: u8 },
    /// Drop the current result.
    Drop,
    /// Save and restore the frames of the current result.
    Reload,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Conc {
    imgs: Vec<Shot>,
    threads: Vec<Vec<Op>>,
    plan: Vec<(u32, u8)>,
    entropy: u64,
}

fn gen_plan(r: &mut Rng, threads: usize) -> Vec<(u32, u8)> {
    let mode = r.below(11);
    let n = match mode {
        0 => 5 + r.below(20),
        _ => 20 + r.below(280),
    };
    let mut v = vec![];
    let mut burst = 0;
    for _ in 0..n {
        let gap = match mode {
            // few, far apart
            0 => {
                let b = r.range(6, 15);
                1 + r.below(1 << b) as u32
            }
            // fine grained
            1 => 1 + r.below(60) as u32,
            // medium
            2 => 1 + r.below(800) as u32,
            // log-uniform
            3 => {
                let b = r.range(1, 13);
                1 + r.below(1 << b) as u32
            }
            // where the thread gets to code it has not run before
            4 => {
                let b = r.range(0, 9);
                sched::NOVEL | (1 + r.below(1 << b) as u32)
            }
            5 => sched::NOVEL | (1 + r.below(4) as u32),
            6 if r.bool() => {
                let b = r.range(0, 7);
                sched::NOVEL | (1 + r.below(1 << b) as u32)
            }
            6 => 1 + r.below(200) as u32,
            // where threads may meet
            7 => {
                let b = r.range(0, 6);
                sched::SYNC | (1 + r.below(1 << b) as u32)
            }
            8 => sched::SYNC | (1 + r.below(3) as u32),
            9 => match r.below(3) {
                0 => sched::SYNC | (1 + r.below(6) as u32),
                1 => sched::NOVEL | (1 + r.below(40) as u32),
                _ => 1 + r.below(500) as u32,
            },
            // a burst of fine switches after a long stretch
            _ => {
                if burst == 0 && r.one_in(4) {
                    burst = 4 + r.below(24);
                }
                if burst > 0 {
                    burst -= 1;
                    1 + r.below(12) as u32
                } else {
                    1 + r.below(6000) as u32
                }
            }
        };
        v.push((gap, r.below(threads.max(1)) as u8));
    }
    v
}

fn light(r: &mut Rng) -> Knobs {
    let mut k = Knobs::small(r);
    if r.pct(80) {
        k.frames = k.frames.min(3);
        k.events = k.events.min(4);
    }
    k
}

/// A recording close to one that exists: same shape and sizes, something that
/// matters changed.
fn sibling(r: &mut Rng, rec: &Rec) -> Rec {
    let mut x = rec.clone();
    for _ in 0..1 + r.below(2) {
        match r.below(12) {
            9 => {
                let b = *r.pick(&["221120.42953.406184", "221120.42953.406183", "230101.1.1", "180326.56784.194622"]);
                x.set_str("BuildVersion", b);
            }
            10 => {
                let b = *r.pick(&["Lan", "Online", "Private"]);
                x.set_str("MatchType", b);
            }
            0 | 1 if x.objects.len() > 1 => {
                let (i, j) = (r.below(x.objects.len()), r.below(x.objects.len()));
                x.objects.swap(i, j);
            }
            2 => x.ver = rec::gen_ver(r),
            3 => {
                let n = *r.pick(&[2, 255, 256, 1023, 1024, 2047]);
                x.set_int("MaxChannels", n);
            }
            4 if !x.cache.is_empty() => {
                let i = r.below(x.cache.len());
                let p = &mut x.cache[i].props;
                if p.len() > 1 {
                    let (a, b) = (r.below(p.len()), r.below(p.len()));
                    let t = p[a].1;
                    p[a].1 = p[b].1;
                    p[b].1 = t;
                }
            }
            5 if !x.cache.is_empty() => {
                let i = r.below(x.cache.len());
                x.cache.remove(i);
            }
            6 => {
                let k = Knobs::small(r);
                rec::gen_frames(r, &mut x, &k);
            }
            7 => x.junk = r.u64(),
            _ => {
                for f in &mut x.frames {
                    f.t = f.t.wrapping_add(r.below(4) as u32);
                }
            }
        }
    }
    x
}

/// Attributes whose encoding or meaning depends on more than their own bits.
const CONTEXTUAL: &[Tag] = &[
    Tag::QWordString,
    Tag::UniqueId,
    Tag::PartyLeader,
    Tag::Reservation,
    Tag::LoadoutOnline,
    Tag::LoadoutsOnline,
    Tag::Loadout,
    Tag::TeamLoadout,
    Tag::RigidBody,
    Tag::Location,
    Tag::Welded,
    Tag::Explosion,
    Tag::ExtendedExplosion,
    Tag::AppliedDamage,
    Tag::DamageState,
    Tag::Demolish,
    Tag::GameMode,
    Tag::String,
    Tag::CamSettings,
];

/// Attributes with both sides of what their reading turns on: the version, or
/// (none) the build.
const CROSSINGS: &[(Tag, Option<(Ver, Ver)>)] = &[
    (Tag::QWordString, None),
    (Tag::QWordString, None),
    (Tag::Location, Some(((868, 20, 6), (868, 20, 7)))),
    (Tag::RigidBody, Some(((868, 22, 6), (868, 22, 7)))),
    (Tag::Explosion, Some(((868, 22, 5), (868, 22, 10)))),
    (Tag::Demolish, Some(((868, 22, 6), (868, 22, 7)))),
    (Tag::UniqueId, Some(((868, 20, 9), (868, 20, 10)))),
    (Tag::PartyLeader, Some(((868, 20, 9), (868, 20, 10)))),
    (Tag::Reservation, Some(((868, 11, 5), (868, 12, 5)))),
    (Tag::GameMode, Some(((868, 11, 0), (868, 12, 0)))),
    (Tag::CamSettings, Some(((868, 19, 10), (868, 20, 10)))),
];

/// Recordings of the same shape told apart by what is fixed before the frames
/// are read, full of attributes whose reading depends on it.
fn twins(r: &mut Rng, crossed: bool) -> Vec<Shot> {
    let mut k = light(r);
    let x = *r.pick(CROSSINGS);
    k.focus = Some(if crossed { x.0 } else { *r.pick(CONTEXTUAL) });
    k.frames = 1 + r.below(4);
    k.events = 2 + r.below(5);
    if crossed {
        k.frames += r.below(6);
        k.odd_tables = false;
        k.odd_channels = false;
    }
    let mut a = Shot::gen(r, &k, 1);
    a.faults.clear();
    a.close = 0;
    if crossed {
        let swap = r.bool();
        let mut b = a.clone();
        for (rec, side) in [(&mut a.rec, swap), (&mut b.rec, !swap)] {
            match x.1 {
                Some((p, q)) => rec.ver = if side { p } else { q },
                None => rec.set_str("BuildVersion", if side { "180326.56784.194622" } else { "221120.42953.406184" }),
            }
        }
        return vec![a, b];
    }
    if r.one_in(4) {
        // reading is left off in the middle
        a.faults.push(faults::gen_any(r));
    }
    let mut v = vec![a];
    for _ in 0..1 + r.below(2) {
        let mut b = v[0].clone();
        b.rec = sibling(r, &b.rec);
        if r.bool() {
            rec::gen_frames(r, &mut b.rec, &k);
        }
        v.push(b);
    }
    v
}

/// Another image close to one that exists.
fn alike(r: &mut Rng, of: &Shot) -> Shot {
    let mut s = of.clone();
    if r.pct(30) {
        s.faults.clear();
    }
    if r.pct(70) {
        s.rec = sibling(r, &s.rec);
    } else {
        s.faults.extend((0..1 + r.below(2)).map(|_| faults::gen_any(r)));
    }
    s.close = *r.pick(&[0, 0, 1, 2]);
    s
}

impl Prop for C13 {
    type Case = Conc;
    const ID: &'static str = "C13";
    const QUICK: u64 = 60_000;
    const FORK: bool = true;
    const RULE: &'static str = "runs whose (set of control-flow edges reached, sequence of thread switches with their logical times) differ";
    fn gen(r: &mut Rng, _: u64) -> Conc {
        // One caller held up while others get through many calls, or more
        // callers than usual.
        let stall = r.one_in(8);
        let nt = match stall || r.one_in(16) {
            true => 2 + r.below(13),
            false => 2 + r.below(4),
        };
        let k = light(r);
        let mut imgs = vec![Shot::gen(r, &k, 2)];
        if r.pct(60) {
            imgs[0].faults.clear();
        }
        let close = stall || r.pct(40);
        if close {
            let crossed = r.pct(if stall { 70 } else { 15 });
            imgs = twins(r, crossed);
        }
        for _ in 0..if close { r.below(3) / 2 } else { r.below(3) } {
            let s = if r.pct(50) {
                let of = r.pick(&imgs).clone();
                alike(r, &of)
            } else {
                let k = light(r);
                let mut s = Shot::gen(r, &k, 2);
                if r.pct(60) {
                    s.faults.clear();
                }
                s
            };
            imgs.push(s);
        }
        let ni = imgs.len();
        let same = r.one_in(3);
        let (c0, n0) = opts(r);
        let threads = (0..nt)
            .map(|_| {
                let mut v = vec![];
                for _ in 0..1 + r.below(2) {
                    let (c, n) = if same {
                        (c0, n0)
                    } else if close {
                        (*r.pick(&[1, 1, 0, 2]), *r.pick(&[0, 0, 0, 1]))
                    } else {
                        (r.below(3) as u8, *r.pick(&[0, 0, 1, 2, 2]))
                    };
                    v.push(Op::Read { img: r.below(ni) as u8, c, n });
                    for _ in 0..r.below(4) {
                        v.push(match r.below(12) {
                            0..=5 => Op::Look(r.below(5) as u8),
                            6 => Op::Share,
                            7 => Op::Take,
                            8 => Op::Crc { img: r.below(ni) as u8 },
                            9 => Op::Drop,
                            10 => Op::Reload,
                            _ => Op::Look(0),
                        });
                    }
                }
                v
            })
            .collect();
        let mut threads: Vec<Vec<Op>> = threads;
        let mut plan = gen_plan(r, nt);
        if stall {
            let b = r.range(3, 7);
            let total = 1 + r.below(1 << b);
            for _ in 0..total {
                let (c, n) = if same { (c0, n0) } else { (1, *r.pick(&[0, 0, 0, 1])) };
                let t = 1 + r.below(nt - 1);
                threads[t].push(Op::Read { img: r.below(ni) as u8, c, n });
            }
            // A few turns for all, then none for the first.
            plan.truncate(1 + r.below(6));
            for _ in 0..nt * 2 + r.below(60) {
                let b = r.range(8, 20);
                plan.push((1 + r.below(1 << b) as u32, 128 + r.below(64) as u8));
            }
        }
        Conc { imgs, threads, plan, entropy: r.u64() }
    }
    fn exec(c: &Conc, st: &mut Stats) -> Result<(), Viol> {
        if c.imgs.is_empty() || c.threads.is_empty() || c.threads.len() > 16 {
            return Ok(());
        }
        if !sendable() {
            bad!("not shareable", "a result cannot be handed to another thread: Replay or ParseError is not Send and Sync");
        }
        let data: Arc<Vec<Vec<u8>>> = Arc::new(c.imgs.iter().map(|s| s.build(st).1.bytes).collect());
        let n = data.len();
        let mut truth: BTreeMap<(usize, u8, u8), Obs> = BTreeMap::new();
        let mut crcs: BTreeMap<usize, u32> = BTreeMap::new();
        for t in &c.threads {
            for op in t {
                match op {
                    Op::Read { img, c, n: net } => {
                        let key = (*img as usize % n, *c % 3, *net % 3);
                        if !truth.contains_key(&key) {
                            truth.insert(key, alone(&data[key.0], key.1, key.2)?);
                        }
                    }
                    Op::Crc { img } => {
                        let i = *img as usize % n;
                        crcs.insert(i, crate::crc::fast(&data[i]));
                    }
                    _ => {}
                }
            }
        }
        seam::ENTROPY.store(c.entropy, Relaxed);
        type Key = (usize, u8, u8);
        let truth = Arc::new(truth);
        let crcs = Arc::new(crcs);
        // The pool and the log are only touched outside the library, where a
        // thread is never preempted.
        let pool: Arc<Mutex<Vec<(Key, Arc<Sent<Out>>)>>> = Arc::default();
        let bads: Arc<Mutex<Vec<(String, String)>>> = Arc::default();
        let calls = Arc::new(Mutex::new(0u64));
        let bodies = c
            .threads
            .iter()
            .enumerate()
            .map(|(ti, ops)| {
                let (ops, data, truth, crcs, pool, bads, calls) =
                    (ops.clone(), data.clone(), truth.clone(), crcs.clone(), pool.clone(), bads.clone(), calls.clone());
                Box::new(move || {
                    let mut cur: Option<(Key, Arc<Sent<Out>>)> = None;
                    let say = |c: &str, m: String| bads.lock().unwrap().push((c.into(), format!("thread {ti}: {m}")));
                    let part = |cur: Option<(Key, Arc<Sent<Out>>)>| {
                        if let Some((k, a)) = cur {
                            if let Ok(o) = Arc::try_unwrap(a) {
                                let mut h = Some(o.0);
                                if let Err(p) = seam::sut(|| glue::drop_outcome(h.take().unwrap())) {
                                    say("panic", format!("dropping the result of {k:?} panicked: {p}"));
                                }
                            }
                        }
                    };
                    for (oi, op) in ops.iter().enumerate() {
                        *calls.lock().unwrap() += 1;
                        match op {
                            Op::Read { img, c, n: net } => {
                                let key = (*img as usize % n, *c % 3, *net % 3);
                                part(cur.take());
                                match read_in(&data[key.0], key.1, key.2) {
                                    Ok(o) => cur = Some((key, Arc::new(Sent(o)))),
                                    Err(p) => say("panic", format!("op {oi}: reading image {} panicked: {p}", key.0)),
                                }
                                if let Some((k, o)) = &cur {
                                    let got = show(&o.0);
                                    let want = &truth[k].0["what"];
                                    if !want.starts_with(&got) {
                                        say("differs: what", format!("op {oi}: reading image {} gave {got}, alone it gives {want}", k.0));
                                    }
                                }
                            }
                            Op::Look(w) => {
                                if let Some((k, o)) = &cur {
                                    let way = LOOKS[*w as usize % 5];
                                    let want = truth[k].0.get(way).cloned().unwrap_or_default();
                                    match look(&o.0, *w as usize % 5) {
                                        Ok(got) if got == want => {}
                                        Ok(got) => say(&format!("differs: {way}"), format!("op {oi}: looking ({way}) at image {} read with {:?} shows {got}, alone it shows {want}", k.0, (k.1, k.2))),
                                        Err(p) => say("panic", format!("op {oi}: looking ({way}) panicked: {p}")),
                                    }
                                }
                            }
                            Op::Share => {
                                if let Some(x) = &cur {
                                    pool.lock().unwrap().push(x.clone());
                                }
                            }
                            Op::Take => {
                                let x = pool.lock().unwrap().last().cloned();
                                if let Some(x) = x {
                                    part(cur.replace(x));
                                }
                            }
                            Op::Crc { img } => {
                                let i = *img as usize % n;
                                match seam::sut(|| glue::calc_crc(&data[i])) {
                                    Ok(x) if x == crcs[&i] => {}
                                    Ok(x) => say("differs: checksum", format!("op {oi}: the checksum of image {i} came out as {x:08x}, alone it is {:08x}", crcs[&i])),
                                    Err(p) => say("panic", format!("op {oi}: checksum panicked: {p}")),
                                }
                            }
                            Op::Drop => part(cur.take()),
                            Op::Reload => {
                                if let Some((k, o)) = &cur {
                                    if let Ok(Some(f)) = o.0.as_ref().map(|r| r.network_frames.as_ref()) {
                                        let got = seam::sut(|| {
                                            let mut v = vec![];
                                            let _ = glue::json_frames(&f.frames, false, &mut v);
                                            let x = glue::load_frames_slice(&v);
                                            let mut w = vec![];
                                            if let Ok(x) = &x {
                                                let _ = glue::json_frames(x, false, &mut w);
                                            }
                                            (x.is_ok(), v == w, v.windows(4).any(|x| x == b"null"))
                                        });
                                        match got {
                                            Ok((true, true, _)) | Ok((_, _, true)) => {}
                                            Ok(x) => say("differs: reload", format!("op {oi}: frames of image {} saved and restored: {x:?}", k.0)),
                                            Err(p) => say("panic", format!("op {oi}: reloading panicked: {p}")),
                                        }
                                    }
                                }
                            }
                        }
                    }
                    part(cur.take());
                }) as Box<dyn FnOnce() + Send>
            })
            .collect();
        let rep = sched::run(bodies, &c.plan, STACK, caps());
        st.calls += *calls.lock().unwrap();
        st.steps += rep.steps;
        st.add("atomic operations", rep.syncs);
        st.add("switches", rep.switches);
        st.add("blocked on a lock", rep.blocks);
        st.add("threads", c.threads.len() as u64);
        for _ in 0..rep.preemptions {
            st.fault("preemption");
        }
        st.max("switches in one run", rep.switches as f64);
        st.see(rep.hash);
        let b = bads.lock().unwrap().first().cloned();
        if let Some((class, msg)) = b {
            bad!(&class, "{msg} ({} switches)", rep.switches);
        }
        // Nothing may be left behind for a later caller either.
        if let Some((&k, want)) = truth.iter().next() {
            let d = data.clone();
            let got = on_thread(move || {
                seam::arm(caps());
                let r = read_in(&d[k.0], k.1, k.2).map(|o| all_looks(&o));
                seam::disarm();
                r
            });
            match got {
                Ok(o) if o == *want => {}
                Ok(o) => bad!("differs: afterwards", "after the concurrent calls image {} reads as {o:?}, alone as {want:?}", k.0),
                Err(p) => bad!("panic", "after the concurrent calls reading image {} panicked: {p}", k.0),
            }
        }
        Ok(())
    }
}

/// Whether results may cross threads, asked without refusing to compile when
/// they may not.
struct Sent<T>(T);
unsafe impl<T> Send for Sent<T> {}
unsafe impl<T> Sync for Sent<T> {}
fn sendable() -> bool {
    struct W<T>(std::marker::PhantomData<T>);
    trait No {
        fn ask(&self) -> bool {
            false
        }
    }
    impl<T> No for &W<T> {}
    impl<T: Send + Sync> W<T> {
        fn ask(&self) -> bool {
            true
        }
    }
    let (a, b) = (W::<boxcars::Replay>(std::marker::PhantomData), W::<boxcars::ParseError>(std::marker::PhantomData));
    #[allow(clippy::needless_borrow)]
    {
        (&a).ask() && (&b).ask()
    }
}

// ---------------------------------------------------------------- C14

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Past {
    /// Another file is read.
    Other { shot: Shot, c: u8, n: u8, keep: bool, looks: u8 },
    /// A look-alike of the file is read from the very buffer it will be read
    /// from: same address, often same size and checksum words.
    Alike { faults: Vec<Fault>, close: u8, c: u8, n: u8, keep: bool, looks: u8 },
    /// Another recording that keeps the header and footer.
    Sibling { shot: Shot, c: u8, n: u8, looks: u8 },
    /// The same file, other options.
    Same { c: u8, n: u8, looks: u8 },
    /// The bytes pass through the checksum.
    Crc { flip: u32 },
    /// Another outcome is written or rendered into a sink that fails, panics
    /// or uses the library itself; then again.
    Spill { shot: Shot, c: u8, n: u8, plan: Plan, pretty: bool },
    /// A damaged save of another history is loaded, from a source that may
    /// fail, panic or use the library itself.
    Load { shot: Shot, plan: Plan, flip: u32, json: bool },
    /// Unrelated memory is held, shifting where everything lands.
    Hold(u32),
    Clock(u64),
}

/// Runs library code in which the caller's own code may panic.
fn with_cry(f: impl FnOnce()) -> Result<(), String> {
    match seam::sut(f) {
        Err(m) if !m.contains(io::CRY) => Err(m),
        _ => Ok(()),
    }
}
/// What the caller's code behind a sink or source does with the library.
fn meanwhile(bytes: &[u8]) {
    match glue::parse(bytes, CRCS[2], NETS[2]) {
        Ok(r) => drop(glue::json_bytes(&r)),
        Err(e) => drop(glue::render_error(&e)),
    }
}
fn spill(o: &Out, bytes: &[u8], p: &Plan, pretty: bool) -> Result<(), String> {
    match o {
        Ok(r) => {
            let n = glue::json_bytes(r).map_or(0, |b| b.len());
            let mut s = io::Sink::new(p, ser::place(p, n));
            s.hook = Some(Box::new(|| meanwhile(bytes)));
            with_cry(|| drop(glue::json_sink(r, pretty, &mut s)))
        }
        Err(e) => {
            let n = e.to_string().len();
            let mut s = io::Pen::new(p, ser::place(p, n));
            s.hook = Some(Box::new(|| meanwhile(bytes)));
            with_cry(|| {
                let _ = glue::render_into(e, &mut s);
            })
        }
    }
}
fn damaged(r: &boxcars::Replay, bytes: &[u8], p: &Plan, flip: u32, json: bool) -> Result<(), String> {
    let Some(f) = &r.network_frames else { return Ok(()) };
    let mut save = vec![];
    if json {
        with_cry(|| drop(glue::json_frames(&f.frames, false, &mut save)))?;
    } else {
        save = posfmt::save(&f.frames).unwrap_or_default();
    }
    if !save.is_empty() && flip & 1 == 0 {
        let n = save.len();
        save[(flip >> 4) as usize % n] ^= 1 << (flip >> 1 & 7);
    }
    let mut s = io::Source::new(p, &save, ser::place(p, save.len()));
    s.hook = Some(Box::new(|| meanwhile(bytes)));
    with_cry(|| {
        if json {
            drop(glue::load_frames(&mut s));
        } else {
            drop(posfmt::load::<Vec<boxcars::Frame>>(&mut s));
        }
    })
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Hist {
    target: Shot,
    c: u8,
    n: u8,
    past: Vec<Past>,
    entropy: u64,
    clock: (u64, i64),
    align: u8,
    /// Other ways of spelling the options (see glue::parse_spelled).
    spell: u8,
    /// The reading thread is a new one.
    fresh_thread: bool,
}

impl Prop for C14 {
    type Case = Hist;
    const ID: &'static str = "C14";
    const QUICK: u64 = 60_000;
    const FORK: bool = true;
    const RULE: &'static str = "runs whose (set of control-flow edges reached, history of outcomes) differ";
    fn gen(r: &mut Rng, _: u64) -> Hist {
        let mut k = Knobs::small(r);
        k.bulk = 1500;
        let mut target = Shot::gen(r, &k, 2);
        if r.pct(50) {
            target.faults.clear();
        }
        let (c, n) = opts(r);
        let past = (0..1 + r.below(5))
            .map(|_| {
                let (c2, n2) = if r.bool() { (c, n) } else { opts(r) };
                let looks = r.below(32) as u8;
                match r.below(21) {
                    16..=18 => {
                        let mut k = Knobs::small(r);
                        k.events = k.events.max(2);
                        let mut shot = if r.bool() { alike(r, &target) } else { Shot::gen(r, &k, 2) };
                        if r.bool() {
                            shot.faults.clear();
                        }
                        Past::Spill { shot, c: c2, n: n2, plan: ser::plan(r), pretty: r.one_in(3) }
                    }
                    19 | 20 => {
                        let k = Knobs::small(r);
                        Past::Load { shot: Shot::gen(r, &k, 0), plan: ser::plan(r), flip: r.u32(), json: r.bool() }
                    }
                    0..=2 => {
                        let k = Knobs::small(r);
                        Past::Other { shot: Shot::gen(r, &k, 3), c: c2, n: n2, keep: r.bool(), looks }
                    }
                    3..=7 => Past::Alike {
                        faults: (0..1 + r.below(3)).map(|_| faults::gen_any(r)).collect(),
                        close: *r.pick(&[0, 0, 1, 2]),
                        c: c2,
                        n: n2,
                        keep: r.bool(),
                        looks,
                    },
                    8..=10 => Past::Sibling { shot: alike(r, &target), c: c2, n: n2, looks },
                    11 | 12 => Past::Same { c: r.below(3) as u8, n: r.below(3) as u8, looks },
                    13 => Past::Crc { flip: r.u32() },
                    14 => Past::Hold(r.size(100_000) as u32),
                    _ => Past::Clock(r.u64() >> r.below(40)),
                }
            })
            .collect();
        Hist {
            target,
            c,
            n,
            past,
            entropy: r.u64(),
            clock: (r.u64() >> 1, *r.pick(&[0, 1, 1000, -1000, 1 << 40, -(1 << 40)])),
            align: r.below(64) as u8,
            spell: r.below(64) as u8,
            fresh_thread: r.one_in(3),
        }
    }
    fn exec(h: &Hist, st: &mut Stats) -> Result<(), Viol> {
        let bytes = h.target.build(st).1.bytes;
        let want = alone(&bytes, h.c % 3, h.n % 3)?;
        // What each step of the past reads.
        struct Step {
            data: Option<Vec<u8>>,
            same_buf: bool,
            c: u8,
            n: u8,
            keep: bool,
            looks: u8,
            past: Past,
        }
        let mut steps: Vec<Step> = vec![];
        for p in &h.past {
            let mut s = Step { data: None, same_buf: false, c: 0, n: 0, keep: false, looks: 0, past: p.clone() };
            match p {
                Past::Other { shot, c, n, keep, looks } => {
                    s = Step { data: Some(shot.build(st).1.bytes), c: *c, n: *n, keep: *keep, looks: *looks, ..s };
                    st.fault("other file read before");
                }
                Past::Alike { faults, close, c, n, keep, looks } => {
                    let mut x = h.target.clone();
                    x.faults.extend(faults.iter().cloned());
                    x.close = *close;
                    s = Step { data: Some(x.build(st).1.bytes), same_buf: true, c: *c, n: *n, keep: *keep, looks: *looks, ..s };
                    st.fault("look-alike read from the same buffer");
                }
                Past::Sibling { shot, c, n, looks } => {
                    s = Step { data: Some(shot.build(st).1.bytes), same_buf: true, c: *c, n: *n, looks: *looks, ..s };
                    st.fault("related file read before");
                }
                Past::Same { c, n, looks } => {
                    s = Step { data: Some(bytes.clone()), same_buf: true, c: *c, n: *n, looks: *looks, ..s };
                    st.fault("same file read with other options");
                }
                Past::Spill { shot, c, n, .. } => {
                    s = Step { data: Some(shot.build(st).1.bytes), c: *c, n: *n, ..s };
                    st.fault("other outcome written to a bad sink");
                }
                Past::Load { shot, .. } => {
                    s = Step { data: Some(shot.build(st).1.bytes), c: 1, n: 2, ..s };
                    st.fault("damaged save loaded");
                }
                Past::Crc { .. } => {}
                Past::Hold(_) => st.fault("heap shifted"),
                Past::Clock(_) => st.fault("clock jump"),
            }
            steps.push(s);
        }
        st.fault("other hash seed");
        st.fault("other environment and processors");
        seam::ENV.store(h.entropy | 1, Relaxed);
        // Nothing it may be told to write goes anywhere.
        seam::WATCH.store(h.entropy | 1, Relaxed);
        seam::ENTROPY.store(h.entropy, Relaxed);
        seam::CLOCK.store(h.clock.0, Relaxed);
        seam::CLOCK_STEP.store(h.clock.1, Relaxed);
        let longest = steps.iter().filter_map(|s| s.data.as_ref().map(|d| d.len())).max().unwrap_or(0).max(bytes.len());
        let (align, c, n, spell, fresh) = (h.align as usize % 64, h.c % 3, h.n % 3, h.spell, h.fresh_thread);
        let body = {
            let bytes = bytes.clone();
            move || -> Result<(Vec<Obs>, Vec<String>, u64, u64), String> {
                seam::arm(caps());
                let mut buf = vec![0xA5u8; longest + 64];
                let mut kept: Vec<Out> = vec![];
                let mut held: Vec<Vec<u8>> = vec![];
                let mut notes = vec![];
                let mut calls = 0;
                for s in &steps {
                    match (&s.past, &s.data) {
                        (Past::Crc { flip }, _) => {
                            let mut d = bytes.clone();
                            if !d.is_empty() {
                                let n = d.len();
                                d[*flip as usize % n] ^= 1 << (flip >> 29);
                            }
                            let _ = seam::sut(|| glue::calc_crc(&d))?;
                            calls += 1;
                        }
                        (Past::Hold(n), _) => held.push(vec![1; *n as usize]),
                        (Past::Clock(t), _) => seam::CLOCK.store(*t, Relaxed),
                        (Past::Spill { plan, pretty, .. }, Some(d)) => {
                            let o = read_in(d, s.c, s.n)?;
                            notes.push(show(&o));
                            calls += 3;
                            spill(&o, &bytes, plan, *pretty)?;
                            spill(&o, &bytes, plan, !*pretty)?;
                        }
                        (Past::Load { plan, flip, json, .. }, Some(d)) => {
                            if let Ok(r) = read_in(d, s.c, s.n)? {
                                calls += 2;
                                damaged(&r, &bytes, plan, *flip, *json)?;
                            }
                        }
                        (_, Some(d)) => {
                            let src: &[u8] = if s.same_buf {
                                buf[align..align + d.len()].copy_from_slice(d);
                                &buf[align..align + d.len()]
                            } else {
                                d
                            };
                            let o = read_in(src, s.c, s.n)?;
                            calls += 1;
                            notes.push(show(&o));
                            for w in 0..5 {
                                if s.looks >> w & 1 == 1 {
                                    look(&o, w)?;
                                    calls += 1;
                                }
                            }
                            if s.keep {
                                kept.push(o);
                            }
                        }
                        _ => {}
                    }
                }
                buf[align..align + bytes.len()].copy_from_slice(&bytes);
                let src = buf[align..align + bytes.len()].to_vec();
                let mut seen = vec![];
                // From the used buffer, from another address, spelled
                // differently.
                seen.push(all_looks(&read_in(&buf[align..align + bytes.len()], c, n)?));
                seen.push(all_looks(&seam::sut(|| glue::parse_spelled(&src, c, n, spell))?));
                calls += 12;
                if fresh {
                    let s2 = src.clone();
                    seen.push(on_thread(move || read_in(&s2, c, n).map(|o| all_looks(&o)))?);
                    calls += 6;
                }
                let m = seam::disarm();
                drop(kept);
                drop(held);
                Ok((seen, notes, calls, m.steps))
            }
        };
        let (seen, notes, calls, stp) = match on_thread(body) {
            Ok(x) => x,
            Err(p) => bad!("panic", "in the history: {p}"),
        };
        st.calls += calls;
        st.steps += stp;
        for n in &notes {
            st.see_str(n);
        }
        st.see_str(&want.0["what"]);
        for (i, got) in seen.iter().enumerate() {
            for (k, w) in &want.0 {
                let g = got.0.get(k).cloned().unwrap_or_default();
                if g != *w {
                    let how = ["after the history", "after the history, options spelled differently", "after the history, on a new thread"][i];
                    bad!(&format!("differs: {k}"), "{how} the file shows ({k}) {g}; a process that reads nothing else shows {w}");
                }
            }
        }
        Ok(())
    }
}
