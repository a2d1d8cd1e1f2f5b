//! C22: every machine reads a file alike. The library runs on simulated
//! machines of other word sizes and byte orders (Miri interpreting the library
//! compiled for them) and on this one; the same file must come to the same.
use super::*;
use crate::bad;
use crate::judge;
use crate::rec::FieldKind;
use crate::seam::{self, Limits};
use std::io::{Read, Write};
use std::os::fd::AsRawFd;
use std::os::unix::process::CommandExt;
use std::path::PathBuf;
use std::process::{Child, Command, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct C22;

/// The file that says how to run it, what it calls itself, what we call it.
const MACHINES: [(&str, &str, &str); 4] = [
    ("i686-unknown-linux-gnu", "32 bits little debug", "32-bit little-endian"),
    ("s390x-unknown-linux-gnu", "64 bits big debug", "64-bit big-endian"),
    ("powerpc-unknown-linux-gnu", "32 bits big release", "32-bit big-endian"),
    ("plain", "64 bits little release", "plain (this one, with the library built for release and not instrumented)"),
];
/// The last machine is not interpreted.
const PLAIN: usize = 3;
/// Cases that cost this machine more than this are left out: interpreted, they
/// would take too long.
const STEPS: u64 = 40_000;
const PATIENCE: Duration = Duration::from_secs(100);
const LIFE: u32 = 200;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Case22 {
    Shot { shot: Shot, opt: (u8, u8), more: u8, machine: u8 },
    Noise { bytes: Vec<u8>, opt: (u8, u8), more: u8, machine: u8 },
}

struct Machine {
    child: Child,
    cases: u32,
}
impl Drop for Machine {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
type Parts = Vec<(String, Vec<u8>)>;

#[repr(C)]
struct PollFd {
    fd: i32,
    events: i16,
    revents: i16,
}
extern "C" {
    fn poll(p: *mut PollFd, n: u64, ms: i32) -> i32;
    fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

enum Trouble {
    /// The simulated machine stopped; what it said last.
    Died(String),
    Stuck,
    Harness(String),
}

impl Machine {
    fn dir() -> PathBuf {
        // <target>/x86_64-unknown-linux-gnu/release/boxsim
        let exe = std::env::current_exe().unwrap();
        exe.ancestors().nth(3).unwrap().join("mach")
    }
    fn start(m: usize) -> Result<Machine, Trouble> {
        let f = Machine::dir().join(format!("run-{}", MACHINES[m].0));
        let s = std::fs::read_to_string(&f).map_err(|e| Trouble::Harness(format!("{}: {e} (sim/mach.sh makes it)", f.display())))?;
        let mut l = s.lines();
        let (cwd, prog) = (l.next().unwrap_or(""), l.next().unwrap_or(""));
        let mut c = Command::new(prog);
        c.args(l);
        if m != PLAIN {
            // The library forbids unsafe code: the interpreter's checks of
            // unsafe code are left out for speed.
            c.args(["-Zmiri-disable-isolation", "-Zmiri-disable-validation", "-Zmiri-disable-stacked-borrows", "-Zmiri-seed=1"]);
        }
        c.current_dir(cwd)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::piped());
        // It must not outlive this process, whatever it is doing.
        unsafe {
            c.pre_exec(|| {
                prctl(1, 9, 0, 0, 0);
                Ok(())
            });
        }
        let child = c.spawn().map_err(|e| Trouble::Harness(format!("{prog}: {e}")))?;
        let mut x = Machine { child, cases: 0 };
        match x.answer() {
            Ok(v) if v.iter().any(|p| p.0 == "machine" && p.1 == MACHINES[m].1.as_bytes()) => Ok(x),
            Ok(v) => Err(Trouble::Harness(format!("not the machine asked for: {v:?}"))),
            Err(Trouble::Died(s)) => Err(Trouble::Harness(format!("the machine did not start: {s}"))),
            Err(e) => Err(e),
        }
    }
    fn read(&mut self, n: usize, end: Instant) -> Result<Vec<u8>, Trouble> {
        let mut b = vec![0; n];
        let mut at = 0;
        while at < n {
            let o = self.child.stdout.as_mut().unwrap();
            let left = end.saturating_duration_since(Instant::now()).as_millis() as i32;
            let mut p = PollFd { fd: o.as_raw_fd(), events: 1, revents: 0 };
            let k = unsafe { poll(&mut p, 1, left) };
            if k == 0 {
                return Err(Trouble::Stuck);
            }
            match o.read(&mut b[at..]) {
                Ok(0) => {
                    let mut s = String::new();
                    let _ = self.child.stderr.as_mut().unwrap().read_to_string(&mut s);
                    let s = s.lines().find(|l| l.starts_with("error")).unwrap_or("no message").to_string();
                    return Err(Trouble::Died(s));
                }
                Ok(k) => at += k,
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                Err(e) => return Err(Trouble::Harness(e.to_string())),
            }
        }
        Ok(b)
    }
    fn answer(&mut self) -> Result<Parts, Trouble> {
        let end = Instant::now() + PATIENCE;
        let n = u32::from_le_bytes(self.read(4, end)?.try_into().unwrap());
        let b = self.read(n as usize, end)?;
        let mut b = &b[..];
        let mut texts = vec![];
        while let Some((n, rest)) = b.split_first_chunk::<4>() {
            let n = (u32::from_le_bytes(*n) as usize).min(rest.len());
            texts.push(rest[..n].to_vec());
            b = &rest[n..];
        }
        Ok(texts.chunks_exact(2).map(|c| (String::from_utf8_lossy(&c[0]).into_owned(), c[1].clone())).collect())
    }
    fn ask(&mut self, data: &[u8], opt: (u8, u8), more: u8) -> Result<Parts, Trouble> {
        let mut m = (data.len() as u32).to_le_bytes().to_vec();
        m.push(opt.0);
        m.push(opt.1);
        m.push(more);
        m.extend_from_slice(data);
        self.cases += 1;
        // A machine that has stopped shows when its answer is read.
        let i = self.child.stdin.as_mut().unwrap();
        let _ = i.write_all(&m).and_then(|_| i.flush());
        self.answer()
    }
}

/// The machines of this process (a forked child starts its own).
static PARK: Mutex<Option<(u32, [Option<Machine>; 4])>> = Mutex::new(None);

fn ask(m: usize, data: &[u8], opt: (u8, u8), more: u8) -> Result<Parts, Trouble> {
    let me = std::process::id();
    let mut g = PARK.lock().unwrap_or_else(|e| e.into_inner());
    if g.as_ref().is_some_and(|p| p.0 != me) {
        // The parent's: not to be touched from here.
        std::mem::forget(g.take());
    }
    let p = &mut g.get_or_insert_with(|| (me, [None, None, None, None])).1[m];
    for last in [false, true] {
        if p.as_ref().is_some_and(|x| x.cases >= LIFE) {
            *p = None;
        }
        if p.is_none() {
            *p = Some(Machine::start(m)?);
        }
        match p.as_mut().unwrap().ask(data, opt, more) {
            Ok(v) => return Ok(v),
            Err(e) => {
                *p = None;
                // Only a machine that stops twice stops because of the case.
                if last || matches!(e, Trouble::Stuck) {
                    return Err(e);
                }
            }
        }
    }
    unreachable!()
}

/// A value a small multiple of which does not fit 32 bits, most often.
fn wraps(r: &mut Rng) -> u32 {
    match r.below(3) {
        0 => faults::gen_word(r),
        1 => (1u32 << (26 + r.below(6))).wrapping_add(r.below(40) as u32),
        _ => (1u32 << (26 + r.below(6))).wrapping_mul(1 + r.below(7) as u32).wrapping_sub(1 + r.below(3) as u32),
    }
}

/// Stream ids that a class lists twice: what it lists last is what they mean.
fn decoys(r: &mut Rng, rec: &mut Rec) {
    let n = rec.objects.len();
    for c in rec.cache.iter_mut() {
        for i in (0..c.props.len()).rev() {
            if r.bool() {
                let d = (r.below(n) as i32, c.props[i].1);
                c.props.insert(r.below(i + 1), d);
            }
        }
    }
}

impl Prop for C22 {
    type Case = Case22;
    const ID: &'static str = "C22";
    const QUICK: u64 = 48_000;
    const SECS: u64 = 150;
    const THOROUGH: u64 = 12;
    const RULE: &'static str = "runs whose (set of control-flow edges reached on this machine, outcome, machine) differ";
    const REAL: &'static str = "all of boxcars, its dependencies, serde and serde_json: compiled for this machine (instrumented) and interpreted as compiled for the others";
    const STUB: &'static str = "the machines (Miri: word size, byte order, memory), the recorder (game), disk and transfer";
    fn gen(r: &mut Rng, idx: u64) -> Case22 {
        // Few runs can be interpreted, many read plainly.
        let machine = match idx % 61 {
            x @ 0..=2 => x as u8,
            _ => PLAIN as u8,
        };
        let plain = machine as usize == PLAIN;
        let opt = opts(r);
        let more = *r.pick(&[0, 0, 0, 1, 2, 3]);
        if r.one_in(24) {
            let n = r.size(64);
            let bytes = (0..n).map(|_| if r.one_in(3) { r.u32() as u8 } else { *r.pick(&[0, 0, 0, 1, 4, 0x7f, 0x80, 0xff]) }).collect();
            return Case22::Noise { bytes, opt, more, machine };
        }
        let mut k = Knobs::small(r);
        if !plain {
            k.frames = k.frames.min(3);
            k.header = k.header.min(3);
            k.footer = k.footer.min(2);
        } else {
            k.bulk = 400;
        }
        k.odd_channels = r.one_in(6);
        k.odd_tables = r.bool();
        k.wild = r.one_in(4);
        k.hot_ids = true;
        if !plain || r.bool() {
            k.focus = Some(crate::attrs::ALL_TAGS[(idx % crate::attrs::ALL_TAGS.len() as u64) as usize]);
        }
        let mut shot = Shot::gen(r, &k, 3);
        if r.one_in(3) {
            decoys(r, &mut shot.rec);
        }
        match r.below(8) {
            // As the writer recorded it: everything is read.
            0..=3 => shot.faults.clear(),
            // One size or count that a machine word cannot be multiplied by
            // much.
            4 => {
                let img = shot.rec.image();
                let kind = *r.pick(&[FieldKind::Count, FieldKind::Count, FieldKind::TextLen, FieldKind::SecSize, FieldKind::NetSize, FieldKind::Num]);
                let at: Vec<u32> = (0..img.fields.len() as u32).filter(|&i| img.fields[i as usize].0 == kind).collect();
                if !at.is_empty() {
                    shot.faults = vec![Fault::Word(*r.pick(&at), wraps(r))];
                    shot.close = if matches!(kind, FieldKind::SecSize) { 0 } else { 1 };
                }
            }
            5 => {
                shot.faults.clear();
                shot.rec.set_int(*r.pick(&["NumFrames", "NumFrames", "MaxChannels"]), wraps(r) as i32);
            }
            _ => {}
        }
        Case22::Shot { shot, opt, more, machine }
    }
    fn exec(c: &Case22, st: &mut Stats) -> Result<(), Viol> {
        let (data, opt, more, m) = match c {
            Case22::Shot { shot, opt, more, machine } => (shot.build(st).1.bytes, *opt, *more, *machine),
            Case22::Noise { bytes, opt, more, machine } => (bytes.clone(), *opt, *more, *machine),
        };
        let m = m as usize % MACHINES.len();
        let lim = Limits { steps: 3_000_000_000, mem: 3 << 30 };
        // What would take an interpreter too long is found out first.
        let (pre, meter) = seam::metered(lim, || glue::parse(&data, CRCS[opt.0 as usize % 3], NETS[opt.1 as usize % 3]));
        st.calls += 1;
        st.steps += meter.steps;
        let Ok(pre) = pre else {
            // A panic here is no difference between machines (see C01).
            st.count("left out: panics on this machine");
            return Ok(());
        };
        see_out(st, &pre);
        st.see(m as u64);
        if m != PLAIN && (meter.steps > STEPS || data.len() > 40_000) {
            st.count("left out: too much to interpret");
            return Ok(());
        }
        drop(pre);
        let (here, _) = seam::metered(lim, || judge::outcome(&data, opt.0, opt.1, more));
        let Ok(here) = here else {
            st.count("left out: panics on this machine");
            return Ok(());
        };
        let (_, _, name) = MACHINES[m];
        let there = match ask(m, &data, opt, more) {
            Ok(v) => v,
            Err(Trouble::Harness(e)) => return viol("harness", e),
            Err(Trouble::Stuck) => bad!("stuck", "on the {name} machine the call does not finish"),
            Err(Trouble::Died(s)) => bad!("died", "on the {name} machine the program dies: {s}"),
        };
        st.calls += 1;
        st.count(&format!("read on the {name} machine"));
        if let Some(p) = there.iter().find(|p| p.0 == "panic") {
            bad!("panic", "on the {name} machine the call panics ({}), on this one it does not", String::from_utf8_lossy(&p.1));
        }
        for (i, (k, v)) in here.iter().enumerate() {
            match there.get(i) {
                Some((a, b)) if a == k && b == v => {}
                Some((a, b)) if a == k => {
                    let at = v.iter().zip(b).take_while(|(x, y)| x == y).count();
                    let cut = |v: &[u8]| {
                        let v = &v[at.saturating_sub(24).min(v.len())..v.len().min(at + 40)];
                        v.escape_ascii().to_string()
                    };
                    return viol(
                        &format!("differs: {k}"),
                        format!("{k}: from byte {at} on this machine makes [{}] of the file, the {name} machine [{}]", cut(v), cut(b)),
                    );
                }
                o => {
                    let o = o.map_or("nothing".to_string(), |(a, b)| format!("{a}: {}", b.escape_ascii()));
                    return viol(&format!("differs: {k}"), format!("this machine makes of the file [{k}: {}], the {name} machine [{o}]", v.escape_ascii()));
                }
            }
        }
        if there.len() != here.len() {
            bad!("differs: more", "on the {name} machine there is more: {:?}", there[here.len()]);
        }
        Ok(())
    }
}
