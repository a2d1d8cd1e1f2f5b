//! Seeded scheduler over real threads that are parked and released one at a
//! time. Preemption happens at logical steps (control-flow edges, allocations
//! and bulk moves of the system under test); std's locks block through the
//! simulated futex, so who runs, who waits and who is woken is decided here.
use crate::seam;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;

const MAXT: usize = 16;
static ON: AtomicBool = AtomicBool::new(false);
static CUR: AtomicUsize = AtomicUsize::new(0);
static N: AtomicUsize = AtomicUsize::new(0);
static BATON: [AtomicU32; MAXT + 1] = [const { AtomicU32::new(0) }; MAXT + 1];
/// 0 runnable, 1 done, otherwise the futex address waited on.
static STATE: [AtomicU64; MAXT] = [const { AtomicU64::new(1) }; MAXT];
static WOKEN: [AtomicBool; MAXT] = [const { AtomicBool::new(false) }; MAXT];

/// In a plan's gap: count control-flow edges the running thread has not been
/// at before instead of steps.
pub const NOVEL: u32 = 1 << 31;
/// In a plan's gap: count atomic operations instead of steps.
pub const SYNC: u32 = 1 << 30;

#[derive(Default)]
struct Plan {
    v: Vec<(u32, u8)>,
    i: usize,
    fair: u64,
    switches: u64,
    blocks: u64,
    timeouts: u64,
    hash: u64,
}
static PLAN: Mutex<Option<Plan>> = Mutex::new(None);

#[derive(Clone, Debug, Default)]
pub struct Report {
    pub switches: u64,
    pub blocks: u64,
    pub timeouts: u64,
    pub preemptions: u64,
    pub steps: u64,
    pub syncs: u64,
    pub hash: u64,
}

pub fn enabled() -> bool {
    ON.load(Relaxed)
}

fn hand_to(t: usize) {
    BATON[t].store(1, Release);
    seam::real_futex(BATON[t].as_ptr(), 1 | 128, 1);
}
fn wait_for_baton(t: usize) {
    while BATON[t].swap(0, Acquire) == 0 {
        seam::real_futex(BATON[t].as_ptr(), 128, 0);
    }
}

fn runnable() -> Vec<usize> {
    (0..N.load(Relaxed)).filter(|&i| STATE[i].load(Relaxed) == 0).collect()
}

/// A choice of 128 and above leaves out the first that could run.
fn choose(r: &[usize], k: u8) -> usize {
    let n = r.len();
    r[match k as usize {
        k if k < 128 || n == 1 => k % n,
        k => 1 + (k - 128) % (n - 1),
    }]
}

fn arm_next(p: &mut Plan) {
    let now = seam::STEPS.load(Relaxed);
    let gap = match p.v.get(p.i) {
        Some(&(g, _)) => g as u64,
        None => p.fair,
    };
    let (gap, first, sync) = match gap as u32 {
        g if g & NOVEL != 0 => (p.fair, g & 0xffff, 0),
        g if g & SYNC != 0 => (p.fair, 0, g & 0xffff),
        _ => (gap, 0, 0),
    };
    seam::FIRST_LEFT.store(first, Relaxed);
    seam::SYNC_LEFT.store(sync, Relaxed);
    seam::PREEMPT_AT.store(now + gap.max(1), Relaxed);
    seam::set_next();
}

fn switch(p: Option<std::sync::MutexGuard<'_, Option<Plan>>>, me: usize, to: usize) {
    if let Some(mut g) = p {
        let pl = g.as_mut().unwrap();
        pl.switches += 1;
        pl.hash = crate::rng::mix(pl.hash ^ (to as u64) ^ seam::STEPS.load(Relaxed).rotate_left(17));
        drop(g);
    }
    CUR.store(to, Relaxed);
    seam::THREAD_BIT.store(1 << to, Relaxed);
    hand_to(to);
    wait_for_baton(me);
}

/// Called from the edge/alloc callbacks when the planned step is reached.
pub fn preempt() {
    if !enabled() {
        seam::PREEMPT_AT.store(u64::MAX, Relaxed);
        seam::set_next();
        return;
    }
    let me = CUR.load(Relaxed);
    let mut g = PLAN.lock().unwrap();
    let p = g.as_mut().unwrap();
    let r = runnable();
    let pick = match p.v.get(p.i) {
        Some(&(_, k)) => choose(&r, k),
        None => *r.iter().find(|&&x| x > me).unwrap_or(&r[0]),
    };
    p.i += 1;
    arm_next(p);
    if pick != me {
        switch(Some(g), me, pick);
    }
}

/// The simulated futex. Returns a non-negative result or -errno.
pub fn futex(addr: *const u32, op: i64, val: u32, timed: bool) -> i64 {
    let me = CUR.load(Relaxed);
    match op & 0x7f {
        // WAIT, WAIT_BITSET
        0 | 9 => {
            let now = unsafe { (*(addr as *const AtomicU32)).load(SeqCst) };
            if now != val {
                return -11;
            }
            let mut g = PLAN.lock().unwrap();
            let p = g.as_mut().unwrap();
            p.blocks += 1;
            WOKEN[me].store(false, Relaxed);
            STATE[me].store(addr as u64, Relaxed);
            let r = runnable();
            if r.is_empty() {
                if timed {
                    // Simulated time jumps to the deadline.
                    p.timeouts += 1;
                    STATE[me].store(0, Relaxed);
                    return -110;
                }
                seam::die(seam::EXIT_DEADLOCK);
            }
            let pick = match p.v.get(p.i) {
                Some(&(_, k)) => choose(&r, k),
                None => r[0],
            };
            p.i += 1;
            arm_next(p);
            switch(Some(g), me, pick);
            0
        }
        // WAKE, WAKE_BITSET
        1 | 10 => {
            let mut n = 0;
            for i in 0..N.load(Relaxed) {
                if n >= val as i64 {
                    break;
                }
                if STATE[i].load(Relaxed) == addr as u64 {
                    STATE[i].store(0, Relaxed);
                    WOKEN[i].store(true, Relaxed);
                    n += 1;
                }
            }
            n
        }
        _ => -38,
    }
}

fn finish(me: usize) {
    STATE[me].store(1, Relaxed);
    let r = runnable();
    let mut g = PLAN.lock().unwrap();
    let p = g.as_mut().unwrap();
    if r.is_empty() {
        let stuck = (0..N.load(Relaxed)).any(|i| STATE[i].load(Relaxed) > 1);
        if stuck {
            seam::die(seam::EXIT_DEADLOCK);
        }
        drop(g);
        CUR.store(MAXT, Relaxed);
        seam::THREAD_BIT.store(0, Relaxed);
        hand_to(MAXT);
        return;
    }
    let pick = match p.v.get(p.i) {
        Some(&(_, k)) => choose(&r, k),
        None => r[0],
    };
    p.i += 1;
    p.hash = crate::rng::mix(p.hash ^ 0x55 ^ pick as u64);
    arm_next(p);
    drop(g);
    CUR.store(pick, Relaxed);
    seam::THREAD_BIT.store(1 << pick, Relaxed);
    hand_to(pick);
}

/// Runs the bodies as simulated threads under the given plan of
/// (steps until preemption, which runnable thread next).
pub fn run(bodies: Vec<Box<dyn FnOnce() + Send + 'static>>, plan: &[(u32, u8)], stack: usize, lim: seam::Limits) -> Report {
    let n = bodies.len();
    assert!(n > 0 && n <= MAXT);
    seam::arm(lim);
    N.store(n, Relaxed);
    for i in 0..n {
        STATE[i].store(0, Relaxed);
        BATON[i].store(0, Relaxed);
    }
    BATON[MAXT].store(0, Relaxed);
    let mut p = Plan { v: plan.to_vec(), fair: 200_000, ..Default::default() };
    arm_next(&mut p);
    *PLAN.lock().unwrap() = Some(p);
    let hs: Vec<_> = bodies
        .into_iter()
        .enumerate()
        .map(|(i, b)| {
            std::thread::Builder::new()
                .stack_size(stack)
                .spawn(move || {
                    wait_for_baton(i);
                    b();
                    finish(i);
                })
                .unwrap()
        })
        .collect();
    ON.store(true, SeqCst);
    CUR.store(0, Relaxed);
    seam::first_clear();
    seam::THREAD_BIT.store(1, Relaxed);
    hand_to(0);
    wait_for_baton(MAXT);
    ON.store(false, SeqCst);
    for h in hs {
        let _ = h.join();
    }
    let m = seam::disarm();
    let p = PLAN.lock().unwrap().take().unwrap();
    Report { switches: p.switches, blocks: p.blocks, timeouts: p.timeouts, preemptions: p.i as u64, hash: p.hash, steps: m.steps, syncs: seam::SYNCS.swap(0, Relaxed) }
}
