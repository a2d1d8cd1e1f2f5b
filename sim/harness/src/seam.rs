//! The seams. Every source of nondeterminism and every resource the system
//! under test can reach goes through here: control flow (edge callbacks =
//! logical clock, coverage and preemption points), the allocator, bulk byte
//! moves, the futex behind std's locks, the entropy behind std's hashers,
//! the clock, environment variables, the number of processors, and, where it is watched, every call
//! for a file, a terminal, a socket, a thread or a process. Outside a metered window everything passes straight through.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU16, AtomicU32, AtomicU64, AtomicU8, AtomicUsize, Ordering::{Relaxed, SeqCst}};

pub const EXIT_DEADLOCK: i32 = 96;
pub const EXIT_STEPS: i32 = 97;
pub const EXIT_MEMORY: i32 = 98;

thread_local! {
    static ACTIVE: Cell<bool> = const { Cell::new(false) };
}
#[inline(always)]
pub fn active() -> bool {
    ACTIVE.with(|a| a.get())
}
pub fn set_active(v: bool) -> bool {
    ACTIVE.with(|a| a.replace(v))
}

pub static STEPS: AtomicU64 = AtomicU64::new(0);
/// Next step count at which the slow path must be taken.
static NEXT: AtomicU64 = AtomicU64::new(u64::MAX);
static STEP_CAP: AtomicU64 = AtomicU64::new(u64::MAX);
pub static PREEMPT_AT: AtomicU64 = AtomicU64::new(u64::MAX);
static LIVE: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);
static MAXREQ: AtomicU64 = AtomicU64::new(0);
static NALLOC: AtomicU64 = AtomicU64::new(0);
static MEM_CAP: AtomicI64 = AtomicI64::new(i64::MAX);
static MOVED: AtomicU64 = AtomicU64::new(0);

pub const MAXG: usize = 1 << 17;
pub static COV: [AtomicU8; MAXG] = [const { AtomicU8::new(0) }; MAXG];
static GUARDS: AtomicU32 = AtomicU32::new(0);

pub fn guards() -> usize {
    GUARDS.load(Relaxed) as usize
}

pub fn set_next() {
    NEXT.store(STEP_CAP.load(Relaxed).min(PREEMPT_AT.load(Relaxed)), Relaxed);
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut a: *mut u32, b: *mut u32) {
    if a == b || *a != 0 {
        return;
    }
    while a < b {
        let g = GUARDS.fetch_add(1, Relaxed) + 1;
        *a = (g as usize).min(MAXG - 1) as u32;
        a = a.add(1);
    }
}

#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if !active() {
        return;
    }
    let id = *g as usize;
    COV.get_unchecked(id & (MAXG - 1)).store(1, Relaxed);
    let me = THREAD_BIT.load(Relaxed);
    if me != 0 {
        let f = FIRST.get_unchecked(id & (MAXG - 1));
        let was = f.load(Relaxed);
        if was & me == 0 {
            f.store(was | me, Relaxed);
            first_hit();
        }
    }
    bump(1);
}

/// Under the scheduler: which simulated threads have been at an edge, and after
/// how many edges new to the running thread it is to be preempted.
static FIRST: [AtomicU16; MAXG] = [const { AtomicU16::new(0) }; MAXG];
pub static THREAD_BIT: AtomicU16 = AtomicU16::new(0);
pub static FIRST_LEFT: AtomicU32 = AtomicU32::new(0);

#[cold]
#[inline(never)]
fn first_hit() {
    let n = FIRST_LEFT.load(Relaxed);
    if n > 0 {
        FIRST_LEFT.store(n - 1, Relaxed);
        if n == 1 {
            PREEMPT_AT.store(STEPS.load(Relaxed), Relaxed);
            set_next();
        }
    }
}
pub fn first_clear() {
    for x in FIRST.iter().take(guards() + 1) {
        x.store(0, Relaxed);
    }
}

/// Under the scheduler: how many atomic operations until a preemption.
pub static SYNC_LEFT: AtomicU32 = AtomicU32::new(0);
pub static SYNCS: AtomicU64 = AtomicU64::new(0);

/// Before every atomic operation of the system under test.
#[inline(never)]
fn sync_point() {
    if !active() {
        return;
    }
    bump(1);
    SYNCS.store(SYNCS.load(Relaxed) + 1, Relaxed);
    let n = SYNC_LEFT.load(Relaxed);
    if n > 0 && THREAD_BIT.load(Relaxed) != 0 {
        SYNC_LEFT.store(n - 1, Relaxed);
        if n == 1 {
            let was = set_active(false);
            crate::sched::preempt();
            set_active(was);
        }
    }
}

// What the compiler turns atomic operations into (sancov-rustc.sh). One thread
// runs at a time, so all of them are done in the strongest order.
macro_rules! atomics {
    ($t:ty, $a:ty, $load:ident, $store:ident, $swap:ident, $cas:ident, $add:ident, $sub:ident, $and:ident, $or:ident, $xor:ident, $nand:ident) => {
        #[no_mangle]
        unsafe extern "C" fn $load(p: *const $a, _: i32) -> $t {
            sync_point();
            (*p).load(SeqCst)
        }
        #[no_mangle]
        unsafe extern "C" fn $store(p: *const $a, v: $t, _: i32) {
            sync_point();
            (*p).store(v, SeqCst)
        }
        #[no_mangle]
        unsafe extern "C" fn $swap(p: *const $a, v: $t, _: i32) -> $t {
            sync_point();
            (*p).swap(v, SeqCst)
        }
        #[no_mangle]
        unsafe extern "C" fn $cas(p: *const $a, e: $t, v: $t, _: i32, _: i32) -> $t {
            sync_point();
            match (*p).compare_exchange(e, v, SeqCst, SeqCst) {
                Ok(x) | Err(x) => x,
            }
        }
        #[no_mangle]
        unsafe extern "C" fn $add(p: *const $a, v: $t, _: i32) -> $t {
            sync_point();
            (*p).fetch_add(v, SeqCst)
        }
        #[no_mangle]
        unsafe extern "C" fn $sub(p: *const $a, v: $t, _: i32) -> $t {
            sync_point();
            (*p).fetch_sub(v, SeqCst)
        }
        #[no_mangle]
        unsafe extern "C" fn $and(p: *const $a, v: $t, _: i32) -> $t {
            sync_point();
            (*p).fetch_and(v, SeqCst)
        }
        #[no_mangle]
        unsafe extern "C" fn $or(p: *const $a, v: $t, _: i32) -> $t {
            sync_point();
            (*p).fetch_or(v, SeqCst)
        }
        #[no_mangle]
        unsafe extern "C" fn $xor(p: *const $a, v: $t, _: i32) -> $t {
            sync_point();
            (*p).fetch_xor(v, SeqCst)
        }
        #[no_mangle]
        unsafe extern "C" fn $nand(p: *const $a, v: $t, _: i32) -> $t {
            sync_point();
            (*p).fetch_nand(v, SeqCst)
        }
    };
}
#[rustfmt::skip]
atomics!(u8, AtomicU8, __tsan_atomic8_load, __tsan_atomic8_store, __tsan_atomic8_exchange, __tsan_atomic8_compare_exchange_val, __tsan_atomic8_fetch_add, __tsan_atomic8_fetch_sub, __tsan_atomic8_fetch_and, __tsan_atomic8_fetch_or, __tsan_atomic8_fetch_xor, __tsan_atomic8_fetch_nand);
#[rustfmt::skip]
atomics!(u16, AtomicU16, __tsan_atomic16_load, __tsan_atomic16_store, __tsan_atomic16_exchange, __tsan_atomic16_compare_exchange_val, __tsan_atomic16_fetch_add, __tsan_atomic16_fetch_sub, __tsan_atomic16_fetch_and, __tsan_atomic16_fetch_or, __tsan_atomic16_fetch_xor, __tsan_atomic16_fetch_nand);
#[rustfmt::skip]
atomics!(u32, AtomicU32, __tsan_atomic32_load, __tsan_atomic32_store, __tsan_atomic32_exchange, __tsan_atomic32_compare_exchange_val, __tsan_atomic32_fetch_add, __tsan_atomic32_fetch_sub, __tsan_atomic32_fetch_and, __tsan_atomic32_fetch_or, __tsan_atomic32_fetch_xor, __tsan_atomic32_fetch_nand);
#[rustfmt::skip]
atomics!(u64, AtomicU64, __tsan_atomic64_load, __tsan_atomic64_store, __tsan_atomic64_exchange, __tsan_atomic64_compare_exchange_val, __tsan_atomic64_fetch_add, __tsan_atomic64_fetch_sub, __tsan_atomic64_fetch_and, __tsan_atomic64_fetch_or, __tsan_atomic64_fetch_xor, __tsan_atomic64_fetch_nand);
#[no_mangle]
unsafe extern "C" fn __tsan_atomic_thread_fence(_: i32) {
    sync_point();
    std::sync::atomic::fence(SeqCst);
}
#[no_mangle]
unsafe extern "C" fn __tsan_atomic_signal_fence(_: i32) {
    std::sync::atomic::compiler_fence(SeqCst);
}
// Not switched on, but named where a function has atomic operations.
#[no_mangle]
unsafe extern "C" fn __tsan_func_entry(_: *const u8) {}
#[no_mangle]
unsafe extern "C" fn __tsan_func_exit() {}

#[inline(always)]
fn bump(n: u64) {
    // Only the baton holder runs metered code, so load/store is exact.
    let s = STEPS.load(Relaxed) + n;
    STEPS.store(s, Relaxed);
    if s >= NEXT.load(Relaxed) {
        slow(s);
    }
}

#[cold]
#[inline(never)]
fn slow(s: u64) {
    if s >= STEP_CAP.load(Relaxed) {
        die(EXIT_STEPS);
    }
    if s >= PREEMPT_AT.load(Relaxed) {
        let was = set_active(false);
        crate::sched::preempt();
        set_active(was);
    }
}

extern "C" {
    fn _exit(c: i32) -> !;
    fn __real_syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64;
    fn __real_getrandom(p: *mut u8, l: usize, f: u32) -> isize;
    fn __real_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8;
    fn __real_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8;
    fn __real_memset(d: *mut u8, c: i32, n: usize) -> *mut u8;
    fn __real_memcmp(d: *const u8, s: *const u8, n: usize) -> i32;
    fn __real_bcmp(d: *const u8, s: *const u8, n: usize) -> i32;
    fn __real_clock_gettime(c: i32, t: *mut [i64; 2]) -> i32;
    fn __real_getenv(n: *const u8) -> *const u8;
    fn __real_sched_getaffinity(pid: i32, n: usize, set: *mut u8) -> i32;
    fn __errno_location() -> *mut i32;
}

pub fn die(code: i32) -> ! {
    unsafe { _exit(code) }
}

/// Threads the harness has started besides its first (unless scheduled).
pub static OWN: AtomicUsize = AtomicUsize::new(0);
fn threads() -> usize {
    let was = set_active(false);
    let n = std::fs::read_dir("/proc/self/task").map_or(usize::MAX, |d| d.count());
    set_active(was);
    n
}
/// Runs `f` on a new thread and waits for it.
pub fn on_thread<T: Send + 'static>(stack: usize, f: impl FnOnce() -> T + Send + 'static) -> std::thread::Result<T> {
    OWN.fetch_add(1, SeqCst);
    let r = std::thread::Builder::new().stack_size(stack).spawn(f).unwrap().join();
    OWN.fetch_sub(1, SeqCst);
    r
}

pub fn real_futex(addr: *const u32, op: i64, val: u32) -> i64 {
    unsafe { __real_syscall(202, addr as i64, op, val as i64, 0, 0, 0) }
}

#[no_mangle]
pub unsafe extern "C" fn __wrap_syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == 202 && active() && crate::sched::enabled() {
        let was = set_active(false);
        let r = crate::sched::futex(a as *const u32, b, c as u32, d != 0);
        set_active(was);
        if r < 0 {
            *__errno_location() = -r as i32;
            return -1;
        }
        return r;
    }
    if n == 202 && active() && matches!(b & 0x7f, 0 | 9) && d == 0 {
        // The only caller waits for a lock: nobody is there to release it.
        let held = (*(a as *const AtomicU32)).load(SeqCst) == c as u32;
        if held && threads() <= 1 + OWN.load(Relaxed) {
            die(EXIT_DEADLOCK);
        }
    }
    if n == 318 && active() {
        // getrandom
        return fill(a as *mut u8, b as usize) as i64;
    }
    // Besides locks and entropy: who am I, where do I run, may others run.
    if watched() && !matches!(n, 202 | 186 | 24 | 39 | 309 | 334) {
        return touch("syscall", n, 0, 0);
    }
    __real_syscall(n, a, b, c, d, e, f)
}

pub static ENTROPY: AtomicU64 = AtomicU64::new(0);
pub static ENTROPY_READS: AtomicU64 = AtomicU64::new(0);
pub static ENTROPY_ON: AtomicBool = AtomicBool::new(false);
/// From here on the process draws its randomness from this seed.
pub fn draw(seed: u64) {
    ENTROPY.store(crate::rng::mix(seed), Relaxed);
    ENTROPY_ON.store(true, Relaxed);
}
unsafe fn fill(p: *mut u8, l: usize) -> isize {
    ENTROPY_READS.fetch_add(1, Relaxed);
    for i in 0..l {
        let e = ENTROPY.load(Relaxed);
        let n = crate::rng::mix(e);
        ENTROPY.store(e.wrapping_add(0x9E37_79B9_7F4A_7C15), Relaxed);
        *p.add(i) = n as u8;
    }
    l as isize
}

#[no_mangle]
pub unsafe extern "C" fn __wrap_getrandom(p: *mut u8, l: usize, f: u32) -> isize {
    if active() || ENTROPY_ON.load(Relaxed) {
        return fill(p, l);
    }
    __real_getrandom(p, l, f)
}

pub static CLOCK: AtomicU64 = AtomicU64::new(0);
pub static CLOCK_READS: AtomicU64 = AtomicU64::new(0);
pub static CLOCK_STEP: AtomicI64 = AtomicI64::new(1000);
#[no_mangle]
pub unsafe extern "C" fn __wrap_clock_gettime(c: i32, t: *mut [i64; 2]) -> i32 {
    if active() {
        CLOCK_READS.fetch_add(1, Relaxed);
        let v = CLOCK.load(Relaxed).wrapping_add(CLOCK_STEP.load(Relaxed) as u64);
        CLOCK.store(v, Relaxed);
        (*t)[0] = (v / 1_000_000_000) as i64;
        (*t)[1] = (v % 1_000_000_000) as i64;
        return 0;
    }
    __real_clock_gettime(c, t)
}

/// Which simulated environment the process has (0: its own).
pub static ENV: AtomicU64 = AtomicU64::new(0);
pub static ENV_READS: AtomicU64 = AtomicU64::new(0);
#[no_mangle]
pub unsafe extern "C" fn __wrap_getenv(n: *const u8) -> *const u8 {
    let e = ENV.load(Relaxed);
    if !active() || e == 0 {
        return __real_getenv(n);
    }
    ENV_READS.fetch_add(1, Relaxed);
    let mut h = e;
    let mut p = n;
    while *p != 0 {
        h = crate::rng::mix(h ^ *p as u64);
        p = p.add(1);
    }
    const SAYS: [&[u8]; 10] = [b"1\0", b"0\0", b"\0", b"true\0", b"off\0", b"full\0", b"debug\0", b"/tmp\0", b"65536\0", b"C.UTF-8\0"];
    match (h >> 8) as usize % 14 {
        k if k < SAYS.len() => SAYS[k].as_ptr(),
        _ => std::ptr::null(),
    }
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_sched_getaffinity(pid: i32, n: usize, set: *mut u8) -> i32 {
    let e = ENV.load(Relaxed);
    if !active() || e == 0 {
        return __real_sched_getaffinity(pid, n, set);
    }
    ENV_READS.fetch_add(1, Relaxed);
    let k: usize = [1, 2, 3, 4, 7, 16, 64, 200][e as usize >> 3 & 7];
    for i in 0..n {
        *set.add(i) = ((1u32 << k.saturating_sub(i * 8).min(8)) - 1) as u8;
    }
    0
}

/// What is answered to a system call the library makes while it is watched
/// (0: it is not watched, calls pass).
pub static WATCH: AtomicU64 = AtomicU64::new(0);
static TOUCHED: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(Vec::new());
pub fn touched() -> Vec<String> {
    std::mem::take(&mut *TOUCHED.lock().unwrap_or_else(|e| e.into_inner()))
}
fn watched() -> bool {
    active() && WATCH.load(Relaxed) != 0
}
unsafe fn text(p: i64, n: usize) -> String {
    let mut v = vec![];
    while p != 0 && v.len() < n.min(120) {
        let c = *(p as *const u8).add(v.len());
        if c == 0 && n == usize::MAX {
            break;
        }
        v.push(c);
    }
    String::from_utf8_lossy(&v).into_owned()
}
/// The call is noted and answered without being made: done, or refused as a
/// full disk, a closed terminal or a policy would.
unsafe fn touch(name: &str, a: i64, b: i64, c: i64) -> i64 {
    let was = set_active(false);
    let s = crate::rng::mix(WATCH.fetch_add(0x9E37_79B9_7F4A_7C15, Relaxed) | 1);
    if WATCH.load(Relaxed) == 0 {
        WATCH.store(1, Relaxed);
    }
    let what = match name {
        "write" => format!("{name} to {a}: {:?}", text(b, c as usize)),
        "open" | "open64" | "creat" | "creat64" | "unlink" | "rename" | "mkdir" | "rmdir" | "opendir" | "stat" | "stat64" | "lstat64" | "access" | "readlink"
        | "realpath" | "chdir" | "setenv" | "unsetenv" | "fopen64" => format!("{name} {:?}", text(a, usize::MAX)),
        "openat" | "openat64" | "unlinkat" | "fstatat64" | "statx" => format!("{name} {:?}", text(b, usize::MAX)),
        "syscall" => format!("system call {a}"),
        n => n.to_string(),
    };
    {
        let mut t = TOUCHED.lock().unwrap_or_else(|e| e.into_inner());
        if t.len() < 20 {
            t.push(what);
        }
    }
    let no = [28, 5, 32, 9, 13, 2][(s >> 8) as usize % 6];
    let r = match name {
        "write" if s & 1 == 0 => c,
        "pthread_create" => 11,
        "posix_spawn" | "posix_spawnp" | "getaddrinfo" => 11,
        "nanosleep" | "clock_nanosleep" | "usleep" | "sigaction" | "setenv" | "unsetenv" | "putenv" | "isatty" | "opendir" | "realpath" | "getcwd" | "signal"
        | "setlocale" | "fopen64" => 0,
        _ => {
            *__errno_location() = no;
            -1
        }
    };
    set_active(was);
    r
}
macro_rules! watch {
    ($($n:literal $w:ident $r:ident;)*) => {
        extern "C" { $( fn $r(a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64; )* }
        $(
            #[no_mangle]
            pub unsafe extern "C" fn $w(a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
                if !watched() {
                    return $r(a, b, c, d, e, f);
                }
                touch($n, a, b, c)
            }
        )*
    };
}
watch! {
    "write" __wrap_write __real_write;
    "writev" __wrap_writev __real_writev;
    "pwrite64" __wrap_pwrite64 __real_pwrite64;
    "read" __wrap_read __real_read;
    "readv" __wrap_readv __real_readv;
    "pread64" __wrap_pread64 __real_pread64;
    "open" __wrap_open __real_open;
    "open64" __wrap_open64 __real_open64;
    "openat" __wrap_openat __real_openat;
    "openat64" __wrap_openat64 __real_openat64;
    "creat" __wrap_creat __real_creat;
    "creat64" __wrap_creat64 __real_creat64;
    "unlink" __wrap_unlink __real_unlink;
    "unlinkat" __wrap_unlinkat __real_unlinkat;
    "rename" __wrap_rename __real_rename;
    "mkdir" __wrap_mkdir __real_mkdir;
    "rmdir" __wrap_rmdir __real_rmdir;
    "opendir" __wrap_opendir __real_opendir;
    "statx" __wrap_statx __real_statx;
    "stat" __wrap_stat __real_stat;
    "stat64" __wrap_stat64 __real_stat64;
    "lstat64" __wrap_lstat64 __real_lstat64;
    "fstat64" __wrap_fstat64 __real_fstat64;
    "fstatat64" __wrap_fstatat64 __real_fstatat64;
    "access" __wrap_access __real_access;
    "readlink" __wrap_readlink __real_readlink;
    "realpath" __wrap_realpath __real_realpath;
    "getcwd" __wrap_getcwd __real_getcwd;
    "chdir" __wrap_chdir __real_chdir;
    "truncate64" __wrap_truncate64 __real_truncate64;
    "ftruncate64" __wrap_ftruncate64 __real_ftruncate64;
    "symlink" __wrap_symlink __real_symlink;
    "link" __wrap_link __real_link;
    "chmod" __wrap_chmod __real_chmod;
    "socket" __wrap_socket __real_socket;
    "connect" __wrap_connect __real_connect;
    "bind" __wrap_bind __real_bind;
    "listen" __wrap_listen __real_listen;
    "accept4" __wrap_accept4 __real_accept4;
    "sendto" __wrap_sendto __real_sendto;
    "send" __wrap_send __real_send;
    "sendmsg" __wrap_sendmsg __real_sendmsg;
    "recv" __wrap_recv __real_recv;
    "recvfrom" __wrap_recvfrom __real_recvfrom;
    "getaddrinfo" __wrap_getaddrinfo __real_getaddrinfo;
    "pipe" __wrap_pipe __real_pipe;
    "pipe2" __wrap_pipe2 __real_pipe2;
    "dup" __wrap_dup __real_dup;
    "dup2" __wrap_dup2 __real_dup2;
    "ioctl" __wrap_ioctl __real_ioctl;
    "isatty" __wrap_isatty __real_isatty;
    "poll" __wrap_poll __real_poll;
    "pthread_create" __wrap_pthread_create __real_pthread_create;
    "pthread_kill" __wrap_pthread_kill __real_pthread_kill;
    "fork" __wrap_fork __real_fork;
    "posix_spawn" __wrap_posix_spawn __real_posix_spawn;
    "posix_spawnp" __wrap_posix_spawnp __real_posix_spawnp;
    "execvp" __wrap_execvp __real_execvp;
    "execve" __wrap_execve __real_execve;
    "kill" __wrap_kill __real_kill;
    "setenv" __wrap_setenv __real_setenv;
    "unsetenv" __wrap_unsetenv __real_unsetenv;
    "putenv" __wrap_putenv __real_putenv;
    "sigaction" __wrap_sigaction __real_sigaction;
    "signal" __wrap_signal __real_signal;
    "nanosleep" __wrap_nanosleep __real_nanosleep;
    "clock_nanosleep" __wrap_clock_nanosleep __real_clock_nanosleep;
    "usleep" __wrap_usleep __real_usleep;
    "setrlimit" __wrap_setrlimit __real_setrlimit;
    "setpriority" __wrap_setpriority __real_setpriority;
    "sched_setaffinity" __wrap_sched_setaffinity __real_sched_setaffinity;
    "setlocale" __wrap_setlocale __real_setlocale;
    "memfd_create" __wrap_memfd_create __real_memfd_create;
    "mkstemp64" __wrap_mkstemp64 __real_mkstemp64;
    "flock" __wrap_flock __real_flock;
    "fsync" __wrap_fsync __real_fsync;
    "fdatasync" __wrap_fdatasync __real_fdatasync;
    "fcntl" __wrap_fcntl __real_fcntl;
    "fcntl64" __wrap_fcntl64 __real_fcntl64;
    "fopen64" __wrap_fopen64 __real_fopen64;
}

#[no_mangle]
pub unsafe extern "C" fn __wrap_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    if active() {
        MOVED.fetch_add(n as u64, Relaxed);
        bump((n >> 3) as u64);
    }
    __real_memmove(d, s, n)
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    if active() {
        MOVED.fetch_add(n as u64, Relaxed);
        bump((n >> 3) as u64);
    }
    __real_memcpy(d, s, n)
}

#[no_mangle]
pub unsafe extern "C" fn __wrap_memset(d: *mut u8, c: i32, n: usize) -> *mut u8 {
    if active() {
        MOVED.fetch_add(n as u64, Relaxed);
        bump((n >> 3) as u64);
    }
    __real_memset(d, c, n)
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_memcmp(d: *const u8, s: *const u8, n: usize) -> i32 {
    if active() {
        bump((n >> 3) as u64);
    }
    __real_memcmp(d, s, n)
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_bcmp(d: *const u8, s: *const u8, n: usize) -> i32 {
    if active() {
        bump((n >> 3) as u64);
    }
    __real_bcmp(d, s, n)
}

pub struct Alloc;
#[global_allocator]
static A: Alloc = Alloc;

#[inline(always)]
fn on_alloc(n: usize) {
    if active() {
        NALLOC.fetch_add(1, Relaxed);
        let l = LIVE.load(Relaxed) + n as i64;
        LIVE.store(l, Relaxed);
        if l > PEAK.load(Relaxed) {
            PEAK.store(l, Relaxed);
        }
        if n as u64 > MAXREQ.load(Relaxed) {
            MAXREQ.store(n as u64, Relaxed);
        }
        if l > MEM_CAP.load(Relaxed) {
            die(EXIT_MEMORY);
        }
        bump(1);
    }
}
#[inline(always)]
fn on_free(n: usize) {
    if active() {
        LIVE.store(LIVE.load(Relaxed) - n as i64, Relaxed);
    }
}
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        on_alloc(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        on_alloc(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        on_free(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // The old block counts until the new one exists.
        on_alloc(n);
        let r = System.realloc(p, l, n);
        on_free(l.size());
        r
    }
}

#[derive(Clone, Debug, Default)]
pub struct Meter {
    pub steps: u64,
    pub peak: i64,
    pub max_req: u64,
    pub allocs: u64,
    /// Bytes still held at the end of the window.
    pub held: i64,
    pub moved: u64,
}

#[derive(Clone, Copy, Debug)]
pub struct Limits {
    pub steps: u64,
    pub mem: i64,
}
impl Default for Limits {
    fn default() -> Self {
        Limits { steps: 2_000_000_000, mem: 3 << 30 }
    }
}

/// Panics raised so far while a library call ran.
pub fn panics() -> usize {
    PANICS.load(Relaxed)
}
static PANICS: AtomicUsize = AtomicUsize::new(0);
thread_local! {
    static LAST_PANIC: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}

pub fn install_panic_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        let was = set_active(false);
        if was || QUIET.with(|q| q.get()) {
            PANICS.fetch_add(1, Relaxed);
            let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = i.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "?".into()
            };
            let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg} at {loc}")));
        } else {
            old(i);
        }
        set_active(was);
    }));
}
thread_local! {
    static QUIET: Cell<bool> = const { Cell::new(false) };
}

/// Runs `f` (system-under-test code only) inside a metered window.
pub fn metered<T>(lim: Limits, f: impl FnOnce() -> T) -> (Result<T, String>, Meter) {
    STEPS.store(0, Relaxed);
    STEP_CAP.store(lim.steps, Relaxed);
    PREEMPT_AT.store(u64::MAX, Relaxed);
    MEM_CAP.store(lim.mem, Relaxed);
    LIVE.store(0, Relaxed);
    PEAK.store(0, Relaxed);
    MAXREQ.store(0, Relaxed);
    NALLOC.store(0, Relaxed);
    MOVED.store(0, Relaxed);
    set_next();
    let r = sut(f);
    let m = Meter {
        steps: STEPS.load(Relaxed),
        peak: PEAK.load(Relaxed),
        max_req: MAXREQ.load(Relaxed),
        allocs: NALLOC.load(Relaxed),
        held: LIVE.load(Relaxed),
        moved: MOVED.load(Relaxed),
    };
    STEP_CAP.store(u64::MAX, Relaxed);
    MEM_CAP.store(i64::MAX, Relaxed);
    set_next();
    (r, m)
}

/// Runs `f` with the seams on, without resetting the meters (used by
/// simulated threads and by multi-call histories).
pub fn sut<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    QUIET.with(|q| q.set(true));
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    let was = set_active(true);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    set_active(was);
    QUIET.with(|q| q.set(false));
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into()))
}

/// Resets the counters for a batch of `sut` calls with a cap.
pub fn arm(lim: Limits) {
    STEPS.store(0, Relaxed);
    LIVE.store(0, Relaxed);
    PEAK.store(0, Relaxed);
    MAXREQ.store(0, Relaxed);
    NALLOC.store(0, Relaxed);
    MOVED.store(0, Relaxed);
    STEP_CAP.store(lim.steps, Relaxed);
    MEM_CAP.store(lim.mem, Relaxed);
    PREEMPT_AT.store(u64::MAX, Relaxed);
    set_next();
}
pub fn disarm() -> Meter {
    STEP_CAP.store(u64::MAX, Relaxed);
    MEM_CAP.store(i64::MAX, Relaxed);
    PREEMPT_AT.store(u64::MAX, Relaxed);
    set_next();
    Meter {
        steps: STEPS.load(Relaxed),
        peak: PEAK.load(Relaxed),
        max_req: MAXREQ.load(Relaxed),
        allocs: NALLOC.load(Relaxed),
        held: LIVE.load(Relaxed),
        moved: MOVED.load(Relaxed),
    }
}

pub fn cov_clear() {
    for c in &COV[..(guards() + 1).min(MAXG)] {
        c.store(0, Relaxed);
    }
}
/// Hash of the set of edges reached since `cov_clear`.
pub fn cov_hash() -> (u64, usize) {
    let mut h = 0u64;
    let mut n = 0;
    for (i, c) in COV[..(guards() + 1).min(MAXG)].iter().enumerate() {
        if c.load(Relaxed) != 0 {
            h ^= crate::rng::mix(i as u64 + 1);
            n += 1;
        }
    }
    (h, n)
}
pub fn cov_edges() -> Vec<u32> {
    (0..(guards() + 1).min(MAXG)).filter(|&i| COV[i].load(Relaxed) != 0).map(|i| i as u32).collect()
}
