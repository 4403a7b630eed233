//! Cooperative scheduling of real threads: exactly one enrolled thread runs at a
//! time, and which one is decided by the simulator's PRNG at every yield point
//! (entropy draws, allocations, lock operations, function entries of the code under test),
//! and after any instruction of the code under test (step.rs).
use crate::step;
use crate::util::Prng;
use libc::{c_int, c_void};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Point { Entropy, Alloc, Lock, Function }

/// The code under test is not optimised, and has a hundred times the function entries.
pub const PLAIN: bool = cfg!(plain);
pub const MAX: usize = 8;
const NONE: usize = usize::max_value();

static ACTIVE: AtomicBool = AtomicBool::new(false);
static CURRENT: AtomicUsize = AtomicUsize::new(NONE);
static mut RUNNABLE: [bool; MAX] = [false; MAX];
static mut RNG: Prng = Prng(0);
static mut SWITCH_PCT: [u64; 4] = [0; 4];
static mut TRACE: u64 = 0;
/// A thread stopped in the middle of a function may stay there up to this point.
static mut STALLED: [u64; MAX] = [0; MAX];
pub static SWITCHES: AtomicU64 = AtomicU64::new(0);
pub static POINTS: AtomicU64 = AtomicU64::new(0);
static BLOCKED: AtomicU64 = AtomicU64::new(0);
pub static DEADLOCK: AtomicBool = AtomicBool::new(false);

#[thread_local]
static mut ME: usize = usize::max_value();

unsafe fn futex_wait(a: &AtomicUsize, v: usize) {
    libc::syscall(libc::SYS_futex, a as *const _ as *const c_void, 128, v as u32, std::ptr::null::<c_void>());
}
unsafe fn futex_wake(a: &AtomicUsize) {
    libc::syscall(libc::SYS_futex, a as *const _ as *const c_void, 129, i32::max_value());
}

/// Prepare a run with `n` threads.
pub fn start(n: usize, seed: u64, pct: [u64; 4], traps: u64, often: u64) {
    step::start(traps, often);
    unsafe {
        RNG = Prng::new(seed);
        SWITCH_PCT = pct;
        TRACE = 0;
        for i in 0..MAX { RUNNABLE[i] = i < n; STALLED[i] = 0; }
    }
    SWITCHES.store(0, SeqCst);
    POINTS.store(0, SeqCst);
    BLOCKED.store(0, SeqCst);
    DEADLOCK.store(false, SeqCst);
    CURRENT.store(NONE, SeqCst);
    ACTIVE.store(true, SeqCst);
}
/// Let the first thread go, once all were spawned.
pub fn go() {
    unsafe {
        let n = pick(NONE);
        CURRENT.store(n, SeqCst);
        futex_wake(&CURRENT);
    }
}
pub fn stop() -> u64 {
    ACTIVE.store(false, SeqCst);
    unsafe { TRACE }
}

unsafe fn pick(not: usize) -> usize {
    let mut c: [bool; MAX] = RUNNABLE;
    let now = POINTS.load(SeqCst);
    for i in 0..MAX { if i == not || STALLED[i] > now { c[i] = false; } }
    let n = (0..MAX).filter(|i| c[*i]).count();
    if n == 0 { return NONE; }
    let k = RNG.idx(n);
    let r = (0..MAX).filter(|i| c[*i]).nth(k).unwrap();
    TRACE = crate::util::mix(TRACE ^ (r as u64 + 1) ^ (now << 8));
    r
}
/// Somebody has to go on.
unsafe fn pick_any(not: usize) -> usize {
    match pick(not) {
        NONE => { STALLED = [0; MAX]; pick(not) },
        r => r,
    }
}
unsafe fn wait_for(me: usize) {
    loop {
        let c = CURRENT.load(SeqCst);
        if c == me { return; }
        futex_wait(&CURRENT, c);
    }
}

/// Called by a thread before its operations; blocks until it is its turn.
pub fn enroll(i: usize) { unsafe { wait_for(i); ME = i; } }
/// Called by a thread when it is done.
pub fn leave() {
    unsafe {
        let me = ME;
        step::reset();
        ME = NONE;
        RUNNABLE[me] = false;
        BLOCKED.store(0, SeqCst);
        let n = pick_any(NONE);
        CURRENT.store(n, SeqCst);
        futex_wake(&CURRENT);
    }
}
unsafe fn hand_over(me: usize, n: usize) {
    SWITCHES.fetch_add(1, SeqCst);
    let b = step::lift();
    CURRENT.store(n, SeqCst);
    futex_wake(&CURRENT);
    wait_for(me);
    step::changed();
    step::put(b);
}

/// For step.rs, in the turn of the calling thread.
pub unsafe fn enrolled() -> bool { ME != NONE }
pub unsafe fn random(n: u64) -> u64 { RNG.below(n) }
pub unsafe fn switch() -> bool {
    let me = ME;
    POINTS.fetch_add(1, SeqCst);
    BLOCKED.store(0, SeqCst);
    let n = pick(me);
    if n == NONE { return false; }
    if RNG.chance(35) {
        let long = 1 << (4 + RNG.below(if PLAIN { 15 } else { 10 }));
        STALLED[me] = POINTS.load(SeqCst) + 1 + RNG.below(long);
    }
    hand_over(me, n);
    STALLED[me] = 0;
    true
}

#[inline]
pub fn yield_point(p: Point) {
    unsafe {
        if ME == NONE { return; }
        let me = ME;
        step::pause();
        POINTS.fetch_add(1, SeqCst);
        BLOCKED.store(0, SeqCst);
        let of = if PLAIN && p == Point::Function { 10_000 } else { 100 };
        if RNG.below(of) < SWITCH_PCT[p as usize] {
            let n = pick(me);
            if n != NONE { hand_over(me, n); }
        }
    }
}

/// The running thread cannot go on before another one did something.
/// False if nobody can.
unsafe fn blocked() -> bool {
    let me = ME;
    step::pause();
    POINTS.fetch_add(1, SeqCst);
    // Whoever is stalled may be who is waited for.
    if BLOCKED.load(SeqCst) > 16 { STALLED = [0; MAX]; }
    let n = pick_any(me);
    if n == NONE || BLOCKED.fetch_add(1, SeqCst) > 20_000 {
        DEADLOCK.store(true, SeqCst);
        return false;
    }
    hand_over(me, n);
    true
}

// ------------------------------------------------------------- interposed locks

type F1 = unsafe extern "C" fn(*mut c_void) -> c_int;
type F2 = unsafe extern "C" fn(*mut c_void, *mut c_void) -> c_int;
type F3 = unsafe extern "C" fn(*mut c_void, *mut c_void, *const c_void) -> c_int;

unsafe fn real(slot: &AtomicUsize, name: &'static [u8]) -> usize {
    let p = slot.load(SeqCst);
    if p != 0 { return p; }
    let p = libc::dlsym(libc::RTLD_NEXT, name.as_ptr() as *const libc::c_char) as usize;
    if p == 0 { libc::abort(); }
    slot.store(p, SeqCst);
    p
}
macro_rules! real {
    ($n:expr, $t:ty) => {{
        static S: AtomicUsize = AtomicUsize::new(0);
        let f: $t = std::mem::transmute(real(&S, concat!($n, "\0").as_bytes()));
        f
    }};
}
/// A thread that deadlocked stops here for good; the run's watchdog ends the process.
unsafe fn stuck() -> ! {
    crate::runner::deadlocked();
    loop { libc::pause(); }
}
unsafe fn locked(try_: F1, m: *mut c_void) -> c_int {
    yield_point(Point::Lock);
    loop {
        let r = try_(m);
        if r != libc::EBUSY { return r; }
        if !blocked() { stuck(); }
    }
}

#[no_mangle]
pub unsafe extern "C" fn pthread_mutex_lock(m: *mut c_void) -> c_int {
    if ME == NONE { return real!("pthread_mutex_lock", F1)(m); }
    locked(real!("pthread_mutex_trylock", F1), m)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_mutex_unlock(m: *mut c_void) -> c_int {
    let r = real!("pthread_mutex_unlock", F1)(m);
    if ME != NONE { yield_point(Point::Lock); }
    r
}
#[no_mangle]
pub unsafe extern "C" fn pthread_rwlock_rdlock(m: *mut c_void) -> c_int {
    if ME == NONE { return real!("pthread_rwlock_rdlock", F1)(m); }
    locked(real!("pthread_rwlock_tryrdlock", F1), m)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_rwlock_wrlock(m: *mut c_void) -> c_int {
    if ME == NONE { return real!("pthread_rwlock_wrlock", F1)(m); }
    locked(real!("pthread_rwlock_trywrlock", F1), m)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_cond_wait(c: *mut c_void, m: *mut c_void) -> c_int {
    if ME == NONE { return real!("pthread_cond_wait", F2)(c, m); }
    // A spurious wake-up after somebody else had a turn.
    real!("pthread_mutex_unlock", F1)(m);
    if !blocked() { stuck(); }
    locked(real!("pthread_mutex_trylock", F1), m)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_cond_timedwait(c: *mut c_void, m: *mut c_void, t: *const c_void) -> c_int {
    if ME == NONE { return real!("pthread_cond_timedwait", F3)(c, m, t); }
    real!("pthread_mutex_unlock", F1)(m);
    blocked();
    locked(real!("pthread_mutex_trylock", F1), m);
    libc::ETIMEDOUT
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if ME != NONE { blocked(); return 0; }
    libc::syscall(libc::SYS_sched_yield) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(a: *const c_void, b: *mut c_void) -> c_int {
    if ME != NONE { blocked(); return 0; }
    libc::syscall(libc::SYS_nanosleep, a, b) as c_int
}
