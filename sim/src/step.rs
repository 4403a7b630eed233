//! Switching threads in the middle of functions.  From the entry of a function of the
//! code under test, the running thread executes a chosen number of its instructions one
//! at a time (x86 trap flag), calls to anything else being run through to their return
//! (a breakpoint at the return address), and is then made to wait for another thread.
//! What the threads share - the variables of the code under test, and the objects they
//! all use - is watched: a thread which changes it is likely to be stopped right there.
use crate::baton;
use libc::{c_int, c_void};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

/// Address ranges of the code under test, sorted.
static mut RANGES: Vec<(usize, usize)> = Vec::new();
static mut READY: bool = false;

struct Window { active: bool, left: u64, outside: u32, inside: bool, sp: usize, last: usize }
#[thread_local]
static mut W: Window = Window { active: false, left: 0, outside: 0, inside: false, sp: 0, last: 0 };

/// What is shared: variables of the code under test, and objects (of this run).
static mut STATICS: Vec<(usize, usize)> = Vec::new();
static mut WATCHED: Vec<(usize, usize)> = Vec::new();
const MOST: usize = 8192;
static mut SNAP: [u8; MOST] = [0; MOST];
/// Functions which change what is shared.
static mut HOT: [bool; 8192] = [false; 8192];
pub static CHANGES: AtomicU64 = AtomicU64::new(0);

/// The breakpoint of the running thread: address, or 0, and the byte it replaces.
static mut BP: (usize, u8) = (0, 0);
static mut BUDGET: u64 = 0;
static mut CHANCE: u64 = 0;
/// How often a function (by its address) was looked at in this run.
static mut SEEN: [u8; 8192] = [0; 8192];
pub static TRAPS: AtomicU64 = AtomicU64::new(0);
pub static MIDWAY: AtomicU64 = AtomicU64::new(0);

fn under_test(name: &str) -> bool {
    if name.contains("sim..") || name.starts_with("_ZN3sim") { return false; }
    ["aeonflux", "signal_credential", "12credential_c", "13credential_js", "credential_c..", "credential_js.."].iter().any(|x| name.contains(x))
        || ["system_parameters_create", "issuer_", "user_", "roster_entry_"].iter().any(|x| name.starts_with(x))
}

/// Functions, and variables: name, address, size.
fn symbols(elf: &[u8]) -> Option<(Vec<(String, usize, usize)>, Vec<(String, usize, usize)>)> {
    let n = |o: usize, l: usize| -> Option<usize> { Some(elf.get(o..o + l)?.iter().rev().fold(0usize, |a, b| a << 8 | *b as usize)) };
    let (shoff, size, count) = (n(40, 8)?, n(58, 2)?, n(60, 2)?);
    let (mut v, mut w) = (Vec::new(), Vec::new());
    for i in 0..count {
        let s = shoff + i * size;
        if n(s + 4, 4)? != 2 { continue; }
        let (off, len, link) = (n(s + 24, 8)?, n(s + 32, 8)?, n(s + 40, 4)?);
        let names = n(shoff + link * size + 24, 8)?;
        for k in 0..len / 24 {
            let e = off + k * 24;
            let kind = n(e + 4, 1)? & 15;
            if kind != 1 && kind != 2 { continue; }
            let at = names + n(e, 4)?;
            let end = at + elf.get(at..)?.iter().position(|b| *b == 0)?;
            if kind == 1 {
                // In a writable section?
                let sec = n(e + 6, 2)?;
                if sec >= count || n(shoff + sec * size + 8, 8)? & 1 == 0 { continue; }
            }
            (if kind == 1 { &mut w } else { &mut v }).push((String::from_utf8_lossy(elf.get(at..end)?).into_owned(), n(e + 8, 8)?, n(e + 16, 8)?));
        }
    }
    Some((v, w))
}

/// Once per process tree, before forking.
pub fn install() {
    let (syms, vars) = match std::fs::read("/proc/self/exe").ok().and_then(|b| symbols(&b)) { Some(s) => s, None => return };
    let here = vp_mcount as usize;
    let base = match syms.iter().find(|s| s.0 == "vp_mcount") { Some(s) => here.wrapping_sub(s.1), None => return };
    let mut v: Vec<(usize, usize)> = syms.iter().filter(|s| s.2 > 0 && under_test(&s.0)).map(|s| (base.wrapping_add(s.1), base.wrapping_add(s.1 + s.2))).collect();
    v.sort();
    v.dedup();
    unsafe {
        RANGES = v;
        STATICS = vars.iter().filter(|s| s.2 > 0 && under_test(&s.0)).map(|s| (base.wrapping_add(s.1), s.2)).collect();
        STATICS.sort();
        STATICS.dedup();
    }
}

/// Once per process which steps.
unsafe fn ready() -> bool {
    if READY { return true; }
    if RANGES.is_empty() { return false; }
    let (a, b) = (RANGES[0].0 & !4095, (RANGES[RANGES.len() - 1].1 + 4095) & !4095);
    if libc::mprotect(a as *mut c_void, b - a, libc::PROT_READ | libc::PROT_WRITE | libc::PROT_EXEC) != 0 { return false; }
    let mut s: libc::sigaction = std::mem::zeroed();
    s.sa_sigaction = trap as usize;
    s.sa_flags = libc::SA_SIGINFO | libc::SA_RESTART;
    if libc::sigaction(libc::SIGTRAP, &s, std::ptr::null_mut()) != 0 { return false; }
    READY = true;
    true
}

pub fn start(budget: u64, chance: u64) {
    unsafe {
        CHANCE = chance;
        BUDGET = if budget > 0 && ready() { budget } else { 0 };
        BP.0 = 0;
        SEEN = [0; 8192];
        HOT = [false; 8192];
        WATCHED.clear();
        if BUDGET > 0 {
            let mut n = 0;
            for x in STATICS.iter() { if n + x.1 <= MOST { n += x.1; WATCHED.push(*x); } }
        }
        changed();
    }
    CHANGES.store(0, SeqCst);
    TRAPS.store(0, SeqCst);
    MIDWAY.store(0, SeqCst);
}

/// Before the threads go: an object all of them use.
pub fn watch<T>(x: &T) {
    unsafe {
        if BUDGET == 0 { return; }
        let n: usize = WATCHED.iter().map(|w| w.1).sum();
        let (a, l) = (x as *const T as usize, std::mem::size_of::<T>());
        if l > 0 && n + l <= MOST { WATCHED.push((a, l)); }
        changed();
    }
}
/// Was anything shared changed since the last look?
pub unsafe fn changed() -> bool {
    let mut o = 0;
    let mut r = false;
    for w in WATCHED.iter() {
        let now = w.0 as *const c_void;
        let then = SNAP.as_mut_ptr().add(o) as *mut c_void;
        if libc::memcmp(now, then, w.1) != 0 { libc::memcpy(then, now, w.1); r = true; }
        o += w.1;
    }
    r
}

unsafe fn cut(ip: usize) -> bool {
    let i = match RANGES.binary_search_by(|r| r.0.cmp(&ip)) { Ok(_) => return true, Err(i) => i };
    i > 0 && ip < RANGES[i - 1].1
}

/// Take the running thread's breakpoint out (before another one runs).
pub unsafe fn lift() -> usize {
    let a = BP.0;
    if a != 0 { *(a as *mut u8) = BP.1; BP.0 = 0; }
    a
}
pub unsafe fn put(a: usize) {
    if a == 0 { return; }
    BP = (a, *(a as *const u8));
    *(a as *mut u8) = 0xcc;
}
/// No stepping from here on.
pub unsafe fn reset() { lift(); W.active = false; }
/// The thread is in the simulator: not to be stepped, other than up to a breakpoint.
#[inline]
pub unsafe fn pause() { if W.active && BP.0 == 0 { W.active = false; } }

unsafe fn window() -> u64 {
    // Mostly short, sometimes long.
    let m = 1 << baton::random(12);
    1 + baton::random(m)
}

/// On entry to a function of the code under test, which goes on at `ra`.
#[no_mangle]
pub unsafe extern "C" fn vp_mcount(ra: usize) {
    if !baton::enrolled() { return; }
    baton::yield_point(baton::Point::Function);
    if BUDGET == 0 || TRAPS.load(SeqCst) > BUDGET || !cut(ra) { return; }
    if changed() { CHANGES.fetch_add(1, SeqCst); HOT[W.last] = true; }
    let f = (crate::util::mix((ra - RANGES[0].0) as u64) & 8191) as usize;
    W.last = f;
    // Functions which were not looked at yet come first, and those where something happened.
    if baton::random(100) >= (if HOT[f] { 60 } else if SEEN[f] < 2 { 35 } else { CHANCE }) { return; }
    SEEN[f] = SEEN[f].saturating_add(1);
    if W.active && baton::random(2) == 0 { return; }
    reset();
    W.left = if HOT[f] && baton::random(2) == 0 { 3000 } else { window() };
    W.active = true;
    put(ra);
}

global_asm!(".globl mcount
.type mcount, @function
mcount:
    movq (%rsp), %rdi
    jmp vp_mcount
.size mcount, .-mcount");

/// The running thread changed what is shared: now is a good time for the others.
unsafe fn shared() {
    CHANGES.fetch_add(1, SeqCst);
    HOT[W.last] = true;
    if baton::random(4) > 0 && baton::switch() { MIDWAY.fetch_add(1, SeqCst); }
}

const TF: i64 = 0x100;

unsafe extern "C" fn trap(_: c_int, _: *mut libc::siginfo_t, uc: *mut c_void) {
    let g = &mut (*(uc as *mut libc::ucontext_t)).uc_mcontext.gregs;
    let (ip, sp) = (g[libc::REG_RIP as usize] as usize, g[libc::REG_RSP as usize] as usize);
    let efl = libc::REG_EFL as usize;
    TRAPS.fetch_add(1, SeqCst);
    if BP.0 != 0 && ip == BP.0 + 1 {
        lift();
        g[libc::REG_RIP as usize] = ip as i64 - 1;
        if !W.active { return; }
        g[efl] |= TF;
        W.inside = true;
        W.outside = 0;
        W.sp = sp;
        if changed() { shared(); }
        return;
    }
    // Not ours: a trap instruction in the code itself.
    if g[efl] & TF == 0 { libc::abort(); }
    if !W.active || TRAPS.load(SeqCst) > BUDGET { W.active = false; g[efl] &= !TF; return; }
    if cut(ip) {
        W.outside = 0;
        if changed() { shared(); }
        W.left -= 1;
        if W.left == 0 {
            W.active = false;
            if baton::switch() { MIDWAY.fetch_add(1, SeqCst); }
            if baton::random(100) >= 60 { g[efl] &= !TF; return; }
            W.left = window();
            W.active = true;
        }
        W.inside = true;
    } else {
        if W.inside && (sp == W.sp || sp + 8 == W.sp) {
            // Called, or jumped to: let it run until it is back.
            let ra = *(sp as *const usize);
            if cut(ra) { put(ra); g[efl] &= !TF; W.inside = false; return; }
        }
        W.inside = false;
        W.outside += 1;
        if W.outside > 200 { W.active = false; g[efl] &= !TF; return; }
    }
    W.sp = sp;
}
