//! The allocator seam: poisoning, quarantine, secret scanning, yield points,
//! and the C library's `malloc` family (so that result allocations can fail).
use libc::{c_void, size_t};
use std::alloc::{GlobalAlloc, Layout};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};

extern "C" {
    fn __libc_malloc(n: size_t) -> *mut c_void;
    fn __libc_calloc(n: size_t, m: size_t) -> *mut c_void;
    fn __libc_realloc(p: *mut c_void, n: size_t) -> *mut c_void;
    fn __libc_memalign(a: size_t, n: size_t) -> *mut c_void;
    fn __libc_free(p: *mut c_void);
    fn malloc_usable_size(p: *mut c_void) -> size_t;
}

pub struct SimAlloc;

/// Overwrite freed blocks and keep them out of circulation for a while.
pub static POISON: AtomicBool = AtomicBool::new(false);
/// Hand out zeroed blocks, so that what is found in one was put there by its owner.
pub static ZERO: AtomicBool = AtomicBool::new(false);

const QN: usize = 8192;
static mut QUARANTINE: [usize; QN] = [0; QN];
static QPOS: AtomicUsize = AtomicUsize::new(0);
static QBYTES: AtomicUsize = AtomicUsize::new(0);

#[thread_local]
static mut SCAN: bool = false;
#[thread_local]
static mut PATTERNS: [[u8; 32]; 16] = [[0; 32]; 16];
#[thread_local]
static mut NPATTERNS: usize = 0;
#[thread_local]
static mut HITS: [usize; 16] = [0; 16];
#[thread_local]
static mut BLOCKS: usize = 0;

/// Bytes taken and given back on this thread, and the most held at once.
#[thread_local]
static mut METER: bool = false;
#[thread_local]
static mut HELD: i64 = 0;
#[thread_local]
static mut PEAK: i64 = 0;

unsafe fn taken(n: usize) { if METER { HELD += n as i64; if HELD > PEAK { PEAK = HELD; } } }
unsafe fn given(n: usize) { if METER { HELD -= n as i64; } }

pub struct Meter { pub net: i64, pub peak: i64 }
/// Run `f` and tell what memory it took: what it still holds when it is done, and the most it held.
pub fn metered<T, F: FnOnce() -> T>(f: F) -> (T, Meter) {
    unsafe {
        HELD = 0; PEAK = 0; METER = true;
        let r = f();
        METER = false;
        (r, Meter { net: HELD, peak: PEAK })
    }
}

unsafe fn scan(p: *const u8, n: usize) {
    BLOCKS += 1;
    if n < 32 { return; }
    let b = std::slice::from_raw_parts(p, n);
    for k in 0..NPATTERNS {
        // Half a secret left behind is a leak too.
        for half in 0..2 {
            let pat = &PATTERNS[k][half * 16..half * 16 + 16];
            let mut i = 0;
            while i + 16 <= n {
                if b[i] == pat[0] && &b[i..i + 16] == pat {
                    HITS[k] += 1;
                    break;
                }
                i += 1;
            }
        }
    }
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if ZERO.load(SeqCst) { return self.alloc_zeroed(l); }
        crate::baton::yield_point(crate::baton::Point::Alloc);
        taken(l.size());
        if l.align() <= 16 { __libc_malloc(l.size()) as *mut u8 } else { __libc_memalign(l.align(), l.size()) as *mut u8 }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        crate::baton::yield_point(crate::baton::Point::Alloc);
        taken(l.size());
        if l.align() <= 16 {
            __libc_calloc(1, l.size()) as *mut u8
        } else {
            let p = __libc_memalign(l.align(), l.size()) as *mut u8;
            if !p.is_null() { std::ptr::write_bytes(p, 0, l.size()); }
            p
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        given(l.size());
        if SCAN { scan(p, l.size()); }
        if POISON.load(SeqCst) { quarantine(p, l.size()); } else { __libc_free(p as *mut c_void) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !SCAN && !POISON.load(SeqCst) && !ZERO.load(SeqCst) && l.align() <= 16 {
            crate::baton::yield_point(crate::baton::Point::Alloc);
            given(l.size());
            taken(n);
            return __libc_realloc(p as *mut c_void, n) as *mut u8;
        }
        let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
        }
        q
    }
}

unsafe fn quarantine(p: *mut u8, n: usize) {
    std::ptr::write_bytes(p, 0xDD, n);
    if n > 1 << 16 {
        __libc_free(p as *mut c_void);
        return;
    }
    QBYTES.fetch_add(n, SeqCst);
    let i = QPOS.fetch_add(1, SeqCst) % QN;
    let old = QUARANTINE[i];
    QUARANTINE[i] = p as usize;
    if old != 0 { __libc_free(old as *mut c_void); }
}

pub fn poison(on: bool) { POISON.store(on, SeqCst); }

/// Run `f`, looking for `secrets` in every heap block it gives back.
/// Returns the result, the number of blocks looked at, and which secrets were found.
pub fn scanning<T, F: FnOnce() -> T>(secrets: &[[u8; 32]], f: F) -> (T, usize, Vec<usize>) {
    unsafe {
        NPATTERNS = 0;
        for s in secrets.iter().take(16) {
            PATTERNS[NPATTERNS] = *s;
            HITS[NPATTERNS] = 0;
            NPATTERNS += 1;
        }
        BLOCKS = 0;
        SCAN = true;
        let r = f();
        SCAN = false;
        let n = NPATTERNS;
        let hits = (0..n).filter(|i| HITS[*i] > 0).collect();
        (r, BLOCKS, hits)
    }
}
/// Stop/continue scanning inside `scanning` (for the harness's own work).
pub fn scan_pause<T, F: FnOnce() -> T>(f: F) -> T {
    unsafe {
        let s = SCAN;
        SCAN = false;
        let r = f();
        SCAN = s;
        r
    }
}

// ------------------------------------------------------------- malloc family

const TN: usize = 16384;
static mut TRACKED: [usize; TN] = [0; TN];
static TRACK: AtomicBool = AtomicBool::new(false);
/// 0: never; k: the k-th tracked allocation from now fails.
static FAIL_IN: AtomicUsize = AtomicUsize::new(0);
pub static FAILED: AtomicUsize = AtomicUsize::new(0);
pub static MALLOCS: AtomicUsize = AtomicUsize::new(0);
pub static EARLY_FREES: AtomicUsize = AtomicUsize::new(0);

unsafe fn fails() -> bool {
    if !TRACK.load(SeqCst) { return false; }
    MALLOCS.fetch_add(1, SeqCst);
    let f = FAIL_IN.load(SeqCst);
    if f == 0 { return false; }
    FAIL_IN.store(f - 1, SeqCst);
    if f == 1 { FAILED.fetch_add(1, SeqCst); return true; }
    false
}
unsafe fn track(p: *mut c_void) -> *mut c_void {
    if METER && !p.is_null() { taken(malloc_usable_size(p)); }
    if !p.is_null() && TRACK.load(SeqCst) {
        let h = (p as usize >> 4) % TN;
        for i in 0..64 {
            let s = &mut TRACKED[(h + i) % TN];
            if *s == 0 { *s = p as usize; break; }
        }
    }
    p
}
unsafe fn untrack(p: *mut c_void) -> bool {
    let h = (p as usize >> 4) % TN;
    for i in 0..64 {
        let s = &mut TRACKED[(h + i) % TN];
        if *s == p as usize { *s = 0; return true; }
    }
    false
}

#[no_mangle]
pub unsafe extern "C" fn malloc(n: size_t) -> *mut c_void {
    if fails() { return std::ptr::null_mut(); }
    track(__libc_malloc(n))
}
#[no_mangle]
pub unsafe extern "C" fn calloc(n: size_t, m: size_t) -> *mut c_void {
    if fails() { return std::ptr::null_mut(); }
    track(__libc_calloc(n, m))
}
#[no_mangle]
pub unsafe extern "C" fn free(p: *mut c_void) {
    if p.is_null() { return; }
    if METER { given(malloc_usable_size(p)); }
    if TRACK.load(SeqCst) && untrack(p) {
        // Freed by the library while a caller may still hold it: poison, never reuse.
        EARLY_FREES.fetch_add(1, SeqCst);
        std::ptr::write_bytes(p as *mut u8, 0xDD, malloc_usable_size(p));
        return;
    }
    __libc_free(p)
}

/// Within `f`, `malloc`s of the library are tracked; the `fail`-th fails (0: none).
pub fn c_call<T, F: FnOnce() -> T>(fail: usize, f: F) -> T {
    FAIL_IN.store(fail, SeqCst);
    TRACK.store(true, SeqCst);
    let r = f();
    TRACK.store(false, SeqCst);
    FAIL_IN.store(0, SeqCst);
    r
}
/// Release a buffer returned by the library, if it came from `malloc`.
pub fn release_if_tracked(p: *mut u8) {
    unsafe {
        if untrack(p as *mut c_void) { if METER { given(malloc_usable_size(p as *mut c_void)); } __libc_free(p as *mut c_void); }
    }
}

/// A mapping of its own with inaccessible pages on both sides; `b` ends (or starts) right at the edge.
pub struct Guarded { base: *mut u8, total: usize, pub ptr: *mut u8, pub len: usize }
impl Guarded {
    pub fn placed(b: &[u8], at_start: bool) -> Guarded {
        unsafe {
            let pages = (b.len() + 4095) / 4096 + 1;
            let total = (pages + 2) * 4096;
            let base = libc::mmap(std::ptr::null_mut(), total, libc::PROT_READ | libc::PROT_WRITE,
                                  libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0) as *mut u8;
            assert!(base as isize != -1);
            libc::mprotect(base as *mut c_void, 4096, libc::PROT_NONE);
            libc::mprotect(base.add((pages + 1) * 4096) as *mut c_void, 4096, libc::PROT_NONE);
            let ptr = if at_start { base.add(4096) } else { base.add((pages + 1) * 4096 - b.len()) };
            std::ptr::copy_nonoverlapping(b.as_ptr(), ptr, b.len());
            Guarded { base, total, ptr, len: b.len() }
        }
    }
    /// From here on the library may not write to it.
    pub fn read_only(&self) {
        unsafe { libc::mprotect(self.base.add(4096) as *mut c_void, self.total - 8192, libc::PROT_READ); }
    }
}
impl Drop for Guarded {
    fn drop(&mut self) { unsafe { libc::munmap(self.base as *mut c_void, self.total); } }
}
