//! The C interface under a hostile runtime: arguments end at inaccessible pages
//! and are unmapped after the call, freed memory is overwritten at once, results
//! are kept and looked at again and again, and allocations of results fail.
use crate::ctx::*;
use crate::entropy::*;
use crate::guard::*;
use crate::heap::{self, Guarded};
use crate::lab::*;
use crate::surface::{self, Kind};
use crate::util::*;
use std::sync::atomic::Ordering::SeqCst;

pub const FNS: [(&str, usize, bool, usize); 12] = [
    // name, length-prefixed arguments, seed, documented length
    ("system_parameters_create", 0, true, 64),
    ("issuer_create", 1, true, 96),
    ("issuer_new", 2, false, 160),
    ("issuer_get_issuer_parameters", 1, false, 32),
    ("issuer_issue", 2, true, 328),
    ("issuer_verify", 2, false, 448),
    ("issuer_verify_roster_membership", 2, false, 32),
    ("user_obtain_finish", 4, false, 288),
    ("user_show", 2, true, 448),
    ("roster_entry_commitment_create", 2, true, 64),
    ("roster_entry_commitment_remove_opening", 1, false, 32),
    ("roster_entry_commitment_open", 3, false, 1),
];
const OPEN: usize = 11;

pub fn generate(seed: u64, thorough: bool) -> Vec<Step> {
    let ops = [("call", 30), ("damaged", 20), ("null", 12), ("empty", 8), ("no-memory", 14), ("thread", 10), ("look-again", 6), ("release", 5)];
    super::cases(&ops, if thorough { 90 } else { 45 }, seed)
}

#[cfg(not(feature = "c"))]
pub fn execute(_: &Run, ctx: &mut Ctx) { ctx.count("event.no C interface"); }

#[cfg(feature = "c")]
pub use self::real::execute;

#[cfg(feature = "c")]
mod real {
    use super::*;
    use crate::surface::c;

    /// The same functions as a C program sees them, through the published header.
    #[cfg(client)]
    mod client {
        extern "C" {
            fn vp_client_call(f: i32, p: *const *const u8, n: *const u64, s: *const u8, len: *mut u64, ptr: *mut *const u8);
            fn vp_client_length(f: i32) -> u64;
        }
        pub fn call(f: usize, a: &[(*const u8, u64)], s: *const u8) -> super::c::buf_t {
            let (mut p, mut n) = ([std::ptr::null(); 4], [0u64; 4]);
            for (i, x) in a.iter().enumerate() { p[i] = x.0; n[i] = x.1; }
            let (mut len, mut ptr) = (0, std::ptr::null());
            unsafe { vp_client_call(f as i32, p.as_ptr(), n.as_ptr(), s, &mut len, &mut ptr); }
            super::c::buf_t { len, ptr }
        }
        pub fn length(f: usize) -> Option<u64> { Some(unsafe { vp_client_length(f as i32) }) }
    }
    #[cfg(not(client))]
    mod client {
        pub fn call(_: usize, _: &[(*const u8, u64)], _: *const u8) -> super::c::buf_t { unreachable!() }
        pub fn length(_: usize) -> Option<u64> { None }
    }

    /// The lengths the library itself documents, where it still does.
    mod documented {
        const LENGTH_SEED: usize = 32;
        const LENGTH_SYSTEM_PARAMETERS: u64 = 64;
        const LENGTH_ISSUER: u64 = 160;
        const LENGTH_ISSUER_PARAMETERS: u64 = 32;
        const LENGTH_ISSUER_KEYPAIR: u64 = 96;
        const LENGTH_USER: u64 = 288;
        const LENGTH_CREDENTIAL_ISSUANCE: u64 = 328;
        const LENGTH_CREDENTIAL_PRESENTATION: u64 = 448;
        const LENGTH_VERIFIED_CREDENTIAL: u64 = 448;
        pub fn all() -> [(usize, u64); 10] {
            #[allow(unused_imports)] use credential_c::c::*;
            [(0, LENGTH_SYSTEM_PARAMETERS as u64), (1, LENGTH_ISSUER_KEYPAIR as u64), (2, LENGTH_ISSUER as u64), (3, LENGTH_ISSUER_PARAMETERS as u64), (4, LENGTH_CREDENTIAL_ISSUANCE as u64),
             (5, LENGTH_VERIFIED_CREDENTIAL as u64), (7, LENGTH_USER as u64), (8, LENGTH_CREDENTIAL_PRESENTATION as u64), (5, LENGTH_VERIFIED_CREDENTIAL as u64), (12, LENGTH_SEED as u64)]
        }
    }
    fn lengths(ctx: &mut Ctx) {
        let len = |f: usize| if f < 12 { FNS[f].3 as u64 } else { 32 };
        let name = |f: usize| if f < 12 { FNS[f].0 } else { "seeds" };
        for f in 0..13 {
            match client::length(f) {
                Some(n) if n != len(f) => ctx.bad(&["C10"], "documented-length", format!("the header documents {} bytes for {}, which has {}", n, name(f), len(f))),
                _ => {}
            }
        }
        for (f, n) in &documented::all() {
            if *n != len(*f) { ctx.bad(&["C10"], "documented-length", format!("{} bytes are documented for {}, which has {}", n, name(*f), len(*f))); }
        }
        if cfg!(client_broken) { ctx.bad(&["C10"], "header-broken", "a C program using every documented function does not compile against the header".into()); }
    }

    #[derive(Clone)]
    pub struct Call { through_header: bool, f: usize, args: Vec<Option<Vec<u8>>>, lens: Vec<Option<u64>>, seed: Option<[u8; 32]> }

    struct Held { ptr: usize, copy: Vec<u8>, what: String }

    struct Pool { params: Vec<u8>, keypair: Vec<u8>, issuer: Vec<u8>, iparams: Vec<u8>, phone: Vec<u8>, issuance: Vec<u8>, user: Vec<u8>, entry: Vec<u8>, pres: Vec<u8> }

    fn pool(rng: &mut Prng) -> Result<Pool, Fail> {
        set_system(Source::healthy(rng.u64()));
        let k = Kind::Raw;
        let mut phone = random_phone(rng);
        if phone.is_empty() { phone.push(7); }
        let params = surface::params_create(k, &rng.seed32())?;
        let keypair = surface::issuer_create(k, &params, &rng.seed32())?;
        let issuer = surface::issuer_new(k, &params, &keypair)?;
        let iparams = surface::issuer_params(k, &issuer)?;
        let issuance = surface::issue(k, &issuer, &phone, &rng.seed32())?;
        let user = surface::obtain(k, &phone, &params, &iparams, &issuance)?;
        let entry = surface::entry_create(k, &phone, &params, &rng.seed32())?;
        let pres = surface::show(k, &user, &entry, &rng.seed32())?;
        Ok(Pool { params, keypair, issuer, iparams, phone, issuance, user, entry, pres })
    }

    fn valid(p: &Pool, f: usize, rng: &mut Prng) -> Call {
        let a: Vec<&Vec<u8>> = match f {
            0 => vec![],
            1 => vec![&p.params],
            2 => vec![&p.params, &p.keypair],
            3 => vec![&p.issuer],
            4 => vec![&p.issuer, &p.phone],
            5 | 6 => vec![&p.issuer, &p.pres],
            7 => vec![&p.phone, &p.params, &p.iparams, &p.issuance],
            8 => vec![&p.user, &p.entry],
            9 => vec![&p.phone, &p.params],
            10 => vec![&p.entry],
            _ => vec![&p.entry, &p.phone, &p.params],
        };
        Call { through_header: cfg!(client) && rng.chance(50), f, args: a.into_iter().map(|x| Some(x.clone())).collect(), lens: vec![None; 4], seed: if FNS[f].2 { Some(rng.seed32()) } else { None } }
    }

    /// What the Rust interface says; None for what C refuses by itself.
    fn rust(k: &Call) -> Option<Result<Vec<u8>, Fail>> {
        if k.args.iter().any(|a| a.as_ref().map(|a| a.is_empty()).unwrap_or(true)) || k.lens.iter().any(|l| l.is_some()) { return None; }
        if FNS[k.f].2 && k.seed.is_none() { return None; }
        let a: Vec<&[u8]> = k.args.iter().map(|a| &a.as_ref().unwrap()[..]).collect();
        let s = k.seed.unwrap_or([0; 32]);
        let r = Kind::Raw;
        Some(match k.f {
            0 => surface::params_create(r, &s),
            1 => surface::issuer_create(r, a[0], &s),
            2 => surface::issuer_new(r, a[0], a[1]),
            3 => surface::issuer_params(r, a[0]),
            4 => surface::issue(r, a[0], a[1], &s),
            5 => surface::verify(r, a[0], a[1]),
            6 => surface::roster(r, a[0], a[1]),
            7 => surface::obtain(r, a[0], a[1], a[2], a[3]),
            8 => surface::show(r, a[0], a[1], &s),
            9 => surface::entry_create(r, a[0], a[1], &s),
            10 => surface::entry_remove_opening(r, a[0]),
            _ => surface::entry_open(r, a[0], a[1], a[2]).and_then(|b| if b { Ok(vec![]) } else { Err(Fail::Rejected("does not open".into())) }),
        })
    }

    /// Call with every argument in memory of its own; (pointer, length) as returned.
    fn native(k: &Call, fail: usize, at_start: bool) -> (usize, u64, usize) {
        let mut maps: Vec<Guarded> = Vec::new();
        let mut a: Vec<(*const u8, u64)> = Vec::new();
        for (i, x) in k.args.iter().enumerate() {
            match x {
                None => a.push((std::ptr::null(), k.lens[i].unwrap_or(0))),
                Some(b) => {
                    let g = Guarded::placed(b, at_start);
                    g.read_only();
                    a.push((g.ptr, k.lens[i].unwrap_or(b.len() as u64)));
                    maps.push(g);
                }
            }
        }
        let s = match k.seed { None => std::ptr::null(), Some(ref s) => { let g = Guarded::placed(s, at_start); g.read_only(); let p = g.ptr; maps.push(g); p as *const u8 } };
        let before = heap::FAILED.load(SeqCst);
        let b = heap::c_call(fail, || if k.through_header { client::call(k.f, &a, s) } else { match k.f {
            0 => c::system_parameters_create(s),
            1 => c::issuer_create(a[0].0, a[0].1, s),
            2 => c::issuer_new(a[0].0, a[0].1, a[1].0, a[1].1),
            3 => c::issuer_get_issuer_parameters(a[0].0, a[0].1),
            4 => c::issuer_issue(a[0].0, a[0].1, a[1].0, a[1].1, s),
            5 => c::issuer_verify(a[0].0, a[0].1, a[1].0, a[1].1),
            6 => c::issuer_verify_roster_membership(a[0].0, a[0].1, a[1].0, a[1].1),
            7 => c::user_obtain_finish(a[0].0, a[0].1, a[1].0, a[1].1, a[2].0, a[2].1, a[3].0, a[3].1),
            8 => c::user_show(a[0].0, a[0].1, a[1].0, a[1].1, s),
            9 => c::roster_entry_commitment_create(a[0].0, a[0].1, a[1].0, a[1].1, s),
            10 => c::roster_entry_commitment_remove_opening(a[0].0, a[0].1),
            _ => c::roster_entry_commitment_open(a[0].0, a[0].1, a[1].0, a[1].1, a[2].0, a[2].1),
        } });
        // The arguments are gone as soon as the call is over.
        drop(maps);
        (b.ptr as usize, b.len, heap::FAILED.load(SeqCst) - before)
    }

    #[inline(never)]
    fn scribble_stack() -> u8 {
        let mut x = [0xa5u8; 16384];
        for (i, b) in x.iter_mut().enumerate() { unsafe { std::ptr::write_volatile(b, (i as u8) ^ 0xa5) } }
        unsafe { std::ptr::read_volatile(&x[77]) }
    }

    struct W { held: Vec<Held>, sys: u64 }

    fn look(ctx: &mut Ctx, w: &mut W, when: &str) {
        scribble_stack();
        // Something that churns the heap.
        let v: Vec<Vec<u8>> = (1..40).map(|i| vec![0xee; i * 16]).collect();
        drop(v);
        for h in &mut w.held {
            let now = unsafe { std::slice::from_raw_parts(h.ptr as *const u8, h.copy.len()) };
            ctx.count("looks");
            if now != &h.copy[..] {
                ctx.bad(&["C10"], "result-changed", format!("the result of {} changed {}", h.what, when));
                h.copy = now.to_vec();
            }
        }
    }

    fn perform(ctx: &mut Ctx, w: &mut W, k: &Call, fail: usize, at_start: bool, threaded: bool, how: &str) {
        ctx.op();
        if k.through_header { ctx.count("calls from C through the header"); }
        let (name, _, _, len) = FNS[k.f];
        w.sys += 1;
        let sys = w.sys;
        set_system(Source::healthy(sys));
        let want = heap::scan_pause(|| rust(k));
        let k2 = k.clone();
        let early = heap::EARLY_FREES.load(SeqCst);
        let go = move || { set_system(Source::healthy(sys)); native(&k2, fail, at_start) };
        let (ptr, n, failed) = if threaded { ctx.count("fault.call from a thread that ends"); std::thread::spawn(go).join().unwrap_or((1, 0, 0)) } else { go() };
        let _ = early;
        ctx.ev(&[k.f as u64, n, (ptr == 0) as u64], || format!("{} ({}): length {}, {}", name, how, n, if ptr == 0 { "null" } else { "pointer" }));
        let what = format!("{} ({})", name, how);
        if failed > 0 { ctx.count("fault.allocation fails"); }
        let expect = match want {
            Some(Ok(b)) => Some(b),
            Some(Err(ref e)) if e.is_bad() => { ctx.bad(&["C07"], "rust-panics", format!("{}: {:?}", what, e)); return; }
            _ => None,
        };
        if k.f == OPEN {
            if ptr != 0 { ctx.bad(&["C10"], "pointer-for-verdict", what.clone()); }
            if (n != 0) != expect.is_some() || n > 1 { ctx.bad(&["C10", "C11"], "verdict-differs", format!("{}: C says {}, Rust {}", what, n, expect.is_some())); }
            return;
        }
        if ptr == 0 || n == 0 {
            if ptr != 0 || n != 0 { ctx.bad(&["C10"], "half-an-error", format!("{}: length {} with {} pointer", what, n, if ptr == 0 { "a null" } else { "a" })); }
            if expect.is_some() && failed == 0 { ctx.bad(&["C10", "C11"], "refused", format!("{}: Rust gives a result", what)); }
            return;
        }
        let e = match expect { Some(e) => e, None => { ctx.bad(&["C10", "C11"], "accepted", format!("{}: a result of {} bytes where the call should fail", what, n)); return; } };
        // (Arguments of other lengths than documented may stand for keys with more attributes.)
        let usual = how != "extended" && how != "truncated" && how != "replaced";
        if usual && n as usize != len { ctx.bad(&["C10"], "wrong-length", format!("{}: {} instead of {}", what, n, len)); }
        if n as usize != e.len() { ctx.bad(&["C10", "C11"], "wrong-length", format!("{}: {} instead of {}", what, n, e.len())); if n as usize > 4 * len { return; } }
        let got = unsafe { std::slice::from_raw_parts(ptr as *const u8, n as usize) }.to_vec();
        if got != e {
            let d = got.iter().zip(&e).position(|(a, b)| a != b);
            ctx.bad(&["C10", "C11"], "differs-from-rust", format!("{}: first difference at {:?}", what, d));
        }
        for h in &w.held {
            if h.ptr < ptr + n as usize && ptr < h.ptr + h.copy.len() { ctx.bad(&["C10"], "results-overlap", format!("{} and {}", what, h.what)); break; }
        }
        w.held.push(Held { ptr, copy: got, what });
    }

    pub fn execute(run: &Run, ctx: &mut Ctx) {
        lengths(ctx);
        let mut rng = Prng::new(run.seed);
        heap::poison(true);
        let mut w = W { held: Vec::new(), sys: rng.u64() };
        let mut p = match pool(&mut rng) { Ok(p) => p, Err(_) => { ctx.count("event.setup-failed"); heap::poison(false); return; } };
        for (i, s) in run.steps.iter().enumerate() {
            ctx.step = i;
            ctx.report.sim_ms += 10;
            let mut rng = Prng::new(s.seed);
            if rng.chance(10) { if let Ok(q) = pool(&mut rng) { p = q; } }
            let f = rng.idx(FNS.len());
            let mut k = valid(&p, f, &mut rng);
            let start = rng.chance(40);
            match &s.op[..] {
                "call" => perform(ctx, &mut w, &k, 0, start, false, "valid"),
                "thread" => perform(ctx, &mut w, &k, 0, start, true, "in a thread"),
                "damaged" => {
                    if k.args.is_empty() { continue; }
                    let j = rng.idx(k.args.len());
                    let mut b = k.args[j].take().unwrap();
                    let how = match rng.below(7) {
                        0 => { let n = rng.idx(b.len()); b.truncate(n); "truncated" }
                        1 => { let e = rng.range(1, 40) as usize; b.extend(rng.bytes(e)); "extended" }
                        2 => { let i = rng.idx(b.len() * 8); b[i / 8] ^= 1 << (i % 8); "bit flipped" }
                        3 => { let n = rng.range(1, 40) as usize; b = rng.bytes(n); "replaced" }
                        4 => { let i = rng.idx(b.len()); for x in &mut b[i..] { *x = 0; } "torn" }
                        5 => { let n = b.len(); b = vec![if rng.chance(50) { 0 } else { 0xff }; n]; "filled" }
                        _ => { let q = rng.bytes(32); let i = rng.idx(b.len()); let n = (b.len() - i).min(32); b[i..i + n].copy_from_slice(&q[..n]); "overwritten" }
                    };
                    ctx.count(&format!("fault.argument {}", how));
                    k.args[j] = Some(b);
                    perform(ctx, &mut w, &k, 0, start, false, how);
                }
                "null" => {
                    ctx.count("fault.null argument");
                    let n = k.args.len() + k.seed.is_some() as usize;
                    if n == 0 { continue; }
                    let j = rng.idx(n);
                    if j < k.args.len() {
                        let l = k.args[j].as_ref().unwrap().len() as u64;
                        k.args[j] = None;
                        if rng.chance(60) { k.lens[j] = Some(l); }
                    } else { k.seed = None; }
                    perform(ctx, &mut w, &k, 0, start, false, "null argument");
                }
                "empty" => {
                    ctx.count("fault.empty argument");
                    if k.args.is_empty() { continue; }
                    let j = rng.idx(k.args.len());
                    if rng.chance(50) { k.args[j] = Some(vec![]); } else { k.lens[j] = Some(0); }
                    perform(ctx, &mut w, &k, 0, start, false, "empty argument");
                }
                "no-memory" => {
                    for at in 1..6 {
                        let before = heap::FAILED.load(SeqCst);
                        perform(ctx, &mut w, &k, at, start, false, "no memory");
                        if heap::FAILED.load(SeqCst) == before { break; }
                    }
                }
                "release" => {
                    // The caller is done with some of them.
                    look(ctx, &mut w, "before it was released");
                    let keep = w.held.len() / 2;
                    for h in w.held.drain(..keep) { heap::release_if_tracked(h.ptr as *mut u8); }
                }
                _ => {}
            }
            look(ctx, &mut w, "during later calls");
            ctx.state(mixes(&[hash_bytes(s.op.as_bytes()), f as u64]));
        }
        for h in w.held.drain(..) { heap::release_if_tracked(h.ptr as *mut u8); }
        heap::poison(false);
    }
}
