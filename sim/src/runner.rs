//! Running batches of simulated runs in fresh processes, minimising and replaying failures.
use crate::ctx::*;
use crate::util::*;
use serde_derive::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::io::Read;
use std::os::unix::io::FromRawFd;
use std::sync::atomic::{AtomicI32, Ordering::SeqCst};
use std::time::{Duration, Instant};

static PIPE: AtomicI32 = AtomicI32::new(-1);

#[derive(Serialize, Deserialize)]
enum Msg {
    Start(usize),
    Done(usize, Report),
    Deadlock,
}

fn send(m: &Msg) {
    let mut v = serde_json::to_vec(m).unwrap();
    v.push(b'\n');
    let fd = PIPE.load(SeqCst);
    let mut o = 0;
    while o < v.len() {
        let n = unsafe { libc::write(fd, v[o..].as_ptr() as *const libc::c_void, v.len() - o) };
        if n <= 0 { unsafe { libc::_exit(9) } }
        o += n as usize;
    }
}

/// Called by the scheduler when no thread can go on.
pub fn deadlocked() {
    let s = b"\"Deadlock\"\n";
    unsafe { libc::write(PIPE.load(SeqCst), s.as_ptr() as *const libc::c_void, s.len()); libc::_exit(7) }
}

pub fn execute(run: &Run, verbose: bool, thorough: bool) -> Report {
    let mut ctx = Ctx::new(verbose, thorough);
    crate::entropy::set_system(crate::entropy::Source::healthy(mix(run.seed ^ 0x5e5e)));
    crate::engines::execute(run, &mut ctx);
    ctx.report
}

struct Child { pid: i32, file: std::fs::File, buf: Vec<u8>, last: Instant, current: Option<usize>, open: bool }

fn spawn(runs: &[Run], verbose: bool, thorough: bool) -> Child {
    let mut fds = [0; 2];
    unsafe {
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
        let pid = libc::fork();
        assert!(pid >= 0);
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::close(fds[0]);
            let null = libc::open(b"/dev/null\0".as_ptr() as *const libc::c_char, libc::O_RDWR);
            libc::dup2(null, 0);
            libc::dup2(null, 1);
            if std::env::var_os("SIM_STDERR").is_none() { libc::dup2(null, 2); }
            // A runaway run must not take the machine down.
            let lim = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &lim);
            let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &core);
            PIPE.store(fds[1], SeqCst);
            for (i, r) in runs.iter().enumerate() {
                send(&Msg::Start(i));
                let rep = match crate::guard::guarded(|| execute(r, verbose, thorough)) {
                    Ok(x) => x,
                    // A panic outside of a guarded operation is a fault of the harness.
                    Err(e) => {
                        let mut x = Report::default();
                        x.anomalies.push(Anomaly { props: vec!["HARNESS".into()], kind: "harness".into(), step: 0, detail: format!("{:?}", e) });
                        x
                    }
                };
                send(&Msg::Done(i, rep));
            }
            libc::_exit(0);
        }
        libc::close(fds[1]);
        libc::fcntl(fds[0], libc::F_SETFL, libc::O_NONBLOCK);
        Child { pid, file: std::fs::File::from_raw_fd(fds[0]), buf: Vec::new(), last: Instant::now(), current: None, open: true }
    }
}

/// How a process ended while a run was in progress.
fn death(run: &Run, how: &str) -> Report {
    let mut r = Report::default();
    let props = crate::engines::death_props(&run.engine, &run.profile, how);
    r.anomalies.push(Anomaly { props: props.iter().map(|s| s.to_string()).collect(), kind: format!("process-{}", how.split(' ').next().unwrap()),
                               step: 0, detail: format!("the process running this schedule {}", how) });
    r
}

impl Child {
    /// Reports that came in; true when the child is finished.
    fn poll(&mut self, runs: &[Run], hang: u64, out: &mut Vec<(usize, Report)>) -> bool {
        let mut tmp = [0u8; 65536];
        loop {
            match self.file.read(&mut tmp) {
                Ok(0) => { self.open = false; break; }
                Ok(n) => { self.buf.extend(&tmp[..n]); self.last = Instant::now(); }
                Err(_) => break,
            }
        }
        let mut dead = None;
        while let Some(p) = self.buf.iter().position(|b| *b == b'\n') {
            let line: Vec<u8> = self.buf.drain(..=p).collect();
            match serde_json::from_slice(&line) {
                Ok(Msg::Start(i)) => self.current = Some(i),
                Ok(Msg::Done(i, r)) => { self.current = None; out.push((i, r)); }
                Ok(Msg::Deadlock) => dead = Some("deadlocked".to_string()),
                Err(_) => {}
            }
        }
        if self.open && self.last.elapsed() > Duration::from_secs(hang) {
            unsafe { libc::kill(self.pid, libc::SIGKILL); }
            dead = Some(format!("hung (no progress for {} s)", hang));
            self.open = false;
        }
        if self.open { return false; }
        let mut st = 0;
        unsafe { libc::waitpid(self.pid, &mut st, 0); }
        if let Some(i) = self.current {
            let how = dead.unwrap_or_else(|| unsafe {
                if libc::WIFSIGNALED(st) { format!("died of signal {}", libc::WTERMSIG(st)) } else { format!("exited with status {}", libc::WEXITSTATUS(st)) }
            });
            out.push((i, death(&runs[i], &how)));
        }
        true
    }
}

/// Run these in one fresh process; reports by index (missing after a death).
pub fn run_fresh(runs: &[Run], verbose: bool, thorough: bool, hang: u64) -> Vec<(usize, Report)> {
    let mut out = Vec::new();
    let mut ch = spawn(runs, verbose, thorough);
    while !ch.poll(runs, hang, &mut out) { std::thread::sleep(Duration::from_micros(300)); }
    out
}

pub struct Batch { pub index: usize, pub runs: Vec<Run> }

pub struct Summary {
    pub runs: u64,
    pub counts: BTreeMap<String, u64>,
    pub states: HashSet<u64>,
    pub traces: HashSet<u64>,
    pub nontrivial: HashSet<u64>,
    pub sim_ms: u64,
    pub per_engine: BTreeMap<String, u64>,
    pub failures: Vec<Failure>,
    pub known: BTreeMap<String, u64>,
    pub capped: bool,
    pub digest: u64,
}

#[derive(Clone)]
pub struct Failure { pub batch: usize, pub index: usize, pub runs: Vec<Run>, pub anomaly: Anomaly }

pub fn jobs() -> usize {
    std::env::var("SIM_JOBS").ok().and_then(|s| s.parse().ok())
        .unwrap_or_else(|| unsafe { libc::sysconf(libc::_SC_NPROCESSORS_ONLN).max(1).min(16) as usize })
}

pub const HANG: u64 = 60;

/// Run all batches, `jobs` at a time; stop launching at the first failure of `prop`.
pub fn run_batches<I: Iterator<Item = Batch>>(batches: I, prop: &str, known: &[Known], thorough: bool, cap_s: u64, jobs: usize) -> Summary {
    let mut s = Summary {
        runs: 0, counts: BTreeMap::new(), states: HashSet::new(), traces: HashSet::new(), nontrivial: HashSet::new(), sim_ms: 0,
        per_engine: BTreeMap::new(), failures: Vec::new(), known: BTreeMap::new(), capped: false, digest: 0,
    };
    let t0 = Instant::now();
    let mut it = batches;
    let mut live: Vec<(Batch, Child)> = Vec::new();
    let mut stop = false;
    loop {
        while !stop && live.len() < jobs {
            if t0.elapsed().as_secs() > cap_s { s.capped = true; stop = true; break; }
            match it.next() {
                Some(b) => { let c = spawn(&b.runs, false, thorough); live.push((b, c)); }
                None => { stop = true; }
            }
        }
        if live.is_empty() { break; }
        let mut i = 0;
        let mut moved = false;
        while i < live.len() {
            let mut out = Vec::new();
            let fin = { let (b, c) = &mut live[i]; c.poll(&b.runs, HANG, &mut out) };
            for (j, r) in out {
                moved = true;
                let run = &live[i].0.runs[j];
                s.runs += 1;
                *s.per_engine.entry(format!("{}/{}", run.engine, run.profile)).or_insert(0) += 1;
                for (k, v) in &r.counts { *s.counts.entry(k.clone()).or_insert(0) += v; }
                s.states.extend(&r.states);
                s.traces.insert(r.trace);
                if r.counts.get("ops").cloned().unwrap_or(0) > 0 && r.counts.iter().any(|(k, v)| *v > 0 && (k.starts_with("fault.") || k.starts_with("attack.") || k.starts_with("case."))) {
                    s.nontrivial.insert(r.trace);
                }
                s.sim_ms += r.sim_ms;
                s.digest = s.digest.wrapping_add(mixes(&[live[i].0.index as u64, j as u64, r.trace]));
                for a in &r.anomalies {
                    if !a.props.iter().any(|p| p == prop || p == "HARNESS") { continue; }
                    if let Some(k) = known.iter().find(|k| k.property == prop && k.kind == a.kind) {
                        *s.known.entry(k.kind.clone()).or_insert(0) += 1;
                        continue;
                    }
                    s.failures.push(Failure { batch: live[i].0.index, index: j, runs: live[i].0.runs[..=j].to_vec(), anomaly: a.clone() });
                }
            }
            if fin { live.remove(i); moved = true; } else { i += 1; }
        }
        if !s.failures.is_empty() { stop = true; }
        if !moved { std::thread::sleep(Duration::from_micros(500)); }
    }
    s.failures.sort_by_key(|f| (f.batch, f.index, f.anomaly.step));
    s
}

// ------------------------------------------------------------------ findings

#[derive(Clone, Debug)]
pub struct Known { pub property: String, pub kind: String, pub what: String }

/// Lines `finding: property=<id> kind=<kind> <what fails>`; `fixed:` lines suppress nothing.
pub fn known(path: &std::path::Path) -> Vec<Known> {
    let mut v = Vec::new();
    for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
        if !l.starts_with("finding: ") { continue; }
        let mut p = l["finding: ".len()..].splitn(3, ' ');
        let (a, b, c) = (p.next().unwrap_or(""), p.next().unwrap_or(""), p.next().unwrap_or(""));
        if a.starts_with("property=") && b.starts_with("kind=") {
            v.push(Known { property: a[9..].into(), kind: b[5..].into(), what: c.into() });
        }
    }
    v
}

// ------------------------------------------------------------------ minimisation

fn reproduces(runs: &[Run], prop: &str, kind: &str, thorough: bool, hang: u64) -> bool {
    run_fresh(runs, false, thorough, hang).iter().any(|(_, r)| r.anomalies.iter().any(|a| a.kind == kind && a.props.iter().any(|p| p == prop)))
}

fn ddmin<T: Clone, F: FnMut(&[T]) -> bool>(v: &[T], mut test: F) -> Vec<T> {
    let mut v = v.to_vec();
    let mut n = 2;
    while v.len() >= 2 {
        let size = (v.len() + n - 1) / n;
        let mut shrunk = false;
        let mut start = 0;
        while start < v.len() {
            let end = (start + size).min(v.len());
            let mut w = v[..start].to_vec();
            w.extend_from_slice(&v[end..]);
            if test(&w) { v = w; n = (n - 1).max(2); shrunk = true; break; }
            start = end;
        }
        if !shrunk {
            if n >= v.len() { break; }
            n = (n * 2).min(v.len());
        }
    }
    if v.len() == 1 && test(&[]) { v.clear(); }
    v
}

/// The smallest schedule found that still shows this failure; None if it does not reproduce.
pub fn minimise(f: &Failure, prop: &str, thorough: bool) -> Option<Vec<Run>> {
    let kind = f.anomaly.kind.clone();
    let hang = if kind.starts_with("process-hung") { 30 } else { HANG };
    let last = vec![f.runs.last().unwrap().clone()];
    let mut case = if reproduces(&last, prop, &kind, thorough, hang) {
        last
    } else if reproduces(&f.runs, prop, &kind, thorough, hang) {
        f.runs.clone()
    } else {
        return None;
    };
    if kind.starts_with("process-hung") { return Some(case); }
    let t0 = Instant::now();
    let budget = Duration::from_secs(if thorough { 240 } else { 60 });
    let ok = |c: &[Run]| t0.elapsed() < budget && reproduces(c, prop, &kind, thorough, hang);
    if case.len() > 1 { case = ddmin(&case, |c| !c.is_empty() && ok(c)); }
    for i in (0..case.len()).rev() {
        let steps = ddmin(&case[i].steps, |s| {
            let mut c = case.clone();
            c[i].steps = s.to_vec();
            ok(&c)
        });
        case[i].steps = steps;
        // Simpler arguments where they do.
        for j in 0..case[i].steps.len() {
            for field in 0..3 {
                let mut c = case.clone();
                {
                    let s = &mut c[i].steps[j];
                    let x = match field { 0 => &mut s.a, 1 => &mut s.b, _ => &mut s.c };
                    if *x == 0 { continue; }
                    *x = 0;
                }
                if ok(&c) { case = c; }
            }
        }
    }
    Some(case)
}

#[derive(Serialize, Deserialize)]
pub struct Replay { pub property: String, pub kind: String, pub detail: String, pub thorough: bool, pub runs: Vec<Run>, pub history: Vec<String> }

/// Run a replay file; the matching anomaly if it shows.
pub fn replay(r: &Replay) -> (Option<Anomaly>, Vec<String>) {
    let out = run_fresh(&r.runs, true, r.thorough, HANG);
    let mut hit = None;
    let mut log = Vec::new();
    for (i, rep) in out {
        log.push(format!("run {}: engine {} profile {} seed {:#x}, {} steps", i, r.runs[i].engine, r.runs[i].profile, r.runs[i].seed, r.runs[i].steps.len()));
        log.extend(rep.log.iter().cloned());
        for a in rep.anomalies {
            if a.kind == r.kind && a.props.contains(&r.property) && hit.is_none() { hit = Some(a); }
        }
    }
    (hit, log)
}
