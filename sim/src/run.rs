//! Executes one spec (one or more simulated phases) in a forked child and classifies what happened.
//! Also: the worker pool, confirmation by replay, and minimisation.
use crate::json::J;
use crate::sys::*;
use std::ffi::{c_void, CString};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

pub const MAX_PHASES: usize = 8;

#[repr(C)]
pub struct Shared {
    pub phase: u32,
    pub finished: u32,
    pub stats: [SimStats; MAX_PHASES],
}

/// How a phase ended, as the judge of the scenario sees it.
#[derive(Clone, Debug)]
pub enum Out {
    Done(J),
    /// message, and whether a fault that may legitimately stop the machine had been injected
    Panic(String, bool),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Class {
    Ok,
    Violation,
    Inconclusive,
}

#[derive(Clone, Debug, Default)]
pub struct PhaseStats {
    pub steps: u64,
    pub switches: u64,
    pub digest: u64,
    pub creates: u64,
    pub waits: u64,
    pub allocs: u64,
    pub big_allocs: u64,
    pub clock_reads: u64,
    pub out_writes: u64,
    pub ent_reads: u64,
    pub file_reads: u64,
    pub sim_ns: i64,
    pub max_live: u64,
    pub points: [u64; P_N],
    pub injected: [u64; F_N],
    pub dec: Vec<(u64, i64)>,
    pub dec_overflow: bool,
}

#[derive(Clone, Debug)]
pub struct Outcome {
    pub class: Class,
    pub what: String,
    pub info: J,
    pub phases: Vec<PhaseStats>,
}

/// Scenario hooks, provided by scen.rs.
pub trait Scenario {
    /// Runs inside the simulation.
    fn run(&self, spec: &J, k: usize) -> J;
    /// Runs after all phases, outside the simulation. Err: violation.
    fn judge(&self, spec: &J, outs: &[Out]) -> Result<J, String>;
    /// Runs in the child before the first phase (files, environment).
    fn before(&self, _spec: &J) {}
    fn after(&self, _spec: &J) {}
    /// Removes what a killed child left behind.
    fn cleanup(&self, _spec: &J, _pid: i32) {}
}

pub fn phases(spec: &J) -> &[J] {
    spec.get("phases").arr()
}

struct CfgOwned {
    cfg: SimConfig,
    _faults: Vec<SimFault>,
    _dec: Vec<SimDec>,
    _cpuinfo: CString,
}
fn cfg_of(ph: &J) -> CfgOwned {
    let s = ph.get("sched");
    let faults: Vec<SimFault> = ph
        .get("faults")
        .arr()
        .iter()
        .map(|f| SimFault {
            kind: FAULTS.iter().position(|x| *x == f.get("kind").s()).expect("fault kind") as u32,
            every: f.get("every").u() as u32,
            n: f.get("n").u(),
            arg: f.get("arg").i() as u64,
        })
        .collect();
    let d = s.get("dec").arr();
    let dec: Vec<SimDec> = d.chunks_exact(2).map(|c| SimDec { step: c[0].u(), tid: c[1].i() as i64 }).collect();
    let cpuinfo = CString::new(s.get("cpuinfo").s()).unwrap();
    let mut watch = [0u8; 256];
    let w = s.get("watch").s().as_bytes();
    watch[..w.len().min(255)].copy_from_slice(&w[..w.len().min(255)]);
    let dflt = |k: &str, v: u64| if s.has(k) { s.get(k).u() } else { v };
    let cfg = SimConfig {
        seed: s.get("seed").u(),
        entropy_seed: s.get("entropy").u(),
        entropy_fork: s.get("fork").u(),
        hash_seed: s.get("hash").u(),
        keep_seed: s.get("keep").u(),
        keep_mask: s.get("keep_mask").u(),
        keep_gran: dflt("keep_gran", 32),
        preempt: s.get("preempt").u() as u32,
        policy: s.get("policy").u() as u32,
        explicit_mode: s.get("explicit").b() as u32,
        n_dec: dec.len() as u32,
        dec: dec.as_ptr(),
        n_faults: faults.len() as u32,
        faults: faults.as_ptr(),
        max_steps: dflt("max_steps", 400_000_000),
        big_alloc: dflt("big_alloc", 1 << 16),
        garbage: s.get("garbage").u(),
        cpus: dflt("cpus", 8) as i64 as i32,
        cpuinfo_err: s.get("cpuinfo_err").i() as i32,
        has_stall: 0,
        has_alloc: 0,
        cpuinfo: cpuinfo.as_ptr(),
        watch_prefix: watch,
    };
    CfgOwned { cfg, _faults: faults, _dec: dec, _cpuinfo: cpuinfo }
}

struct Arg<'a> {
    spec: &'a J,
    k: usize,
    scen: &'a dyn Scenario,
    out: Option<Out>,
}
extern "C" fn root(p: *mut c_void) -> *mut c_void {
    let a = unsafe { &mut *(p as *mut Arg) };
    let r = catch_unwind(AssertUnwindSafe(|| a.scen.run(a.spec, a.k)));
    quiet(|| {
        a.out = Some(match r {
            Ok(j) => Out::Done(j),
            Err(_) => Out::Panic(panic_text(), false),
        });
    });
    std::ptr::null_mut()
}

unsafe fn child(spec: &J, scen: &dyn Scenario, sh: *mut Shared, cpu: u64) -> ! {
    libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    let lim = |r, v: u64| {
        let l = libc::rlimit { rlim_cur: v, rlim_max: v + 5 };
        libc::setrlimit(r, &l);
    };
    lim(libc::RLIMIT_CPU, cpu);
    lim(libc::RLIMIT_CORE, 0);
    for (k, _) in std::env::vars_os() {
        if k.to_string_lossy().starts_with("PHANTOM_") {
            std::env::remove_var(k);
        }
    }
    if let J::Obj(m) = spec.get("env") {
        for (k, v) in m {
            std::env::set_var(k, v.s());
        }
    }
    install_panic_recorder();
    crate::secrets::SHARED_STATS = &raw const (*sh).stats;
    scen.before(spec);
    let mut outs = Vec::new();
    for (k, ph) in phases(spec).iter().enumerate() {
        (*sh).phase = k as u32;
        clear_panics();
        let c = cfg_of(ph);
        let mut a = Arg { spec, k, scen, out: None };
        sim_run(&c.cfg, &mut (*sh).stats[k], root, &mut a as *mut Arg as *mut c_void);
        let hard = hard_injected(&(*sh).stats[k].injected);
        outs.push(match a.out {
            Some(Out::Panic(m, _)) => Out::Panic(m, hard),
            Some(o) => o,
            None => Out::Panic("root did not finish".into(), false),
        });
    }
    let res = match scen.judge(spec, &outs) {
        Ok(info) => J::obj().with("info", info),
        Err(e) => J::obj().with("violation", e),
    };
    scen.after(spec);
    let s = res.show();
    let st = &mut (*sh).stats[0];
    let n = s.len().min(st.result.len());
    st.result[..n].copy_from_slice(&s.as_bytes()[..n]);
    st.result_len = n as u32;
    (*sh).finished = 1;
    libc::_exit(0);
}

pub struct Slot {
    pid: i32,
    sh: *mut Shared,
    pub spec: J,
    start: Instant,
}

fn cpu_limit(spec: &J) -> u64 {
    if spec.has("cpu_limit") { spec.get("cpu_limit").u() } else { 240 }
}
pub fn start(spec: J, scen: &dyn Scenario) -> Slot {
    unsafe {
        let sz = std::mem::size_of::<Shared>();
        let sh = libc::mmap(std::ptr::null_mut(), sz, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0) as *mut Shared;
        assert!(!sh.is_null() && sh as isize != -1);
        let cpu = cpu_limit(&spec);
        let pid = libc::fork();
        if pid == 0 {
            child(&spec, scen, sh, cpu);
        }
        assert!(pid > 0, "fork failed");
        Slot { pid, sh, spec, start: Instant::now() }
    }
}

/// Faults after which stopping with a panic or abort is a legitimate outcome.
fn hard_injected(inj: &[u64; F_N]) -> bool {
    let soft = [F_SPURIOUS, F_EINTR_WAIT, F_STALL, F_MONO_JUMP, F_REAL_JUMP, F_ENT_EINTR, F_ENT_SHORT, F_READ_EINTR, F_READ_SHORT];
    inj.iter().enumerate().any(|(k, n)| *n > 0 && !soft.contains(&(k as u32)))
}
fn has_hard_fault(ps: &[PhaseStats]) -> bool {
    ps.iter().any(|p| hard_injected(&p.injected))
}

unsafe fn finish(s: &Slot, status: i32) -> Outcome {
    let sh = &*s.sh;
    let n = phases(&s.spec).len().min(MAX_PHASES);
    let ps: Vec<PhaseStats> = (0..n)
        .map(|k| {
            let t = &sh.stats[k];
            PhaseStats {
                steps: t.steps,
                switches: t.switches,
                digest: t.digest,
                creates: t.creates,
                waits: t.waits,
                allocs: t.allocs,
                big_allocs: t.big_allocs,
                clock_reads: t.clock_reads,
                out_writes: t.out_writes,
                ent_reads: t.ent_reads,
                file_reads: t.file_reads,
                sim_ns: t.sim_ns,
                max_live: t.max_live,
                points: t.points,
                injected: t.injected,
                dec: if k == sh.phase as usize || sh.finished == 1 { t.dec[..t.n_dec as usize].iter().map(|d| (d.step, d.tid)).collect() } else { vec![] },
                dec_overflow: t.dec_overflow != 0,
            }
        })
        .collect();
    let k = sh.phase as usize;
    let text = |k: usize| {
        let t = &sh.stats[k].text;
        String::from_utf8_lossy(&t[..t.iter().position(|b| *b == 0).unwrap_or(t.len())]).into_owned()
    };
    let (class, what, info) = if libc::WIFEXITED(status) {
        match libc::WEXITSTATUS(status) {
            0 if sh.finished == 1 => {
                let st = &sh.stats[0];
                let r = J::parse(&String::from_utf8_lossy(&st.result[..st.result_len as usize])).unwrap_or(J::Null);
                if r.has("violation") {
                    (Class::Violation, r.get("violation").s().to_string(), J::Null)
                } else if r.has("info") {
                    (Class::Ok, String::new(), r.get("info").clone())
                } else {
                    (Class::Inconclusive, "no result".into(), J::Null)
                }
            }
            77 => (Class::Violation, format!("deadlock in phase {k}: {}", text(k)), J::Null),
            78 => (Class::Violation, format!("no progress in phase {k}: {}", text(k)), J::Null),
            c => (Class::Inconclusive, format!("infrastructure: exit {c} {}", text(k)), J::Null),
        }
    } else {
        let sig = libc::WTERMSIG(status);
        match sig {
            libc::SIGABRT if has_hard_fault(&ps[..=k.min(ps.len() - 1)]) => (Class::Ok, String::new(), J::obj().with("aborted", true)),
            libc::SIGKILL => (Class::Inconclusive, "killed (memory or wall clock)".into(), J::Null),
            libc::SIGXCPU => (Class::Violation, format!("no progress in phase {k}: CPU budget exceeded"), J::Null),
            _ => (Class::Violation, format!("process died with signal {sig} in phase {k}"), J::Null),
        }
    };
    Outcome { class, what, info, phases: ps }
}

impl Slot {
    fn reap(self, status: i32) -> (J, Outcome) {
        let o = unsafe { finish(&self, status) };
        unsafe { libc::munmap(self.sh as *mut c_void, std::mem::size_of::<Shared>()) };
        (self.spec, o)
    }
}

/// Runs specs on `par` children; `next` yields the next one (or None), `done` is called per result and
/// returns false to stop feeding.
pub fn pool(par: usize, scen: &dyn Scenario, mut next: impl FnMut() -> Option<J>, mut done: impl FnMut(J, Outcome) -> bool) {
    let mut slots: Vec<Slot> = Vec::new();
    let mut feeding = true;
    loop {
        while feeding && slots.len() < par {
            match next() {
                Some(s) => slots.push(start(s, scen)),
                None => feeding = false,
            }
        }
        if slots.is_empty() {
            return;
        }
        let mut reaped = false;
        let mut i = 0;
        while i < slots.len() {
            let mut st = 0;
            let r = unsafe { libc::waitpid(slots[i].pid, &mut st, libc::WNOHANG) };
            if r == slots[i].pid {
                let s = slots.swap_remove(i);
                let (spec, o) = s.reap(st);
                reaped = true;
                if !done(spec, o) {
                    // a violation: what is still running is not needed any more
                    for s in slots.drain(..) {
                        unsafe {
                            libc::kill(s.pid, libc::SIGKILL);
                            let mut st = 0;
                            libc::waitpid(s.pid, &mut st, 0);
                        }
                        scen.cleanup(&s.spec, s.pid);
                        unsafe { libc::munmap(s.sh as *mut c_void, std::mem::size_of::<Shared>()) };
                    }
                    return;
                }
            } else {
                if slots[i].start.elapsed() > Duration::from_secs(160 + cpu_limit(&slots[i].spec)) {
                    unsafe { libc::kill(slots[i].pid, libc::SIGKILL) };
                }
                i += 1;
            }
        }
        if !reaped {
            std::thread::sleep(Duration::from_micros(500));
        }
    }
}

pub fn one(spec: &J, scen: &dyn Scenario) -> Outcome {
    let s = start(spec.clone(), scen);
    let mut st = 0;
    unsafe {
        while libc::waitpid(s.pid, &mut st, 0) != s.pid {}
    }
    s.reap(st).1
}

/// The spec with every scheduling decision of the observed execution written out.
pub fn explicit(spec: &J, o: &Outcome) -> Option<J> {
    let mut e = spec.clone();
    let mut ph = phases(spec).to_vec();
    for (k, p) in ph.iter_mut().enumerate() {
        let st = o.phases.get(k)?;
        if st.dec_overflow || st.dec.len() > 60_000 {
            return None;
        }
        let mut sched = p.get("sched").clone();
        sched.set("explicit", true);
        sched.set("dec", dec_json(&st.dec));
        p.set("sched", sched);
    }
    e.set("phases", J::Arr(ph));
    Some(e)
}
fn dec_json(d: &[(u64, i64)]) -> J {
    J::Arr(d.iter().flat_map(|(a, b)| [J::from(*a), J::from(*b)]).collect())
}
fn dec_of(ph: &J) -> Vec<(u64, i64)> {
    ph.get("sched").get("dec").arr().chunks_exact(2).map(|c| (c[0].u(), c[1].i() as i64)).collect()
}
fn with_phase(spec: &J, k: usize, f: impl FnOnce(&mut J)) -> J {
    let mut s = spec.clone();
    let mut ph = phases(spec).to_vec();
    f(&mut ph[k]);
    s.set("phases", J::Arr(ph));
    s
}

/// First words of a violation: what must stay the same while minimising.
pub fn kind_of(what: &str) -> String {
    what.split(':').next().unwrap_or("").split(" in phase").next().unwrap_or("").to_string()
}

pub struct Min<'a> {
    pub scen: &'a dyn Scenario,
    pub deadline: Instant,
    pub kind: String,
    pub tried: u32,
    pub par: usize,
}
impl Min<'_> {
    /// Tries candidates in parallel, returns the first (in order) that still fails the same way.
    fn first(&mut self, cands: Vec<J>) -> Option<(J, String)> {
        let mut it = cands.into_iter().peekable();
        while it.peek().is_some() && Instant::now() < self.deadline {
            let batch: Vec<J> = it.by_ref().take(self.par).collect();
            self.tried += batch.len() as u32;
            let mut q = batch.clone().into_iter().enumerate();
            let mut hits: Vec<(usize, J, String)> = Vec::new();
            pool(
                self.par,
                self.scen,
                || q.next().map(|(i, mut s)| {
                    s.set("_i", i);
                    s
                }),
                |s, o| {
                    if o.class == Class::Violation && kind_of(&o.what) == self.kind {
                        let i = s.get("_i").us();
                        hits.push((i, batch[i].clone(), o.what));
                    }
                    true
                },
            );
            hits.sort_by_key(|h| h.0);
            if let Some((_, s, w)) = hits.into_iter().next() {
                return Some((s, w));
            }
        }
        None
    }
    pub fn run(&mut self, spec: J, what: String, shrink: &dyn Fn(&J) -> Vec<J>) -> (J, String) {
        let (mut cur, mut what) = (spec, what);
        // no schedule at all?
        let np = phases(&cur).len();
        let mut c = cur.clone();
        for k in 0..np {
            c = with_phase(&c, k, |p| {
                let s = p.get("sched").clone().with("dec", J::Arr(vec![])).with("explicit", true);
                p.set("sched", s);
            });
        }
        let mut c2 = c.clone();
        for k in 0..np {
            c2 = with_phase(&c2, k, |p| {
                p.set("faults", J::Arr(vec![]));
            });
        }
        if let Some((s, w)) = self.first(vec![c2, c]) {
            cur = s;
            what = w;
        }
        loop {
            let before = cur.show().len();
            // fault lists
            for k in 0..phases(&cur).len() {
                let mut i = 0;
                while i < phases(&cur)[k].get("faults").arr().len() && Instant::now() < self.deadline {
                    let c = with_phase(&cur, k, |p| {
                        let mut f = p.get("faults").arr().to_vec();
                        f.remove(i);
                        p.set("faults", J::Arr(f));
                    });
                    match self.first(vec![c]) {
                        Some((s, w)) => {
                            cur = s;
                            what = w;
                        }
                        None => i += 1,
                    }
                }
            }
            // scenario-specific shrinking, greedy
            for _ in 0..200 {
                if Instant::now() >= self.deadline {
                    break;
                }
                match self.first(shrink(&cur)) {
                    Some((s, w)) => {
                        cur = s;
                        what = w;
                    }
                    None => break,
                }
            }
            // decisions: ddmin
            for k in 0..phases(&cur).len() {
                let mut d = dec_of(&phases(&cur)[k]);
                let mut n = 2;
                while d.len() >= 2 && Instant::now() < self.deadline {
                    let sz = d.len().div_ceil(n);
                    let cands: Vec<Vec<(u64, i64)>> = (0..n)
                        .map(|i| {
                            let (a, b) = ((i * sz).min(d.len()), ((i + 1) * sz).min(d.len()));
                            d[..a].iter().chain(&d[b..]).cloned().collect::<Vec<_>>()
                        })
                        .filter(|c| c.len() < d.len())
                        .collect();
                    let specs = cands
                        .iter()
                        .map(|c| {
                            with_phase(&cur, k, |p| {
                                let s = p.get("sched").clone().with("dec", dec_json(c));
                                p.set("sched", s);
                            })
                        })
                        .collect();
                    match self.first(specs) {
                        Some((s, w)) => {
                            cur = s;
                            what = w;
                            d = dec_of(&phases(&cur)[k]);
                            n = (n - 1).max(2);
                        }
                        None => {
                            if n >= d.len() {
                                break;
                            }
                            n = (n * 2).min(d.len());
                        }
                    }
                }
            }
            if Instant::now() >= self.deadline || cur.show().len() >= before {
                return (cur, what);
            }
        }
    }
}
