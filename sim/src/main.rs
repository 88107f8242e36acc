#![allow(dead_code)]
//! phsim: deterministic simulation of phantom. See ../DESIGN.md.
mod elf;
mod gen;
mod diag;
mod guest;
mod json;
mod props;
mod rng;
mod run;
mod rv;
mod scen;
mod secrets;
mod sys;
mod vm;

use json::J;
use run::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::time::{Duration, Instant};

fn main() {
    unsafe { sys::sim_default_signals() };
    if let Ok(p) = std::env::var("PHSIM_FAKE_CARGO") {
        std::process::exit(scen::fake_cargo(&p));
    }
    assert_eq!(std::mem::size_of::<sys::SimStats>(), unsafe { sys::sim_stats_size() }, "struct layout");
    let a: Vec<String> = std::env::args().collect();
    let opt = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => check(&a[2], &opt),
        Some("replay") => replay(&a[2]),
        Some("spec") => {
            println!("{}", props::spec(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap(), false, &probe_of(&RefCell::new(HashMap::new()))).show());
            0
        }
        Some("guests") => {
            guest::build();
            0
        }
        // what the instructions of these runs are given: op pc rs1 rs2 imm
        Some("operands") => {
            for i in a[3].parse::<u64>().unwrap()..a[4].parse().unwrap() {
                let s = props::spec(&a[2], i, a[5].parse().unwrap(), false, &probe_of(&RefCell::new(HashMap::new())));
                let ps: Vec<gen::Prog> = if s.has("progs") { s.get("progs").arr().iter().map(gen::Prog::from_json).collect() } else if s.has("prog") { vec![gen::Prog::from_json(s.get("prog"))] } else { vec![] };
                for p in ps {
                    let mut m = p.machine();
                    for _ in 0..p.cycles {
                        let Ok(n) = m.fetch() else { break };
                        println!("{:?} {} {} {} {} {} {}", n.op, m.pc, m.x[n.rs1 as usize], m.x[n.rs2 as usize], n.imm, n.rd, m.ram.len());
                        if m.exec(n).is_err() {
                            break;
                        }
                    }
                }
            }
            0
        }
        Some("one") => {
            let s = props::spec(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap(), false, &probe_of(&RefCell::new(HashMap::new())));
            let t = Instant::now();
            let o = one(&s, &scen::Scen);
            println!("{:?} {:?} {}", o.class, t.elapsed(), o.what);
            for p in &o.phases {
                println!("  steps={} switches={} creates={} waits={} allocs={} big={} clocks={} outs={} live={} points={:?} digest={:x}", p.steps, p.switches, p.creates, p.waits, p.allocs, p.big_allocs, p.clock_reads, p.out_writes, p.max_live, p.points, p.digest);
            }
            let i = o.info.show();
            println!("{}", &i[..i.len().min(1500)]);
            0
        }
        Some("noise") => {
            // raw measurements behind the limits of C13
            let n: u64 = a[2].parse().unwrap();
            let mut i = 0;
            pool(
                ncpu(),
                &scen::Scen,
                || {
                    i += 1;
                    (i <= n).then(|| {
                        let s = props::spec("C13", i, a[3].parse().unwrap(), false, &probe_of(&RefCell::new(HashMap::new())));
                        s.with("limits", J::Arr(vec![J::from(100.0); 4]))
                    })
                },
                |s, o| {
                    for (c, n) in o.info.get("noise").arr().iter().enumerate() {
                        println!("{} {} {} {:.3} {:.3} {:.3} {:.3}", s.get("dims").show(), s.get("prog").get("ram").s().len() / 8, c + 1, n.arr()[0].f(), n.arr()[1].f(), n.arr()[2].f(), n.arr()[3].f());
                    }
                    true
                },
            );
            0
        }
        Some("selftest") => selftest(&opt),
        _ => {
            eprintln!("usage: phsim check <property> [--tier quick|thorough] [--seed n] [--budget s] [--out dir] | replay <file> | selftest");
            2
        }
    };
    std::process::exit(code);
}

fn ncpu() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 16)
}

/// Counts fault opportunities by running the spec once without faults; cached by shape.
fn probe_of(cache: &RefCell<HashMap<String, (u64, u64, u64, u64, u64, u64)>>) -> impl Fn(&J) -> props::Probe + '_ {
    move |s: &J| {
        let b = phases(s)[0].get("body");
        let p = s.get("prog");
        let key = format!("{} {} {} {}", s.get("kind").s(), b.show(), p.get("cycles").us(), p.get("rom").arr().len());
        let v = *cache.borrow_mut().entry(key).or_insert_with(|| {
            let o = one(s, &scen::Scen);
            let t = &o.phases[0];
            (t.creates, t.waits, t.allocs, t.big_allocs, t.out_writes, t.steps)
        });
        props::Probe { creates: v.0, waits: v.1, allocs: v.2, big_allocs: v.3, out_writes: v.4, steps: v.5 }
    }
}

struct Acc {
    runs: u64,
    inconclusive: BTreeMap<String, u64>,
    cycles: u64,
    panics: u64,
    aborts: u64,
    faulted_runs: u64,
    features: HashSet<u64>,
    schedules: HashSet<u64>,
    steps: u64,
    switches: u64,
    sim_ns: i128,
    injected: [u64; sys::F_N],
    points: [u64; sys::P_N],
    max_live: u64,
    extra: BTreeMap<String, u64>,
    samples: Vec<J>,
    nontrivial: HashSet<u64>,
    noise: Vec<(f64, f64)>,
}

fn check(prop: &str, opt: &dyn Fn(&str) -> Option<String>) -> i32 {
    let t0 = Instant::now();
    let tier = opt("--tier").or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
    let seed: u64 = opt("--seed").or_else(|| std::env::var("VERIF_SEED").ok()).and_then(|s| s.parse().ok()).unwrap_or(1);
    let budget: u64 = opt("--budget").and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 1500 } else { 65 });
    let out = opt("--out").unwrap_or("/verif/evidence".into());
    let _ = std::fs::create_dir_all(&out);
    let known = known_findings(prop, &opt("--known").unwrap_or("/verif/known-findings.txt".into()));
    let par = ncpu();
    if prop == "C15" {
        if let Err(e) = guest::build_all().or_else(|_| guest::build_all()) {
            let path = format!("{out}/{prop}.replay.json");
            let what = format!("wrong build: {e}");
            let _ = std::fs::write(&path, J::obj().with("property", prop).with("kind", "guest-build").with("violation", what.as_str()).show());
            println!("{what}");
            println!("VIOLATION property={prop} replay={path}");
            return 1;
        }
    }
    let deadline = Instant::now() + Duration::from_secs(budget);
    let cache = RefCell::new(HashMap::new());
    let probe = probe_of(&cache);
    let mut acc = Acc {
        runs: 0, inconclusive: BTreeMap::new(), cycles: 0, panics: 0, aborts: 0, faulted_runs: 0, features: HashSet::new(), schedules: HashSet::new(), steps: 0, switches: 0, sim_ns: 0,
        injected: [0; sys::F_N], points: [0; sys::P_N], max_live: 0, extra: BTreeMap::new(), samples: vec![], nontrivial: HashSet::new(), noise: vec![],
    };
    let fast = opt("--fast").is_some();
    let mut i = 0u64;
    let mut bad: Vec<(J, Outcome)> = Vec::new();
    let mut hit_known: BTreeMap<String, u64> = BTreeMap::new();
    let scen = scen::Scen;
    let min_runs = 8;
    let mut violation = None;
    let mut unconfirmed = 0;
    // a violation that does not reproduce is counted, and the search goes on
    loop {
        bad.clear();
        pool(
            par,
            &scen,
            || {
                if Instant::now() >= deadline && i >= min_runs {
                    return None;
                }
                let s = props::spec(prop, i, seed, tier == "thorough", &probe);
                i += 1;
                Some(s)
            },
            |s, o| {
                account(&mut acc, &s, &o);
                if o.class == Class::Violation {
                    if let Some(k) = known.iter().find(|k| o.what.contains(k.as_str())) {
                        *hit_known.entry(k.clone()).or_insert(0) += 1;
                        return true;
                    }
                    bad.push((s, o));
                    return false;
                }
                true
            },
        );
        // confirm, minimise, report
        bad.sort_by_key(|b| (b.0.get("dims").arr().is_empty(), b.0.get("index").u()));
        for (s, o) in &bad {
            let kind = kind_of(&o.what);
            let ok = |c: &J| {
                (0..3).find_map(|_| {
                    let r = one(c, &scen);
                    (r.class == Class::Violation && kind_of(&r.what) == kind).then_some(r.what)
                })
            };
            let expl = explicit(s, o).filter(|e| ok(e).is_some());
            let confirmed = expl.or_else(|| ok(s).map(|_| s.clone()));
            let Some(c) = confirmed else {
                unconfirmed += 1;
                eprintln!("note: not reproducible, not reported: {}", o.what);
                continue;
            };
            if fast {
                violation = Some(("-".to_string(), o.what.clone()));
                break;
            }
            let mut m = Min { scen: &scen, deadline: Instant::now() + Duration::from_secs(if tier == "thorough" { 300 } else { 45 }), kind: kind.clone(), tried: 0, par };
            let (min, what) = m.run(c, o.what.clone(), &props::shrink_spec);
            // the file must reproduce it, exactly
            let r1 = one(&min, &scen);
            let r2 = one(&min, &scen);
            let (min, what) = if r1.class == Class::Violation && r2.class == Class::Violation && r1.what == r2.what { (min, r1.what) } else { (s.clone(), what) };
            let path = format!("{out}/{prop}.replay.json");
            let text = min.clone().with("violation", what.as_str()).with("original_seed", seed).with("minimiser_runs", m.tried as u64).show();
            let _ = std::fs::write(&path, text);
            violation = Some((path, what));
            break;
        }
        if violation.is_some() || bad.is_empty() || unconfirmed >= 20 {
            break;
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    evidence(prop, &tier, seed, &acc, wall, violation.is_some() as u64, unconfirmed, &hit_known, &out);
    for k in hit_known.keys() {
        println!("KNOWN-FINDING: property={prop} {k}");
    }
    println!("{prop}: {} runs, {} cycles, {} distinct schedules, {} features, {} inconclusive, {:.0} s", acc.runs, acc.cycles, acc.schedules.len(), acc.features.len(), acc.inconclusive.values().sum::<u64>(), wall);
    for (k, n) in &acc.inconclusive {
        println!("  inconclusive x{n}: {k}");
    }
    match violation {
        Some((p, w)) => {
            println!("{w}");
            println!("VIOLATION property={prop} replay={p}");
            1
        }
        None => 0,
    }
}

fn account(a: &mut Acc, s: &J, o: &Outcome) {
    a.runs += 1;
    if o.class == Class::Inconclusive {
        *a.inconclusive.entry(o.what.clone()).or_insert(0) += 1;
        return;
    }
    a.cycles += o.info.get("cycles").u();
    a.panics += o.info.get("panics").u();
    a.aborts += o.info.get("aborted").b() as u64;
    for k in ["verdict"] {
        if o.info.has(k) {
            *a.extra.entry(o.info.get(k).s().to_string()).or_insert(0) += 1;
        }
    }
    for k in ["encrypted_to_the_end", "refused", "machines", "pairs", "attacks", "calls", "ok", "failed"] {
        if o.info.has(k) {
            *a.extra.entry(k.to_string()).or_insert(0) += o.info.get(k).u();
        }
    }
    for n in o.info.get("noise").arr() {
        a.noise.push((n.arr()[0].f(), n.arr()[1].f()));
    }
    for f in o.info.get("feat").arr() {
        a.features.insert(f.u());
    }
    let mut h = 0;
    let mut inj = 0;
    for p in &o.phases {
        a.schedules.insert(p.digest);
        h = rng::mix(h ^ p.digest);
        a.steps += p.steps;
        a.switches += p.switches;
        a.sim_ns += p.sim_ns as i128;
        a.max_live = a.max_live.max(p.max_live);
        for (x, y) in a.injected.iter_mut().zip(p.injected) {
            *x += y;
            inj += y;
        }
        for (x, y) in a.points.iter_mut().zip(p.points) {
            *x += y;
        }
    }
    for d in s.get("damage").arr() {
        *a.extra.entry(format!("storage-{}", d.get("kind").s())).or_insert(0) += 1;
    }
    a.faulted_runs += (inj > 0 || !s.get("damage").arr().is_empty()) as u64;
    let body = crate::rng::mix(s.get("prog").show().bytes().chain(s.get("image").show().bytes()).chain(s.get("plan").show().bytes()).chain(s.get("damage").show().bytes()).chain(s.get("input").show().bytes()).chain(s.get("guest").show().bytes()).fold(h, |x, b| x.wrapping_mul(1099511628211) ^ b as u64));
    if !o.info.get("feat").arr().is_empty() || s.get("kind").s() == "entropy" {
        a.nontrivial.insert(body);
    }
    if a.samples.len() < 3 {
        let p = &o.phases;
        let mut j = J::obj()
            .with("index", s.get("index").clone())
            .with("kind", s.get("kind").clone())
            .with("dims", s.get("dims").clone())
            .with("steps", p.iter().map(|x| x.steps).collect::<Vec<_>>())
            .with("switches", p.iter().map(|x| x.switches).collect::<Vec<_>>())
            .with("digest", p.iter().map(|x| x.digest >> 1).collect::<Vec<_>>())
            .with("faults", J::Arr(phases(s).iter().flat_map(|x| x.get("faults").arr().to_vec()).collect()))
            .with("threads", J::Arr(phases(s).iter().map(|x| x.get("body").get("threads").clone()).collect()))
            .with("cycles", o.info.get("cycles").clone());
        if s.has("prog") {
            j.set("program", J::Arr(s.get("prog").get("rom").arr().iter().take(8).cloned().collect()));
        }
        a.samples.push(j);
    }
}

fn known_findings(prop: &str, path: &str) -> Vec<String> {
    // lines "known: property=<id> match=<text>"; lines starting with "fixed:" suppress nothing
    std::fs::read_to_string(path)
        .unwrap_or_default()
        .lines()
        .filter_map(|l| l.strip_prefix(&format!("known: property={prop} match=")).map(|s| s.trim().to_string()))
        .filter(|s| !s.is_empty())
        .collect()
}

#[allow(clippy::too_many_arguments)]
fn evidence(prop: &str, tier: &str, seed: u64, a: &Acc, wall: f64, viol: u64, unconfirmed: u64, known: &BTreeMap<String, u64>, out: &str) {
    let mut inj = J::obj();
    for (k, n) in a.injected.iter().enumerate() {
        if *n > 0 {
            inj.set(sys::FAULTS[k], *n);
        }
    }
    let mut pts = J::obj();
    for (k, n) in a.points.iter().enumerate() {
        pts.set(sys::POINTS[k], *n);
    }
    let mut ex = J::obj();
    for (k, v) in &a.extra {
        ex.set(k, *v);
    }
    let mut inc = J::obj();
    for (k, v) in &a.inconclusive {
        inc.set(k, *v);
    }
    let mut cov = J::obj()
        .with("evaluations", a.runs)
        .with("distinct_nontrivial", a.nontrivial.len())
        .with("rule", "a case is one simulated execution: a generated input plus one seeded schedule and fault sequence; distinct by the hash of input, schedule and faults; non-trivial if at least one guest instruction, image, build call or machine creation was executed and judged")
        .with("samples", J::Arr(a.samples.clone()))
        .with("runs_per_hour", (a.runs as f64 / wall.max(0.001) * 3600.0).round())
        .with("encrypted_or_plain_cycles_checked", a.cycles)
        .with("simulated_seconds", a.sim_ns as f64 / 1e9)
        .with("scheduling_points", a.steps)
        .with("scheduling_points_by_kind", pts)
        .with("context_switches", a.switches)
        .with("distinct_interleavings", a.schedules.len())
        .with("interleaving_measure", "64-bit digest of every context switch (step, thread), wait, wake-up, fault and entropy delivery of a phase")
        .with("distinct_instruction_features", a.features.len())
        .with("max_live_threads", a.max_live)
        .with("faults_injected", inj)
        .with("runs_with_faults", a.faulted_runs)
        .with("stopped_loudly", a.panics + a.aborts)
        .with("details", ex)
        .with("inconclusive", inc)
        .with("unreproducible", unconfirmed)
        .with("known_findings_hit", known.values().sum::<u64>())
        .with("real_components", J::from(vec!["fhevm (all of it, hooks on)", "compiler (loader, tapes, build driver, plaintext machine)", "poulpy cryptographic library", "Rust standard library threads and synchronisation"]))
        .with("stubs", J::from(vec!["operating-system scheduler", "clocks and sleeping", "entropy (/dev/urandom, getrandom)", "/proc/cpuinfo and affinity", "stdout/stderr", "allocation failure and contents of fresh memory", "the guest build tool (C08 only)"]));
    if !a.noise.is_empty() {
        let f = |i: usize| a.noise.iter().map(|x| if i == 0 { x.0 } else { x.1 }).fold(f64::NEG_INFINITY, f64::max);
        cov.set("largest_log2_noise", J::obj().with("registers", f(0)).with("ram", f(1)).with("measurements", a.noise.len()));
    }
    let j = J::obj()
        .with("property", prop)
        .with("tier", tier)
        .with("seed", seed)
        .with("level", "exploration")
        .with("coverage", cov)
        .with("assumptions", J::from(vec!["most runs use reduced lattice dimensions (the code is the same; N, n_lwe and rank are parameters)", "threads switch only at synchronisation, atomic, allocation, clock and I/O operations", "the cryptographic library and the Rust standard library are trusted"]))
        .with("wall_s", wall)
        .with("violations", viol);
    let _ = std::fs::write(format!("{out}/{prop}.json"), j.show());
}

fn replay(path: &str) -> i32 {
    let s = J::parse(&std::fs::read_to_string(path).expect("replay file")).expect("replay file");
    if s.get("property").s() == "C15" {
        if let Err(e) = guest::build_all() {
            println!("recorded:  {}", s.get("violation").s());
            println!("wrong build: {e}");
            println!("VIOLATION property=C15 replay={path}");
            return 1;
        }
        if s.get("kind").s() == "guest-build" {
            println!("the guests build");
            return 0;
        }
    }
    let o = one(&s, &scen::Scen);
    println!("{:?}: {}", o.class, o.what);
    for (k, p) in o.phases.iter().enumerate() {
        println!("phase {k}: steps={} switches={} digest={:016x}", p.steps, p.switches, p.digest);
    }
    if o.info.has("noise") {
        println!("noise: {}", o.info.get("noise").show());
    }
    if s.has("violation") {
        println!("recorded:  {}", s.get("violation").s());
        println!("identical: {}", s.get("violation").s() == o.what);
    }
    if o.class == Class::Violation {
        println!("VIOLATION property={} replay={path}", s.get("property").s());
        return 1;
    }
    0
}

/// One seed is one execution: every spec twice, digests and outcomes must agree; then once more from its
/// recorded decisions.
fn selftest(opt: &dyn Fn(&str) -> Option<String>) -> i32 {
    let n: u64 = opt("--runs").and_then(|s| s.parse().ok()).unwrap_or(6);
    let cache = RefCell::new(HashMap::new());
    let probe = probe_of(&cache);
    let mut bad = 0;
    for p in props::ALL {
        let specs: Vec<J> = (0..n).map(|i| props::spec(p, i, 99, false, &probe)).collect();
        // twice, with twice as many processes as cores, so that the host's own timing varies
        let twice = |specs: &[J]| {
            let mut q = specs.iter().chain(specs).cloned().enumerate().collect::<Vec<_>>().into_iter();
            let mut got: Vec<Option<Outcome>> = (0..2 * specs.len()).map(|_| None).collect();
            pool(2 * ncpu(), &scen::Scen, || q.next().map(|(i, s)| s.with("_i", i)), |s, o| {
                got[s.get("_i").us()] = Some(o);
                true
            });
            got.into_iter().map(|o| o.unwrap()).collect::<Vec<_>>()
        };
        let got = twice(&specs);
        let digests = |o: &Outcome| o.phases.iter().map(|x| (x.digest, x.steps)).collect::<Vec<_>>();
        let mut ex = Vec::new();
        for i in 0..specs.len() {
            let (a, b) = (&got[i], &got[specs.len() + i]);
            if digests(a) != digests(b) || a.class != b.class || a.what != b.what {
                println!("{p} {i}: not deterministic: {:x?} {:x?} {:?} {:?} {} {}", digests(a), digests(b), a.class, b.class, a.what, b.what);
                bad += 1;
            }
            if let Some(e) = explicit(&specs[i], a) {
                ex.push((i, e));
            }
        }
        let only: Vec<J> = ex.iter().map(|x| x.1.clone()).collect();
        let got2 = twice(&only);
        for (k, (i, _)) in ex.iter().enumerate() {
            let (a, c, d) = (&got[*i], &got2[k], &got2[only.len() + k]);
            let st = |o: &Outcome| o.phases.iter().map(|x| x.steps).collect::<Vec<_>>();
            let stall = phases(&specs[*i]).iter().any(|p| p.get("faults").arr().iter().any(|f| f.get("kind").s() == "stalled-thread"));
            if digests(c) != digests(d) || (st(a) != st(c) && !stall) || c.class != a.class || c.what != a.what {
                println!("{p} {i}: explicit replay differs: {:?} {:?} {:?} {:?}", st(a), st(c), a.class, c.class);
                bad += 1;
            }
        }
        println!("{p}: {} executions repeated, {} replayed from their decisions", specs.len(), ex.len());
    }
    if bad > 0 {
        3
    } else {
        0
    }
}
