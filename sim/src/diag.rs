//! Diagnostics: debug mode under damaged state, and the timing reports against the simulated clock.
use crate::elf::{self, Image};
use crate::gen::Prog;
use crate::json::J;
use crate::rv::*;
use crate::scen;
use crate::sys::{overhear, pinned, quiet};
use crate::vm::*;
use compiler::{interpreter::EncryptedVM, Phantom};
use poulpy_cpu_avx::FFT64Avx as BE;
use std::panic::{catch_unwind, AssertUnwindSafe};

enum Mach {
    Bare(Box<Vm>, usize),
    Product(Box<EncryptedVM>),
}

impl Mach {
    fn cycle(&mut self) {
        match self {
            Mach::Bare(v, t) => v.cycle(*t),
            Mach::Product(v) => v.execute(),
        }
    }
    fn it(&mut self) -> &mut fhevm::Interpreter<BE> {
        match self {
            Mach::Bare(v, _) => &mut v.it,
            Mach::Product(v) => v.sim_interpreter(),
        }
    }
    fn diff(&mut self, m: &Ref) -> Option<String> {
        match self {
            Mach::Bare(v, _) => v.diff(m),
            Mach::Product(v) => scen::product_diff(v, m),
        }
    }
}

/// "1.25ms" in nanoseconds.
fn ns(s: &str) -> Option<i64> {
    let (v, scale) = if let Some(v) = s.strip_suffix("ns") {
        (v, 0)
    } else if let Some(v) = s.strip_suffix("µs") {
        (v, 3)
    } else if let Some(v) = s.strip_suffix("ms") {
        (v, 6)
    } else {
        (s.strip_suffix('s')?, 9)
    };
    let (a, b) = v.split_once('.').unwrap_or((v, ""));
    if a.is_empty() || b.len() > scale || !a.bytes().chain(b.bytes()).all(|c| c.is_ascii_digit()) {
        return None;
    }
    format!("{a}{b:0<scale$}").parse().ok()
}

/// The report of cycle `n` against the times the code was told.
fn timings(text: &str, n: usize, t: &[i64], a: i64, b: i64, exact: bool) -> Result<(), String> {
    let mut heads = Vec::new();
    let mut total = Vec::new();
    let mut steps: Vec<(String, i64, Vec<(String, i64)>)> = Vec::new();
    for l in text.lines() {
        if let Some(h) = l.split_once("CYCLE[") {
            heads.push(h.1.split(']').next().unwrap_or("").parse::<usize>().ok());
        }
        let Some((label, v)) = l.rsplit_once(": ") else { continue };
        let Some(v) = ns(v.trim()) else { continue };
        let label = label.trim().to_string();
        if label == "Cycle Time" {
            total.push(v);
        } else if label.starts_with('-') {
            match steps.last_mut() {
                Some(s) => s.2.push((label, v)),
                None => return Err(format!("wrong report: {label} belongs to no step")),
            }
        } else if label.starts_with(|c: char| c.is_ascii_digit()) {
            steps.push((label, v, Vec::new()));
        }
    }
    if heads != [Some(n)] || total.len() != 1 || steps.is_empty() {
        return Err(format!("wrong report: cycle {n} printed headers {heads:?}, {} totals and {} steps", total.len(), steps.len()));
    }
    let total = total[0];
    let told = |v: i64| v == 0 || t.iter().any(|x| t.iter().any(|y| y - x == v));
    let figures = std::iter::once(("Cycle Time", total)).chain(steps.iter().flat_map(|s| std::iter::once((s.0.as_str(), s.1)).chain(s.2.iter().map(|u| (u.0.as_str(), u.1)))));
    for (l, v) in figures {
        if !told(v) {
            return Err(format!("wrong report: cycle {n}: {l}: {v} ns is not the time between any two readings of the clock"));
        }
    }
    let sum: i64 = steps.iter().map(|s| s.1).sum();
    if total > b - a || sum > total {
        return Err(format!("wrong report: cycle {n}: steps {sum} ns, cycle {total} ns, elapsed {} ns", b - a));
    }
    for s in &steps {
        let u: i64 = s.2.iter().map(|u| u.1).sum();
        if u > s.1 {
            return Err(format!("wrong report: cycle {n}: {}: {} ns, its parts {u} ns", s.0, s.1));
        }
    }
    // without jumps and stalls nearly all of the time is spent in the steps
    if exact && (total < (b - a) / 10 * 8 || sum < total / 10 * 8) {
        return Err(format!("wrong report: cycle {n}: steps {sum} ns, cycle {total} ns of {} ns", b - a));
    }
    Ok(())
}

/// What debug mode prints about registers and noise, where it prints it. (The printed noise also covers unused cells.)
fn printed(text: &str, m: &Ref, noise: Option<(f64, f64)>, hurt: bool) -> Result<(), String> {
    let nums = |l: &str| -> Vec<f64> { l.split(|c: char| !(c.is_ascii_digit() || c == '.' || c == '-')).filter_map(|x| x.parse().ok()).collect() };
    for l in text.lines() {
        if let Some(l) = l.strip_prefix("reg: ") {
            let v: Vec<u32> = nums(l).iter().map(|x| *x as u32).collect();
            if v != m.x {
                return Err(format!("wrong print: registers {l}"));
            }
        }
        for (p, want) in [("reg_noise: ", noise.map(|n| n.0)), ("ram_noise: ", noise.map(|n| n.1))] {
            if let (Some(l), Some(want)) = (l.strip_prefix(p), want) {
                match nums(l).last() {
                    Some(v) if *v < want - 0.02 || (!hurt && *v > want + 6.0) => return Err(format!("wrong print: {p}{l}, measured {want:.3}")),
                    _ => {}
                }
            }
        }
    }
    Ok(())
}

pub fn run(spec: &J, k: usize) -> J {
    let (body, n, hits, calm) = quiet(|| {
        let p = &crate::run::phases(spec)[k];
        (p.get("body").clone(), spec.get("cycles").us(), spec.get("hits").arr().to_vec(), p.get("faults").arr().is_empty())
    });
    let (debug, verbose, t) = (spec.get("debug").b(), spec.get("verbose").b(), body.get("threads").us().max(1));
    let ks = spec.get("keyseed").u();
    let (mut mach, mut m);
    if spec.has("prog") {
        let p = quiet(|| Prog::from_json(spec.get("prog")));
        let mut vm = pinned(ks, || Vm::new(&p, ks, t, debug));
        vm.it.set_verbose_timings(verbose);
        mach = Mach::Bare(quiet(|| Box::new(vm)), t);
        m = quiet(|| p.machine());
        if debug {
            // what the debug mode takes the registers to be
            m.x = [0; 32];
        }
    } else {
        quiet(|| scen::set_env(&body));
        let bytes = quiet(|| Image::from_json(spec.get("image")).bytes());
        let d = quiet(|| elf::read(&bytes).expect("harness image"));
        let x = quiet(|| spec.get("input").bytes());
        m = quiet(|| scen::boot(&d, &x));
        let ph = Phantom::from_elf(bytes);
        let vm = pinned(ks, || ph.encrypted_vm(&x, 1));
        mach = Mach::Product(quiet(|| Box::new(vm)));
    }
    // anything wrong so far?
    let mut hurt = quiet(|| mach.diff(&m).is_some());
    let mut saved: Vec<Option<Vec<Vec<i64>>>> = quiet(|| vec![None; hits.len()]);
    let (mut err, mut feat, mut done, mut found) = (J::Null, Vec::new(), 0usize, false);
    for c in 0..n {
        for (h, s) in hits.iter().zip(saved.iter_mut()) {
            quiet(|| {
                let part = h.get("part").us();
                if h.get("how").s() == "stale" && c == h.get("since").us() {
                    *s = Some(mach.it().sim_part(part));
                }
                if c != h.get("at").us() {
                    return;
                }
                let mut v = mach.it().sim_part(part);
                match h.get("how").s() {
                    "stale" => v = s.take().unwrap_or(v),
                    "swap" => {
                        let l = v.len();
                        v.swap(h.get("from").us() % l, h.get("to").us() % l);
                    }
                    _ => {
                        let l = v.len();
                        v[h.get("to").us() % l] = v[h.get("from").us() % l].clone();
                    }
                }
                mach.it().sim_damage(part, &v);
                hurt = true;
            });
        }
        let b = quiet(|| m.clone());
        let i = match quiet(|| m.step()) {
            Ok(i) => i,
            Err(_) => break,
        };
        quiet(|| feat.push(J::from(feature(&i, &b))));
        let verbose = verbose && spec.get("on").arr().get(c).map_or(true, |v| v.b());
        if let Mach::Bare(v, _) = &mut mach {
            v.it.set_verbose_timings(verbose);
        }
        let mut r = Ok(());
        let (text, told, t0, t1) = overhear(|| {
            r = catch_unwind(AssertUnwindSafe(|| mach.cycle()));
        });
        done += 1;
        if r.is_err() {
            if !hurt {
                err = quiet(|| J::from(format!("wrong stop: cycle {c} ({:?}) failed although nothing is wrong", i.op)));
            }
            found = true;
            break;
        }
        let e = quiet(|| {
            if verbose {
                if let Err(e) = timings(&text, c, &told, t0, t1, calm && !debug) {
                    return Some(e);
                }
            } else if text.contains("Cycle Time: ") {
                return Some(format!("wrong report: cycle {c} printed one although none was asked for"));
            }
            let d = mach.diff(&m).map(|d| {
                if debug {
                    format!("unnoticed: debug mode completed cycle {c} ({:?}) with a state that differs from what the program prescribes: {d}", i.op)
                } else {
                    format!("wrong state after cycle {c}: {d}")
                }
            });
            if d.is_some() {
                return d;
            }
            if debug {
                let noise = match &mut mach {
                    Mach::Bare(v, _) => {
                        let (a, b) = v.word_noise(&m.x, &m.words());
                        let mx = |v: &[f64]| v.iter().cloned().fold(0.0, f64::max).log2();
                        Some((mx(&a), mx(&b)))
                    }
                    _ => None,
                };
                if let Err(e) = printed(&text, &m, noise, hurt) {
                    return Some(format!("{e} in cycle {c}"));
                }
            }
            None
        });
        if let Some(e) = e {
            err = J::from(e);
            break;
        }
    }
    quiet(|| {
        let v = if found { "deviation-noticed" } else if hurt { "damage-without-effect" } else { "undamaged" };
        J::obj().with("err", err).with("cycles", done).with("feat", J::Arr(feat)).with("verdict", v)
    })
}
