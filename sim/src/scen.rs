//! The simulated scenarios: what runs inside a simulation and how its outcome is judged.
use crate::elf::{self, Bad, Image};
use crate::gen::Prog;
use crate::json::J;
use crate::run::{phases, Out, Scenario};
use crate::rv::*;
use crate::sys::{pinned, quiet};
use crate::vm::*;
use compiler::{CompileOpts, Phantom};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Scen;

impl Scenario for Scen {
    fn run(&self, spec: &J, k: usize) -> J {
        quiet(|| set_dims(spec.get("dims")));
        match spec.get("kind").s() {
            "vm" => vm_run(spec, k),
            "burst" => burst_run(spec, k),
            "multi" => multi_run(spec, k),
            "phantom" => phantom_run(spec, k),
            "house" => house_run(spec, k),
            "testvm" => testvm_run(spec),
            "loader" => loader_run(spec),
            "build" => build_run(spec, k),
            "oblivious" => oblivious_run(spec, k),
            "entropy" => entropy_run(spec, k),
            "guest" => crate::guest::run(spec, k),
            "diag" => crate::diag::run(spec, k),
            x => panic!("unknown scenario {x}"),
        }
    }
    fn judge(&self, spec: &J, outs: &[Out]) -> Result<J, String> {
        match spec.get("kind").s() {
            "vm" => vm_judge(spec, outs),
            "multi" | "house" => multi_judge(spec, outs),
            "entropy" => entropy_judge(spec, outs),
            "oblivious" => oblivious_judge(outs),
            _ => plain_judge(outs),
        }
    }
    fn before(&self, spec: &J) {
        match spec.get("kind").s() {
            "build" => build_before(spec),
            "oblivious" => {
                assert!(crate::sys::count_routines() > 100, "harness: no symbols");
            }
            _ => {}
        }
    }
    fn after(&self, spec: &J) {
        if spec.get("kind").s() == "build" {
            build_after(spec, std::process::id());
        }
    }
    fn cleanup(&self, spec: &J, pid: i32) {
        if spec.get("kind").s() == "build" {
            build_after(spec, pid as u32);
        }
    }
}

fn usizes(j: &J) -> Vec<usize> {
    j.arr().iter().map(|x| x.us()).collect()
}

// ------------------------------------------------------------------ one encrypted machine
fn vm_run(spec: &J, k: usize) -> J {
    let (p, o, ks) = quiet(|| {
        let b = phases(spec)[k].get("body");
        (
            Prog::from_json(spec.get("prog")),
            RunOpts {
                threads: usizes(b.get("threads")),
                debug: b.get("debug").b(),
                verbose: b.get("verbose").b(),
                hashes: spec.get("bits").b(),
                noise: spec.get("noise").b(),
                every: b.get("every").us().max(1),
            },
            spec.get("keyseed").u(),
        )
    });
    run_prog(&p, ks, &o)
}

fn burst_run(spec: &J, k: usize) -> J {
    let (ps, t, ks) = quiet(|| {
        let ps: Vec<Prog> = spec.get("progs").arr().iter().map(Prog::from_json).collect();
        (ps, usizes(phases(spec)[k].get("body").get("threads")), spec.get("keyseed").u())
    });
    run_burst(&ps, ks, &t)
}

fn collect(outs: &[Out]) -> J {
    let mut cycles = 0;
    let mut feat = Vec::new();
    let mut panics = 0;
    for o in outs {
        match o {
            Out::Done(j) => {
                cycles += j.get("cycles").us();
                feat.extend_from_slice(j.get("feat").arr());
            }
            Out::Panic(..) => panics += 1,
        }
    }
    let mut j = J::obj().with("cycles", cycles).with("feat", J::Arr(feat)).with("panics", panics);
    if let Some(Out::Done(d)) = outs.last() {
        for k in ["verdict", "encrypted_to_the_end"] {
            if d.has(k) {
                j.set(k, d.get(k).clone());
            }
        }
    }
    j
}

fn vm_judge(spec: &J, outs: &[Out]) -> Result<J, String> {
    for (k, o) in outs.iter().enumerate() {
        match o {
            Out::Panic(_, true) => {}
            Out::Panic(m, false) => return Err(format!("panic: phase {k}: {m}")),
            Out::Done(j) if j.has("err") => return Err(format!("{} (phase {k})", j.get("err").s())),
            _ => {}
        }
    }
    if spec.get("bits").b() {
        let base = match &outs[0] {
            Out::Done(j) => j.get("hashes").arr(),
            _ => &[],
        };
        for (k, o) in outs.iter().enumerate().skip(1) {
            if let Out::Done(j) = o {
                let h = j.get("hashes").arr();
                if let Some(c) = (0..base.len().min(h.len())).find(|c| base[*c] != h[*c]) {
                    return Err(format!("ciphertexts differ: phase {k} against phase 0, first after cycle {c}"));
                }
            }
        }
    }
    if spec.get("noise").b() {
        noise_judge(spec, outs)?;
    }
    let mut info = collect(outs);
    if spec.get("noise").b() {
        if let Some(Out::Done(j)) = outs.first() {
            info.set("noise", j.get("noise").clone());
        }
    }
    Ok(info)
}

/// Noise bounds. The limits are parameters of the spec (see DESIGN.md for how they were chosen).
fn noise_judge(spec: &J, outs: &[Out]) -> Result<(), String> {
    let l = spec.get("limits");
    for o in outs {
        if let Out::Done(j) = o {
            for (c, n) in j.get("noise").arr().iter().enumerate() {
                let c = c + 1;
                // log2 noise may grow by half a bit per doubling of the cycle count
                let g = 0.5 * (c as f64).log2();
                for (i, what) in ["registers", "RAM", "register just written", "RAM word just written"].iter().enumerate() {
                    let v = n.arr()[i].f();
                    let lim = l.arr()[i].f() + if i < 2 { g } else { 0.0 };
                    if v > lim {
                        return Err(format!("noise too large: {what} after cycle {c}: log2 noise {v:.2} exceeds {lim:.2}"));
                    }
                }
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ several machines in one process
fn machine_run(m: &J) -> J {
    let (p, o, ks, boom, starve) = quiet(|| {
        (
            Prog::from_json(m.get("prog")),
            RunOpts { threads: usizes(m.get("threads")), debug: m.get("debug").b(), verbose: m.get("verbose").b(), hashes: true, noise: false, every: 1 },
            m.get("keyseed").u(),
            m.get("fail").b(),
            m.get("starve").u() as usize,
        )
    });
    if starve != 0 {
        // this machine fails inside a cycle: its caller gives it too little scratch memory
        let mut vm = pinned(ks, || Vm::new(&p, ks, o.threads[0], o.debug));
        vm.it.set_verbose_timings(o.verbose);
        if o.debug {
            vm.it.set_threads(o.threads[0]);
        }
        vm.starve(starve);
        vm.cycle(o.threads[0]);
        return quiet(|| J::obj().with("survived", true));
    }
    if boom {
        // this machine fails after its run: a caller error the library answers with a panic
        let mut vm = pinned(ks, || Vm::new(&p, ks, o.threads[0], o.debug));
        vm.cycle(o.threads[0]);
        let mut short = vec![0u32; p.ram.len() / 4 + 1];
        let _ = catch_unwind(AssertUnwindSafe(|| {
            let mut s: poulpy_hal::layouts::ScratchOwned<poulpy_cpu_avx::FFT64Avx> = poulpy_hal::api::ScratchOwnedAlloc::alloc(1 << 22);
            vm.it.ram_decrypt(vm.params.module(), &mut short, &vm.skp, poulpy_hal::api::ScratchOwnedBorrow::borrow(&mut s));
        }));
        std::panic::resume_unwind(Box::new("failed on purpose"));
    }
    run_prog(&p, ks, &o)
}

fn multi_run(spec: &J, k: usize) -> J {
    let (which, seq): (Vec<J>, bool) = quiet(|| {
        let b = phases(spec)[k].get("body");
        let ms = spec.get("machines").arr();
        (if b.has("only") { vec![ms[b.get("only").us()].clone()] } else { ms.to_vec() }, b.get("seq").b())
    });
    let mut out = Vec::new();
    if seq || which.len() == 1 {
        for m in &which {
            let r = catch_unwind(AssertUnwindSafe(|| machine_run(m)));
            quiet(|| out.push(r.unwrap_or(J::Null)));
        }
    } else {
        let hs: Vec<_> = which
            .into_iter()
            .map(|m| loop {
                // a thread-creation fault is meant for the machines
                let m = quiet(|| m.clone());
                if let Ok(h) = std::thread::Builder::new().stack_size(16 << 20).spawn(move || machine_run(&m)) {
                    break h;
                }
            })
            .collect();
        for h in hs {
            let r = h.join();
            quiet(|| out.push(r.unwrap_or(J::Null)));
        }
    }
    quiet(|| J::obj().with("machines", J::Arr(out)))
}

fn multi_judge(spec: &J, outs: &[Out]) -> Result<J, String> {
    let ms = spec.get("machines").arr();
    let n = ms.len();
    let mut alone: Vec<J> = vec![J::Null; n];
    let mut feat = Vec::new();
    let mut cycles = 0;
    for (k, o) in outs.iter().enumerate() {
        let b = phases(spec)[k].get("body");
        let r = match o {
            Out::Done(j) => j.get("machines").arr(),
            Out::Panic(m, _) => return Err(format!("panic: phase {k}: {m}")),
        };
        // each injected fault may stop one machine
        let mut allowed = unsafe { (*crate::secrets::SHARED_STATS)[k].injected[crate::sys::F_SPAWN as usize] };
        for (i, j) in r.iter().enumerate() {
            let id = if b.has("only") { b.get("only").us() } else { i };
            if ms[id].get("starve").u() != 0 {
                // may or may not have failed; nothing is claimed about it
                continue;
            }
            if ms[id].get("fail").b() {
                if *j != J::Null {
                    return Err("harness: the failing machine did not fail".into());
                }
                continue;
            }
            if *j == J::Null && allowed > 0 {
                allowed -= 1;
                continue;
            }
            if *j == J::Null {
                return Err(format!("machine failed: machine {id} panicked in phase {k}"));
            }
            if j.has("err") {
                return Err(format!("{} (machine {id}, phase {k})", j.get("err").s()));
            }
            cycles += j.get("cycles").us();
            feat.extend_from_slice(j.get("feat").arr());
            if b.has("only") {
                alone[id] = j.get("hashes").clone();
            } else if alone[id] != J::Null && *j.get("hashes") != alone[id] {
                return Err(format!("machines influence each other: ciphertexts of machine {id} differ from running alone (phase {k})"));
            }
        }
    }
    Ok(J::obj().with("cycles", cycles).with("feat", J::Arr(feat)))
}

fn plain_judge(outs: &[Out]) -> Result<J, String> {
    for (k, o) in outs.iter().enumerate() {
        match o {
            Out::Panic(_, true) => {}
            Out::Panic(m, false) => return Err(format!("panic: phase {k}: {m}")),
            Out::Done(j) if j.has("err") => return Err(format!("{} (phase {k})", j.get("err").s())),
            _ => {}
        }
    }
    // phases that drew the same entropy must agree bit for bit
    let of = |o: &Out, k: &str| match o {
        Out::Done(j) => j.get(k).clone(),
        _ => J::Null,
    };
    if of(&outs[0], "hashes") != J::Null {
        let a = of(&outs[0], "hashes");
        for (k, o) in outs.iter().enumerate().skip(1) {
            let b = of(o, "hashes");
            if b == J::Null || of(&outs[0], "entropy") != of(o, "entropy") {
                continue;
            }
            // keyed by run and cycle: only common keys are compared
            if let (J::Obj(x), J::Obj(y)) = (&a, &b) {
                for (key, v) in x {
                    if let Some(w) = y.get(key) {
                        if v != w {
                            return Err(format!("ciphertexts differ: phase {k} against phase 0 at run.cycle {key}"));
                        }
                    }
                }
            }
        }
    }
    Ok(collect(outs))
}

// ------------------------------------------------------------------ what an execution shows to its host
fn oblivious_run(spec: &J, k: usize) -> J {
    use crate::sys::{sim_trace_read, sim_trace_start, sim_trace_stop};
    let b = quiet(|| phases(spec)[k].get("body").clone());
    quiet(|| set_env(&b));
    let mut marks: Vec<J> = quiet(|| Vec::with_capacity(64));
    let mut mark = |len: usize| {
        quiet(|| {
            let mut t = [0u64; 4];
            unsafe { sim_trace_read(&mut t) };
            marks.push(J::Arr(vec![J::from(t[2]), J::from(t[0] >> 8), J::from(t[1] >> 8), J::from(len), J::from(t[3])]));
        })
    };
    let mut cycles = 0;
    if b.has("prog") {
        let (p, threads) = quiet(|| (Prog::from_json(b.get("prog")), usizes(b.get("threads"))));
        let ks = b.get("keyseed").u();
        let maxt = threads.iter().copied().max().unwrap_or(1);
        let mut vm = pinned(spec.get("keyhash").u(), || Vm::new(&p, ks, maxt, false));
        vm.it.set_verbose_timings(spec.get("verbose").b());
        unsafe { sim_trace_start() };
        for n in 0..p.cycles {
            vm.cycle(threads[n % threads.len()]);
            cycles += 1;
            mark(0);
        }
    } else {
        let (bytes, input, mc, calls) = quiet(|| (Image::from_json(b.get("image")).bytes(), b.get("input").bytes(), b.get("cycles").us(), b.get("calls").us()));
        let ph = Phantom::from_elf(bytes);
        let mut vm = pinned(spec.get("keyhash").u(), || ph.encrypted_vm(&input, mc));
        unsafe { sim_trace_start() };
        for _ in 0..calls {
            vm.execute();
            cycles += mc;
            let n = if b.get("tapes").b() { vm.output_tape().len() } else { 0 };
            mark(n);
        }
    }
    unsafe { sim_trace_stop() };
    quiet(|| J::obj().with("marks", J::Arr(marks)).with("cycles", cycles).with("feat", J::Arr(vec![])))
}

fn oblivious_judge(outs: &[Out]) -> Result<J, String> {
    let mut base: Option<(usize, &[J])> = None;
    for (k, o) in outs.iter().enumerate() {
        match o {
            Out::Panic(_, true) => {}
            Out::Panic(m, false) => return Err(format!("panic: phase {k}: {m}")),
            // the first execution sets up what the process keeps (output buffers, tables of the library)
            Out::Done(_) if k == 0 => {}
            Out::Done(j) => {
                let m = j.get("marks").arr();
                let Some((b, w)) = base else {
                    base = Some((k, m));
                    continue;
                };
                if m.len() != w.len() {
                    return Err("harness: phases of different length".into());
                }
                if let Some(c) = (0..m.len()).find(|c| m[*c] != w[*c]) {
                    let (x, y) = (w[c].arr(), m[c].arr());
                    let what = if x[3] != y[3] {
                        format!("outputs of {} and {} bytes", x[3].u(), y[3].u())
                    } else if x[0] != y[0] {
                        format!("{} and {} actions up to there", x[0].u(), y[0].u())
                    } else if x[1] != y[1] {
                        "actions differ".to_string()
                    } else {
                        format!("the same actions, but not the same operations ({} and {} up to there)", x[4].u(), y[4].u())
                    };
                    return Err(format!("execution shows its secrets: executions of the same size (phases {b} and {k}) differ after step {}: {what}", c + 1));
                }
            }
        }
    }
    let mut info = collect(outs);
    // the distinct traces reached are the coverage measure of this scenario
    if let Some((_, w)) = base {
        info.set("feat", J::Arr(w.iter().map(|m| m.arr()[1].clone()).collect()));
    }
    Ok(info)
}

// ------------------------------------------------------------------ the whole product: image, tapes, both machines
fn hex8(b: &[u8]) -> String {
    b.iter().take(8).map(|x| format!("{x:02x}")).collect()
}
pub fn first_diff(a: &[u8], b: &[u8]) -> String {
    if a.len() != b.len() {
        return format!("length {} expected {}", a.len(), b.len());
    }
    match (0..a.len()).find(|i| a[*i] != b[*i]) {
        Some(i) => format!("byte {i}: {:#x} expected {:#x} (from {})", a[i], b[i], hex8(&a[i..])),
        None => String::new(),
    }
}
fn words_of(b: &[u8]) -> Vec<u32> {
    b.chunks_exact(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect()
}
pub fn boot(d: &elf::Desc, input: &[u8]) -> Ref {
    let mut ram = d.ram.clone();
    let o = (d.inp.0 - BASE) as usize;
    ram[o..o + input.len()].copy_from_slice(input);
    Ref::new(words_of(&d.rom), [0; 32], ram)
}
pub fn tape(d: &elf::Desc, m: &Ref) -> Vec<u8> {
    let o = (d.out.0 - BASE) as usize;
    m.ram[o..o + d.out.1 as usize].to_vec()
}

pub fn set_env(b: &J) {
    for v in ["PHANTOM_THREADS", "PHANTOM_DEBUG", "PHANTOM_VERBOSE_TIMINGS"] {
        std::env::remove_var(v);
    }
    if let J::Obj(m) = b.get("env") {
        use std::os::unix::ffi::OsStrExt;
        for (k, v) in m {
            if v.s() == "<non-utf8>" {
                std::env::set_var(k, std::ffi::OsStr::from_bytes(&[0x31, 0xff, 0xfe]));
            } else {
                std::env::set_var(k, v.s());
            }
        }
    }
}

/// Several users of the product in one process.
fn house_run(spec: &J, k: usize) -> J {
    let (ms, seq) = quiet(|| {
        let b = phases(spec)[k].get("body");
        set_env(b);
        (spec.get("machines").arr().to_vec(), b.get("seq").b())
    });
    let go = |i: usize, m: &J| phantom_exec(m, m, false, &format!("m{i}"));
    let mut out = Vec::new();
    if seq {
        for (i, m) in ms.iter().enumerate() {
            let r = catch_unwind(AssertUnwindSafe(|| go(i, m)));
            quiet(|| out.push(r.unwrap_or(J::Null)));
        }
    } else {
        std::thread::scope(|s| {
            let hs: Vec<_> = ms
                .iter()
                .enumerate()
                .map(|(i, m)| loop {
                    // a thread-creation fault is meant for the machines
                    if let Ok(h) = std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, move || go(i, m)) {
                        break h;
                    }
                })
                .collect();
            for h in hs {
                let r = h.join();
                quiet(|| out.push(r.unwrap_or(J::Null)));
            }
        });
    }
    quiet(|| J::obj().with("machines", J::Arr(out)))
}

fn phantom_run(spec: &J, k: usize) -> J {
    let body = quiet(|| phases(spec)[k].get("body").clone());
    quiet(|| set_env(&body));
    let bits = spec.get("bits").b();
    let mut j = phantom_exec(spec, &body, bits, "");
    if bits {
        quiet(|| j.set("entropy", phases(spec)[k].get("sched").get("entropy").clone()));
    }
    j
}

/// Difference between the decrypted state and the reference, if any.
pub fn product_diff(vm: &mut compiler::interpreter::EncryptedVM, m: &Ref) -> Option<String> {
    let v = vm as *mut compiler::interpreter::EncryptedVM;
    // the hooks hand out disjoint fields
    let (params, sk, it) = unsafe { ((*v).sim_params(), (*v).sim_sk(), (*v).sim_interpreter()) };
    let mut s: poulpy_hal::layouts::ScratchOwned<poulpy_cpu_avx::FFT64Avx> = poulpy_hal::api::ScratchOwnedAlloc::alloc(1 << 24);
    let s = poulpy_hal::api::ScratchOwnedBorrow::borrow(&mut s);
    let pc = it.sim_pc(params.module(), sk, s);
    let regs = it.sim_registers(params.module(), sk, s);
    let mut ram = vec![0u32; m.ram.len() / 4];
    it.ram_decrypt(params.module(), &mut ram, sk, s);
    diff_state(pc, &regs, &ram, m)
}

/// Loads `spec.image` and performs `spec.runs`, comparing with the reference all along.
pub fn phantom_exec(spec: &J, body: &J, want_bits: bool, who: &str) -> J {
    let (bytes, runs) = quiet(|| (if spec.has("elf") { spec.get("elf").bytes() } else { Image::from_json(spec.get("image")).bytes() }, spec.get("runs").arr().to_vec()));
    let d = quiet(|| elf::read(&bytes).expect("harness image"));
    let mut feat = Vec::new();
    let mut cycles = 0usize;
    let mut hashes = J::obj();
    let mut err: Option<String> = None;
    let ph = Phantom::from_elf(bytes);
    'runs: for (ri, run) in runs.iter().enumerate() {
        let input = quiet(|| run.get("input").bytes());
        if run.get("wrong_length").b() {
            // the tape must be rejected by both machines
            let a = catch_unwind(AssertUnwindSafe(|| {
                ph.encrypted_vm(&input, 0);
            }));
            let b = catch_unwind(AssertUnwindSafe(|| ph.test_vm(0).read_input_tape(&input)));
            if a.is_ok() || b.is_ok() {
                err = Some(format!("wrong tape accepted: input of {} bytes for a region of {} bytes ({})", input.len(), d.inp.1, if a.is_ok() { "encrypted machine" } else { "plaintext machine" }));
                break 'runs;
            }
            continue;
        }
        let chunks = usizes(&quiet(|| run.get("cycles").clone()));
        let mut m = quiet(|| boot(&d, &input));
        if run.get("plain").b() || run.get("both").b() {
            let total: usize = chunks.iter().sum();
            let mut t = ph.test_vm(total);
            let draft = quiet(|| run.get("draft").bytes());
            if draft.len() == input.len() {
                // a tape that another one replaces before the first cycle
                t.read_input_tape(&draft);
            }
            t.read_input_tape(&input);
            let mut tm = quiet(|| m.clone());
            for c in 0..=total {
                let tp = t.output_tape();
                if let Some(e) = quiet(|| (tp != tape(&d, &tm)).then(|| format!("wrong output: plaintext machine after cycle {c} of run {ri}: {}", first_diff(&tp, &tape(&d, &tm))))) {
                    err = Some(e);
                    break 'runs;
                }
                if c == total {
                    break;
                }
                if quiet(|| tm.step().is_err()) {
                    break;
                }
                t.run();
            }
        }
        if run.get("plain").b() {
            continue;
        }
        // `cycles` lists the lengths of the execute() calls; max_cycles is per call and fixed at creation
        let mc = chunks[0];
        let mut vm = pinned(7 + ri as u64, || ph.encrypted_vm(&input, mc));
        let threads = usizes(&quiet(|| run.get("rethread").clone()));
        let tapes = run.get("tapes").b() || body.get("tapes").b();
        let calls = if mc == 0 { 1 } else { chunks.len() };
        for c in 0..=calls {
            let at = quiet(|| format!("{ri}.{}", c * mc));
            let state = quiet(|| {
                if want_bits {
                    hashes.set(&at, hash_ct(&vm.sim_interpreter().sim_ciphertext()));
                }
                product_diff(&mut vm, &m)
            });
            if let Some(dd) = state {
                err = Some(quiet(|| format!("wrong state: encrypted machine at run.cycle {at}: {dd}")));
                break 'runs;
            }
            if tapes || c == calls {
                let tp = vm.output_tape();
                if let Some(e) = quiet(|| (tp != tape(&d, &m)).then(|| format!("wrong output: encrypted machine at run.cycle {at}: {}", first_diff(&tp, &tape(&d, &m))))) {
                    err = Some(e);
                    break 'runs;
                }
            }
            if c == calls {
                break;
            }
            if !threads.is_empty() {
                vm.sim_interpreter().set_threads(threads[c % threads.len()]);
            }
            let ok = quiet(|| {
                for _ in 0..mc {
                    let b = m.clone();
                    match m.step() {
                        Ok(i) => {
                            feat.push(J::from(feature(&i, &b)));
                            cycles += 1;
                        }
                        Err(_) => return false,
                    }
                }
                true
            });
            if !ok {
                break;
            }
            vm.execute();
        }
    }
    quiet(|| {
        let mut j = J::obj().with("cycles", cycles).with("feat", J::Arr(feat));
        if let Some(e) = err {
            j.set("err", if who.is_empty() { e } else { format!("{e} [{who}]") });
        }
        if want_bits {
            j.set("hashes", hashes);
        }
        j
    })
}

fn testvm_run(spec: &J) -> J {
    let img = quiet(|| Image::from_json(spec.get("image")));
    let bytes = quiet(|| img.bytes());
    let d = quiet(|| elf::read(&bytes).expect("harness image"));
    let input = quiet(|| spec.get("input").bytes());
    let n = spec.get("cycles").us();
    let ph = Phantom::from_elf(bytes);
    let mut t = ph.test_vm(n);
    t.read_input_tape(&input);
    let mut m = quiet(|| boot(&d, &input));
    m.m_ext = true;
    let mut feat = Vec::new();
    let mut done = 0;
    let mut err = J::Null;
    for c in 0..n {
        let b = quiet(|| m.clone());
        let i = match m.step() {
            Ok(i) => i,
            Err(_) => break,
        };
        if c < 1000 {
            quiet(|| feat.push(J::from(feature(&i, &b))));
        }
        t.run();
        done += 1;
        // the tape is the whole RAM: compare when it can have changed, and at the end
        if i.op.is_store() || c + 1 == n {
            let tp = t.output_tape();
            if tp != tape(&d, &m) {
                err = J::from(quiet(|| format!("wrong output: plaintext machine after cycle {} ({:?} at pc={:#x}): {}", c + 1, i.op, b.pc, first_diff(&tp, &tape(&d, &m)))));
                break;
            }
        }
    }
    // execute() runs exactly max_cycles instructions
    if err == J::Null && done == n && spec.get("batch").b() {
        let mut t2 = ph.test_vm(n);
        t2.read_input_tape(&input);
        t2.execute();
        let tp = t2.output_tape();
        if tp != tape(&d, &m) {
            err = J::from(format!("wrong output: plaintext execute({n}): {}", first_diff(&tp, &tape(&d, &m))));
        }
    }
    J::obj().with("err", err).with("cycles", done).with("feat", J::Arr(feat))
}

// ------------------------------------------------------------------ loader
pub fn damage(bytes: &[u8], dmg: &[J]) -> Vec<u8> {
    let mut f = bytes.to_vec();
    for d in dmg {
        let (a, n) = (d.get("at").us().min(f.len()), d.get("len").us());
        let e = (a + n).min(f.len());
        match d.get("kind").s() {
            "truncate" => f.truncate(a),
            "zero" => f[a..e].fill(0),
            "ones" => f[a..e].fill(0xff),
            "stale" => {
                let s = d.get("data").bytes();
                for (i, x) in f[a..e].iter_mut().enumerate() {
                    *x = s.get(i).copied().unwrap_or(0);
                }
            }
            "flip" => {
                if a < f.len() {
                    f[a] ^= 1 << (n % 8);
                }
            }
            "set32" => {
                if a + 4 <= f.len() {
                    f[a..a + 4].copy_from_slice(&(n as u32).to_le_bytes());
                }
            }
            _ => {}
        }
    }
    f
}

fn loader_run(spec: &J) -> J {
    let (good, f, dmg) = quiet(|| {
        let good = Image::from_json(spec.get("image")).bytes();
        let dmg = spec.get("damage").arr().to_vec();
        (good.clone(), damage(&good, &dmg), dmg)
    });
    let want = quiet(|| elf::read(&f));
    let got = catch_unwind(AssertUnwindSafe(|| Phantom::from_elf(f.clone())));
    let mut verdict = "rejected";
    let err = match (&want, &got) {
        (Ok(_), Err(_)) if dmg.is_empty() => Some(format!("intact image rejected: {}", crate::sys::panic_text())),
        (_, Err(_)) => None,
        (Err(Bad::Missing), Ok(_)) => Some(format!("incomplete image accepted: {} of {} bytes present", f.len(), good.len())),
        (Err(Bad::Unloadable), Ok(_)) => Some("segment dropped: an image with a segment that cannot be loaded was accepted".to_string()),
        (Err(Bad::Other), Ok(_)) => {
            verdict = "no verdict";
            None
        }
        (Ok(d), Ok(p)) => {
            verdict = "booted";
            let e = |w: &str, a: &[u8], b: &[u8]| (a != b).then(|| format!("wrong boot memory: {w}: {}", first_diff(a, b)));
            let info = ((*p.input_info().start_addr() as u32, *p.input_info().size() as u32), (*p.output_info().start_addr() as u32, *p.output_info().size() as u32));
            e("program", p.boot_rom().data(), &d.rom)
                .or_else(|| (*p.boot_rom().size() != d.rom.len() || *p.boot_rom().offset() != 0).then(|| "wrong boot memory: program size or offset".to_string()))
                .or_else(|| e("RAM", p.boot_ram().data(), &d.ram))
                .or_else(|| (*p.boot_ram().offset() != BASE as usize || *p.boot_ram().size() != d.ram.len()).then(|| "wrong boot memory: RAM size or offset".to_string()))
                .or_else(|| (info != (d.inp, d.out)).then(|| format!("wrong regions: {info:x?} expected {:x?}", (d.inp, d.out))))
        }
    };
    // what the two machines hold before the first cycle
    let mut err = err;
    if let (None, Ok(d), Ok(p), true) = (&err, &want, &got, spec.get("boot").b()) {
        let within = |r: (u32, u32)| r.0 >= BASE && r.0 as u64 + r.1 as u64 <= BASE as u64 + 4096;
        if within(d.inp) && within(d.out) && d.rom.len() % 4 == 0 && !d.rom.is_empty() {
            let input = vec![0xa5u8; d.inp.1 as usize];
            let m = boot(d, &input);
            let mut t = p.test_vm(0);
            t.read_input_tape(&input);
            let tp = t.output_tape();
            if tp != tape(d, &m) {
                err = Some(format!("wrong boot memory: plaintext machine: {}", first_diff(&tp, &tape(d, &m))));
            }
            // the encrypted machine refuses instructions it does not know
            let known = words_of(&d.rom).iter().all(|w| Ins::dec(*w).is_some_and(|i| RV32I.contains(&i.op)));
            if err.is_none() && known && spec.get("boot_enc").b() {
                let mut vm = p.encrypted_vm(&input, 0);
                let tp = vm.output_tape();
                if tp != tape(d, &m) {
                    err = Some(format!("wrong boot memory: encrypted machine: {}", first_diff(&tp, &tape(d, &m))));
                }
                let ram = quiet(|| enc_ram(&mut vm));
                if err.is_none() && ram != m.words() {
                    err = Some("wrong boot memory: encrypted machine's RAM".into());
                }
            }
        }
    }
    let mut j = J::obj().with("cycles", 0).with("verdict", verdict);
    let shape = crate::rng::mix(spec.get("image").show().len() as u64 * 31 + f.len() as u64) >> 20;
    j.set("feat", J::Arr(vec![J::from(shape)]));
    if let Some(e) = err {
        j.set("err", e);
    }
    j
}

fn enc_ram(vm: &mut compiler::interpreter::EncryptedVM) -> Vec<u32> {
    let v = vm as *mut compiler::interpreter::EncryptedVM;
    let (params, sk, it) = unsafe { ((*v).sim_params(), (*v).sim_sk(), (*v).sim_interpreter()) };
    let mut s: poulpy_hal::layouts::ScratchOwned<poulpy_cpu_avx::FFT64Avx> = poulpy_hal::api::ScratchOwnedAlloc::alloc(1 << 24);
    let mut ram = vec![0u32; 1024];
    it.ram_decrypt(params.module(), &mut ram, sk, poulpy_hal::api::ScratchOwnedBorrow::borrow(&mut s));
    ram
}

// ------------------------------------------------------------------ guest builds
fn build_root(spec: &J, pid: u32) -> String {
    format!("/tmp/phsim-build-{pid}-{}", spec.get("index").u())
}
fn build_dest(spec: &J, pid: u32, i: usize) -> String {
    format!("phsim-{pid}-{}-{i}", spec.get("index").u())
}
fn rmtree(p: &str) {
    // only ever paths this run created
    assert!(p.starts_with("/tmp/phsim-build-") || p.starts_with("/tmp/vm-experiments/phsim-"));
    let _ = std::fs::remove_dir_all(p);
}
fn build_before(spec: &J) {
    let root = build_root(spec, std::process::id());
    rmtree(&root);
    std::fs::create_dir_all(&root).unwrap();
    let plan = format!("{root}/plan.json");
    std::fs::write(&plan, spec.get("plan").show()).unwrap();
    std::env::set_var("PHSIM_FAKE_CARGO", &plan);
    std::env::set_var("PHSIM_FAKE_ROOT", &root);
    let exe = std::env::current_exe().unwrap();
    match spec.get("tool").s() {
        "missing" => std::env::set_var("CARGO", format!("{root}/no-such-tool")),
        "not-executable" => {
            let p = format!("{root}/tool");
            std::fs::write(&p, b"#!/bin/sh\nexit 0\n").unwrap();
            std::env::set_var("CARGO", p);
        }
        "unset" => std::env::remove_var("CARGO"),
        _ => std::env::set_var("CARGO", exe),
    }
}
fn build_after(spec: &J, pid: u32) {
    rmtree(&build_root(spec, pid));
    for i in 0..8 {
        rmtree(&format!("/tmp/vm-experiments/{}", build_dest(spec, pid, i)));
    }
}

/// The bytes a planned tool run leaves as the artifact of `prog` for call number `call`.
pub fn artifact(prog: &str, call: u64, size: usize) -> Vec<u8> {
    let mut r = crate::rng::Rng::new(crate::rng::mix(call + 1) ^ prog.bytes().fold(7u64, |a, b| a.wrapping_mul(31).wrapping_add(b as u64)));
    let mut v = format!("ARTIFACT {prog} {call}\n").into_bytes();
    while v.len() < size {
        v.extend_from_slice(&r.u64().to_le_bytes());
    }
    v.truncate(size.max(1));
    v
}

fn path_is_dir(p: &str) -> bool {
    std::path::Path::new(p).is_dir()
}
/// Runs in place of cargo when the code under test starts the build tool.
pub fn fake_cargo(plan_path: &str) -> i32 {
    let plan = J::parse(&std::fs::read_to_string(plan_path).unwrap()).unwrap();
    let root = std::env::var("PHSIM_FAKE_ROOT").unwrap();
    let args: Vec<String> = std::env::args().collect();
    let val = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let eq = |k: &str| args.iter().find_map(|a| a.strip_prefix(&format!("{k}=")).map(|s| s.to_string()));
    let opt = |k: &str| val(k).or_else(|| eq(k));
    let bin = opt("--bin").or_else(|| opt("--package")).or_else(|| opt("-p")).unwrap_or_default();
    let profile = if args.iter().any(|a| a == "--release") { "release".to_string() } else { opt("--profile").unwrap_or("debug".into()) };
    let tdir = opt("--target-dir").or_else(|| std::env::var("CARGO_TARGET_DIR").ok()).unwrap_or_default();
    let target = opt("--target").unwrap_or_default();
    // which call of which program is this
    let cfile = format!("{root}/calls-{bin}");
    let call: u64 = std::fs::read_to_string(&cfile).ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    std::fs::write(&cfile, (call + 1).to_string()).unwrap();
    let steps = plan.get(&bin).arr();
    if steps.is_empty() {
        eprintln!("error: package ID specification `{bin}` did not match any packages");
        return 101;
    }
    let st = &steps[(call as usize).min(steps.len() - 1)];
    if args.get(1).map(|s| s.as_str()) != Some("build") || target != "riscv32i-unknown-none-elf" || !tdir.starts_with('/') {
        eprintln!("error: unexpected arguments {args:?}");
        return 102;
    }
    let dir = format!("{tdir}/{target}/{profile}");
    std::fs::create_dir_all(&dir).unwrap();
    let path = format!("{dir}/{bin}");
    let size = st.get("size").us();
    let full = artifact(&bin, call, size);
    use std::io::Write;
    let blob = vec![b'x'; st.get("noise").us()];
    let _ = std::io::stderr().write_all(&blob[..blob.len() / 2]);
    let _ = std::io::stdout().write_all(&blob[blob.len() / 2..]);
    // neighbours in the same directory
    for n in st.get("foreign").arr() {
        std::fs::write(format!("{dir}/{}", n.s()), artifact(n.s(), 999, size.max(8))).unwrap();
    }
    // what other builds (another profile, the host, an earlier source) may have left nearby
    for n in st.get("decoys").arr() {
        let p = format!("{tdir}/{}", n.s().replace("{target}", &target).replace("{bin}", &bin));
        if p != path {
            std::fs::create_dir_all(std::path::Path::new(&p).parent().unwrap()).unwrap();
            std::fs::write(p, artifact(&format!("old {bin}"), 998, size.max(8))).unwrap();
        }
    }
    if path_is_dir(&path) {
        let _ = std::fs::remove_dir(&path);
    }
    match st.get("write").s() {
        "full" => std::fs::write(&path, &full).unwrap(),
        "partial" => std::fs::write(&path, &full[..st.get("cut").us().min(full.len())]).unwrap(),
        "none" => {}
        "remove" => {
            let _ = std::fs::remove_file(&path);
        }
        "dir" => {
            let _ = std::fs::remove_file(&path);
            let _ = std::fs::create_dir(&path);
        }
        _ => {}
    }
    let end = st.get("end").s();
    if let Some(s) = end.strip_prefix("signal ") {
        unsafe {
            libc::raise(s.parse().unwrap());
        }
        return 1;
    }
    end.strip_prefix("exit ").map(|s| s.parse().unwrap()).unwrap_or(0)
}

fn build_run(spec: &J, k: usize) -> J {
    let (calls, conc) = quiet(|| {
        let b = phases(spec)[k].get("body");
        (b.get("calls").arr().to_vec(), b.get("concurrent").b())
    });
    let one = |i: usize, c: &J| -> J {
        let (prog, dest) = quiet(|| (c.get("prog").s().to_string(), build_dest(spec, std::process::id(), c.get("dest").us())));
        let r = catch_unwind(AssertUnwindSafe(|| CompileOpts::new(&prog).build(&dest)));
        quiet(|| {
            let _ = i;
            match r {
                Ok(v) => J::hex(&v),
                Err(_) => J::Null,
            }
        })
    };
    let got: Vec<J> = if conc {
        std::thread::scope(|s| {
            let hs: Vec<_> = calls.iter().enumerate().map(|(i, c)| s.spawn(move || one(i, c))).collect();
            hs.into_iter().map(|h| h.join().unwrap_or(J::Null)).collect()
        })
    } else {
        calls.iter().enumerate().map(|(i, c)| one(i, c)).collect()
    };
    quiet(|| {
        // replay the plan against a model of the target directories
        let mut model: std::collections::HashMap<(usize, String), Option<Vec<u8>>> = Default::default();
        let mut count: std::collections::HashMap<String, u64> = Default::default();
        let mut err = J::Null;
        let mut n = 0;
        let (mut ok, mut failed) = (0, 0);
        for (i, c) in calls.iter().enumerate() {
            let prog = c.get("prog").s().to_string();
            let dest = c.get("dest").us();
            let started = spec.get("tool").s().is_empty();
            let steps = spec.get("plan").get(&prog).arr();
            let mut want: Option<Vec<u8>> = None;
            let mut success = false;
            if started && !steps.is_empty() {
                let call = *count.entry(prog.clone()).and_modify(|x| *x += 1).or_insert(0);
                let st = &steps[(call as usize).min(steps.len() - 1)];
                let full = artifact(&prog, call, st.get("size").us());
                for f in st.get("foreign").arr() {
                    model.insert((dest, f.s().to_string()), Some(artifact(f.s(), 999, st.get("size").us().max(8))));
                }
                let e = model.entry((dest, prog.clone())).or_insert(None);
                match st.get("write").s() {
                    "full" => *e = Some(full),
                    "partial" => *e = Some(full[..st.get("cut").us().min(full.len())].to_vec()),
                    "remove" | "dir" => *e = None,
                    _ => {}
                }
                success = st.get("end").s() == "exit 0";
                want = e.clone();
                if st.get("write").s() == "dir" {
                    want = None;
                }
            }
            n += 1;
            let g = if got[i] == J::Null { None } else { Some(got[i].bytes()) };
            match (&g, success, &want) {
                (Some(v), true, Some(w)) if v == w => ok += 1,
                (Some(_), true, Some(_)) => err = J::from(format!("wrong artifact: call {i} ({prog}): {}", first_diff(g.as_ref().unwrap(), want.as_ref().unwrap()))),
                (Some(v), true, None) => err = J::from(format!("artifact from nowhere: call {i} ({prog}): the tool left none but {} bytes were returned", v.len())),
                (Some(v), false, _) => err = J::from(format!("failed build accepted: call {i} ({prog}): {} bytes returned", v.len())),
                (None, true, Some(_)) if !spec.get("read_faults").b() => err = J::from(format!("good build refused: call {i} ({prog}): {}", crate::sys::panic_text())),
                (None, _, _) => failed += 1,
            }
            if err != J::Null {
                break;
            }
        }
        J::obj().with("err", err).with("cycles", 0).with("calls", n).with("ok", ok).with("failed", failed).with("feat", J::Arr(vec![J::from(crate::rng::mix(spec.get("plan").show().bytes().fold(0u64, |a, b| a.wrapping_mul(131) + b as u64)) >> 20)]))
    })
}

// ------------------------------------------------------------------ secrets
use crate::secrets::{entropy_judge, entropy_run};
