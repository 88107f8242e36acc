//! Real guests: built from Rust by the project's own build driver, runtime and linker script, and run to their end.
use crate::elf;
use crate::json::J;
use crate::rng::Rng;
use crate::rv::*;
use crate::scen;
use crate::sys::quiet;
use compiler::{CompileOpts, Phantom};

#[path = "../guest/work/src/work.rs"]
mod work;

pub const GUESTS: [&str; 7] = ["heap", "work", "template", "gen1", "string-match", "uniswap", "otc"];
const HERE: &str = env!("CARGO_MANIFEST_DIR");
/// the first two are ours, the others examples of the repository
const OWN: usize = 2;
const OPS: usize = 15;
/// what the runtime keeps free between heap and stack
const GAP: u32 = 0x100;

pub fn path(name: &str) -> String {
    format!("{HERE}/target/guests/{name}.elf")
}

/// `phsim guests`: builds them all. Panics as CompileOpts does when a build fails.
pub fn build() {
    std::env::set_current_dir(format!("{HERE}/guest")).unwrap();
    std::env::set_var("CARGO", format!("{HERE}/guest/cargo.sh"));
    std::fs::create_dir_all(format!("{HERE}/target/guests")).unwrap();
    for (i, g) in GUESTS.iter().enumerate() {
        let _ = std::fs::remove_file(path(g));
        match std::panic::catch_unwind(|| CompileOpts::new(g).build("phsim-guests")) {
            Ok(b) => std::fs::write(path(g), b).unwrap(),
            // the repository's examples may change in ways the packages here do not follow (dependencies, layout)
            Err(_) if i >= OWN => {}
            Err(e) => std::panic::resume_unwind(e),
        }
    }
    let _ = std::fs::remove_file("/tmp/vm-experiments/phsim-guests");
    let _ = std::fs::remove_dir("/tmp/vm-experiments");
}

/// Builds the guests in a process of its own; the error is the end of its output.
pub fn build_all() -> Result<(), String> {
    let o = std::process::Command::new(std::env::current_exe().unwrap()).arg("guests").output().map_err(|e| e.to_string())?;
    if o.status.success() {
        return Ok(());
    }
    let e = String::from_utf8_lossy(&o.stderr).to_string();
    let line = e.lines().find(|l| l.starts_with("error")).unwrap_or("the build of a guest failed").to_string();
    eprintln!("{e}");
    Err(line)
}

/// Input tapes.
pub fn gen_input(r: &mut Rng, g: &str) -> Vec<u8> {
    let mut v: Vec<u8> = Vec::new();
    let word = |v: &mut Vec<u8>, x: u32| v.extend_from_slice(&x.to_le_bytes());
    match g {
        "heap" => {
            v = vec![0; 64];
            let n = 1 + r.us(OPS);
            // small blocks, ones that fill the memory sooner or later, or memory almost full from the start
            let mode = r.below(3);
            v[1] = n as u8;
            for k in 0..n {
                let kind = r.pick(&[0u8, 0, 0, 0, 0, 0, 1, 1, 1, 2, 2, 3, 3, 3, 3, 4, 4, 5]);
                let s = match r.below(4) {
                    0 => r.below(5),
                    1 => (1u64 << r.below(8)) + r.below(3) - 1,
                    _ => r.below(if mode > 0 { 256 } else { 40 }),
                };
                let s = s.min(255) as u8;
                let pages = if (mode == 1 && r.chance(1, 2)) || (mode == 2 && r.chance(1, 6)) { r.below(8) as u8 } else { 0 };
                let al = if r.chance(1, 16) { r.below(12) as u8 } else { r.pick(&[0u8, 0, 1, 2, 2, 3, 4, 5, 6, 7]) };
                let op = match kind {
                    _ if mode == 2 && k < 2 => [0, r.below(256) as u8, if k == 0 { 7 } else { 2 + r.below(3) as u8 }, al],
                    0 | 1 => [kind, s, pages, al],
                    // more than there is, up to half of the address space
                    5 => [kind, r.pick(&[1u8, 255, 128, 16, 64]), r.pick(&[4u8, 8, 10, 14, 15, 15]), al],
                    3 => [kind, if r.chance(1, 2) { k.max(1) as u8 - 1 } else { r.us(k.max(1)) as u8 }, s, pages],
                    _ => [kind, r.us(k.max(1)) as u8, s, al],
                };
                v[4 + 4 * k..8 + 4 * k].copy_from_slice(&op);
            }
        }
        "work" => {
            v.push(r.below(work::KINDS as u64) as u8);
            for _ in 0..8 {
                let x = if r.chance(1, 3) { r.word() } else { r.u32() };
                word(&mut v, x);
            }
        }
        "template" => word(&mut v, r.word()),
        "gen1" => {
            word(&mut v, r.word());
            word(&mut v, r.u32() << 8 | r.below(2) as u32);
        }
        "string-match" => {
            let mut s = b"mississippi\0\0\0\0\0\0\0\0\0".to_vec();
            match r.below(4) {
                0 => {}
                1 => s[r.us(20)] ^= 1 << r.below(8),
                2 => s[r.us(11)] = 0,
                _ => s.iter_mut().for_each(|c| *c = 97 + r.below(26) as u8),
            }
            v = s;
        }
        "uniswap" => {
            let big = r.chance(1, 4);
            let x = |r: &mut Rng| if big { r.word() } else { r.below(60000) as u32 };
            for _ in 0..3 {
                word(&mut v, x(r));
            }
            word(&mut v, r.u32() << 8 | r.below(2) as u32);
            for _ in 0..2 {
                word(&mut v, x(r));
            }
        }
        _ => {
            let f = |r: &mut Rng| match r.below(3) {
                0 => r.pick(&[1.0f32, 0.01, 0.05, 5.0, 10.0, 100.0, 1000.0, 0.7]),
                1 => r.below(100000) as f32 / 64.0 + 0.015625,
                _ => (1 + r.below(1 << 24)) as f32 * 2f32.powi(r.range(-30, 10) as i32),
            };
            for _ in 0..3 {
                word(&mut v, f(r).to_bits());
            }
            word(&mut v, r.below(3) as u32);
            word(&mut v, f(r).to_bits());
        }
    }
    v
}

fn w(b: &[u8], i: usize) -> u32 {
    u32::from_le_bytes([b[4 * i], b[4 * i + 1], b[4 * i + 2], b[4 * i + 3]])
}

/// What the source of the guest says it should output; `None`: it stops in its panic handler, its tape untouched.
fn expected(g: &str, x: &[u8]) -> Option<Vec<u8>> {
    Some(match g {
        "work" => {
            let mut a = [0u8; 32];
            a.copy_from_slice(&x[1..]);
            let mut o = vec![2u8];
            o.extend_from_slice(&work::run(x[0], &a));
            o
        }
        "template" => {
            let (mut e, mut p) = (0u32, 1u32);
            for c in [123u32, 456, 789, 12, 3456, 7, 89] {
                e = e.wrapping_add(c.wrapping_mul(p));
                p = p.wrapping_mul(w(x, 0));
            }
            e.to_le_bytes().to_vec()
        }
        "gen1" => {
            let a = w(x, 0);
            let f = |s: u32, v: u32| if x[4] == 1 { s.wrapping_add(a).wrapping_add(v) } else { s.wrapping_add(a.wrapping_mul(v)) };
            [10, 20, 30, 40].iter().fold(0, |s, v| f(s, *v)).to_le_bytes().to_vec()
        }
        "string-match" => vec![(x == b"mississippi\0\0\0\0\0\0\0\0\0") as u8],
        "uniswap" => {
            let (mut t0, mut t1, am, mut a0, mut a1) = (w(x, 0), w(x, 1), w(x, 2), w(x, 4), w(x, 5));
            let k = t0.wrapping_mul(t1);
            if x[12] == 1 {
                if a0 < am {
                    return None;
                }
                let out = t1.wrapping_sub(k.checked_div(t0.wrapping_add(am))?);
                t1 = t1.wrapping_sub(out);
                t0 = t0.wrapping_add(am);
                a0 = a0.wrapping_sub(am);
                a1 = a1.wrapping_add(out);
            } else {
                if a1 < am {
                    return None;
                }
                let out = t0.wrapping_sub(k.checked_div(t1.wrapping_add(am))?);
                t0 = t0.wrapping_sub(out);
                t1 = t1.wrapping_add(am);
                a1 = a1.wrapping_sub(am);
                a0 = a0.wrapping_add(out);
            }
            [t0, t1, a0, a1].iter().flat_map(|v| v.to_le_bytes()).collect()
        }
        "otc" => {
            let f = |i: usize| f32::from_bits(w(x, i));
            let (mid, vol, vf, cl, am) = (f(0), f(1), f(2), w(x, 3), f(4));
            let base = [100.0f32, 25.0, 10.0][cl as usize];
            let p = am / vol;
            let size = if p <= 0.01 {
                1.0f32
            } else if p <= 0.05 {
                1.5
            } else {
                2.5
            };
            let disc = if cl == 0 {
                1.0f32
            } else if am > 10.0 {
                0.7
            } else if am > 5.0 {
                0.9
            } else {
                1.0
            };
            let half = base * size * disc * vf / 10000.0 * mid / 2.0;
            [mid + half, mid - half].iter().flat_map(|v| v.to_bits().to_le_bytes()).collect()
        }
        _ => unreachable!(),
    })
}

fn pat(k: usize, j: usize) -> u8 {
    (k as u8).wrapping_mul(37).wrapping_add((j as u8).wrapping_mul(11)).wrapping_add(5)
}

/// The RAM the image occupies: constants, tapes, variables.
fn statics(f: &[u8]) -> Vec<(u32, u32)> {
    let h = |o: usize| u16::from_le_bytes([f[o], f[o + 1]]) as usize;
    let g = |o: usize| u32::from_le_bytes([f[o], f[o + 1], f[o + 2], f[o + 3]]);
    let off = g(28) as usize;
    (0..h(44))
        .map(|k| off + k * h(42))
        .filter(|o| g(*o) == 1 && g(o + 8) >= BASE && g(o + 20) > 0)
        .map(|o| (g(o + 8), g(o + 8) + g(o + 20)))
        .collect()
}

/// The history of allocations the guest reports, against what an allocator owes its user.
fn heap_judge(f: &[u8], x: &[u8], t: &[u8], sps: &[u32], m: &Ref) -> Result<&'static str, String> {
    let n = (x[1] as usize).min(OPS);
    let st = statics(f);
    let done = t[1] as usize;
    if t[2] != 0 {
        return Err(format!("wrong memory: the guest found damage, kind {} (1 zeroed block not zero, 2-5 blocks or stack changed, 6 initial data, 7 data changed)", t[2]));
    }
    if t[3] != 1 {
        return Err(format!("wrong entry: main ran {} times", t[3]));
    }
    if (t[0] == 2 && done != n) || (t[0] != 2 && t[0] != 0xee) || done > n || sps.len() != done {
        return Err(format!("wrong end: status {:#x} after {done} of {n} operations", t[0]));
    }
    let mut live: Vec<(u32, u32, u32)> = vec![(0, 0, 0); OPS];
    let mut high = st.iter().map(|s| s.1).max().unwrap_or(BASE);
    let op = |k: usize| &x[4 + 4 * k..8 + 4 * k];
    for k in 0..n.min(done + 1) {
        let o = op(k);
        let i = o[1] as usize % OPS;
        let (slot, size, al) = match o[0] {
            0 | 1 => (k, 1 + o[1] as u32 + 256 * (o[2] as u32 & 7), 1u32 << (o[3] % 12)),
            5 if o[2] == 15 => (k, 0x7fff_0000 + o[1] as u32, 1u32 << (o[3] % 12)),
            5 => (k, (o[1] as u32 | 1) << (8 + o[2] % 16), 1u32 << (o[3] % 12)),
            3 if live[i].0 != 0 => (i, 1 + o[2] as u32 + 256 * (o[3] as u32 & 7), live[i].2),
            _ => {
                if k == done {
                    return Err(format!("wrong end: the guest stopped in operation {k}, which needs no memory"));
                }
                if o[0] == 2 {
                    live[i] = (0, 0, 0);
                }
                continue;
            }
        };
        if k == done {
            // it stopped for want of memory: there must have been little left
            let sp = sps.iter().copied().min().unwrap_or(BASE + 4096 - 512);
            let need = (high as u64).next_multiple_of(al as u64) + size as u64 + GAP as u64 + 512;
            if need <= sp as u64 {
                return Err(format!("wrong refusal: operation {k} asks for {size} bytes, heap in use up to {high:#x}, stack at {sp:#x}"));
            }
            break;
        }
        let p = w(t, 1 + k);
        if p % al != 0 {
            return Err(format!("wrong block: operation {k} got {p:#x}, not aligned to {al}"));
        }
        let e = p.wrapping_add(size);
        if p < BASE || e > BASE + 4096 || e <= p {
            return Err(format!("wrong block: operation {k} got {p:#x}..{e:#x}, outside RAM"));
        }
        if e + GAP > sps[k] {
            return Err(format!("wrong block: operation {k} got {p:#x}..{e:#x}, too close to the stack (at {:#x})", sps[k]));
        }
        if let Some(s) = st.iter().find(|s| p < s.1 && s.0 < e) {
            return Err(format!("wrong block: operation {k} got {p:#x}..{e:#x}, overlaps static data {:#x}..{:#x}", s.0, s.1));
        }
        for (j, b) in live.iter().enumerate() {
            if b.0 != 0 && j != slot && p < b.0 + b.1 && b.0 < e {
                return Err(format!("wrong block: operation {k} got {p:#x}..{e:#x}, overlaps block {j} at {:#x}..{:#x}", b.0, b.0 + b.1));
            }
        }
        high = high.max(e);
        live[slot] = (p, size, al);
    }
    for (k, b) in live.iter().enumerate().filter(|_| t[0] == 2) {
        for j in 0..b.1 {
            if m.ram[(b.0 + j - BASE) as usize] != pat(k, j as usize) {
                return Err(format!("wrong memory: block {k} at {:#x} was changed", b.0 + j));
            }
        }
    }
    Ok(if t[0] == 2 { "heap-history-completed" } else { "guest-heap-exhausted" })
}

pub fn run(spec: &J, k: usize) -> J {
    let (g, f, x) = quiet(|| {
        let g = spec.get("guest").s().to_string();
        let f = std::fs::read(path(&g)).unwrap_or_default();
        (g, f, spec.get("input").bytes())
    });
    let own = GUESTS[..OWN].contains(&g.as_str());
    let skip = |why: &str| quiet(|| J::obj().with("cycles", 0).with("feat", J::Arr(vec![])).with("verdict", why));
    if f.is_empty() && !own {
        return skip("example-guest-not-buildable-here");
    }
    let bad = |e: String| J::obj().with("err", e);
    let d = match quiet(|| elf::read(&f)) {
        Ok(d) => d,
        Err(e) => return quiet(|| bad(format!("wrong image: guest {g} is not loadable: {e:?}"))),
    };
    if d.inp.1 as usize != x.len() {
        if !own {
            return skip("example-guest-has-other-tapes");
        }
        return quiet(|| bad(format!("wrong image: guest {g} has an input tape of {} bytes instead of {}", d.inp.1, x.len())));
    }
    // to its end, a jump to itself
    let r = quiet(|| {
        let mut m = scen::boot(&d, &x);
        let mut n = 0usize;
        let mut sps = Vec::new();
        loop {
            let i = match m.fetch() {
                Ok(i) => i,
                Err(e) => return Err(format!("wrong execution: guest {g} at pc={:#x} after {n} cycles: {e:?}", m.pc)),
            };
            if i.op == Op::JAL && i.rd == 0 && i.imm == 0 {
                break;
            }
            if g == "heap" && i.op.is_store() && m.x[i.rs1 as usize].wrapping_add(i.imm as u32) == d.out.0 + 1 {
                sps.push(m.x[2]);
            }
            if let Err(e) = m.exec(i) {
                return Err(format!("wrong execution: guest {g} at pc={:#x} ({:?}) after {n} cycles: {e:?}", m.pc, i.op));
            }
            n += 1;
            if n > 400_000 {
                return Err(format!("wrong execution: guest {g} does not end"));
            }
        }
        let t = scen::tape(&d, &m);
        let mut verdict = "guest-completed";
        if g == "heap" {
            verdict = heap_judge(&f, &x, &t, &sps, &m)?;
        } else {
            let want = expected(&g, &x).unwrap_or_else(|| {
                verdict = "guest-stopped-itself";
                vec![0; t.len()]
            });
            let nan = |b: &[u8]| g == "otc" && b.len() == 8 && b.chunks(4).any(|c| f32::from_le_bytes([c[0], c[1], c[2], c[3]]).is_nan());
            if t != want && !(nan(&t) && nan(&want)) {
                return Err(format!("wrong result: guest {g}: {}", scen::first_diff(&t, &want)));
            }
        }
        Ok((n, t, verdict))
    });
    let (n, t, verdict) = match r {
        Ok(r) => r,
        Err(e) => return quiet(|| bad(e)),
    };
    // the plaintext machine, beyond the end
    let ph = Phantom::from_elf(quiet(|| f.clone()));
    let mut tv = ph.test_vm(n + spec.get("beyond").us());
    tv.read_input_tape(&x);
    tv.execute();
    let tp = tv.output_tape();
    if tp != t {
        return quiet(|| bad(format!("wrong output: plaintext machine, guest {g}: {}", scen::first_diff(&tp, &t))));
    }
    let mut j = quiet(|| J::obj().with("cycles", n).with("feat", J::Arr(vec![J::from(n as u64)])));
    // the encrypted machine, all of it or its beginning
    let enc = spec.get("enc").us().min(n + 2);
    if enc > 0 {
        let body = quiet(|| crate::run::phases(spec)[k].get("body").clone());
        quiet(|| scen::set_env(&body));
        let s = quiet(|| spec.clone().with("elf", J::hex(&f)).with("runs", J::Arr(vec![J::obj().with("input", J::hex(&x)).with("cycles", J::Arr(vec![J::from(enc)]))])));
        j = scen::phantom_exec(&s, &body, false, "");
        quiet(|| {
            if enc > n && !j.has("err") {
                j.set("encrypted_to_the_end", 1);
            }
        });
    }
    quiet(|| j.with("verdict", verdict))
}
