//! Secrets: machines created under simulated entropy, compared with and attacked through one another.
use crate::elf::Image;
use crate::json::J;
use crate::run::{phases, Out};
use crate::sys::{quiet, reachable, trace_start, trace_stop};
use compiler::interpreter::EncryptedVM;
use compiler::Phantom;
use fhevm::instructions::{Instruction, InstructionsParser};
use fhevm::parameters::CryptographicParameters;
use fhevm::Interpreter;
use poulpy_core::layouts::{prepared::GLWESecretPrepared, GLWESecret, GLWEToRef, LWESecret, GLWE};
use poulpy_cpu_avx::FFT64Avx as BE;
use poulpy_hal::{
    api::{ScratchOwnedAlloc, ScratchOwnedBorrow},
    layouts::{ScratchOwned, ZnxView},
    source::Source,
};
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};

struct Made {
    phase: usize,
    vm: EncryptedVM,
    ram: Vec<u32>,
    /// program ciphertexts, then program counter, registers and RAM
    rom_ct: Vec<i64>,
    ct: Vec<i64>,
    /// of every ciphertext of the program and of the RAM
    errors: Vec<Vec<i64>>,
    lwe: Vec<i64>,
    /// for each buffer of the evaluation keys, the digests of its 64-byte pieces
    keys: Vec<Vec<u64>>,
}
struct Store(Vec<Made>);
unsafe impl Sync for Store {}
unsafe impl Send for Store {}
static mut STORE: Store = Store(Vec::new());
#[allow(static_mut_refs)]
fn store() -> &'static mut Vec<Made> {
    unsafe { &mut STORE.0 }
}

fn parts(vm: &mut EncryptedVM) -> (&CryptographicParameters<BE>, &GLWESecretPrepared<Vec<u8>, BE>, &mut Interpreter<BE>) {
    let v = vm as *mut EncryptedVM;
    unsafe { ((*v).sim_params(), (*v).sim_sk(), (*v).sim_interpreter()) }
}
fn scratch() -> ScratchOwned<BE> {
    ScratchOwned::alloc(1 << 24)
}

pub fn entropy_run(spec: &J, k: usize) -> J {
    let (bytes, input, n) = quiet(|| {
        std::env::set_var("PHANTOM_THREADS", "1");
        (Image::from_json(spec.get("image")).bytes(), spec.get("input").bytes(), phases(spec)[k].get("body").get("machines").us())
    });
    let ph = Phantom::from_elf(bytes);
    for _ in 0..n {
        quiet(trace_start);
        let mut vm = ph.encrypted_vm(&input, 0);
        quiet(|| {
            let blocks = trace_stop();
            let kp = vm.sim_keys();
            let keys = reachable(&blocks, kp as *const _ as *const u8, std::mem::size_of_val(kp)).into_iter().map(pieces).filter(|p| !p.is_empty()).collect();
            let lwe = vm.sim_sk_lwe().raw().to_vec();
            let (params, sk, it) = parts(&mut vm);
            let mut s = scratch();
            let mut ram = vec![0u32; 1024];
            it.ram_decrypt(params.module(), &mut ram, sk, s.borrow());
            let ct = it.sim_ciphertext();
            let rom_ct = it.sim_program_ciphertext();
            let errors = it.sim_errors(params.module(), sk, s.borrow());
            store().push(Made { phase: k, vm, ram, rom_ct, ct, errors, lwe, keys });
        });
    }
    J::obj().with("cycles", 0)
}

/// Digests of the 64-byte pieces of a buffer of transformed polynomials; empty if it does not look like one.
fn pieces(b: &[u8]) -> Vec<u64> {
    let mut v = Vec::new();
    for c in b.chunks_exact(64) {
        let w: Vec<u64> = c.chunks_exact(8).map(|x| u64::from_le_bytes(x.try_into().unwrap())).collect();
        let ok = (0..8).all(|i| w[i] << 1 != 0 && w[i] >> 52 & 0x7ff != 0 && (0..i).all(|j| w[i] != w[j]));
        if ok {
            v.push(w.iter().fold(0x1234_5678u64, |a, x| (a ^ x).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(29)));
        }
    }
    if b.len() < 512 || v.len() * 128 < b.len() {
        v.clear();
    }
    v
}
/// Share of a buffer's pieces that occur anywhere in the other machine's keys.
fn overlap(a: &[u64], all: &HashSet<u64>) -> f64 {
    a.iter().filter(|x| all.contains(x)).count() as f64 / a.len().max(1) as f64
}
fn key_set(m: usize) -> HashSet<u64> {
    store()[m].keys.iter().flatten().copied().collect()
}

/// How many of the 1024 words of b's memory a's secret recovers.
fn recovered(a: usize, b: usize) -> usize {
    let st = store();
    let want = st[b].ram.clone();
    let (pa, pb) = unsafe {
        let p = st.as_mut_ptr();
        (&mut *p.add(a), &mut *p.add(b))
    };
    let (_, sk, _) = parts(&mut pa.vm);
    let (params, _, it) = parts(&mut pb.vm);
    let mut s = scratch();
    let mut got = vec![0u32; 1024];
    if catch_unwind(AssertUnwindSafe(|| it.ram_decrypt(params.module(), &mut got, sk, s.borrow()))).is_err() {
        return 0;
    }
    got.iter().zip(&want).filter(|(x, y)| x == y).count()
}

/// Share of equal non-zero coefficients at equal positions.
fn equal_share(a: &[i64], b: &[i64]) -> f64 {
    let mut n = 0u64;
    let mut e = 0u64;
    for (x, y) in a.iter().zip(b) {
        if *x != 0 || *y != 0 {
            n += 1;
            e += (x == y) as u64;
        }
    }
    if n == 0 {
        0.0
    } else {
        e as f64 / n as f64
    }
}

pub fn entropy_judge(spec: &J, outs: &[Out]) -> Result<J, String> {
    let mut refused = 0;
    for (k, o) in outs.iter().enumerate() {
        if let Out::Panic(m, _) = o {
            if phases(spec)[k].get("faults").arr().is_empty() {
                return Err(format!("panic: phase {k}: {m}"));
            }
            refused += 1;
        }
        if let Out::Done(_) = o {
            if phases(spec)[k].get("body").get("must_fail").b() {
                return Err(format!("created without entropy: phase {k} completed although no entropy could be read"));
            }
        }
    }
    let n = store().len();
    let mut pairs = 0;
    let deg = spec.get("dims").arr().first().map(|x| x.us()).unwrap_or(1024);
    for a in 0..n {
        alone(a, deg)?;
    }
    if spec.get("derive").b() {
        if n != outs.len() {
            return Ok(J::obj().with("cycles", 0).with("refused", refused).with("machines", n));
        }
        let tries = derive(spec, deg)?;
        return Ok(J::obj().with("cycles", 0).with("refused", refused).with("machines", n).with("pairs", n - 1).with("attacks", tries).with("feat", J::Arr(vec![])));
    }
    // enough distinct words that chance cannot recover them
    for a in 0..n {
        let own = recovered(a, a);
        if own != 1024 {
            return Err("harness: a machine cannot decrypt itself".into());
        }
        for b in 0..n {
            if a == b {
                continue;
            }
            // two phases configured with identical entropy are allowed to agree
            let same = {
                let (x, y) = (store()[a].phase, store()[b].phase);
                x != y && phases(spec)[x].get("sched").get("entropy") == phases(spec)[y].get("sched").get("entropy")
            };
            if same {
                continue;
            }
            pairs += 1;
            let r = recovered(a, b);
            if r > 200 {
                return Err(format!("foreign secret decrypts: the secret of machine {a} (phase {}) recovers {r} of 1024 words of machine {b} (phase {})", store()[a].phase, store()[b].phase));
            }
            if a < b {
                for (x, y, what) in [(&store()[a].ct, &store()[b].ct, "memory"), (&store()[a].rom_ct, &store()[b].rom_ct, "program")] {
                    let sh = equal_share(x, y);
                    if sh > 0.02 {
                        return Err(format!("related ciphertexts: {:.0} % of the {what} coefficients of machines {a} and {b} are equal", sh * 100.0));
                    }
                }
                let seen: HashSet<&Vec<i64>> = store()[a].errors.iter().collect();
                if store()[b].errors.iter().any(|e| seen.contains(e)) {
                    return Err(format!("repeated errors: machines {a} and {b} were encrypted with the same errors"));
                }
                let set = key_set(b);
                for k in &store()[a].keys {
                    let o = overlap(k, &set);
                    // all of it: a table, since a key depends on the secret
                    if o > 0.02 && o < 0.999 {
                        return Err(format!("related evaluation keys: {:.0} % of an evaluation key of machine {a} occurs in those of machine {b}", o * 100.0));
                    }
                }
                // with fewer blocks two honest secrets may be equal
                if spec.get("dims").arr()[1].us() >= 140 && store()[a].lwe == store()[b].lwe {
                    return Err(format!("repeated secret: machines {a} and {b} have the same LWE secret"));
                }
            }
        }
    }
    Ok(J::obj().with("cycles", 0).with("refused", refused).with("machines", n).with("pairs", pairs).with("attacks", 0).with("feat", J::Arr(vec![])))
}

/// What must hold of one machine by itself.
fn alone(a: usize, deg: usize) -> Result<(), String> {
    let m = &store()[a];
    let mut seen = std::collections::HashMap::new();
    for (i, c) in m.rom_ct.chunks_exact(deg).chain(m.ct.chunks_exact(deg)).enumerate() {
        if c.iter().filter(|x| **x != 0).count() < deg / 2 {
            continue;
        }
        if let Some(j) = seen.insert(c, i) {
            return Err(format!("related ciphertexts: polynomials {j} and {i} of machine {a} are equal"));
        }
    }
    let mut seen = HashSet::new();
    for e in &m.errors {
        if e.iter().all(|x| *x == 0) {
            return Err(format!("no errors: a ciphertext of machine {a} was encrypted without errors"));
        }
        if !seen.insert(e) {
            return Err(format!("repeated errors: two ciphertexts of machine {a} were encrypted with the same errors"));
        }
    }
    Ok(())
}

/// Share of the non-zero polynomials that are equal.
fn polys_equal(a: &[i64], b: &[i64], deg: usize) -> f64 {
    let (mut n, mut e) = (0, 0);
    for (x, y) in a.chunks_exact(deg).zip(b.chunks_exact(deg)) {
        if x.iter().any(|v| *v != 0) {
            n += 1;
            e += (x == y) as u32;
        }
    }
    e as f64 / n.max(1) as f64
}

/// Whether `w`, as the seed of a source, yields the masks of machine 0's program or of its RAM.
fn yields_masks(spec: &J, w: [u8; 32], deg: usize, tries: &mut usize) -> bool {
    let img = Image::from_json(spec.get("image"));
    let Ok(d) = crate::elf::read(&img.bytes()) else { return false };
    let rom: Vec<u32> = d.rom.chunks_exact(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect();
    let params = CryptographicParameters::<BE>::new();
    let mut sc = scratch();
    let mut sk: GLWESecret<Vec<u8>> = GLWESecret::alloc(params.n_glwe(), params.rank());
    let mut skl: LWESecret<Vec<u8>> = LWESecret::alloc(params.n_lwe());
    let mut skp: GLWESecretPrepared<Vec<u8>, BE> = GLWESecretPrepared::alloc(params.module(), params.rank());
    sk.fill_ternary_prob(0.5, &mut Source::new([7; 32]));
    skp.prepare(params.module(), &sk);
    let mut parser = InstructionsParser::new();
    for x in &rom {
        parser.add(Instruction::new(*x));
    }
    for before in 0..4 {
        for first in 0..2 {
            *tries += 1;
            let mut xa = Source::new(w);
            let mut xe = Source::new([9; 32]);
            // what may have been drawn from the source before the first mask
            if before & 1 != 0 {
                sk.fill_ternary_prob(0.5, &mut xa);
            }
            if before & 2 != 0 {
                skl.fill_binary_block(params.lwe_block_size(), &mut xa);
            }
            let mut it: Interpreter<BE> = Interpreter::new(&params, rom.len(), 1024);
            let hit = if first == 0 {
                it.instructions_encrypt_sk(params.module(), &parser, &skp, &mut xa, &mut xe, sc.borrow());
                polys_equal(&store()[0].rom_ct, &it.sim_program_ciphertext(), deg)
            } else {
                it.ram_encrypt_sk(params.module(), &store()[0].ram, &skp, &mut xa, &mut xe, sc.borrow());
                polys_equal(&store()[0].ct, &it.sim_ciphertext(), deg)
            };
            if hit > 0.3 {
                return true;
            }
        }
    }
    false
}

/// Seeds from which `w` follows without effort: one byte changed, all bytes changed alike or moved.
fn neighbours(w: [u8; 32]) -> Vec<[u8; 32]> {
    let mut v = Vec::new();
    for p in 0..32 {
        for x in 1..=255u8 {
            let mut y = w;
            y[p] ^= x;
            v.push(y);
        }
    }
    for x in 1..=255u8 {
        v.push(w.map(|b| b ^ x));
        v.push(w.map(|b| b.wrapping_add(x)));
    }
    for k in 1..8 {
        v.push(w.map(|b| b.rotate_left(k)));
    }
    v.push(w.map(|b| b.reverse_bits()));
    for k in 1..32 {
        let mut y = w;
        y.rotate_left(k);
        v.push(y);
    }
    let mut y = w;
    y.reverse();
    v.push(y);
    v
}

/// Whether a seed next to `w` yields masks of machine 0's program or memory.
fn nearly_yields_masks(w: [u8; 32], deg: usize, tries: &mut usize) -> bool {
    let params = CryptographicParameters::<BE>::new();
    let mut sc = scratch();
    let mut sk: GLWESecret<Vec<u8>> = GLWESecret::alloc(params.n_glwe(), params.rank());
    let mut skp: GLWESecretPrepared<Vec<u8>, BE> = GLWESecretPrepared::alloc(params.module(), params.rank());
    sk.fill_ternary_prob(0.5, &mut Source::new([7; 32]));
    skp.prepare(params.module(), &sk);
    let z = &store()[0];
    let seen: HashSet<&[i64]> = z.rom_ct.chunks_exact(deg).chain(z.ct.chunks_exact(deg)).filter(|c| c.iter().any(|v| *v != 0)).collect();
    let mut ct: GLWE<Vec<u8>> = GLWE::alloc_from_infos(&params.rom_infos());
    for y in neighbours(w) {
        *tries += 1;
        ct.encrypt_zero_sk(params.module(), &skp, &mut Source::new(y), &mut Source::new([9; 32]), sc.borrow());
        if ct.to_ref().data().raw().chunks_exact(deg).any(|c| seen.contains(c)) {
            return true;
        }
    }
    false
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Role {
    None,
    Mask,
    Error,
    Unclear,
}
fn role(share: f64) -> Role {
    if share > 0.9999 {
        Role::None
    } else if share < 0.02 {
        Role::Mask
    } else if share > 0.2 {
        Role::Error
    } else {
        Role::Unclear
    }
}

/// Machine 0 was created from entropy `a`. Each further machine shares with it either exactly one 32-byte
/// window of the entropy or all but one.
fn derive(spec: &J, deg: usize) -> Result<usize, String> {
    let st = unsafe { &*SHARED_STATS };
    let log = &st[0].ent[..st[0].n_ent as usize];
    let mut tries = 0;
    // buffers that are the same under another secret are tables, not key material
    if let Some(t) = (1..store().len()).find(|t| recovered(0, *t) <= 200) {
        let other = key_set(t);
        store()[0].keys.retain(|k| overlap(k, &other) < 0.999);
    } else {
        store()[0].keys.clear();
    }
    let mut err_mem = false;
    let mut err_keys = vec![false; store()[0].keys.len()];
    for m in 1..store().len() {
        let sch = phases(spec)[store()[m].phase].get("sched");
        let mask = sch.get("keep_mask").u();
        let z = &store()[0];
        let x = &store()[m];
        let secret = recovered(0, m) > 200;
        let lwe = z.lwe == x.lwe;
        let errors = x.errors.iter().zip(&z.errors).any(|(p, q)| p == q);
        let rom = polys_equal(&z.rom_ct, &x.rom_ct, deg);
        let ram = polys_equal(&z.ct, &x.ct, deg);
        if sch.get("keep_gran").u() == 8 {
            let j = mask.trailing_zeros() as usize;
            if log.len() >= 8 * j + 8 && (secret || lwe || errors) {
                let what = if secret { "the secret key" } else if lwe { "the LWE secret" } else { "the errors" };
                return Err(format!("guessable secret: eight bytes of entropy alone determine {what}"));
            }
            continue;
        }
        if mask.count_ones() == 1 {
            let j = mask.trailing_zeros() as usize;
            if log.len() < 32 * j + 32 {
                continue;
            }
            let w: [u8; 32] = log[32 * j..32 * j + 32].try_into().unwrap();
            if (rom > 0.3 || ram > 0.3) && (secret || lwe || errors) && (yields_masks(spec, w, deg, &mut tries) || nearly_yields_masks(w, deg, &mut tries)) {
                let what = if secret { "the secret key" } else if lwe { "the LWE secret" } else { "the errors" };
                return Err(format!("secret derivable: the seed of the public masks alone determines {what}"));
            }
        } else if secret && lwe {
            let mut roles = vec![("program", role(rom)), ("memory", role(ram))];
            let set = key_set(m);
            for (i, k) in z.keys.iter().enumerate() {
                let r = role(overlap(k, &set));
                err_keys[i] |= r == Role::Error;
                roles.push(("an evaluation key", r));
            }
            err_mem |= role(ram) == Role::Error;
            let p = roles.iter().find(|r| r.1 == Role::Mask);
            let q = roles.iter().find(|r| r.1 == Role::Error);
            if let (Some(p), Some(q)) = (p, q) {
                return Err(format!("secret derivable: one seed yields the public masks of {} and the errors of {}", p.0, q.0));
            }
        }
    }
    if err_mem && log.len() <= 96 && err_keys.iter().any(|e| !e) {
        return Err("fixed errors: no part of the entropy changes the errors of an evaluation key".into());
    }
    Ok(tries)
}

pub static mut SHARED_STATS: *const [crate::sys::SimStats; crate::run::MAX_PHASES] = std::ptr::null();
