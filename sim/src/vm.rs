//! The encrypted machine driven directly, with explicit randomness.
use crate::gen::Prog;
use crate::json::J;
use crate::rng::mix;
use crate::rv::*;
use crate::sys::{pinned, quiet};
use fhevm::{
    instructions::{Instruction, InstructionsParser},
    keys::{VMKeys, VMKeysPrepared},
    parameters::CryptographicParameters,
    sim::Dimensions,
    Interpreter,
};
use poulpy_core::layouts::{prepared::GLWESecretPrepared, GLWESecret, LWESecret};
use poulpy_cpu_avx::FFT64Avx as BE;
use poulpy_hal::{
    api::{ScratchOwnedAlloc, ScratchOwnedBorrow},
    layouts::ScratchOwned,
    source::Source,
};
use poulpy_schemes::bin_fhe::blind_rotation::CGGI;

pub fn seed32(seed: u64, tag: u64) -> [u8; 32] {
    let mut out = [0u8; 32];
    for i in 0..4u64 {
        out[i as usize * 8..][..8].copy_from_slice(&mix(mix(seed ^ 0x51ed_270b).wrapping_add(mix(tag * 4 + i + 1))).to_le_bytes());
    }
    out
}

pub fn set_dims(j: &J) {
    let a = j.arr();
    fhevm::sim::set_dimensions(if a.len() == 3 {
        Some(Dimensions { n_glwe: a[0].i() as u32, n_lwe: a[1].i() as u32, rank: a[2].i() as u32 })
    } else {
        None
    });
}

fn program(params: &CryptographicParameters<BE>, skp: &GLWESecretPrepared<Vec<u8>, BE>, p: &Prog, debug: bool, xa: &mut Source, xe: &mut Source, scratch: &mut ScratchOwned<BE>) -> Interpreter<BE> {
    let ram_words = p.ram.len() / 4;
    let mut it: Interpreter<BE> = if debug { Interpreter::new_with_debug(params, p.rom.len(), ram_words) } else { Interpreter::new(params, p.rom.len(), ram_words) };
    let mut parser = InstructionsParser::new();
    for w in &p.rom {
        parser.add(Instruction::new(*w));
    }
    it.instructions_encrypt_sk(params.module(), &parser, skp, xa, xe, scratch.borrow());
    it
}

pub struct Vm {
    pub params: CryptographicParameters<BE>,
    pub skp: GLWESecretPrepared<Vec<u8>, BE>,
    pub keys: VMKeysPrepared<Vec<u8>, CGGI, BE>,
    pub it: Interpreter<BE>,
    scratch: ScratchOwned<BE>,
    max_threads: usize,
    debug: bool,
    ram_words: usize,
}

impl Vm {
    pub fn new(p: &Prog, keyseed: u64, max_threads: usize, debug: bool) -> Vm {
        let params = CryptographicParameters::<BE>::new();
        let (mut xs, mut xa, mut xe) = (Source::new(seed32(keyseed, 1)), Source::new(seed32(keyseed, 2)), Source::new(seed32(keyseed, 3)));
        let mut scratch: ScratchOwned<BE> = ScratchOwned::alloc((1 << 24) * max_threads);
        let mut sk: GLWESecret<Vec<u8>> = GLWESecret::alloc(params.n_glwe(), params.rank());
        sk.fill_ternary_prob(0.5, &mut xs);
        let mut skl: LWESecret<Vec<u8>> = LWESecret::alloc(params.n_lwe());
        skl.fill_binary_block(params.lwe_block_size(), &mut xs);
        let mut skp: GLWESecretPrepared<Vec<u8>, BE> = GLWESecretPrepared::alloc(params.module(), params.rank());
        skp.prepare(params.module(), &sk);
        let it = program(&params, &skp, p, debug, &mut xa, &mut xe, &mut scratch);
        let key: VMKeys<Vec<u8>, CGGI> = VMKeys::encrypt_sk(&params, &skl, &sk, &mut xa, &mut xe);
        let mut keys: VMKeysPrepared<Vec<u8>, CGGI, BE> = VMKeysPrepared::alloc(&params);
        keys.prepare(params.module(), &key, scratch.borrow());
        let mut vm = Vm { params, skp, keys, it, scratch, max_threads, debug, ram_words: p.ram.len() / 4 };
        vm.data(p, &mut xa, &mut xe);
        vm
    }
    /// Registers and RAM of `p`.
    fn data(&mut self, p: &Prog, xa: &mut Source, xe: &mut Source) {
        if p.regs.iter().any(|x| *x != 0) {
            self.it.init_registers(self.params.module(), &p.regs, &self.skp, xa, xe, self.scratch.borrow());
        }
        let words: Vec<u32> = p.ram.chunks(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect();
        self.it.ram_encrypt_sk(self.params.module(), &words, &self.skp, xa, xe, self.scratch.borrow());
        self.ram_words = words.len();
    }
    /// A new machine for another program under the same keys.
    pub fn load(&mut self, p: &Prog, seed: u64) {
        let (mut xa, mut xe) = (Source::new(seed32(seed, 2)), Source::new(seed32(seed, 3)));
        self.it = program(&self.params, &self.skp, p, self.debug, &mut xa, &mut xe, &mut self.scratch);
        self.data(p, &mut xa, &mut xe);
    }
    pub fn cycle(&mut self, threads: usize) {
        assert!(threads <= self.max_threads);
        if self.it.threads() != threads {
            self.it.set_threads(threads);
        }
        if self.debug {
            self.it.cycle_debug(self.params.module(), &self.keys, &self.skp, self.scratch.borrow());
        } else {
            self.it.cycle(self.params.module(), &self.keys, self.scratch.borrow());
        }
    }
    /// Replaces the scratch memory by `bytes` bytes.
    pub fn starve(&mut self, bytes: usize) {
        self.scratch = ScratchOwned::alloc(bytes);
    }
    pub fn pc(&mut self) -> u32 {
        self.it.sim_pc(self.params.module(), &self.skp, self.scratch.borrow())
    }
    pub fn regs(&mut self) -> Vec<u32> {
        self.it.sim_registers(self.params.module(), &self.skp, self.scratch.borrow())
    }
    pub fn ram(&mut self) -> Vec<u32> {
        let mut d = vec![0u32; self.ram_words];
        self.it.ram_decrypt(self.params.module(), &mut d, &self.skp, self.scratch.borrow());
        d
    }
    pub fn noise(&mut self, regs: &[u32], ram: &[u32]) -> (Vec<f64>, Vec<f64>) {
        self.it.sim_noise(self.params.module(), regs, ram, &self.skp, self.scratch.borrow())
    }
    /// Noise of each register and RAM word.
    pub fn word_noise(&mut self, regs: &[u32], ram: &[u32]) -> (Vec<f64>, Vec<f64>) {
        self.it.sim_word_noise(self.params.module(), regs, ram, &self.skp, self.scratch.borrow())
    }
    pub fn hash(&self) -> u64 {
        hash_ct(&self.it.sim_ciphertext())
    }
    /// Difference between the decrypted machine state and the reference, if any.
    pub fn diff(&mut self, m: &Ref) -> Option<String> {
        let pc = self.pc();
        let regs = self.regs();
        let ram = self.ram();
        diff_state(pc, &regs, &ram, m)
    }
}

pub fn hash_ct(v: &[i64]) -> u64 {
    let mut h = 0x1234_5678u64;
    for x in v {
        h = (h.rotate_left(7) ^ *x as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15);
    }
    mix(h) >> 8
}

pub fn diff_state(pc: u32, regs: &[u32], ram: &[u32], m: &Ref) -> Option<String> {
    let mut out = Vec::new();
    if pc != m.pc {
        out.push(format!("pc={pc:#x} expected {:#x}", m.pc));
    }
    for k in 0..32 {
        if regs[k] != m.x[k] {
            out.push(format!("x{k}={:#x} expected {:#x}", regs[k], m.x[k]));
        }
    }
    for (i, (a, b)) in ram.iter().zip(m.words()).enumerate() {
        if *a != b {
            out.push(format!("ram[{:#x}]={a:#x} expected {b:#x}", BASE as usize + 4 * i));
        }
    }
    if out.is_empty() {
        return None;
    }
    let n = out.len();
    out.truncate(4);
    Some(format!("{}{}", out.join(", "), if n > 4 { format!(" (+{} more)", n - 4) } else { String::new() }))
}

/// A compact classification of one executed instruction, used as the coverage measure.
pub fn feature(i: &Ins, m: &Ref) -> u64 {
    let (a, b) = (m.x[i.rs1 as usize], m.x[i.rs2 as usize]);
    let cls = |v: u32| -> u64 {
        match v {
            0 => 0,
            0xffff_ffff => 1,
            0x8000_0000 => 2,
            0x7fff_ffff => 3,
            v if v >> 31 == 1 => 4 + (v.leading_ones() as u64 / 8),
            v => 8 + (v.leading_zeros() as u64 / 8),
        }
    };
    let rel = if a == b { 0 } else { 1 + ((a ^ b).leading_zeros() as u64) };
    let uses2 = matches!(i.op, Op::LUI | Op::AUIPC | Op::JAL).then_some(0u64).unwrap_or(if i.op.is_branch() || i.op.is_store() || ALU_R.contains(&i.op) || M.contains(&i.op) { 2 } else { 1 });
    let mut h = i.op as u64;
    h = h * 32 + (i.rd == 0) as u64 * 2 + (i.imm < 0) as u64;
    if uses2 >= 1 {
        h = h * 16 + cls(a);
    }
    if uses2 == 2 {
        h = h * 16 + cls(b);
        h = h * 40 + rel;
    }
    if i.op.is_load() || i.op.is_store() {
        h = h * 4 + (a.wrapping_add(i.imm as u32) & 3) as u64;
    }
    mix(h + 1) >> 16
}

/// Runs `p` on the encrypted machine, comparing every cycle with the reference. Result:
/// {err, cycles, hashes[], feat[], noise[]}
pub struct RunOpts {
    pub threads: Vec<usize>,
    pub debug: bool,
    pub verbose: bool,
    pub hashes: bool,
    pub noise: bool,
    /// compare with the reference after these cycles only (1 = every cycle)
    pub every: usize,
}
pub fn run_prog(p: &Prog, keyseed: u64, o: &RunOpts) -> J {
    let maxt = o.threads.iter().copied().max().unwrap_or(1);
    let mut vm = pinned(keyseed, || Vm::new(p, keyseed, maxt, o.debug));
    vm.it.set_verbose_timings(o.verbose);
    let mut m = p.machine();
    let mut feat = Vec::new();
    let mut hashes = Vec::new();
    let mut noise = Vec::new();
    let mut err = J::Null;
    if o.hashes {
        hashes.push(J::from(quiet(|| vm.hash())));
    }
    if let Some(d) = quiet(|| vm.diff(&m)) {
        err = J::from(format!("initial state: {d}"));
    }
    let mut n = 0;
    while err == J::Null && n < p.cycles {
        let pc = m.pc;
        let before = m.clone();
        let i = match m.step() {
            Ok(i) => i,
            Err(_) => break,
        };
        quiet(|| feat.push(J::from(feature(&i, &before))));
        vm.cycle(o.threads[n % o.threads.len()]);
        n += 1;
        quiet(|| {
            if o.hashes {
                hashes.push(J::from(vm.hash()));
            }
            if n % o.every.max(1) == 0 || n == p.cycles {
                if let Some(d) = vm.diff(&m) {
                    err = J::from(format!(
                        "wrong state after cycle {n}: {:?} rd=x{} rs1=x{}({:#x}) rs2=x{}({:#x}) imm={} at pc={pc:#x}: {d}",
                        i.op, i.rd, i.rs1, before.x[i.rs1 as usize], i.rs2, before.x[i.rs2 as usize], i.imm
                    ));
                }
            }
            if o.noise {
                let (a, b) = vm.noise(&m.x, &m.words());
                let mx = |v: &[f64]| v.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
                // the cells written in this cycle: rd, and the RAM word at rs1+imm (rewritten also by
                // instructions that do not store)
                let words = m.words();
                let (wr, wm) = vm.word_noise(&m.x, &words);
                let rd = if i.rd != 0 && !i.op.is_store() && !i.op.is_branch() { wr[i.rd as usize].log2() } else { -99.0 };
                let at = (before.x[i.rs1 as usize].wrapping_add(i.imm as u32).wrapping_sub(1 << 18) >> 2) as usize & (words.len().next_power_of_two() - 1);
                let touched = if i.op.is_load() || i.op.is_store() { wm[at].log2() } else { -99.0 };
                noise.push(J::Arr(vec![J::from(mx(&a)), J::from(mx(&b)), J::from(rd.max(-99.0)), J::from(touched.max(-99.0))]));
            }
        });
    }
    J::obj().with("err", err).with("cycles", n).with("hashes", J::Arr(hashes)).with("feat", J::Arr(feat)).with("noise", J::Arr(noise))
}

/// Runs each of the short programs on a machine of its own; all of them share the keys.
pub fn run_burst(ps: &[Prog], keyseed: u64, threads: &[usize]) -> J {
    let maxt = threads.iter().copied().max().unwrap_or(1);
    let mut vm = pinned(keyseed, || Vm::new(&ps[0], keyseed, maxt, false));
    let mut feat = Vec::new();
    let mut err = J::Null;
    let mut cycles = 0;
    'all: for (k, p) in ps.iter().enumerate() {
        if k > 0 {
            vm.load(p, keyseed + k as u64);
        }
        let mut m = p.machine();
        for n in 0..p.cycles {
            let pc = m.pc;
            let before = m.clone();
            let i = match m.step() {
                Ok(i) => i,
                Err(_) => break,
            };
            quiet(|| feat.push(J::from(feature(&i, &before))));
            vm.cycle(threads[k % threads.len()]);
            cycles += 1;
            if let Some(d) = quiet(|| vm.diff(&m)) {
                err = J::from(format!(
                    "wrong state after cycle {} of program {k}: {:?} rd=x{} rs1=x{}({:#x}) rs2=x{}({:#x}) imm={} at pc={pc:#x}: {d}",
                    n + 1, i.op, i.rd, i.rs1, before.x[i.rs1 as usize], i.rs2, before.x[i.rs2 as usize], i.imm
                ));
                break 'all;
            }
        }
    }
    J::obj().with("err", err).with("cycles", cycles).with("feat", J::Arr(feat))
}
