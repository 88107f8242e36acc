//! The encrypted machine without the loader: program, registers and RAM in; RAM out.
#![allow(dead_code)]
use fhevm::{instructions::{Instruction, InstructionsParser}, keys::{VMKeys, VMKeysPrepared}, parameters::CryptographicParameters, Interpreter};
use poulpy_core::layouts::{prepared::GLWESecretPrepared, GLWESecret, LWESecret};
use poulpy_cpu_avx::FFT64Avx as BE;
use poulpy_hal::{api::{ScratchOwnedAlloc, ScratchOwnedBorrow}, layouts::ScratchOwned, source::Source};
use poulpy_schemes::bin_fhe::blind_rotation::CGGI;

pub struct Machine {
    pub params: CryptographicParameters<BE>,
    pub sk: GLWESecretPrepared<Vec<u8>, BE>,
    key: VMKeysPrepared<Vec<u8>, CGGI, BE>,
    pub vm: Interpreter<BE>,
    pub scratch: ScratchOwned<BE>,
    ram_words: usize,
}
impl Machine {
    pub fn new(text: &[u32], regs: &[u32; 32], ram: &[u32], max_threads: usize) -> Machine {
        let params = CryptographicParameters::<BE>::new();
        let mut xs = Source::new([1; 32]);
        let mut xa = Source::new([2; 32]);
        let mut xe = Source::new([3; 32]);
        let mut scratch: ScratchOwned<BE> = ScratchOwned::alloc((1 << 24) * max_threads.max(1));
        let mut sk_glwe: GLWESecret<Vec<u8>> = GLWESecret::alloc(params.n_glwe(), params.rank());
        sk_glwe.fill_ternary_prob(0.5, &mut xs);
        let mut sk_lwe: LWESecret<Vec<u8>> = LWESecret::alloc(params.n_lwe());
        sk_lwe.fill_binary_block(params.lwe_block_size(), &mut xs);
        let mut vm: Interpreter<BE> = Interpreter::new(&params, text.len(), ram.len());
        let mut sk: GLWESecretPrepared<Vec<u8>, BE> = GLWESecretPrepared::alloc(params.module(), params.rank());
        sk.prepare(params.module(), &sk_glwe);
        let mut parser = InstructionsParser::new();
        text.iter().for_each(|w| parser.add(Instruction::new(*w)));
        vm.instructions_encrypt_sk(params.module(), &parser, &sk, &mut xa, &mut xe, scratch.borrow());
        let k: VMKeys<Vec<u8>, CGGI> = VMKeys::encrypt_sk(&params, &sk_lwe, &sk_glwe, &mut xa, &mut xe);
        let mut key: VMKeysPrepared<Vec<u8>, CGGI, BE> = VMKeysPrepared::alloc(&params);
        key.prepare(params.module(), &k, scratch.borrow());
        vm.ram_encrypt_sk(params.module(), ram, &sk, &mut xa, &mut xe, scratch.borrow());
        vm.init_registers(params.module(), regs, &sk, &mut xa, &mut xe, scratch.borrow());
        Machine { params, sk, key, vm, scratch, ram_words: ram.len() }
    }
    pub fn cycle(&mut self, threads: usize) {
        self.vm.set_threads(threads);
        self.vm.cycle(self.params.module(), &self.key, self.scratch.borrow());
    }
    pub fn ram(&mut self) -> Vec<u32> {
        let mut out = vec![0u32; self.ram_words];
        self.vm.ram_decrypt(self.params.module(), &mut out, &self.sk, self.scratch.borrow());
        out
    }
}
