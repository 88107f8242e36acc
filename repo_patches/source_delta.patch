From 971a5811c9dffa52ad288fc7742c7b15baff0e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:18 +0000
Subject: [PATCH 01/14] sim: cfg(phantom_sim) observation hooks and reduced
 dimensions for deterministic simulation (off by default)

---
 compiler/src/interpreter.rs |  16 ++++++
 compiler/src/lib.rs         |   2 +
 fhevm/src/lib.rs            |   4 ++
 fhevm/src/memory.rs         |  13 +++++
 fhevm/src/parameters.rs     |  15 ++++-
 fhevm/src/sim.rs            | 109 ++++++++++++++++++++++++++++++++++++
 6 files changed, 156 insertions(+), 3 deletions(-)
 create mode 100644 fhevm/src/sim.rs

diff --git a/compiler/src/interpreter.rs b/compiler/src/interpreter.rs
index 03dcc49..603fa89 100644
--- a/compiler/src/interpreter.rs
+++ b/compiler/src/interpreter.rs
@@ -166,6 +166,22 @@ impl EncryptedVM {
     }
 }
 
+/// Observation hooks of the deterministic simulator (see fhevm/src/sim.rs).
+#[cfg(phantom_sim)]
+impl EncryptedVM {
+    pub fn sim_params(&self) -> &CryptographicParameters<BackendImpl> {
+        &self.params
+    }
+
+    pub fn sim_sk(&self) -> &GLWESecretPrepared<Vec<u8>, BackendImpl> {
+        &self.sk_prepared
+    }
+
+    pub fn sim_interpreter(&mut self) -> &mut Interpreter<BackendImpl> {
+        &mut self.interpreter
+    }
+}
+
 /// Phantom VM: Encrypted Risc-v
 pub struct Phantom {
     boot_rom: BootMemory,
diff --git a/compiler/src/lib.rs b/compiler/src/lib.rs
index c95ace4..1b39c9a 100644
--- a/compiler/src/lib.rs
+++ b/compiler/src/lib.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)] // `phantom_sim`: see fhevm/src/sim.rs
+
 use std::{
     fs,
     io::{self, Write},
diff --git a/fhevm/src/lib.rs b/fhevm/src/lib.rs
index 50c83bd..3eb2746 100644
--- a/fhevm/src/lib.rs
+++ b/fhevm/src/lib.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)] // `phantom_sim`: see sim.rs
+
 pub(crate) mod codegen;
 pub(crate) mod debug;
 pub mod instructions;
@@ -11,6 +13,8 @@ pub mod prepare;
 pub(crate) mod ram_offset;
 pub(crate) mod ram_update;
 pub(crate) mod rd_update;
+#[cfg(phantom_sim)]
+pub mod sim;
 
 // Re-export the main functionality
 pub(crate) use instructions::*;
diff --git a/fhevm/src/memory.rs b/fhevm/src/memory.rs
index 981e7ca..be32de4 100644
--- a/fhevm/src/memory.rs
+++ b/fhevm/src/memory.rs
@@ -433,6 +433,19 @@ impl Memory {
     }
 }
 
+#[cfg(phantom_sim)]
+impl Memory {
+    /// Raw ciphertext coefficients, for the simulator's bit-exact comparisons.
+    pub(crate) fn sim_ciphertext(&self, out: &mut Vec<i64>) {
+        use poulpy_hal::layouts::ZnxView;
+        for bit in &self.bits {
+            for ct in &bit.data {
+                out.extend_from_slice(ct.data().raw());
+            }
+        }
+    }
+}
+
 struct BitArray {
     data: Vec<GLWE<Vec<u8>>>,
     retriever: GLWEBlindRetriever,
diff --git a/fhevm/src/parameters.rs b/fhevm/src/parameters.rs
index e506f61..4b6cc2e 100644
--- a/fhevm/src/parameters.rs
+++ b/fhevm/src/parameters.rs
@@ -93,9 +93,18 @@ where
     Module<B>: ModuleNew<B>,
 {
     pub fn new() -> Self {
+        #[cfg(phantom_sim)]
+        if let Some(dims) = crate::sim::reduced_dimensions() {
+            return Self::new_with_dimensions(dims.n_glwe, dims.n_lwe, dims.rank);
+        }
+
+        Self::new_with_dimensions(N_GLWE, N_LWE, RANK)
+    }
+
+    fn new_with_dimensions(n_glwe: u32, n_lwe: u32, rank: u32) -> Self {
         Self {
-            module: Module::<B>::new(N_GLWE as u64),
-            n_lwe: N_LWE as usize,
+            module: Module::<B>::new(n_glwe as u64),
+            n_lwe: n_lwe as usize,
             lwe_block_size: LWE_BLOCK_SIZE as usize,
             base2k_cbt_atk: BASE2K_CBT_ATK.into(),
             base2k_cbt_brk: BASE2K_CBT_BRK.into(),
@@ -103,7 +112,7 @@ where
             base2k_fhe_uint: BASE2K_FHE_UINT.into(),
             base2k_glwe_to_glwe_ksk: BASE2K_GLWE_TO_GLWE_KSK.into(),
             base2k_glwe_to_lwe_ksk: BASE2K_GLWE_TO_LWE_KSK.into(),
-            rank: RANK.into(),
+            rank: rank.into(),
             k_pt: K_GLWE_PT.into(),
             k_fhe_uint_prepared: K_FHE_UINT_PREPARED.into(),
             k_fhe_uint: K_FHE_UINT.into(),
diff --git a/fhevm/src/sim.rs b/fhevm/src/sim.rs
new file mode 100644
index 0000000..6fb7030
--- /dev/null
+++ b/fhevm/src/sim.rs
@@ -0,0 +1,109 @@
+//! Hooks for deterministic simulation. Compiled only with `--cfg phantom_sim`; nothing here is
+//! part of a normal build.
+//!
+//! Two things are exposed: reduced (insecure, fast) lattice dimensions for
+//! [crate::parameters::CryptographicParameters::new], and read-only access to the encrypted
+//! machine state.
+
+use std::sync::atomic::{AtomicU32, Ordering};
+
+use poulpy_core::{
+    layouts::{GLWEInfos, GLWESecretPreparedToRef, GLWEToRef},
+    GLWEDecrypt, GLWENoise, ScratchTakeCore,
+};
+use poulpy_hal::{
+    api::{ModuleLogN, ModuleN},
+    layouts::{Backend, Scratch, ZnxView},
+};
+
+use crate::Interpreter;
+
+#[derive(Clone, Copy, Debug)]
+pub struct Dimensions {
+    pub n_glwe: u32,
+    pub n_lwe: u32,
+    pub rank: u32,
+}
+
+static N_GLWE: AtomicU32 = AtomicU32::new(0);
+static N_LWE: AtomicU32 = AtomicU32::new(0);
+static RANK: AtomicU32 = AtomicU32::new(0);
+
+/// Selects the dimensions used by subsequently created parameters; `None` restores the
+/// production ones.
+pub fn set_dimensions(dims: Option<Dimensions>) {
+    let d = dims.unwrap_or(Dimensions {
+        n_glwe: 0,
+        n_lwe: 0,
+        rank: 0,
+    });
+    N_GLWE.store(d.n_glwe, Ordering::SeqCst);
+    N_LWE.store(d.n_lwe, Ordering::SeqCst);
+    RANK.store(d.rank, Ordering::SeqCst);
+}
+
+pub(crate) fn reduced_dimensions() -> Option<Dimensions> {
+    let n_glwe = N_GLWE.load(Ordering::SeqCst);
+    if n_glwe == 0 {
+        return None;
+    }
+    Some(Dimensions {
+        n_glwe,
+        n_lwe: N_LWE.load(Ordering::SeqCst),
+        rank: RANK.load(Ordering::SeqCst),
+    })
+}
+
+impl<BE: Backend> Interpreter<BE> {
+    /// Decrypted program counter.
+    pub fn sim_pc<M, S>(&self, module: &M, sk: &S, scratch: &mut Scratch<BE>) -> u32
+    where
+        M: ModuleLogN + GLWEDecrypt<BE>,
+        S: GLWESecretPreparedToRef<BE> + GLWEInfos,
+        Scratch<BE>: ScratchTakeCore<BE>,
+    {
+        self.pc_fhe_uint.decrypt(module, sk, scratch)
+    }
+
+    /// Decrypted register file.
+    pub fn sim_registers<M, S>(&self, module: &M, sk: &S, scratch: &mut Scratch<BE>) -> Vec<u32>
+    where
+        M: ModuleN + GLWEDecrypt<BE>,
+        S: GLWESecretPreparedToRef<BE> + GLWEInfos,
+        Scratch<BE>: ScratchTakeCore<BE>,
+    {
+        let mut data: Vec<u32> = vec![0u32; self.registers.size()];
+        self.registers.decrypt(module, &mut data, sk, scratch);
+        data
+    }
+
+    /// log2 of the largest noise of each bit plane of the register file and of the RAM, given
+    /// their plaintext contents.
+    pub fn sim_noise<M, S>(
+        &self,
+        module: &M,
+        registers: &[u32],
+        ram: &[u32],
+        sk: &S,
+        scratch: &mut Scratch<BE>,
+    ) -> (Vec<f64>, Vec<f64>)
+    where
+        M: ModuleN + GLWEDecrypt<BE> + GLWENoise<BE>,
+        S: GLWESecretPreparedToRef<BE> + GLWEInfos,
+        Scratch<BE>: ScratchTakeCore<BE>,
+    {
+        (
+            self.registers.noise(module, registers, sk, scratch),
+            self.ram.noise(module, ram, sk, scratch),
+        )
+    }
+
+    /// Raw ciphertext coefficients of the program counter, the register file and the RAM.
+    pub fn sim_ciphertext(&self) -> Vec<i64> {
+        let mut out: Vec<i64> = Vec::new();
+        out.extend_from_slice(self.pc_fhe_uint.to_ref().data().raw());
+        self.registers.sim_ciphertext(&mut out);
+        self.ram.sim_ciphertext(&mut out);
+        out
+    }
+}
-- 
2.43.0


From 60c02b0bf10e22f42db76d9340a0bd51c2979d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:31 +0000
Subject: [PATCH 02/14] fix: sign-extend LB and honour the byte offset in
 sub-word loads

The encrypted LB was zero-extended, and LB/LBU/LH/LHU always returned the
low byte/half-word of the addressed word. Select the addressed half-word
and byte before evaluating the loads, and mirror it in the debug machine.
---
 fhevm/src/debug.rs       |  5 +++++
 fhevm/src/interpreter.rs | 43 ++++++++++++++++++++++++++++++++++++++--
 fhevm/src/rd_update.rs   |  2 +-
 3 files changed, 47 insertions(+), 3 deletions(-)

diff --git a/fhevm/src/debug.rs b/fhevm/src/debug.rs
index a5f1f80..a6e3d1d 100644
--- a/fhevm/src/debug.rs
+++ b/fhevm/src/debug.rs
@@ -111,6 +111,11 @@ impl InterpreterDebug {
         let pc: u32 = self.pc;
 
         for op in ops {
+            let ram: u32 = match op {
+                RD_UPDATE::LB | RD_UPDATE::LBU => ram >> ((self.ram_addr & 0x3) << 3),
+                RD_UPDATE::LH | RD_UPDATE::LHU => ram >> ((self.ram_addr & 0x2) << 3),
+                _ => ram,
+            };
             rd_map.insert(op.id(), op.eval_plain(imm, rs1, rs2, pc, ram));
         }
 
diff --git a/fhevm/src/interpreter.rs b/fhevm/src/interpreter.rs
index 132ed8d..9bc5b8e 100644
--- a/fhevm/src/interpreter.rs
+++ b/fhevm/src/interpreter.rs
@@ -26,7 +26,7 @@ use poulpy_schemes::bin_fhe::{
         BDDKeyHelper, BDDKeyInfos, Cmux, ExecuteBDDCircuit, ExecuteBDDCircuit1WTo1W,
         ExecuteBDDCircuit2WTo1W, FheUint, FheUintPrepare, FheUintPrepared,
         FheUintPreparedEncryptSk, FheUintPreparedFactory, GGSWBlindRotation, GLWEBlinSelection,
-        GLWEBlindRetrieval, Identity,
+        GLWEBlindRetrieval, Identity, UnsignedInteger,
     },
     blind_rotation::BlindRotationAlgo,
 };
@@ -1133,15 +1133,28 @@ impl<BE: Backend> Interpreter<BE> {
             let pc: &FheUintPrepared<Vec<u8>, u32, BE> = &self.pc_fhe_uint_prepared;
             let ram_val: &FheUint<Vec<u8>, u32> = &self.ram_val_fhe_uint;
 
+            let ram_addr: &FheUintPrepared<Vec<u8>, u32, BE> = &self.ram_addr_fhe_uint_prepared;
+
             let mut rd_map: HashMap<u32, FheUint<Vec<u8>, u32>> = HashMap::new();
 
             this_cycle_measurement.time_evaluate_rd_ops = measure_duration(|| {
+                // Moves the addressed half-word / byte of the loaded word to its least significant end
+                let mut ram_half: FheUint<Vec<u8>, u32> = FheUint::alloc_from_infos(ram_val);
+                select_sub_word(module, &mut ram_half, ram_val, ram_addr, 1, scratch);
+                let mut ram_byte: FheUint<Vec<u8>, u32> = FheUint::alloc_from_infos(ram_val);
+                select_sub_word(module, &mut ram_byte, &ram_half, ram_addr, 0, scratch);
+
                 // Evaluates arithmetic operations & store in map with respective op ID
                 for op in ops {
                     let mut tmp: FheUint<Vec<u8>, u32> =
                         FheUint::alloc_from_infos(&self.imm_val_fhe_uint);
+                    let ram: &FheUint<Vec<u8>, u32> = match op {
+                        RD_UPDATE::LB | RD_UPDATE::LBU => &ram_byte,
+                        RD_UPDATE::LH | RD_UPDATE::LHU => &ram_half,
+                        _ => ram_val,
+                    };
                     op.eval_enc(
-                        threads, module, &mut tmp, rs1, rs2, imm, pc, ram_val, keys, scratch,
+                        threads, module, &mut tmp, rs1, rs2, imm, pc, ram, keys, scratch,
                     );
                     rd_map.insert(op.id(), tmp);
                 }
@@ -1486,3 +1499,29 @@ Cycle Time: {:?}
         }
     }
 }
+
+/// Sets `res` to `word` shifted down by 2^`addr_bit` bytes if bit `addr_bit` of `addr` is set, else
+/// to `word`. Bytes shifted in from the top are unspecified.
+fn select_sub_word<M, BE: Backend>(
+    module: &M,
+    res: &mut FheUint<Vec<u8>, u32>,
+    word: &FheUint<Vec<u8>, u32>,
+    addr: &FheUintPrepared<Vec<u8>, u32, BE>,
+    addr_bit: usize,
+    scratch: &mut Scratch<BE>,
+) where
+    M: ModuleLogN + GLWEBlinSelection<u32, BE> + GLWERotate<BE> + GLWECopy,
+    Scratch<BE>: ScratchTakeCore<BE>,
+{
+    let log_gap: usize = module.log_n() - u32::LOG_BITS as usize;
+    let rot: i64 = (u32::bit_index(8 << addr_bit) << log_gap) as i64;
+
+    let mut low: FheUint<Vec<u8>, u32> = FheUint::alloc_from_infos(word);
+    let mut high: FheUint<Vec<u8>, u32> = FheUint::alloc_from_infos(word);
+    module.glwe_copy(&mut low, word);
+    module.glwe_rotate(-rot, &mut high, word);
+
+    let cts: HashMap<usize, &mut FheUint<Vec<u8>, u32>> =
+        HashMap::from([(0, &mut low), (1, &mut high)]);
+    module.glwe_blind_selection(res, cts, addr, addr_bit, 1, scratch);
+}
diff --git a/fhevm/src/rd_update.rs b/fhevm/src/rd_update.rs
index 4375ad6..1f29d49 100644
--- a/fhevm/src/rd_update.rs
+++ b/fhevm/src/rd_update.rs
@@ -136,7 +136,7 @@ impl<BE: Backend> Evaluate<u32, BE> for RD_UPDATE {
                 res.zero_byte(module, 1, keys, scratch);
                 res.zero_byte(module, 2, keys, scratch);
                 res.zero_byte(module, 3, keys, scratch);
-                //res.sext(module, 0, keys, scratch);
+                res.sext(module, 0, keys, scratch);
             }
             Self::LBU => {
                 module.glwe_copy(res, ram);
-- 
2.43.0


From a3b97a350014f1b5c153dd5b0c9de1959b9a3a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:31 +0000
Subject: [PATCH 03/14] fix: define division and remainder by zero and on
 overflow in the plaintext machine

DIV/DIVU/REM/REMU panicked on a zero divisor and on i32::MIN / -1 instead
of producing the results RISC-V specifies.
---
 compiler/src/interpreter/testvm.rs | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/compiler/src/interpreter/testvm.rs b/compiler/src/interpreter/testvm.rs
index dcd042c..2630bd0 100644
--- a/compiler/src/interpreter/testvm.rs
+++ b/compiler/src/interpreter/testvm.rs
@@ -1075,8 +1075,12 @@ impl TestVM {
                     self.register(rd)
                 );
 
-                *self.register_mut(rd) =
-                    ((self.register(rs1) as i32) / (self.register(rs2) as i32)) as u32;
+                // Division by 0 yields -1 and i32::MIN / -1 wraps
+                let (dividend, divisor) = (self.register(rs1) as i32, self.register(rs2) as i32);
+                *self.register_mut(rd) = match divisor {
+                    0 => u32::MAX,
+                    _ => dividend.wrapping_div(divisor) as u32,
+                };
 
                 self.pc += 4;
             }
@@ -1091,7 +1095,11 @@ impl TestVM {
                     self.register(rd)
                 );
 
-                *self.register_mut(rd) = self.register(rs1) / self.register(rs2);
+                // Division by 0 yields 2^32 - 1
+                *self.register_mut(rd) = self
+                    .register(rs1)
+                    .checked_div(self.register(rs2))
+                    .unwrap_or(u32::MAX);
 
                 self.pc += 4;
             }
@@ -1106,8 +1114,12 @@ impl TestVM {
                     self.register(rd)
                 );
 
-                *self.register_mut(rd) =
-                    (self.register(rs1) as i32 % self.register(rs2) as i32) as u32;
+                // Remainder by 0 yields the dividend and i32::MIN % -1 yields 0
+                let (dividend, divisor) = (self.register(rs1) as i32, self.register(rs2) as i32);
+                *self.register_mut(rd) = match divisor {
+                    0 => dividend as u32,
+                    _ => dividend.wrapping_rem(divisor) as u32,
+                };
 
                 self.pc += 4;
             }
@@ -1122,7 +1134,10 @@ impl TestVM {
                     self.register(rd)
                 );
 
-                *self.register_mut(rd) = self.register(rs1) % self.register(rs2);
+                // Remainder by 0 yields the dividend
+                let dividend = self.register(rs1);
+                *self.register_mut(rd) =
+                    dividend.checked_rem(self.register(rs2)).unwrap_or(dividend);
 
                 self.pc += 4;
             } // Inst::ECALL => {
-- 
2.43.0


From e7cfd673beb329b845016b9814028657d364e28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:31 +0000
Subject: [PATCH 04/14] fix: load the initialised part of segments that end in
 .bss

Segments whose file size is smaller than their memory size were skipped
entirely, dropping initialised data that shares a segment with .bss.
---
 compiler/src/interpreter.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/compiler/src/interpreter.rs b/compiler/src/interpreter.rs
index 603fa89..83d7308 100644
--- a/compiler/src/interpreter.rs
+++ b/compiler/src/interpreter.rs
@@ -238,12 +238,13 @@ impl Phantom {
                 //     ph.p_filesz == ph.p_memsz,
                 //     "Header contains uninitialised values (most probably .bss exists)"
                 // );
-                if ph.p_memsz > 0 && ph.p_filesz == ph.p_memsz {
+                // bytes past p_filesz (.bss) stay zero
+                if ph.p_filesz > 0 {
                     let vaddr = ph.p_vaddr as usize;
                     boot_ram_data
-                        [(vaddr - ram_offset)..(vaddr + (ph.p_memsz as usize) - ram_offset)]
+                        [(vaddr - ram_offset)..(vaddr + (ph.p_filesz as usize) - ram_offset)]
                         .copy_from_slice(
-                            &elf_bytes[ph.p_offset as usize..(ph.p_memsz + ph.p_offset) as usize],
+                            &elf_bytes[ph.p_offset as usize..(ph.p_filesz + ph.p_offset) as usize],
                         );
                 }
             });
-- 
2.43.0


From da50e0476ffde80a8cedb9d49e775febd4ae1c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:47 +0000
Subject: [PATCH 05/14] fix: seed the encrypted machine's randomness from the
 operating system

Secret keys, masks and errors were all drawn from sources seeded with the
constant [0; 32]: every machine used the same, publicly known secret key,
and the mask and error streams were identical to the secret's.
---
 compiler/src/interpreter.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/compiler/src/interpreter.rs b/compiler/src/interpreter.rs
index 83d7308..ae9620c 100644
--- a/compiler/src/interpreter.rs
+++ b/compiler/src/interpreter.rs
@@ -1,3 +1,5 @@
+use std::{fs::File, io::Read};
+
 use elf::{
     abi::{PF_R, PF_W, PF_X, PT_LOAD},
     segment::ProgramHeader,
@@ -182,6 +184,15 @@ impl EncryptedVM {
     }
 }
 
+/// Seed drawn from the operating system's entropy source.
+fn random_seed() -> [u8; 32] {
+    let mut seed = [0u8; 32];
+    File::open("/dev/urandom")
+        .and_then(|mut f| f.read_exact(&mut seed))
+        .expect("failed to read the system entropy source");
+    seed
+}
+
 /// Phantom VM: Encrypted Risc-v
 pub struct Phantom {
     boot_rom: BootMemory,
@@ -365,9 +376,9 @@ impl Phantom {
 
         // Initializing cryptographic parameters
         let params = CryptographicParameters::<BackendImpl>::new();
-        let mut source_xs: Source = Source::new([0u8; 32]);
-        let mut source_xa: Source = Source::new([0u8; 32]);
-        let mut source_xe: Source = Source::new([0u8; 32]);
+        let mut source_xs: Source = Source::new(random_seed());
+        let mut source_xa: Source = Source::new(random_seed());
+        let mut source_xe: Source = Source::new(random_seed());
         let mut scratch: ScratchOwned<BackendImpl> = ScratchOwned::alloc(1 << 24);
 
         // Generates a new secret-key along with the public evaluation keys.
-- 
2.43.0


From 6f65340d49e9fe0d33b146c870d4478e76e1d0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:14 +0000
Subject: [PATCH 06/14] fix: run programs that consist of a single instruction

The blind retriever of a one-word memory was allocated without accumulators, so the
first fetch panicked.
---
 fhevm/src/memory.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fhevm/src/memory.rs b/fhevm/src/memory.rs
index be32de4..a57b2fc 100644
--- a/fhevm/src/memory.rs
+++ b/fhevm/src/memory.rs
@@ -462,7 +462,8 @@ impl BitArray {
             data: (0..size.div_ceil(n))
                 .map(|_| GLWE::alloc_from_infos(infos))
                 .collect(),
-            retriever: GLWEBlindRetriever::alloc(infos, size),
+            // a retriever needs at least one accumulator, also for a single word
+            retriever: GLWEBlindRetriever::alloc(infos, size.max(2)),
             bit_size: (usize::BITS - (size - 1).leading_zeros()) as usize,
         }
     }
-- 
2.43.0


From 84eea9cc392a1c65e4e8b1b8433ec220843252d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:14 +0000
Subject: [PATCH 07/14] fix: measure noise against zero in the unused slots of
 a partly filled polynomial

---
 fhevm/src/memory.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fhevm/src/memory.rs b/fhevm/src/memory.rs
index a57b2fc..35279a1 100644
--- a/fhevm/src/memory.rs
+++ b/fhevm/src/memory.rs
@@ -539,6 +539,7 @@ impl BitArray {
         let mut max_noise: f64 = f64::MIN;
 
         for (chunk, ct) in data.chunks(module.n()).zip(self.data.iter()) {
+            data_i64.fill(0);
             for (y, x) in data_i64.iter_mut().zip(chunk.iter()) {
                 *y = *x as i64;
             }
-- 
2.43.0


From 39b4df229cc52f871373262e9d5a5a908e6878e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:24 +0000
Subject: [PATCH 08/14] fix: debug mode accepts instructions whose unused
 address lies outside RAM

With a RAM size that is not a power of two, the debug mirror reduced the address modulo
the size while the machine selects by address bits, and panicked on correct executions.
---
 fhevm/src/debug.rs       | 16 +++++++++++++---
 fhevm/src/interpreter.rs |  2 +-
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/fhevm/src/debug.rs b/fhevm/src/debug.rs
index a6e3d1d..57860c4 100644
--- a/fhevm/src/debug.rs
+++ b/fhevm/src/debug.rs
@@ -96,9 +96,16 @@ impl InterpreterDebug {
         self.rs2_val = self.registers[self.rs2_addr as usize];
     }
 
-    pub fn read_ram(&mut self) {
+    /// Index of the RAM word selected by the low bits of the address. Instructions that do not
+    /// access memory also select a word: it lies outside RAM if the size is not a power of two.
+    fn ram_idx(&self) -> usize {
+        (self.ram_addr >> 2) as usize & ((self.ram_size as usize).next_power_of_two() - 1)
+    }
+
+    /// `ram_val` is what the machine reads, accepted as is where there is no RAM.
+    pub fn read_ram(&mut self, ram_val: u32) {
         self.ram_addr = self.imm.wrapping_add(self.rs1_val).wrapping_sub(1 << 18);
-        self.ram_val = self.ram[(self.ram_addr >> 2) as usize % self.ram_size as usize];
+        self.ram_val = *self.ram.get(self.ram_idx()).unwrap_or(&ram_val);
     }
 
     pub fn update_registers(&mut self, ops: &[RD_UPDATE]) {
@@ -136,7 +143,10 @@ impl InterpreterDebug {
 
         self.ram_val = *ram_map.get(&self.mu).unwrap();
 
-        self.ram[(self.ram_addr >> 2) as usize % self.ram_size as usize] = self.ram_val;
+        let idx: usize = self.ram_idx();
+        if let Some(word) = self.ram.get_mut(idx) {
+            *word = self.ram_val;
+        }
     }
 
     pub fn update_pc(&mut self) {
diff --git a/fhevm/src/interpreter.rs b/fhevm/src/interpreter.rs
index 9bc5b8e..40f43f1 100644
--- a/fhevm/src/interpreter.rs
+++ b/fhevm/src/interpreter.rs
@@ -1055,9 +1055,9 @@ impl<BE: Backend> Interpreter<BE> {
         });
 
         if let (Some(sk), Some(vm_debug)) = (sk, &mut self.vm_debug) {
-            vm_debug.read_ram();
             let ram_addr_have: u32 = self.ram_addr_fhe_uint.decrypt(module, sk, scratch);
             let ram_val_have: u32 = self.ram_val_fhe_uint.decrypt(module, sk, scratch);
+            vm_debug.read_ram(ram_val_have);
             let ram_addr_want: u32 = vm_debug.ram_addr;
             let ram_val_want: u32 = vm_debug.ram_val;
             println!("READ RAM");
-- 
2.43.0


From 674e6f3952afc43f93f184524ded891d5ecc8987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:46 +0000
Subject: [PATCH 09/14] fix: do not lose an execution when the wall clock is
 set back

Closing the tqdm bar panics if the clock reads earlier than at the last refresh.
---
 compiler/src/interpreter.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/compiler/src/interpreter.rs b/compiler/src/interpreter.rs
index ae9620c..6cba9b9 100644
--- a/compiler/src/interpreter.rs
+++ b/compiler/src/interpreter.rs
@@ -1,4 +1,8 @@
-use std::{fs::File, io::Read};
+use std::{
+    fs::File,
+    io::Read,
+    panic::{catch_unwind, AssertUnwindSafe},
+};
 
 use elf::{
     abi::{PF_R, PF_W, PF_X, PT_LOAD},
@@ -124,7 +128,8 @@ impl EncryptedVM {
         let mut scratch: ScratchOwned<BackendImpl> =
             ScratchOwned::alloc((1 << 24) * self.interpreter.threads());
 
-        for _current_cycle in tqdm(0..self.max_cycles) {
+        let mut progress = tqdm(0..self.max_cycles);
+        for _current_cycle in progress.by_ref() {
             if self.phantom_debug {
                 self.interpreter.cycle_debug(
                     self.params.module(),
@@ -137,6 +142,9 @@ impl EncryptedVM {
                     .cycle(self.params.module(), &self.key_prepared, scratch.borrow());
             }
         }
+        // tqdm panics on closing if the wall clock was set back meanwhile: the display must not
+        // take a finished execution down with it.
+        let _ = catch_unwind(AssertUnwindSafe(|| drop(progress)));
     }
 
     pub fn output_tape(&mut self) -> Vec<u8> {
-- 
2.43.0


From 9e16327244eb3109801897778969fb8a229f7949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:01 +0000
Subject: [PATCH 10/14] fix: reject images with a LOAD segment that would
 silently not be loaded

---
 compiler/src/interpreter.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/compiler/src/interpreter.rs b/compiler/src/interpreter.rs
index 6cba9b9..30a4f1b 100644
--- a/compiler/src/interpreter.rs
+++ b/compiler/src/interpreter.rs
@@ -247,6 +247,12 @@ impl Phantom {
             .iter()
             .filter(|p| p.p_flags == PF_R || p.p_flags == PF_R + PF_W)
             .collect();
+        assert!(
+            phdrs.iter().all(|p| p.p_memsz == 0
+                || std::ptr::eq(p, txthdr)
+                || hdrs.iter().any(|h| std::ptr::eq(p, *h))),
+            "phdr: LOAD segment is neither .text (+rx) nor data (+r/+rw)"
+        );
         let mut ram_offset = 0;
         let mut boot_ram_data = vec![0u8; RAM_SIZE];
         if hdrs.len() > 0 {
-- 
2.43.0


From 96f0f4efa9eb2417a5946112ab501e65cebe776f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:35 +0000
Subject: [PATCH 11/14] fix: do not lose an execution when the wall clock is
 set back twice

A failed refresh leaves the tqdm bar so that its next update panics, too.
---
 compiler/src/interpreter.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/compiler/src/interpreter.rs b/compiler/src/interpreter.rs
index 30a4f1b..50cdc8b 100644
--- a/compiler/src/interpreter.rs
+++ b/compiler/src/interpreter.rs
@@ -128,8 +128,11 @@ impl EncryptedVM {
         let mut scratch: ScratchOwned<BackendImpl> =
             ScratchOwned::alloc((1 << 24) * self.interpreter.threads());
 
+        // tqdm panics if the wall clock is set back meanwhile: the display must not take the
+        // execution down with it.
         let mut progress = tqdm(0..self.max_cycles);
-        for _current_cycle in progress.by_ref() {
+        for _current_cycle in 0..self.max_cycles {
+            let _ = catch_unwind(AssertUnwindSafe(|| progress.next()));
             if self.phantom_debug {
                 self.interpreter.cycle_debug(
                     self.params.module(),
@@ -142,8 +145,6 @@ impl EncryptedVM {
                     .cycle(self.params.module(), &self.key_prepared, scratch.borrow());
             }
         }
-        // tqdm panics on closing if the wall clock was set back meanwhile: the display must not
-        // take a finished execution down with it.
         let _ = catch_unwind(AssertUnwindSafe(|| drop(progress)));
     }
 
-- 
2.43.0


From db2825392a81d216015769bf246342433f8d1167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:39 +0000
Subject: [PATCH 12/14] sim: cfg(phantom_sim) per-word noise observation (off
 by default)

---
 fhevm/src/memory.rs | 38 ++++++++++++++++++++++++++++++++++++++
 fhevm/src/sim.rs    | 22 ++++++++++++++++++++++
 2 files changed, 60 insertions(+)

diff --git a/fhevm/src/memory.rs b/fhevm/src/memory.rs
index 35279a1..a435436 100644
--- a/fhevm/src/memory.rs
+++ b/fhevm/src/memory.rs
@@ -444,6 +444,44 @@ impl Memory {
             }
         }
     }
+
+    /// Largest absolute noise over the bit planes, for each word, given the plaintext contents.
+    pub(crate) fn sim_word_noise<M, S, BE: Backend>(
+        &self,
+        module: &M,
+        data: &[u32],
+        sk: &S,
+        scratch: &mut Scratch<BE>,
+    ) -> Vec<f64>
+    where
+        M: ModuleN + GLWEDecrypt<BE>,
+        Scratch<BE>: ScratchTakeCore<BE>,
+        S: GLWESecretPreparedToRef<BE>,
+    {
+        use poulpy_core::layouts::LWEInfos;
+        let mut noise: Vec<f64> = vec![0f64; data.len()];
+        for (i, bit) in self.bits.iter().enumerate() {
+            let k: TorusPrecision = bit.data[0].k();
+            let bits: u32 = k.into();
+            let one: i64 = 1 << bits;
+            let (mut pt, scratch_1) = scratch.take_glwe_plaintext(&bit.data[0]);
+            let mut phase: Vec<i64> = vec![0i64; module.n()];
+            for ((ct, words), noise) in bit
+                .data
+                .iter()
+                .zip(data.chunks(module.n()))
+                .zip(noise.chunks_mut(module.n()))
+            {
+                ct.decrypt(module, &mut pt, sk, scratch_1);
+                pt.decode_vec_i64(&mut phase, k);
+                for ((p, w), e) in phase.iter().zip(words).zip(noise) {
+                    let d: i64 = (p - ((*w as i64 >> i & 1) << (bits - 2))).rem_euclid(one);
+                    *e = e.max(d.min(one - d) as f64 / one as f64);
+                }
+            }
+        }
+        noise
+    }
 }
 
 struct BitArray {
diff --git a/fhevm/src/sim.rs b/fhevm/src/sim.rs
index 6fb7030..2af39c4 100644
--- a/fhevm/src/sim.rs
+++ b/fhevm/src/sim.rs
@@ -98,6 +98,28 @@ impl<BE: Backend> Interpreter<BE> {
         )
     }
 
+    /// Largest absolute noise of each register and of each RAM word, given their plaintext
+    /// contents.
+    pub fn sim_word_noise<M, S>(
+        &self,
+        module: &M,
+        registers: &[u32],
+        ram: &[u32],
+        sk: &S,
+        scratch: &mut Scratch<BE>,
+    ) -> (Vec<f64>, Vec<f64>)
+    where
+        M: ModuleN + GLWEDecrypt<BE>,
+        S: GLWESecretPreparedToRef<BE> + GLWEInfos,
+        Scratch<BE>: ScratchTakeCore<BE>,
+    {
+        (
+            self.registers
+                .sim_word_noise(module, registers, sk, scratch),
+            self.ram.sim_word_noise(module, ram, sk, scratch),
+        )
+    }
+
     /// Raw ciphertext coefficients of the program counter, the register file and the RAM.
     pub fn sim_ciphertext(&self) -> Vec<i64> {
         let mut out: Vec<i64> = Vec::new();
-- 
2.43.0


From 18119a2d73d8b78e752fb80aed943807e1c584cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:30 +0000
Subject: [PATCH 13/14] sim: expose keys, ciphertexts and noise to the
 simulator (cfg(phantom_sim) only)

---
 compiler/src/interpreter.rs | 12 ++++++++++++
 fhevm/src/memory.rs         | 29 ++++++++++++++++++++++++++++
 fhevm/src/sim.rs            | 38 ++++++++++++++++++++++++++++++++++++-
 3 files changed, 78 insertions(+), 1 deletion(-)

diff --git a/compiler/src/interpreter.rs b/compiler/src/interpreter.rs
index 50cdc8b..28ad3e4 100644
--- a/compiler/src/interpreter.rs
+++ b/compiler/src/interpreter.rs
@@ -121,6 +121,8 @@ pub struct EncryptedVM {
     ram_offset: usize,
     max_cycles: usize,
     phantom_debug: bool,
+    #[cfg(phantom_sim)]
+    sim_sk_lwe: LWESecret<Vec<u8>>,
 }
 
 impl EncryptedVM {
@@ -191,6 +193,14 @@ impl EncryptedVM {
     pub fn sim_interpreter(&mut self) -> &mut Interpreter<BackendImpl> {
         &mut self.interpreter
     }
+
+    pub fn sim_keys(&self) -> &VMKeysPrepared<Vec<u8>, CGGI, BackendImpl> {
+        &self.key_prepared
+    }
+
+    pub fn sim_sk_lwe(&self) -> &LWESecret<Vec<u8>> {
+        &self.sim_sk_lwe
+    }
 }
 
 /// Seed drawn from the operating system's entropy source.
@@ -449,6 +459,8 @@ impl Phantom {
             ram_offset: self.boot_ram.offset,
             max_cycles,
             phantom_debug,
+            #[cfg(phantom_sim)]
+            sim_sk_lwe: sk_lwe,
         }
     }
 
diff --git a/fhevm/src/memory.rs b/fhevm/src/memory.rs
index a435436..4c68298 100644
--- a/fhevm/src/memory.rs
+++ b/fhevm/src/memory.rs
@@ -445,6 +445,35 @@ impl Memory {
         }
     }
 
+    /// Errors of every polynomial, whatever bits it encrypts.
+    pub(crate) fn sim_errors<M, S, BE: Backend>(
+        &self,
+        module: &M,
+        sk: &S,
+        scratch: &mut Scratch<BE>,
+        out: &mut Vec<Vec<i64>>,
+    ) where
+        M: ModuleN + GLWEDecrypt<BE>,
+        Scratch<BE>: ScratchTakeCore<BE>,
+        S: GLWESecretPreparedToRef<BE>,
+    {
+        use poulpy_core::layouts::LWEInfos;
+        for bit in &self.bits {
+            let k: TorusPrecision = bit.data[0].k();
+            let one: i64 = 1 << (u32::from(k) - 2);
+            let (mut pt, scratch_1) = scratch.take_glwe_plaintext(&bit.data[0]);
+            for ct in &bit.data {
+                let mut phase: Vec<i64> = vec![0i64; module.n()];
+                ct.decrypt(module, &mut pt, sk, scratch_1);
+                pt.decode_vec_i64(&mut phase, k);
+                for p in phase.iter_mut() {
+                    *p = (*p + one / 2).rem_euclid(one) - one / 2;
+                }
+                out.push(phase);
+            }
+        }
+    }
+
     /// Largest absolute noise over the bit planes, for each word, given the plaintext contents.
     pub(crate) fn sim_word_noise<M, S, BE: Backend>(
         &self,
diff --git a/fhevm/src/sim.rs b/fhevm/src/sim.rs
index 2af39c4..f341b85 100644
--- a/fhevm/src/sim.rs
+++ b/fhevm/src/sim.rs
@@ -16,7 +16,7 @@ use poulpy_hal::{
     layouts::{Backend, Scratch, ZnxView},
 };
 
-use crate::Interpreter;
+use crate::{memory::Memory, Interpreter};
 
 #[derive(Clone, Copy, Debug)]
 pub struct Dimensions {
@@ -120,6 +120,42 @@ impl<BE: Backend> Interpreter<BE> {
         )
     }
 
+    /// Raw ciphertext coefficients of the encrypted program.
+    pub fn sim_program_ciphertext(&self) -> Vec<i64> {
+        let mut out: Vec<i64> = Vec::new();
+        for rom in self.sim_program() {
+            rom.sim_ciphertext(&mut out);
+        }
+        out
+    }
+
+    /// Errors of every ciphertext of the encrypted program and of the RAM.
+    pub fn sim_errors<M, S>(&self, module: &M, sk: &S, scratch: &mut Scratch<BE>) -> Vec<Vec<i64>>
+    where
+        M: ModuleN + GLWEDecrypt<BE>,
+        S: GLWESecretPreparedToRef<BE> + GLWEInfos,
+        Scratch<BE>: ScratchTakeCore<BE>,
+    {
+        let mut out: Vec<Vec<i64>> = Vec::new();
+        for rom in self.sim_program() {
+            rom.sim_errors(module, sk, scratch, &mut out);
+        }
+        self.ram.sim_errors(module, sk, scratch, &mut out);
+        out
+    }
+
+    fn sim_program(&self) -> [&Memory; 7] {
+        [
+            &self.imm_rom,
+            &self.rs1_rom,
+            &self.rs2_rom,
+            &self.rd_rom,
+            &self.rdu_rom,
+            &self.mu_rom,
+            &self.pcu_rom,
+        ]
+    }
+
     /// Raw ciphertext coefficients of the program counter, the register file and the RAM.
     pub fn sim_ciphertext(&self) -> Vec<i64> {
         let mut out: Vec<i64> = Vec::new();
-- 
2.43.0


From 5958229211521ca4fe4a2f6dff30b6ef812f922e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:54 +0000
Subject: [PATCH 14/14] sim: let the simulator damage the encrypted state
 (cfg(phantom_sim) only)

---
 fhevm/src/memory.rs | 20 ++++++++++++++++++++
 fhevm/src/sim.rs    | 36 ++++++++++++++++++++++++++++++++++--
 2 files changed, 54 insertions(+), 2 deletions(-)

diff --git a/fhevm/src/memory.rs b/fhevm/src/memory.rs
index 4c68298..91a0f8a 100644
--- a/fhevm/src/memory.rs
+++ b/fhevm/src/memory.rs
@@ -445,6 +445,26 @@ impl Memory {
         }
     }
 
+    /// Raw coefficients of each ciphertext.
+    pub(crate) fn sim_ciphertexts(&self) -> Vec<Vec<i64>> {
+        use poulpy_hal::layouts::ZnxView;
+        self.bits
+            .iter()
+            .flat_map(|bit| bit.data.iter())
+            .map(|ct| ct.data().raw().to_vec())
+            .collect()
+    }
+
+    /// Overwrites the raw coefficients of each ciphertext.
+    pub(crate) fn sim_damage(&mut self, data: &[Vec<i64>]) {
+        use poulpy_hal::layouts::ZnxViewMut;
+        self.bits
+            .iter_mut()
+            .flat_map(|bit| bit.data.iter_mut())
+            .zip(data)
+            .for_each(|(ct, data)| ct.data_mut().raw_mut().copy_from_slice(data));
+    }
+
     /// Errors of every polynomial, whatever bits it encrypts.
     pub(crate) fn sim_errors<M, S, BE: Backend>(
         &self,
diff --git a/fhevm/src/sim.rs b/fhevm/src/sim.rs
index f341b85..73ed8d1 100644
--- a/fhevm/src/sim.rs
+++ b/fhevm/src/sim.rs
@@ -8,12 +8,12 @@
 use std::sync::atomic::{AtomicU32, Ordering};
 
 use poulpy_core::{
-    layouts::{GLWEInfos, GLWESecretPreparedToRef, GLWEToRef},
+    layouts::{GLWEInfos, GLWESecretPreparedToRef, GLWEToMut, GLWEToRef},
     GLWEDecrypt, GLWENoise, ScratchTakeCore,
 };
 use poulpy_hal::{
     api::{ModuleLogN, ModuleN},
-    layouts::{Backend, Scratch, ZnxView},
+    layouts::{Backend, Scratch, ZnxView, ZnxViewMut},
 };
 
 use crate::{memory::Memory, Interpreter};
@@ -156,6 +156,38 @@ impl<BE: Backend> Interpreter<BE> {
         ]
     }
 
+    /// Raw ciphertexts of one part of the machine: the program counter (0), the register file (1),
+    /// the RAM (2) or a component of the program (3 to 9).
+    pub fn sim_part(&self, part: usize) -> Vec<Vec<i64>> {
+        match part {
+            0 => vec![self.pc_fhe_uint.to_ref().data().raw().to_vec()],
+            1 => self.registers.sim_ciphertexts(),
+            2 => self.ram.sim_ciphertexts(),
+            p => self.sim_program()[p - 3].sim_ciphertexts(),
+        }
+    }
+
+    /// Overwrites one part of the machine, as damaged or stale memory would.
+    pub fn sim_damage(&mut self, part: usize, data: &[Vec<i64>]) {
+        let memory: &mut Memory = match part {
+            0 => {
+                let mut pc = self.pc_fhe_uint.to_mut();
+                pc.data_mut().raw_mut().copy_from_slice(&data[0]);
+                return;
+            }
+            1 => &mut self.registers,
+            2 => &mut self.ram,
+            3 => &mut self.imm_rom,
+            4 => &mut self.rs1_rom,
+            5 => &mut self.rs2_rom,
+            6 => &mut self.rd_rom,
+            7 => &mut self.rdu_rom,
+            8 => &mut self.mu_rom,
+            _ => &mut self.pcu_rom,
+        };
+        memory.sim_damage(data)
+    }
+
     /// Raw ciphertext coefficients of the program counter, the register file and the RAM.
     pub fn sim_ciphertext(&self) -> Vec<i64> {
         let mut out: Vec<i64> = Vec::new();
-- 
2.43.0

