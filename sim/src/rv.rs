//! Reference RV32I(M) machine, written from the RISC-V unprivileged specification, and an assembler.

#[allow(clippy::upper_case_acronyms)]
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Op {
    LUI, AUIPC, JAL, JALR, BEQ, BNE, BLT, BGE, BLTU, BGEU, LB, LH, LW, LBU, LHU, SB, SH, SW,
    ADDI, SLTI, SLTIU, XORI, ORI, ANDI, SLLI, SRLI, SRAI,
    ADD, SUB, SLL, SLT, SLTU, XOR, SRL, SRA, OR, AND,
    MUL, MULH, MULHSU, MULHU, DIV, DIVU, REM, REMU,
}
use Op::*;
pub const RV32I: [Op; 37] = [
    LUI, AUIPC, JAL, JALR, BEQ, BNE, BLT, BGE, BLTU, BGEU, LB, LH, LW, LBU, LHU, SB, SH, SW, ADDI, SLTI, SLTIU, XORI, ORI, ANDI, SLLI,
    SRLI, SRAI, ADD, SUB, SLL, SLT, SLTU, XOR, SRL, SRA, OR, AND,
];
pub const M: [Op; 8] = [MUL, MULH, MULHSU, MULHU, DIV, DIVU, REM, REMU];
pub const ALU_R: [Op; 10] = [ADD, SUB, SLL, SLT, SLTU, XOR, SRL, SRA, OR, AND];
pub const ALU_I: [Op; 9] = [ADDI, SLTI, SLTIU, XORI, ORI, ANDI, SLLI, SRLI, SRAI];
pub const BRANCH: [Op; 6] = [BEQ, BNE, BLT, BGE, BLTU, BGEU];
pub const LOAD: [Op; 5] = [LB, LH, LW, LBU, LHU];
pub const STORE: [Op; 3] = [SB, SH, SW];

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Ins {
    pub op: Op,
    pub rd: u32,
    pub rs1: u32,
    pub rs2: u32,
    pub imm: i32,
}

pub fn ins(op: Op, rd: u32, rs1: u32, rs2: u32, imm: i32) -> Ins {
    Ins { op, rd, rs1, rs2, imm }
}

impl Op {
    pub fn is_load(self) -> bool {
        LOAD.contains(&self)
    }
    pub fn is_store(self) -> bool {
        STORE.contains(&self)
    }
    pub fn is_branch(self) -> bool {
        BRANCH.contains(&self)
    }
    pub fn width(self) -> u32 {
        match self {
            LB | LBU | SB => 1,
            LH | LHU | SH => 2,
            LW | SW => 4,
            _ => 0,
        }
    }
}

impl Ins {
    pub fn enc(self) -> u32 {
        let (rd, rs1, rs2, imm) = (self.rd << 7, self.rs1 << 15, self.rs2 << 20, self.imm as u32);
        let i = |f3: u32, opc: u32| (imm & 0xfff) << 20 | rs1 | f3 << 12 | rd | opc;
        let sh = |f7: u32, f3: u32| f7 << 25 | (imm & 31) << 20 | rs1 | f3 << 12 | rd | 0x13;
        let r = |f7: u32, f3: u32| f7 << 25 | rs2 | rs1 | f3 << 12 | rd | 0x33;
        let s = |f3: u32| (imm >> 5 & 0x7f) << 25 | rs2 | rs1 | f3 << 12 | (imm & 31) << 7 | 0x23;
        let b = |f3: u32| {
            (imm >> 12 & 1) << 31 | (imm >> 5 & 0x3f) << 25 | rs2 | rs1 | f3 << 12 | (imm >> 1 & 15) << 8 | (imm >> 11 & 1) << 7 | 0x63
        };
        match self.op {
            LUI => (imm & 0xffff_f000) | rd | 0x37,
            AUIPC => (imm & 0xffff_f000) | rd | 0x17,
            JAL => (imm >> 20 & 1) << 31 | (imm >> 1 & 0x3ff) << 21 | (imm >> 11 & 1) << 20 | (imm >> 12 & 0xff) << 12 | rd | 0x6f,
            JALR => i(0, 0x67),
            BEQ => b(0),
            BNE => b(1),
            BLT => b(4),
            BGE => b(5),
            BLTU => b(6),
            BGEU => b(7),
            LB => i(0, 3),
            LH => i(1, 3),
            LW => i(2, 3),
            LBU => i(4, 3),
            LHU => i(5, 3),
            SB => s(0),
            SH => s(1),
            SW => s(2),
            ADDI => i(0, 0x13),
            SLTI => i(2, 0x13),
            SLTIU => i(3, 0x13),
            XORI => i(4, 0x13),
            ORI => i(6, 0x13),
            ANDI => i(7, 0x13),
            SLLI => sh(0, 1),
            SRLI => sh(0, 5),
            SRAI => sh(0x20, 5),
            ADD => r(0, 0),
            SUB => r(0x20, 0),
            SLL => r(0, 1),
            SLT => r(0, 2),
            SLTU => r(0, 3),
            XOR => r(0, 4),
            SRL => r(0, 5),
            SRA => r(0x20, 5),
            OR => r(0, 6),
            AND => r(0, 7),
            MUL => r(1, 0),
            MULH => r(1, 1),
            MULHSU => r(1, 2),
            MULHU => r(1, 3),
            DIV => r(1, 4),
            DIVU => r(1, 5),
            REM => r(1, 6),
            REMU => r(1, 7),
        }
    }

    pub fn dec(w: u32) -> Option<Ins> {
        let rd = w >> 7 & 31;
        let rs1 = w >> 15 & 31;
        let rs2 = w >> 20 & 31;
        let f3 = w >> 12 & 7;
        let f7 = w >> 25;
        let ii = w as i32 >> 20;
        let si = (w as i32 >> 25) << 5 | (w >> 7 & 31) as i32;
        let bi = (w as i32 >> 31) << 12 | ((w >> 7 & 1) << 11 | (w >> 25 & 0x3f) << 5 | (w >> 8 & 15) << 1) as i32;
        let ji = (w as i32 >> 31) << 20 | ((w >> 12 & 0xff) << 12 | (w >> 20 & 1) << 11 | (w >> 21 & 0x3ff) << 1) as i32;
        let ui = (w & 0xffff_f000) as i32;
        let k = |op, imm| Some(Ins { op, rd, rs1, rs2, imm });
        match w & 0x7f {
            0x37 => k(LUI, ui),
            0x17 => k(AUIPC, ui),
            0x6f => k(JAL, ji),
            0x67 if f3 == 0 => k(JALR, ii),
            0x63 => k([Some(BEQ), Some(BNE), None, None, Some(BLT), Some(BGE), Some(BLTU), Some(BGEU)][f3 as usize]?, bi),
            0x03 => k([Some(LB), Some(LH), Some(LW), None, Some(LBU), Some(LHU), None, None][f3 as usize]?, ii),
            0x23 => k([Some(SB), Some(SH), Some(SW), None, None, None, None, None][f3 as usize]?, si),
            0x13 => match f3 {
                0 => k(ADDI, ii),
                2 => k(SLTI, ii),
                3 => k(SLTIU, ii),
                4 => k(XORI, ii),
                6 => k(ORI, ii),
                7 => k(ANDI, ii),
                1 if f7 == 0 => k(SLLI, rs2 as i32),
                5 if f7 == 0 => k(SRLI, rs2 as i32),
                5 if f7 == 0x20 => k(SRAI, rs2 as i32),
                _ => None,
            },
            0x33 => match f7 {
                0 => k([ADD, SLL, SLT, SLTU, XOR, SRL, OR, AND][f3 as usize], 0),
                0x20 if f3 == 0 => k(SUB, 0),
                0x20 if f3 == 5 => k(SRA, 0),
                1 => k(M[f3 as usize], 0),
                _ => None,
            },
            _ => None,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Trap {
    Fetch,
    Illegal,
    Address,
    Target,
}

pub const BASE: u32 = 0x40000;

#[derive(Clone)]
pub struct Ref {
    pub pc: u32,
    pub x: [u32; 32],
    pub ram: Vec<u8>,
    pub rom: Vec<u32>,
    pub m_ext: bool,
}

impl Ref {
    pub fn new(rom: Vec<u32>, regs: [u32; 32], ram: Vec<u8>) -> Ref {
        Ref { pc: 0, x: regs, ram, rom, m_ext: false }
    }
    pub fn words(&self) -> Vec<u32> {
        self.ram.chunks(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect()
    }
    pub fn fetch(&self) -> Result<Ins, Trap> {
        if self.pc % 4 != 0 || self.pc as usize / 4 >= self.rom.len() {
            return Err(Trap::Fetch);
        }
        let i = Ins::dec(self.rom[self.pc as usize / 4]).ok_or(Trap::Illegal)?;
        if M.contains(&i.op) && !self.m_ext {
            return Err(Trap::Illegal);
        }
        Ok(i)
    }
    pub fn addr(&self, a: u32, w: u32) -> Result<usize, Trap> {
        let o = a.wrapping_sub(BASE) as usize;
        if a % w != 0 || a < BASE || o + w as usize > self.ram.len() {
            return Err(Trap::Address);
        }
        Ok(o)
    }
    /// One instruction; on a trap the state is unchanged.
    pub fn step(&mut self) -> Result<Ins, Trap> {
        let i = self.fetch()?;
        self.exec(i)?;
        Ok(i)
    }
    pub fn exec(&mut self, i: Ins) -> Result<(), Trap> {
        let (a, b) = (self.x[i.rs1 as usize], self.x[i.rs2 as usize]);
        let imm = i.imm as u32;
        let pc = self.pc;
        let mut next = pc.wrapping_add(4);
        let mut rd = None;
        let taken = |c: bool, next: &mut u32| {
            if c {
                *next = pc.wrapping_add(imm);
            }
        };
        match i.op {
            LUI => rd = Some(imm),
            AUIPC => rd = Some(pc.wrapping_add(imm)),
            JAL => {
                rd = Some(next);
                next = pc.wrapping_add(imm);
            }
            JALR => {
                rd = Some(next);
                next = a.wrapping_add(imm) & !1;
            }
            BEQ => taken(a == b, &mut next),
            BNE => taken(a != b, &mut next),
            BLT => taken((a as i32) < b as i32, &mut next),
            BGE => taken(a as i32 >= b as i32, &mut next),
            BLTU => taken(a < b, &mut next),
            BGEU => taken(a >= b, &mut next),
            LB | LH | LW | LBU | LHU => {
                let w = i.op.width();
                let o = self.addr(a.wrapping_add(imm), w)?;
                let mut v = 0u32;
                for k in 0..w as usize {
                    v |= (self.ram[o + k] as u32) << (8 * k);
                }
                rd = Some(match i.op {
                    LB => v as u8 as i8 as u32,
                    LH => v as u16 as i16 as u32,
                    _ => v,
                });
            }
            SB | SH | SW => {
                let w = i.op.width();
                let o = self.addr(a.wrapping_add(imm), w)?;
                for k in 0..w as usize {
                    self.ram[o + k] = (b >> (8 * k)) as u8;
                }
            }
            ADDI => rd = Some(a.wrapping_add(imm)),
            SLTI => rd = Some(((a as i32) < i.imm) as u32),
            SLTIU => rd = Some((a < imm) as u32),
            XORI => rd = Some(a ^ imm),
            ORI => rd = Some(a | imm),
            ANDI => rd = Some(a & imm),
            SLLI => rd = Some(a << (imm & 31)),
            SRLI => rd = Some(a >> (imm & 31)),
            SRAI => rd = Some((a as i32 >> (imm & 31)) as u32),
            ADD => rd = Some(a.wrapping_add(b)),
            SUB => rd = Some(a.wrapping_sub(b)),
            SLL => rd = Some(a << (b & 31)),
            SLT => rd = Some(((a as i32) < b as i32) as u32),
            SLTU => rd = Some((a < b) as u32),
            XOR => rd = Some(a ^ b),
            SRL => rd = Some(a >> (b & 31)),
            SRA => rd = Some((a as i32 >> (b & 31)) as u32),
            OR => rd = Some(a | b),
            AND => rd = Some(a & b),
            MUL => rd = Some(a.wrapping_mul(b)),
            MULH => rd = Some(((a as i32 as i64 * b as i32 as i64) >> 32) as u32),
            MULHSU => rd = Some(((a as i32 as i64 * b as i64) >> 32) as u32),
            MULHU => rd = Some(((a as u64 * b as u64) >> 32) as u32),
            DIV => rd = Some(if b == 0 { u32::MAX } else { (a as i32).wrapping_div(b as i32) as u32 }),
            DIVU => rd = Some(if b == 0 { u32::MAX } else { a / b }),
            REM => rd = Some(if b == 0 { a } else { (a as i32).wrapping_rem(b as i32) as u32 }),
            REMU => rd = Some(if b == 0 { a } else { a % b }),
        }
        if next % 4 != 0 {
            return Err(Trap::Target);
        }
        if let Some(v) = rd {
            self.x[i.rd as usize] = v;
        }
        self.x[0] = 0;
        self.pc = next;
        Ok(())
    }
}
