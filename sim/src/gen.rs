//! Program generators. A program is grown along its own execution: whenever the reference machine reaches
//! an empty ROM slot an instruction is chosen that is legal in the current state, so every cycle of the run
//! is meaningful, loops and revisited code included.
use crate::json::J;
use crate::rng::Rng;
use crate::rv::*;

#[derive(Clone)]
pub struct Prog {
    pub rom: Vec<u32>,
    pub regs: [u32; 32],
    pub ram: Vec<u8>,
    pub cycles: usize,
}

#[derive(Clone)]
pub struct Cfg {
    pub rom: usize,
    pub ram_words: usize,
    pub cycles: usize,
    pub zero_regs: bool,
    pub m_ext: bool,
    /// weights: alu-r, alu-i, load, store, branch, jal, jalr, lui, auipc, m
    pub w: [u64; 10],
    /// probability (percent) that an opcode is forced to `focus`
    pub focus: Option<Op>,
}

pub const W_ALL: [u64; 10] = [10, 9, 6, 4, 6, 2, 2, 2, 2, 0];
pub const W_MEM: [u64; 10] = [2, 2, 12, 14, 1, 0, 0, 1, 0, 0];
pub const W_FLOW: [u64; 10] = [2, 3, 1, 1, 14, 6, 7, 1, 4, 0];

impl Prog {
    pub fn to_json(&self) -> J {
        let j = if self.rom.len() > 512 {
            // large programs: only what differs from the filler
            let code: Vec<J> = self.rom.iter().enumerate().filter(|(i, w)| **w != fill(*i)).flat_map(|(i, w)| [J::from(i), J::from(*w as u64)]).collect();
            J::obj().with("rom_len", self.rom.len()).with("code", J::Arr(code))
        } else {
            J::obj().with("rom", self.rom.as_slice())
        };
        j.with("regs", self.regs.as_slice())
            .with("ram", J::hex(&self.ram))
            .with("cycles", self.cycles)
    }
    pub fn from_json(j: &J) -> Prog {
        let mut regs = [0u32; 32];
        for (r, v) in regs.iter_mut().zip(j.get("regs").u32s()) {
            *r = v;
        }
        let rom = if j.has("rom_len") {
            let mut v: Vec<u32> = (0..j.get("rom_len").us()).map(fill).collect();
            for c in j.get("code").arr().chunks_exact(2) {
                v[c[0].us()] = c[1].u() as u32;
            }
            v
        } else {
            j.get("rom").u32s()
        };
        Prog { rom, regs, ram: j.get("ram").bytes(), cycles: j.get("cycles").us() }
    }
    pub fn machine(&self) -> Ref {
        Ref::new(self.rom.clone(), self.regs, self.ram.clone())
    }
}

/// What fills unused slots of large programs.
pub fn fill(slot: usize) -> u32 {
    rnd_ins(&mut Rng::new(crate::rng::mix(slot as u64 + 77)), false).enc()
}

pub fn imm12(r: &mut Rng) -> i32 {
    match r.below(5) {
        0 => r.pick(&[0, 1, -1, 2047, -2048, 4, -4, 255, -256, 128, -128, 1024, -1024]),
        1 => {
            let b = 1i32 << r.below(11);
            if r.chance(1, 2) {
                b
            } else {
                -b
            }
        }
        _ => r.range(-2048, 2047) as i32,
    }
}

pub fn corner_regs(r: &mut Rng, ram_words: usize) -> [u32; 32] {
    let mut x = [0u32; 32];
    let mut i = 1;
    while i < 32 {
        let a = r.word();
        x[i] = a;
        if i + 1 < 32 && r.chance(1, 2) {
            i += 1;
            x[i] = r.word_near(a);
        }
        i += 1;
    }
    // a few registers point into or near RAM
    for _ in 0..5 {
        let k = 1 + r.us(31);
        x[k] = BASE.wrapping_add(r.below(4 * ram_words as u64 + 64) as u32).wrapping_sub(32);
    }
    x
}

fn any_reg(r: &mut Rng, hot: &[u32]) -> u32 {
    if !hot.is_empty() && r.chance(1, 2) {
        r.pick(hot)
    } else {
        r.below(32) as u32
    }
}

fn rnd_ins(r: &mut Rng, m: bool) -> Ins {
    let op = if m && r.chance(1, 6) { r.pick(&M) } else { r.pick(&RV32I) };
    let mut i = ins(op, r.below(32) as u32, r.below(32) as u32, r.below(32) as u32, imm12(r));
    match op {
        Op::LUI | Op::AUIPC => i.imm = (r.u32() & 0xffff_f000) as i32,
        // program addresses end at 2^18; the machine's offsets have 20 bits
        Op::JAL => i.imm = (r.range(-(1 << 17), (1 << 17) - 1) * 4) as i32,
        _ if op.is_branch() => i.imm = (r.range(-1024, 1023) * 4) as i32,
        _ => {}
    }
    i
}

pub fn generate(r: &mut Rng, c: &Cfg) -> Prog {
    let ram_bytes = c.ram_words * 4;
    let mut ram: Vec<u8> = Vec::with_capacity(ram_bytes);
    for _ in 0..c.ram_words {
        let w = if r.chance(1, 3) { r.u32() } else { r.word() };
        ram.extend_from_slice(&w.to_le_bytes());
    }
    let regs = if c.zero_regs { [0u32; 32] } else { corner_regs(r, c.ram_words) };
    generate_on(r, c, ram, regs)
}

/// As `generate`, on a given initial memory and register file.
pub fn generate_on(r: &mut Rng, c: &Cfg, ram: Vec<u8>, regs: [u32; 32]) -> Prog {
    let mut m = Ref::new(vec![0; c.rom], regs, ram.clone());
    m.m_ext = c.m_ext;
    let mut rom: Vec<Option<u32>> = vec![None; c.rom];
    let mut hot: Vec<u32> = Vec::new();
    let mut touched: Vec<u32> = Vec::new();
    let mut done = 0;
    while done < c.cycles {
        let slot = (m.pc / 4) as usize;
        if m.pc % 4 != 0 || slot >= c.rom {
            break;
        }
        if let Some(w) = rom[slot] {
            m.rom[slot] = w;
            if m.step().is_err() {
                break;
            }
            done += 1;
            continue;
        }
        let last = done + 1 == c.cycles;
        let mut placed = false;
        for attempt in 0..60 {
            let i = if attempt >= 50 { ins(Op::ADDI, r.below(32) as u32, r.below(32) as u32, 0, imm12(r)) } else { choose(r, c, &m, &hot, &touched, &rom, last) };
            let mut t = m.clone();
            t.rom.clear();
            if t.exec(i).is_err() {
                continue;
            }
            let nslot = (t.pc / 4) as usize;
            if !last && nslot >= c.rom {
                continue;
            }
            // avoid tight self-loops that only repeat one instruction
            if !last && t.pc == m.pc && r.chance(9, 10) {
                continue;
            }
            if i.op.is_load() || i.op.is_store() {
                touched.push(m.x[i.rs1 as usize].wrapping_add(i.imm as u32));
            }
            if i.rd != 0 && !i.op.is_store() && !i.op.is_branch() {
                hot.push(i.rd);
                if hot.len() > 6 {
                    hot.remove(0);
                }
            }
            rom[slot] = Some(i.enc());
            t.rom = m.rom;
            m = t;
            placed = true;
            break;
        }
        if !placed {
            break;
        }
        done += 1;
    }
    // slots never executed: valid instructions, sometimes zeros
    let zero = r.chance(1, 4);
    let filler: Vec<u32> = (0..c.rom).map(|s| if c.rom > 512 { fill(s) } else if zero { 0x13 } else { rnd_ins(r, false).enc() }).collect();
    let rom = rom.iter().zip(filler).map(|(a, b)| a.unwrap_or(b)).collect();
    Prog { rom, regs, ram, cycles: done }
}

fn choose(r: &mut Rng, c: &Cfg, m: &Ref, hot: &[u32], touched: &[u32], rom: &[Option<u32>], last: bool) -> Ins {
    let op = match c.focus {
        Some(f) if r.chance(2, 3) => f,
        _ => {
            let tot: u64 = c.w.iter().sum();
            let mut k = r.below(tot);
            let mut cls = 0;
            for (i, w) in c.w.iter().enumerate() {
                if k < *w {
                    cls = i;
                    break;
                }
                k -= w;
            }
            match cls {
                0 => r.pick(&ALU_R),
                1 => r.pick(&ALU_I),
                2 => r.pick(&LOAD),
                3 => r.pick(&STORE),
                4 => r.pick(&BRANCH),
                5 => Op::JAL,
                6 => Op::JALR,
                7 => Op::LUI,
                8 => Op::AUIPC,
                _ => r.pick(&M),
            }
        }
    };
    let mut rd = if r.chance(1, 12) { 0 } else { any_reg(r, hot) };
    let mut rs1 = any_reg(r, hot);
    let mut rs2 = if r.chance(1, 12) { rs1 } else { any_reg(r, hot) };
    if r.chance(1, 10) {
        rd = rs1;
    }
    let pc = m.pc as i64;
    let target = |r: &mut Rng| -> i64 {
        if r.chance(1, 3) {
            // short hops
            pc + 4 * r.range(-6, 8)
        } else if r.chance(1, 6) {
            rom.iter().enumerate().filter(|(_, w)| w.is_some()).map(|(i, _)| i as i64 * 4).nth(r.us(8)).unwrap_or(0)
        } else {
            4 * r.us(rom.len()) as i64
        }
    };
    if op.is_load() || op.is_store() {
        let w = op.width();
        let bytes = m.ram.len() as u32;
        let a = match r.below(6) {
            0 => r.below(8) as u32,
            1 => bytes - 1 - r.below(8.min(bytes as u64)) as u32,
            2 if !touched.is_empty() => (r.pick(touched) & !3).wrapping_sub(BASE) + r.below(4) as u32,
            _ => r.below(bytes as u64) as u32,
        };
        let a = BASE + (a.min(bytes - 1) & !(w - 1));
        let cands: Vec<u32> = (0..32u32).filter(|k| (-2048..2048).contains(&(a.wrapping_sub(m.x[*k as usize]) as i32))).collect();
        if cands.is_empty() {
            // make an address register
            return ins(Op::LUI, 1 + r.below(31) as u32, 0, 0, ((a + 0x800) & 0xffff_f000) as i32);
        }
        rs1 = r.pick(&cands);
        return ins(op, rd, rs1, rs2, a.wrapping_sub(m.x[rs1 as usize]) as i32);
    }
    match op {
        Op::LUI | Op::AUIPC => {
            let v = if r.chance(1, 6) { r.pick(&[0x40000u32, 0x41000, 0x80000000, 0x7ffff000, 0xfffff000, 0]) } else { r.word() ^ (r.u32() & 0xffff_f000 & if r.chance(1, 2) { !0 } else { 0 }) };
            ins(op, rd, 0, 0, (v & 0xffff_f000) as i32)
        }
        Op::JAL => {
            let t = if last && r.chance(1, 2) { pc + 4 * r.range(-(1 << 17), (1 << 17) - 1) } else { target(r) };
            ins(op, rd, 0, 0, (t - pc) as i32)
        }
        Op::JALR => {
            if last && r.chance(1, 2) {
                return ins(op, rd, rs1, 0, imm12(r));
            }
            let t = target(r).clamp(0, 4 * rom.len() as i64 - 4) as u32;
            let cands: Vec<u32> = (0..32u32).filter(|k| (-2048..2047).contains(&(t.wrapping_sub(m.x[*k as usize]) as i32))).collect();
            if cands.is_empty() {
                return ins(Op::LUI, 1 + r.below(31) as u32, 0, 0, ((t + 0x800) & 0xffff_f000) as i32);
            }
            rs1 = r.pick(&cands);
            let odd = r.chance(1, 3) as i32;
            ins(op, rd, rs1, 0, t.wrapping_sub(m.x[rs1 as usize]) as i32 + odd)
        }
        _ if op.is_branch() => {
            // prefer related operands
            if r.chance(1, 2) {
                let a = m.x[rs1 as usize];
                if let Some(k) = (0..32u32).filter(|k| *k != rs1).find(|k| {
                    let d = m.x[*k as usize].wrapping_sub(a) as i32;
                    d.unsigned_abs() <= 1 || (m.x[*k as usize] ^ a).count_ones() <= 1
                }) {
                    rs2 = k;
                }
                if r.chance(1, 2) {
                    std::mem::swap(&mut rs1, &mut rs2);
                }
            }
            let t = if last && r.chance(1, 2) { pc + 4 * r.range(-1024, 1023) } else { target(r) };
            let d = (t - pc).clamp(-4096, 4092) as i32;
            ins(op, 0, rs1, rs2, d)
        }
        Op::SLLI | Op::SRLI | Op::SRAI => {
            let s = if r.chance(1, 3) { r.pick(&[0, 1, 7, 8, 15, 16, 17, 30, 31]) } else { r.below(32) as i32 };
            ins(op, rd, rs1, 0, s)
        }
        _ if ALU_I.contains(&op) => {
            let imm = if matches!(op, Op::SLTI | Op::SLTIU) && r.chance(1, 3) { (m.x[rs1 as usize] as i32).clamp(-2048, 2047) + r.range(-1, 1) as i32 } else { imm12(r) };
            ins(op, rd, rs1, 0, imm.clamp(-2048, 2047))
        }
        _ => ins(op, rd, rs1, rs2, 0),
    }
}

/// An index below `n`, mostly next to a multiple of a large power of two.
pub fn edge(r: &mut Rng, n: usize) -> usize {
    if r.chance(1, 4) {
        return r.us(n);
    }
    let bits = usize::BITS - (n - 1).leading_zeros();
    let k = r.below(bits as u64 + 1) as u32;
    let m = (r.us((n >> k) + 1) << k) as i64;
    (m - if r.chance(3, 4) { 1 } else { r.range(-1, 2) }).rem_euclid(n as i64) as usize
}

fn imm_chain(r: &mut Rng, a: u32) -> i32 {
    match r.below(4) {
        // the low bits of the address
        0 => (a & ((1 << (1 + r.below(11))) - 1)) as i32,
        // as much below the address as brings the base to a round number
        1 => -((a.wrapping_neg() & ((1 << (1 + r.below(11))) - 1)) as i32),
        _ => imm12(r),
    }
}

/// Accesses all over a large memory: far apart, next to round addresses, with carries between base and offset.
pub fn wide_mem(r: &mut Rng, ram_words: usize, cycles: usize) -> Prog {
    let ram: Vec<u8> = (0..ram_words).flat_map(|_| r.u32().to_le_bytes()).collect();
    let mut regs = [0u32; 32];
    let mut at: Vec<(u32, u32)> = Vec::new();
    for k in 1..32u32 {
        if k < 24 {
            let a = BASE + 4 * edge(r, ram_words) as u32 + r.below(4) as u32;
            regs[k as usize] = a.wrapping_sub(imm_chain(r, a) as u32);
            at.push((k, a));
        } else {
            regs[k as usize] = r.word();
        }
    }
    let mut code = Vec::new();
    for _ in 0..cycles {
        let (rs1, a) = r.pick(&at);
        let op = if r.chance(1, 2) { r.pick(&STORE) } else { r.pick(&LOAD) };
        let a = a & !(op.width() - 1);
        let imm = a.wrapping_sub(regs[rs1 as usize]) as i32;
        if !(-2048..2048).contains(&imm) {
            continue;
        }
        let i = if op.is_store() { ins(op, 0, rs1, r.below(32) as u32, imm) } else { ins(op, 24 + r.below(8) as u32, rs1, 0, imm) };
        code.push(i.enc());
    }
    let cycles = code.len();
    Prog { rom: code, regs, ram, cycles }
}

/// Jumps, links and pc-relative addresses all over a large program.
pub fn wide_flow(r: &mut Rng, rom: usize, cycles: usize) -> Prog {
    let mut regs = [0u32; 32];
    for k in 12..22 {
        let a = 4 * edge(r, rom) as u32;
        regs[k] = a.wrapping_sub(imm_chain(r, a) as u32);
    }
    for k in 11..16 {
        regs[2 * k] = r.word();
        regs[2 * k + 1] = r.word_near(regs[2 * k]);
    }
    let mut m = Ref::new((0..rom).map(fill).collect(), regs, vec![0; 16]);
    let mut set = std::collections::HashSet::new();
    let mut done = 0;
    // the way to the first far place
    m.rom[0] = ins(Op::JAL, 1, 0, 0, 4 * edge(r, rom) as i32).enc();
    set.insert(0);
    while done < cycles {
        let slot = m.pc as usize / 4;
        if m.pc % 4 != 0 || slot >= rom {
            break;
        }
        if set.insert(slot) {
            let rd = 1 + r.below(11) as u32;
            let last = done + 1 == cycles;
            let t = if r.chance(1, 2) { (slot ^ ((1 << r.below(17)) - 1) ^ (r.us(4))) % rom } else { edge(r, rom) };
            let mut i = ins(Op::JAL, rd, 0, 0, 4 * t as i32 - m.pc as i32);
            match r.below(8) {
                0..=2 if slot + 1 < rom && !set.contains(&(slot + 1)) => {
                    let h = m.pc >> 12;
                    let k = 1 + r.below(20);
                    let v = match r.below(4) {
                        0 => r.u32(),
                        // a sum of ones up to bit k, or one more
                        1 | 2 => ((r.u32() << k) | ((1 << k) - 1)).wrapping_sub(h).wrapping_add(r.below(2) as u32),
                        _ => !h ^ (1 << r.below(20)),
                    };
                    i = ins(Op::AUIPC, rd, 0, 0, (v << 12) as i32);
                }
                3 | 4 => {
                    let rs1 = 12 + r.below(10) as u32;
                    let t = 4 * edge(r, rom) as u32;
                    let d = t.wrapping_sub(m.x[rs1 as usize]) as i32;
                    let d = if (-2048..2047).contains(&d) { d + r.below(2) as i32 } else { -(m.x[rs1 as usize] as i32 & 3) + 4 * r.range(-500, 500) as i32 };
                    let n = m.x[rs1 as usize].wrapping_add(d as u32) & !1;
                    if last || (n % 4 == 0 && (n as usize / 4) < rom) {
                        i = ins(Op::JALR, rd, rs1, 0, d);
                    }
                }
                5 => {
                    let k = 2 * (11 + r.below(5) as u32);
                    let lo = (slot as i64 - 1024).max(0);
                    let hi = (slot as i64 + 1023).min(rom as i64 - 1);
                    let t = if r.chance(1, 2) { (slot as i64 ^ ((1 << r.below(11)) - 1)).clamp(lo, hi) } else { r.range(lo, hi) };
                    let (a, b) = if r.chance(1, 2) { (k, k + 1) } else { (k + 1, k) };
                    i = ins(r.pick(&BRANCH), 0, a, b, 4 * (t - slot as i64) as i32);
                }
                _ => {}
            }
            m.rom[slot] = i.enc();
        }
        if m.step().is_err() {
            break;
        }
        done += 1;
    }
    Prog { rom: m.rom, regs, ram: vec![0; 16], cycles: done }
}

/// Simplifications of a program, for minimisation.
pub fn shrink(p: &Prog) -> Vec<Prog> {
    let mut out = Vec::new();
    for c in [1, p.cycles / 2, p.cycles.saturating_sub(1)] {
        if c > 0 && c < p.cycles {
            out.push(Prog { cycles: c, ..p.clone() });
        }
    }
    if p.regs.iter().any(|x| *x != 0) {
        out.push(Prog { regs: [0; 32], ..p.clone() });
        for k in 1..32 {
            if p.regs[k] != 0 {
                let mut q = p.clone();
                q.regs[k] = 0;
                out.push(q);
            }
        }
    }
    if p.ram.iter().any(|x| *x != 0) {
        out.push(Prog { ram: vec![0; p.ram.len()], ..p.clone() });
    }
    // neutralise instructions
    if p.rom.iter().any(|w| *w != 0x13) {
        let m0 = {
            let mut m = p.machine();
            let mut used = vec![false; p.rom.len()];
            for _ in 0..p.cycles {
                let s = (m.pc / 4) as usize;
                if s < used.len() {
                    used[s] = true;
                }
                if m.step().is_err() {
                    break;
                }
            }
            used
        };
        let mut q = p.clone();
        for (i, u) in m0.iter().enumerate() {
            if !u && p.rom.len() <= 512 {
                q.rom[i] = 0x13;
            }
        }
        if q.rom != p.rom {
            out.push(q);
        }
        for (i, u) in m0.iter().enumerate() {
            if *u && p.rom[i] != 0x13 {
                let mut q = p.clone();
                q.rom[i] = 0x13;
                out.push(q);
            }
        }
    }
    out
}
