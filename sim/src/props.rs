//! Seeded generators: the i-th spec of each property's check.
use crate::elf::{self, Image, Seg, PT_LOAD, R, W, X};
use crate::gen::*;
use crate::json::J;
use crate::rng::Rng;
use crate::rv::*;
use crate::sys::*;

pub const ALL: [&str; 16] = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16"];

const SMALL: [u32; 3] = [32, 14, 1];
/// The shipped parameters.
const PROD: [u32; 3] = [0, 0, 0];

pub fn dims(d: [u32; 3]) -> J {
    J::from(&d[..])
}
/// Mostly the cheapest dimensions, sometimes larger rings and ranks.
fn pick_dims(r: &mut Rng) -> [u32; 3] {
    match r.below(16) {
        0 => [32, 14, 2],
        1 => [64, 14, 1],
        2 => [32, 21, 1],
        3 => [64, 7, 2],
        4 => [128, 14, 1],
        _ => SMALL,
    }
}
pub fn pick_threads(r: &mut Rng) -> usize {
    if r.chance(1, 3) {
        r.pick(&[1usize, 2, 3, 4])
    } else {
        r.pick(&[1usize, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 40, 64])
    }
}
/// A quiet schedule: no preemption, lowest runnable thread first.
pub fn calm(r: &mut Rng) -> J {
    J::obj().with("seed", r.u64() >> 16).with("entropy", r.u64() >> 16).with("hash", r.u64() >> 16).with("preempt", 0).with("policy", 1)
}
pub fn swarm(r: &mut Rng) -> J {
    let mut s = calm(r);
    s.set("preempt", r.pick(&[0u64, 1 << 18, 1 << 21, 1 << 24, 1 << 27, 1 << 29]));
    s.set("policy", r.below(4));
    if r.chance(2, 3) {
        s.set("garbage", 1 + r.below(1 << 40));
    }
    s.set("cpus", r.pick(&[1u64, 2, 4, 8, 64]));
    s
}
pub fn fault(kind: u32, n: u64, every: u64, arg: u64) -> J {
    J::obj().with("kind", FAULTS[kind as usize]).with("n", n).with("every", every).with("arg", arg)
}
/// Faults that only delay.
pub fn soft_faults(r: &mut Rng) -> Vec<J> {
    let mut f = Vec::new();
    for _ in 0..r.below(4) {
        f.push(match r.below(5) {
            0 => fault(F_SPURIOUS, 1 + r.below(40), r.pick(&[0u64, 1, 2, 3, 7]), 0),
            1 => fault(F_EINTR_WAIT, 1 + r.below(40), r.pick(&[0u64, 2, 3, 5]), 0),
            2 => fault(F_STALL, 1 + r.logu(400_000), r.pick(&[0u64, 50_000]), r.logu(200_000)),
            3 => fault(F_MONO_JUMP, 1 + r.below(60), r.pick(&[0u64, 5, 17]), r.logu(1 << 50)),
            _ => fault(F_REAL_JUMP, 1 + r.below(60), 0, (r.logu(1 << 55) as i64 * if r.chance(1, 2) { 1 } else { -1 }) as u64),
        });
    }
    f
}
pub fn phase(sched: J, faults: Vec<J>, body: J) -> J {
    J::obj().with("sched", sched).with("faults", J::Arr(faults)).with("body", body)
}
fn threads_j(t: &[usize]) -> J {
    J::Arr(t.iter().map(|x| J::from(*x)).collect())
}
fn base(prop: &str, kind: &str, d: [u32; 3], ph: Vec<J>) -> J {
    let j = J::obj().with("property", prop).with("kind", kind).with("phases", J::Arr(ph));
    if d == PROD {
        // the shipped parameters: about 15 s of computation per cycle
        j.with("dims", J::Null).with("cpu_limit", 1200)
    } else {
        j.with("dims", dims(d))
    }
}

fn rom_size(r: &mut Rng) -> usize {
    r.pick(&[1usize, 2, 3, 5, 8, 12, 16, 24, 31, 32, 33, 40, 48, 64, 65, 100, 128, 200])
}
fn ram_size(r: &mut Rng) -> usize {
    r.pick(&[1usize, 2, 3, 4, 5, 7, 8, 16, 31, 32, 33, 40, 64, 65, 96, 100, 128, 256, 300, 1024])
}

/// A program, with weights `w`.
pub fn prog(r: &mut Rng, w: [u64; 10], cycles: usize, focus: Option<Op>) -> Prog {
    let rom = rom_size(r).max(if r.chance(2, 3) { 16 } else { 1 });
    let c = Cfg { rom, ram_words: ram_size(r), cycles, zero_regs: r.chance(1, 8), m_ext: false, w, focus };
    generate(r, &c)
}

/// Programs and memories that need many address bits.
fn large(prop: &str, r: &mut Rng, w: [u64; 10], focus: Option<Op>, rom_large: bool) -> J {
    if r.chance(3, 4) {
        let n = r.pick(&[4096usize, 5000, 16384, 40000, 65536, 65536]);
        let c = r.pick(&[16usize, 24]);
        let p = if rom_large { wide_flow(r, n, if n < 10000 { c } else { c / 2 }) } else { wide_mem(r, n, c) };
        let ph = phase(swarm(r), vec![], J::obj().with("threads", threads_j(&[1 + r.us(4)])));
        return vm_spec(prop, &p, [128, 14, 1], r.u64() >> 16, vec![ph]).with("cpu_limit", 600);
    }
    let (rom, ram) = if rom_large { (r.pick(&[600usize, 1024, 1025, 3000, 16384, 40000, 65536]), r.pick(&[16usize, 64, 300])) } else { (r.pick(&[16usize, 40]), r.pick(&[1025usize, 2048, 3000, 4096, 16384, 65536])) };
    let big = rom.max(ram) > 5000;
    let c = Cfg { rom, ram_words: ram, cycles: if big { 10 } else { 12 }, zero_regs: false, m_ext: false, w, focus };
    let p = generate(r, &c);
    let d = if big { [128, 14, 1] } else { r.pick(&[[64u32, 14, 1], [128, 14, 1]]) };
    let ph = phase(swarm(r), vec![], J::obj().with("threads", threads_j(&[1 + r.us(4)])));
    vm_spec(prop, &p, d, r.u64() >> 16, vec![ph]).with("cpu_limit", 600)
}

/// Many short programs under one set of keys. `flow`: each ends in a jump or branch to anywhere; otherwise
/// each is a few operations on chosen operands.
fn burst(prop: &str, r: &mut Rng, flow: bool) -> J {
    let d = pick_dims(r);
    let n = if flow { 30 } else { 14 };
    let mut ps = Vec::new();
    while ps.len() < n {
        let rom = r.pick(&[1usize, 2, 5, 16, 33, 100]);
        let ram: Vec<u8> = (0..4 * r.pick(&[1usize, 2, 8])).map(|_| r.u32() as u8).collect();
        let mut regs = [0u32; 32];
        for k in 1..16 {
            regs[2 * k] = r.word();
            regs[2 * k + 1] = r.word_near(regs[2 * k]);
            if flow && r.chance(1, 2) {
                // the same down to some bit
                let b = r.below(32);
                regs[2 * k + 1] = regs[2 * k] ^ 1 << b ^ (r.u32() & ((1u64 << b) - 1) as u32);
            }
        }
        let mut code: Vec<u32> = (0..rom).map(|_| ins(Op::ADDI, r.below(32) as u32, r.below(32) as u32, 0, imm12(r)).enc()).collect();
        let pair = |r: &mut Rng| {
            let k = 1 + r.below(15) as u32;
            match r.below(8) {
                0 => (2 * k, r.below(32) as u32),
                1 => (0, 2 * k),
                2 => (2 * k, 0),
                x if x < 6 => (2 * k, 2 * k + 1),
                _ => (2 * k + 1, 2 * k),
            }
        };
        let cycles;
        if flow {
            let at = if rom > 1 && r.chance(1, 2) { 1 + r.us(rom - 1) } else { 0 };
            if at > 0 {
                code[0] = ins(Op::JAL, 0, 0, 0, 4 * at as i32).enc();
            }
            let (a, b) = pair(r);
            code[at] = match r.below(8) {
                0 | 1 => {
                    let imm = imm12(r);
                    if a > 0 && r.chance(2, 3) {
                        // a target next to a round number
                        let k = r.below(33);
                        let t = if r.chance(1, 2) { r.word() } else { (r.u32() as u64 >> k << k) as u32 };
                        regs[a as usize] = t.wrapping_sub(imm as u32).wrapping_add(r.range(-1, 1) as u32);
                    }
                    ins(Op::JALR, r.below(32) as u32, a, 0, imm)
                }
                2 => {
                    let t = if r.chance(1, 2) { r.range(-(1 << 17), (1 << 17) - 1) } else { (r.range(-1, 1) + (1 << r.below(17))) * r.pick(&[1, -1]) - r.pick(&[0, at as i64]) };
                    ins(Op::JAL, r.below(32) as u32, 0, 0, 4 * t.clamp(-(1 << 17), (1 << 17) - 1) as i32)
                }
                // backwards from here is a pc with all its high bits set
                _ => ins(r.pick(&BRANCH), 0, a, b, 4 * if r.chance(1, 2) { r.range(-1024, -1 - at as i64) } else { r.range(-1024, 1023) } as i32),
            }
            .enc();
            cycles = 1 + (at > 0) as usize;
        } else {
            let c = rom.min(6);
            for w in code.iter_mut().take(c) {
                let (a, b) = pair(r);
                // results go where they do not disturb the operands
                *w = match r.below(8) {
                    0 => ins(r.pick(&[Op::LUI, Op::AUIPC]), (r.below(8) > 0) as u32, 0, 0, (r.word() & 0xffff_f000) as i32),
                    x if x < 5 => ins(r.pick(&ALU_R), (r.below(8) > 0) as u32, a, b, 0),
                    _ => {
                        let op = r.pick(&ALU_I);
                        let imm = if matches!(op, Op::SLLI | Op::SRLI | Op::SRAI) { r.below(32) as i32 } else { imm12(r) };
                        ins(op, (r.below(8) > 0) as u32, if r.chance(1, 2) { a } else { b }, 0, imm)
                    }
                }
                .enc();
            }
            cycles = c;
        }
        ps.push(Prog { rom: code, regs, ram, cycles });
    }
    let f = if r.chance(1, 4) { soft_faults(r) } else { vec![] };
    let ph = phase(swarm(r), f, J::obj().with("threads", threads_j(&[1 + r.us(3), 1 + r.us(2)])));
    base(prop, "burst", d, vec![ph]).with("progs", J::Arr(ps.iter().map(|p| p.to_json()).collect())).with("keyseed", r.u64() >> 16)
}

/// A long execution.
fn long(prop: &str, r: &mut Rng, w: [u64; 10], cycles: usize) -> J {
    let c = Cfg { rom: r.pick(&[100usize, 200]), ram_words: r.pick(&[16usize, 33, 64]), cycles, zero_regs: false, m_ext: false, w, focus: None };
    let p = (0..20).map(|_| generate(r, &c)).max_by_key(|p| p.cycles).unwrap();
    let ph = phase(swarm(r), vec![], J::obj().with("threads", threads_j(&[1, 2, 1])));
    vm_spec(prop, &p, SMALL, r.u64() >> 16, vec![ph]).with("cpu_limit", 900)
}

pub fn vm_spec(prop: &str, p: &Prog, d: [u32; 3], keyseed: u64, ph: Vec<J>) -> J {
    base(prop, "vm", d, ph).with("prog", p.to_json()).with("keyseed", keyseed)
}

fn one_vm(prop: &str, r: &mut Rng, mut p: Prog, prod: bool) -> J {
    let d = if prod { PROD } else { pick_dims(r) };
    // most cycles run on few workers, which is cheaper; many workers get short programs
    let t: Vec<usize> = if prod {
        vec![1 + r.us(3)]
    } else if r.chance(1, 2) {
        vec![1 + r.us(4)]
    } else if r.chance(1, 2) {
        vec![pick_threads(r)]
    } else {
        (0..3).map(|_| pick_threads(r)).collect()
    };
    if t.iter().any(|x| *x > 8) {
        p.cycles = p.cycles.min(8);
    }
    if prod {
        p.cycles = p.cycles.min(2);
    }
    let f = if r.chance(1, 3) { soft_faults(r) } else { vec![] };
    let ph = phase(swarm(r), f, J::obj().with("threads", threads_j(&t)));
    vm_spec(prop, &p, d, r.u64() >> 16, vec![ph])
}

/// An image whose output region is the whole RAM.
fn full_image(r: &mut Rng, rom: &[u32], ram: &[u8], inp: (u32, u32)) -> Image {
    let text: Vec<u8> = rom.iter().flat_map(|w| w.to_le_bytes()).collect();
    let mut segs = vec![Seg { ptype: PT_LOAD, flags: R | X, vaddr: 0, memsz: text.len() as u32, data: text }];
    let cut = r.below(4097) as usize;
    segs.push(Seg { ptype: PT_LOAD, flags: R, vaddr: BASE, data: ram[..cut].to_vec(), memsz: cut as u32 });
    segs.push(Seg { ptype: PT_LOAD, flags: R | W, vaddr: BASE + cut as u32, data: ram[cut..].to_vec(), memsz: (4096 - cut) as u32 });
    Image { segs, sections: vec![(".inpdata".into(), inp.0, inp.1), (".outdata".into(), BASE, 4096)], pad: vec![0, r.below(9) as u32, 0], shdr_first: false, entry: 0 }
}
fn rnd_ram(r: &mut Rng) -> Vec<u8> {
    (0..1024).flat_map(|_| (if r.chance(1, 3) { 0 } else if r.chance(1, 2) { r.word() } else { r.u32() }).to_le_bytes()).collect()
}
fn rnd_bytes(r: &mut Rng, n: usize) -> Vec<u8> {
    (0..n).map(|_| if r.chance(1, 4) { r.pick(&[0u8, 0xff, 0x80, 0x7f, 1]) } else { r.u32() as u8 }).collect()
}
/// Appends stores of all registers, so that they become visible in RAM.
fn dump_regs(p: &mut Prog, room: usize) {
    // executed slots only: run to the end, then place the epilogue where execution arrives
    let mut m = p.machine();
    m.m_ext = true;
    for _ in 0..p.cycles {
        if m.step().is_err() {
            return;
        }
    }
    let at = (m.pc / 4) as usize;
    let free = (at..at + 33).all(|s| s >= p.rom.len() - room && s < p.rom.len());
    let mut code = Vec::new();
    if !free {
        // jump to the reserved area
        if at >= p.rom.len() {
            return;
        }
    }
    let target = if free { at } else { p.rom.len() - room };
    let mut v = Vec::new();
    v.push(ins(Op::LUI, 31, 0, 0, BASE as i32).enc());
    for k in 1..31u32 {
        v.push(ins(Op::SW, 0, 31, k, 4 * k as i32).enc());
    }
    code.extend(v);
    let mut extra = code.len();
    if !free {
        p.rom[at] = ins(Op::JAL, 0, 0, 0, (target as i32 - at as i32) * 4).enc();
        extra += 1;
    }
    for (i, w) in code.into_iter().enumerate() {
        p.rom[target + i] = w;
    }
    p.cycles += extra;
}

/// A program that goes round for ever: arithmetic and memory accesses at fixed places.
fn endless(r: &mut Rng, n: usize) -> Vec<u32> {
    let reg = |r: &mut Rng| 5 + r.below(16) as u32;
    let mut v = vec![ins(Op::LUI, 1, 0, 0, BASE as i32).enc()];
    while v.len() + 1 < n {
        let (a, b, c) = (reg(r), reg(r), reg(r));
        v.push(
            match r.below(4) {
                0 => ins(r.pick(&ALU_R), a, b, c, 0),
                1 => {
                    let op = r.pick(&ALU_I);
                    ins(op, a, b, 0, if matches!(op, Op::SLLI | Op::SRLI | Op::SRAI) { r.below(32) as i32 } else { imm12(r) })
                }
                2 => {
                    let (op, k) = r.pick(&[(Op::LW, 4), (Op::LH, 2), (Op::LHU, 2), (Op::LB, 1), (Op::LBU, 1)]);
                    ins(op, a, 1, 0, (r.below(2048) / k * k) as i32)
                }
                _ => {
                    let (op, k) = r.pick(&[(Op::SW, 4), (Op::SH, 2), (Op::SB, 1)]);
                    ins(op, 0, 1, b, (r.below(2048) / k * k) as i32)
                }
            }
            .enc(),
        );
    }
    v.push(ins(Op::JAL, 0, 0, 0, -4 * (v.len() as i32 - 1)).enc());
    v
}

fn testvm_spec(prop: &str, r: &mut Rng, m_ext: bool, long: bool) -> J {
    let rom = r.pick(&[40usize, 64, 128, 300]);
    let w = if m_ext { [6, 4, 3, 3, 3, 1, 1, 2, 1, 20] } else { W_ALL };
    let ram = rnd_ram(r);
    let n_in = r.pick(&[0u32, 1, 4, 64, 255]);
    let inp = (BASE + r.below(4096 - n_in as u64 + 1) as u32, n_in);
    let input = rnd_bytes(r, n_in as usize);
    let mut boot = ram.clone();
    let o = (inp.0 - BASE) as usize;
    boot[o..o + input.len()].copy_from_slice(&input);
    let c = Cfg { rom, ram_words: 1024, cycles: r.pick(&[20usize, 60, 150, 400]), zero_regs: true, m_ext, w, focus: if m_ext && r.chance(1, 3) { Some(r.pick(&M)) } else { None } };
    // the last 34 slots stay free for the register dump
    let mut p = generate_on(r, &Cfg { rom: rom - 34, ..c }, boot.clone(), [0; 32]);
    if long {
        p.rom = endless(r, rom - 34);
        p.cycles = 66_000 + r.us(4000);
    }
    p.rom.resize(rom, 0x13);
    // undo: anything outside the generated part falls through to the dump
    if p.cycles > 0 && !long {
        dump_regs(&mut p, 34);
    }
    let img = full_image(r, &p.rom, &ram, inp);
    let _ = boot;
    base(prop, "testvm", SMALL, vec![phase(calm(r), vec![], J::obj())])
        .with("image", img.to_json())
        .with("input", J::hex(&input))
        .with("cycles", p.cycles)
        .with("batch", true)
}

/// Program + image + tape for the full product.
struct Full {
    img: Image,
    input: Vec<u8>,
    cycles: usize,
}
fn full(r: &mut Rng, cycles: usize, w: [u64; 10], whole_out: bool) -> Full {
    let rom = r.pick(&[8usize, 16, 32, 33, 64, 100]);
    loop {
        let mut img = if whole_out {
            let n_in = r.pick(&[0u32, 1, 4, 20, 64, 256]);
            let inp = (BASE + r.below(4096 - n_in as u64 + 1) as u32, n_in);
            let ram = rnd_ram(r);
            full_image(r, &[0x13], &ram, inp)
        } else {
            elf::gen_image(r, &[0x13])
        };
        let d = match elf::read(&img.bytes()) {
            Ok(d) => d,
            Err(_) => continue,
        };
        let input = rnd_bytes(r, d.inp.1 as usize);
        let mut ram = d.ram.clone();
        let o = (d.inp.0 - BASE) as usize;
        if o + input.len() > 4096 || (d.out.0 - BASE) as usize + d.out.1 as usize > 4096 {
            continue;
        }
        ram[o..o + input.len()].copy_from_slice(&input);
        let p = generate_on(r, &Cfg { rom, ram_words: 1024, cycles, zero_regs: true, m_ext: false, w, focus: None }, ram, [0; 32]);
        let text: Vec<u8> = p.rom.iter().flat_map(|w| w.to_le_bytes()).collect();
        let t = img.segs.iter_mut().find(|s| s.flags == R | X).unwrap();
        t.memsz = text.len() as u32;
        t.data = text;
        return Full { img, input, cycles: p.cycles };
    }
}
/// The same image but for one instruction or one byte of data.
fn twin(r: &mut Rng, f: &Full) -> Full {
    let mut img = f.img.clone();
    let text = r.chance(1, 2);
    let n = img.segs.iter().filter(|s| (s.flags == R | X) == text && !s.data.is_empty()).count();
    if n > 0 {
        let k = r.us(n);
        let s = img.segs.iter_mut().filter(|s| (s.flags == R | X) == text && !s.data.is_empty()).nth(k).unwrap();
        if text {
            // one that is executed
            let mut m = crate::scen::boot(&elf::read(&f.img.bytes()).expect("harness image"), &f.input);
            let mut pcs = vec![];
            for _ in 0..f.cycles {
                pcs.push(m.pc as usize);
                if m.step().is_err() {
                    break;
                }
            }
            let at = if r.chance(1, 2) { pcs.last().copied() } else { pcs.get(r.us(pcs.len().max(1))).copied() }.unwrap_or(0).min(s.data.len() - 4);
            let w = ins(Op::ADDI, 1 + r.below(31) as u32, 0, 0, imm12(r)).enc();
            s.data[at..at + 4].copy_from_slice(&w.to_le_bytes());
        } else {
            let at = r.us(s.data.len());
            s.data[at] ^= 1 << r.below(8);
        }
    }
    Full { img, input: f.input.clone(), cycles: f.cycles }
}
fn chunks(mc: usize, calls: usize) -> J {
    J::Arr((0..calls).map(|_| J::from(mc)).collect())
}

fn cpuinfo(r: &mut Rng) -> String {
    let phys = 1 + r.below(3);
    let cores = 1 + r.below(5);
    let mut s = String::new();
    match r.below(5) {
        0 => {}
        1 => s.push_str("processor\t: 0\nBogoMIPS\t: 48.00\nFeatures\t: fp asimd\n"),
        2 => s.push_str("physical id\t: x\ncore id : ?\n\n:::\n\n"),
        _ => {
            for p in 0..phys {
                for c in 0..cores {
                    for _ in 0..1 + r.below(2) {
                        s.push_str(&format!("processor\t: {}\nphysical id\t: {p}\ncore id\t\t: {c}\ncpu cores\t: {cores}\n\n", p * cores + c));
                    }
                }
            }
        }
    }
    s
}

pub struct Probe {
    pub creates: u64,
    pub waits: u64,
    pub allocs: u64,
    pub big_allocs: u64,
    pub out_writes: u64,
    pub steps: u64,
}

/// Spec number `i` of a check. `probe` tells how many fault opportunities a comparable run has.
pub fn spec(prop: &str, i: u64, seed: u64, deep: bool, probe: &dyn Fn(&J) -> Probe) -> J {
    // one early execution with the shipped parameters, and a few more in the thorough tier
    let prod = i == 3 || (deep && i % 200 == 100);
    let mut r = Rng::new(crate::rng::mix(seed).wrapping_mul(0x2545_f491_4f6c_dd1d) ^ crate::rng::mix(i.wrapping_mul(977) + prop.bytes().fold(0u64, |a, b| a * 257 + b as u64)));
    let r = &mut r;
    let s = match prop {
        "C01" if i == 1 || (deep && i % 100 == 70) => long(prop, r, W_ALL, if deep { 2000 } else { 300 }),
        "C01" if !prod && i % 5 == 2 => burst(prop, r, false),
        "C04" if !prod && i % 3 == 2 => burst(prop, r, true),
        "C01" => {
            let cyc = r.pick(&[6usize, 10, 16, 24]);
            // the first specs visit every opcode
            let focus = if i < 74 { Some(RV32I[(i % 37) as usize]) } else if r.chance(1, 2) { Some(r.pick(&RV32I)) } else { None };
            if !prod && i % 24 == 20 {
                return large(prop, r, W_ALL, focus, i % 48 == 20).with("index", i).with("seed", seed);
            }
            let p = prog(r, W_ALL, cyc, focus);
            one_vm(prop, r, p, prod)
        }
        "C03" if i == 1 || (deep && i % 100 == 70) => long(prop, r, W_MEM, if deep { 2000 } else { 300 }),
        "C03" => {
            let cyc = r.pick(&[8usize, 14, 20, 32]);
            let focus = if r.chance(1, 3) { Some(r.pick(&[Op::SB, Op::SH, Op::SW, Op::LB, Op::LH, Op::LBU, Op::LHU, Op::LW])) } else { None };
            if !prod && i % 10 == 5 {
                return large(prop, r, W_MEM, focus, false).with("index", i).with("seed", seed);
            }
            let p = prog(r, W_MEM, cyc, focus);
            one_vm(prop, r, p, prod)
        }
        "C04" if i == 1 || (deep && i % 100 == 70) => long(prop, r, W_FLOW, if deep { 2000 } else { 300 }),
        "C04" => {
            let cyc = r.pick(&[6usize, 10, 16, 24]);
            let focus = if r.chance(1, 2) { Some(r.pick(&[Op::BEQ, Op::BNE, Op::BLT, Op::BGE, Op::BLTU, Op::BGEU, Op::JAL, Op::JALR, Op::AUIPC])) } else { None };
            if !prod && i % 10 == 5 {
                return large(prop, r, W_FLOW, focus, true).with("index", i).with("seed", seed);
            }
            let p = prog(r, W_FLOW, cyc, focus);
            one_vm(prop, r, p, prod)
        }
        "C02" => {
            let p = prog(r, W_ALL, if i % 24 == 13 { 20 } else { r.clone().pick(&[2usize, 3, 4]) }, None);
            let d = if prod { PROD } else { pick_dims(r) };
            let mut p = p;
            if prod {
                p.cycles = 1;
            }
            let mut ph = vec![phase(calm(r), vec![], J::obj().with("threads", threads_j(&[1])))];
            for _ in 0..if prod { 1 } else { 2 } {
                let t: Vec<usize> = if r.chance(1, 2) { vec![pick_threads(r)] } else { (0..3).map(|_| pick_threads(r)).collect() };
                let f = if r.chance(1, 2) { soft_faults(r) } else { vec![] };
                ph.push(phase(swarm(r), f, J::obj().with("threads", threads_j(&t))));
            }
            vm_spec(prop, &p, d, r.u64() >> 16, ph).with("bits", true)
        }
        "C15" => {
            let small = i % 32 == 4;
            let g = match i {
                _ if small => r.pick(&["template", "gen1", "string-match", "uniswap", "heap"]),
                0..=6 => crate::guest::GUESTS[i as usize],
                _ => r.pick(&["heap", "heap", "heap", "heap", "heap", "heap", "heap", "work", "work", "uniswap", "otc", "string-match", "template", "gen1"]),
            };
            let x = crate::guest::gen_input(r, g);
            let t = format!("{}", 1 + r.below(4));
            let f = if small && r.chance(1, 3) { soft_faults(r) } else { vec![] };
            let ph = phase(swarm(r), f, J::obj().with("env", J::obj().with("PHANTOM_THREADS", t.as_str())));
            let enc = if small { r.pick(&[60usize, 120, 240]) } else { 0 };
            base(prop, "guest", SMALL, vec![ph]).with("guest", g).with("input", J::hex(&x)).with("enc", enc).with("beyond", r.pick(&[0usize, 1, 50])).with("cpu_limit", 600)
        }
        "C16" => {
            let long = i % 16 == 5; // a long execution, timings only
            let n = if long { 10 + r.us(30) } else { r.pick(&[2usize, 3, 4, 6]) };
            let product = i % 3 == 2;
            let debug = i % 4 != 1;
            let verbose = !debug || r.chance(1, 3);
            let env = J::obj().with("PHANTOM_THREADS", format!("{}", 1 + r.below(4)).as_str());
            let on = |r: &mut Rng| r.pick(&["1", "true", "TRUE", "True"]);
            let env = if debug { env.with("PHANTOM_DEBUG", on(r)) } else { env };
            let env = if verbose { env.with("PHANTOM_VERBOSE_TIMINGS", on(r)) } else { env };
            let mut f = if r.chance(1, 2) { vec![] } else { soft_faults(r) };
            if product && debug {
                // the progress display panics when the clock is set back; on top of a noticed deviation that aborts
                f.retain(|f| f.get("kind").s() != FAULTS[F_REAL_JUMP as usize]);
            }
            let ph = phase(swarm(r), f, J::obj().with("env", env).with("threads", 1 + r.us(4)));
            let w = if r.chance(1, 2) { W_ALL } else { W_MEM };
            let mut s = base(prop, "diag", if !product { pick_dims(r) } else { SMALL }, vec![ph]).with("keyseed", 3 + i).with("debug", debug).with("verbose", verbose);
            let n = if product {
                let f = full(r, n, w, true);
                s = s.with("image", f.img.to_json()).with("input", J::hex(&f.input));
                f.cycles
            } else {
                let mut p = prog(r, w, n, None);
                if debug && !r.chance(1, 6) {
                    p = generate(r, &Cfg { rom: p.rom.len(), ram_words: p.ram.len() / 4, cycles: n, zero_regs: true, m_ext: false, w, focus: None });
                }
                let n = p.cycles;
                s = s.with("prog", p.to_json());
                n
            };
            let mut hits = Vec::new();
            if debug && r.chance(7, 8) {
                let part = r.pick(&[0usize, 0, 1, 1, 1, 2, 2, 2, 2, 2, 3, 4, 5, 6, 7, 8, 9]);
                let at = r.us(n);
                let how = if part == 0 || (part < 3 && r.chance(1, 3)) { "stale" } else { r.pick(&["swap", "move"]) };
                hits.push(J::obj().with("part", part).with("at", at).with("how", how).with("since", if at > 0 { r.us(at) } else { 0 }).with("from", r.below(64)).with("to", r.below(64)));
            }
            if !product && verbose && r.chance(1, 3) {
                // reports asked for in some of the cycles only
                let on: Vec<J> = (0..n).map(|_| J::from(r.chance(1, 2))).collect();
                s = s.with("on", J::Arr(on));
            }
            s.with("cycles", n).with("hits", J::Arr(hits))
        }
        "C05" if i % 5 == 2 => {
            // the product: progress output, tapes, thread choice
            let f = full(r, 2, W_ALL, true);
            let run = J::obj().with("input", J::hex(&f.input)).with("cycles", chunks(f.cycles, 1)).with("tapes", true);
            let mut env = J::obj().with("PHANTOM_THREADS", r.pick(&["1", "2", "3", "4", "8"]));
            if r.chance(1, 4) {
                env.set("PHANTOM_VERBOSE_TIMINGS", "1");
            }
            let mk = |fl: Vec<J>, s: J| {
                base(prop, "phantom", SMALL, vec![phase(s, fl, J::obj().with("env", env.clone()))]).with("image", f.img.to_json()).with("runs", J::Arr(vec![run.clone()]))
            };
            let pr = probe(&mk(vec![], calm(&mut Rng::new(5))));
            let at = |r: &mut Rng, tot: u64| 1 + r.below(tot.max(1));
            let fl = match r.below(8) {
                0 | 1 => vec![fault(F_SPAWN, at(r, pr.creates), 0, r.pick(&[0u64, 12]))],
                2 => vec![fault(F_ALLOC, at(r, pr.allocs), 0, 0)],
                3..=5 => vec![fault(if r.chance(1, 3) { F_STDOUT } else { F_STDERR }, at(r, pr.out_writes), r.pick(&[0u64, 1, 1]), r.pick(&[0u64, 1, 28, 32, 11]))],
                _ => soft_faults(r),
            };
            let s = swarm(r);
            mk(fl, s)
        }
        "C05" => {
            let p = prog(r, W_ALL, r.clone().pick(&[1usize, 2, 3]), None);
            let t = pick_threads(r);
            let mut body = J::obj().with("threads", threads_j(&[t]));
            if r.chance(1, 4) {
                body.set("verbose", true);
            }
            let mk = |f: Vec<J>, s: J| vm_spec(prop, &p, SMALL, 7 + i, vec![phase(s, f, body.clone())]);
            let pr = probe(&mk(vec![], calm(&mut Rng::new(5))));
            let mut f = Vec::new();
            // one isolated fault (half of the runs), delays only, or a mixture
            let mode = r.below(8);
            let n = if mode < 4 { 1 } else { 1 + r.below(3) };
            for _ in 0..n {
                let at = |r: &mut Rng, tot: u64| 1 + r.below(tot.max(1));
                if mode < 4 && r.chance(3, 4) {
                    f.push(fault(F_SPAWN, at(r, pr.creates), 0, r.pick(&[0u64, 12])));
                    break;
                }
                let k = if mode == 7 { 4 } else { r.below(8) };
                match k {
                    0 | 1 => f.push(fault(F_SPAWN, at(r, pr.creates), r.pick(&[0u64, 0, 0, 1, 2, 5]), r.pick(&[0u64, 12]))),
                    2 => f.push(fault(F_ALLOC, at(r, pr.allocs), 0, 0)),
                    3 => f.push(fault(F_ALLOC_BIG, at(r, pr.big_allocs), r.pick(&[0u64, 0, 3]), 0)),
                    5 => f.push(fault(if r.chance(1, 2) { F_STDOUT } else { F_STDERR }, at(r, pr.out_writes), r.pick(&[0u64, 1]), r.pick(&[0u64, 1, 28, 32, 11]))),
                    6 => f.push(fault(F_SPAWN, 1 + pr.creates / 4 + r.below(pr.creates.max(1)), 1, 0)),
                    _ => match r.below(3) {
                        0 => f.push(fault(F_SPURIOUS, at(r, pr.waits), r.pick(&[0u64, 1, 2]), 0)),
                        1 => f.push(fault(F_EINTR_WAIT, at(r, pr.waits), r.pick(&[0u64, 2, 3]), 0)),
                        _ => f.push(fault(F_STALL, at(r, pr.steps), 0, r.logu(pr.steps.max(2)))),
                    },
                }
            }
            let s = swarm(r);
            mk(f, s)
        }
        "C06" => {
            if r.chance(1, 3) {
                // the machine itself: verbose, debug, thread changes, clock jumps
                let mut p = prog(r, W_ALL, if i % 24 == 13 { 16 } else { 4 }, None);
                p.regs = [0; 32];
                let mut m = p.machine();
                let mut n = 0;
                while n < p.cycles && m.step().is_ok() {
                    n += 1;
                }
                p.cycles = n.max(1);
                if n == 0 {
                    p.rom[0] = ins(Op::ADDI, 5, 0, 0, 77).enc();
                }
                let d = pick_dims(r);
                let mut ph = vec![phase(calm(r), vec![], J::obj().with("threads", threads_j(&[2])))];
                for _ in 0..2 {
                    let t: Vec<usize> = (0..3).map(|_| pick_threads(r)).collect();
                    let mut f = vec![fault(F_MONO_JUMP, 1 + r.below(30), r.pick(&[0u64, 3]), r.logu(1 << 58))];
                    if r.chance(1, 2) {
                        f.push(fault(F_REAL_JUMP, 1 + r.below(30), 0, (-(r.logu(1 << 60) as i64)) as u64));
                    }
                    ph.push(phase(swarm(r), f, J::obj().with("threads", threads_j(&t)).with("debug", r.chance(1, 2)).with("verbose", r.chance(1, 2))));
                }
                vm_spec(prop, &p, d, r.u64() >> 16, ph).with("bits", true)
            } else {
                let calls = 1 + r.us(3);
                let mc = if i % 24 == 13 { 10 } else { r.pick(&[1usize, 1, 2, 3]) };
                let f = full(r, calls * mc, W_ALL, true);
                let calls = (f.cycles / mc).max(1);
                let mut run = J::obj().with("input", J::hex(&f.input)).with("cycles", chunks(mc, calls));
                if r.chance(1, 3) {
                    run.set("rethread", threads_j(&[pick_threads(r).min(8), pick_threads(r).min(8)]));
                }
                let mut b = calm(r);
                b.set("cpuinfo", "processor\t: 0\nphysical id\t: 0\ncore id\t\t: 0\ncpu cores\t: 1\n\n");
                let ent = b.get("entropy").clone();
                let mut ph = vec![phase(b, vec![], J::obj())];
                for _ in 0..2 {
                    let mut s = swarm(r);
                    s.set("entropy", ent.clone());
                    let t = cpuinfo(r);
                    s.set("cpuinfo", t.as_str());
                    if r.chance(1, 5) {
                        s.set("cpuinfo_err", r.pick(&[2u64, 13, 5, 24]));
                    }
                    s.set("cpus", r.pick(&[1u64, 2, 3, 8, 12]));
                    let mut env = J::obj();
                    let onoff = ["1", "true", "TRUE", "0", "yes", "", " 1", "<non-utf8>", "2", "false"];
                    if r.chance(2, 3) {
                        env.set("PHANTOM_THREADS", r.pick(&["1", "2", "3", "5", "8", "16", "+4", "abc", "", "-1", "1.5", "<non-utf8>", "0x2", " 2", "99999999999999999999999"]));
                    }
                    if r.chance(2, 3) {
                        env.set("PHANTOM_DEBUG", r.pick(&onoff));
                    }
                    if r.chance(2, 3) {
                        env.set("PHANTOM_VERBOSE_TIMINGS", r.pick(&onoff));
                    }
                    let mut f = Vec::new();
                    if r.chance(2, 3) {
                        f.push(fault(F_MONO_JUMP, 1 + r.below(40), r.pick(&[0u64, 3]), r.logu(1 << 56)));
                    }
                    if r.chance(1, 2) {
                        f.push(fault(F_REAL_JUMP, 1 + r.below(40), r.pick(&[0u64, 7]), (r.logu(1 << 55) as i64 * if r.chance(1, 2) { 1 } else { -1 }) as u64));
                    }
                    ph.push(phase(s, f, J::obj().with("env", env).with("tapes", r.chance(1, 2))));
                }
                base(prop, "phantom", SMALL, ph).with("image", f.img.to_json()).with("runs", J::Arr(vec![run]))
            }
        }
        "C07" => {
            let rom: Vec<u32> = (0..1 + r.us(60)).map(|_| r.u32()).collect();
            let img = elf::gen_image(r, &rom);
            let bytes = img.bytes();
            let old = elf::gen_image(r, &rom).bytes();
            let mut dmg = Vec::new();
            if i % 3 != 0 {
                for _ in 0..1 + r.below(2) {
                    let at = r.us(bytes.len());
                    let sec = r.pick(&[16usize, 64, 128, 512]);
                    let d = J::obj();
                    dmg.push(match r.below(10) {
                        0..=4 => {
                            // cut anywhere, with a preference for the neighbourhood of segment ends
                            let mut cut = at;
                            if r.chance(1, 2) {
                                let mut ends = Vec::new();
                                for k in 0..img.segs.len() {
                                    let b = 52 + 32 * k;
                                    let g = |o: usize| u32::from_le_bytes(bytes[b + o..b + o + 4].try_into().unwrap()) as usize;
                                    ends.push(g(4) + g(16));
                                    ends.push(g(4));
                                }
                                ends.push(bytes.len());
                                cut = (r.pick(&ends) as i64 + r.range(-3, 1)).clamp(0, bytes.len() as i64) as usize;
                            }
                            d.with("kind", "truncate").with("at", cut)
                        }
                        5 => d.with("kind", "zero").with("at", at / sec * sec).with("len", sec),
                        6 => d.with("kind", "ones").with("at", at / sec * sec).with("len", sec),
                        7 => {
                            let a = at / sec * sec;
                            let st: Vec<u8> = (a..a + sec).map(|k| old.get(k).copied().unwrap_or(0)).collect();
                            d.with("kind", "stale").with("at", a).with("len", sec).with("data", J::hex(&st))
                        }
                        8 => {
                            // a program header that promises more than there is
                            let k = r.us(img.segs.len());
                            let f = r.pick(&[4usize, 16, 16, 20]);
                            let v = r.pick(&[bytes.len() as u64, 0xffff_ffff, 0x8000_0000, 4096, 5000, bytes.len() as u64 / 2]);
                            d.with("kind", "set32").with("at", 52 + 32 * k + f).with("len", v)
                        }
                        _ => d.with("kind", "flip").with("at", at).with("len", r.below(8)),
                    });
                }
            }
            base(prop, "loader", SMALL, vec![phase(calm(r), vec![], J::obj())])
                .with("image", img.to_json())
                .with("damage", J::Arr(dmg))
                .with("boot", true)
                .with("boot_enc", i % 16 == 0)
        }
        "C08" => {
            let progs = ["guest", "guest2", "alpha", "main"];
            let mut plan = J::obj();
            let mut read_faults = false;
            for p in progs {
                let steps: Vec<J> = (0..3)
                    .map(|_| {
                        let size = r.pick(&[1usize, 40, 700, 5000, 70_000]);
                        let good = r.chance(1, 2);
                        let mut s = J::obj().with("size", size).with("noise", r.pick(&[0u64, 10, 3000, 300_000]));
                        if good {
                            s.set("write", r.pick(&["full", "full", "full", "none"]));
                            s.set("end", "exit 0");
                        } else {
                            s.set("write", r.pick(&["full", "partial", "none", "remove", "dir", "partial"]));
                            s.set("cut", r.us(size + 1));
                            s.set("end", r.pick(&["exit 0", "exit 1", "exit 101", "signal 9", "signal 15", "signal 11", "exit 2", "exit 255"]));
                            if s.get("end").s() == "exit 0" && s.get("write").s() == "partial" {
                                s.set("write", "remove");
                            }
                        }
                        if r.chance(1, 2) {
                            s.set("foreign", J::Arr(vec![J::from(r.pick(&["other", "guest.d", "libguest.rlib", "gues"]))]));
                        }
                        if r.chance(1, 2) {
                            const PLACES: [&str; 10] = [
                                "{target}/release/deps/{bin}",
                                "{target}/release/deps/{bin}-0123456789abcdef",
                                "{target}/release/examples/{bin}",
                                "{target}/release/{bin}.elf",
                                "{target}/release/{bin}.old",
                                "{target}/debug/{bin}",
                                "{target}/debug/deps/{bin}-0123456789abcdef",
                                "release/{bin}",
                                "debug/{bin}",
                                "{bin}",
                            ];
                            s.set("decoys", J::Arr(PLACES.iter().filter(|_| r.chance(2, 3)).map(|p| J::from(*p)).collect()));
                        }
                        s
                    })
                    .collect();
                plan.set(p, J::Arr(steps));
            }
            let conc = r.chance(1, 4);
            let calls: Vec<J> = if conc {
                progs.iter().take(2 + r.us(3)).enumerate().map(|(k, p)| J::obj().with("prog", *p).with("dest", k)).collect()
            } else {
                (0..1 + r.us(4)).map(|_| J::obj().with("prog", if r.chance(1, 12) { "absent" } else { progs[r.us(3)] }).with("dest", r.us(2))).collect()
            };
            let mut s = swarm(r);
            s.set("watch", "/tmp/vm-experiments/");
            let mut f = Vec::new();
            if r.chance(1, 3) {
                read_faults = true;
                for _ in 0..1 + r.below(3) {
                    f.push(match r.below(4) {
                        0 => fault(F_READ_EIO, 1 + r.below(6), 0, 0),
                        1 => fault(F_READ_EINTR, 1 + r.below(6), if f.is_empty() { r.pick(&[0u64, 2]) } else { 0 }, 0),
                        _ => fault(F_READ_SHORT, 1 + r.below(4), r.pick(&[0u64, 1, 2]), r.below(4000)),
                    });
                }
            }
            let mut sp = base(prop, "build", SMALL, vec![phase(s, f, J::obj().with("calls", J::Arr(calls)).with("concurrent", conc))]).with("plan", plan).with("read_faults", read_faults);
            if r.chance(1, 15) {
                sp.set("tool", r.pick(&["missing", "not-executable", "unset"]));
            }
            sp
        }
        "C09" => {
            if i % 16 != 0 {
                let m = r.chance(2, 3);
                testvm_spec(prop, r, m, i % 96 == 33)
            } else {
                let prod = i == 0 || (deep && i % 512 == 0);
                let calls = if prod { 2 } else if i % 96 == 48 { 24 } else { 2 + r.us(5) };
                let f = full(r, calls, W_ALL, true);
                let run = J::obj().with("input", J::hex(&f.input)).with("cycles", chunks(1, f.cycles.max(1))).with("both", true).with("tapes", true);
                let ph = phase(swarm(r), vec![], J::obj().with("env", J::obj().with("PHANTOM_THREADS", r.pick(&["1", "2", "4", "7"]))));
                base(prop, "phantom", if prod { PROD } else { pick_dims(r) }, vec![ph]).with("image", f.img.to_json()).with("runs", J::Arr(vec![run]))
            }
        }
        "C10" => {
            let enc = i % 4 == 0;
            let long = enc && i % 16 == 4;
            let whole = long || r.chance(1, 6);
            let f = full(r, if long { 7 } else if enc { r.clone().us(3) } else { 40 }, W_MEM, whole);
            let mut runs = Vec::new();
            let n = 1 + r.us(3);
            for k in 0..n {
                let wrong = r.chance(1, 6);
                // the program was grown along the first tape; other tapes may take it elsewhere, which the
                // reference notices
                let mut input = if k == 0 { f.input.clone() } else { rnd_bytes(r, f.input.len()) };
                let mut run = J::obj();
                if wrong {
                    let len = match r.below(4) {
                        0 => input.len() + 1,
                        1 => input.len().saturating_sub(1),
                        2 => 0,
                        _ => input.len() * 2 + 1,
                    };
                    if len != input.len() {
                        input.resize(len, 0x5a);
                        run.set("wrong_length", true);
                    }
                }
                run.set("input", J::hex(&input));
                if enc && f.cycles > 1 && (long || r.chance(1, 2)) {
                    // in several executions, each followed by a look at the tape
                    run.set("cycles", chunks(1, f.cycles));
                    run.set("tapes", true);
                } else {
                    run.set("cycles", chunks(if enc { f.cycles.min(2) } else { f.cycles }, 1));
                }
                if !enc && r.chance(1, 4) {
                    run.set("draft", J::hex(&rnd_bytes(r, input.len())));
                }
                run.set(if enc { "both" } else { "plain" }, true);
                runs.push(run);
            }
            let ph = phase(swarm(r), vec![], J::obj().with("env", J::obj().with("PHANTOM_THREADS", r.pick(&["1", "2", "4"]))));
            base(prop, "phantom", SMALL, vec![ph]).with("image", f.img.to_json()).with("runs", J::Arr(runs))
        }
        "C11" if r.chance(1, 3) => {
            // the product: loaded images, tapes, both machines
            let n = 2 + r.us(2);
            let mut ms = Vec::new();
            let same = full(r, r.clone().pick(&[2usize, 8]), W_ALL, true);
            for _ in 0..n {
                let own = full(r, 2, W_ALL, r.clone().chance(1, 2));
                let near = twin(r, &same);
                let f = match r.below(6) {
                    0 | 1 => &same,
                    2 | 3 => &near,
                    _ => &own,
                };
                let mut runs = Vec::new();
                for q in 0..1 + r.us(2) {
                    let mut run = J::obj().with("tapes", r.chance(1, 2));
                    let mut input = if q == 0 { f.input.clone() } else { rnd_bytes(r, f.input.len()) };
                    if r.chance(1, 6) {
                        input.push(1);
                        run.set("wrong_length", true);
                    }
                    run.set("input", J::hex(&input));
                    if r.chance(1, 3) {
                        run.set("plain", true);
                        run.set("cycles", chunks(f.cycles, 1));
                    } else {
                        run.set("cycles", if r.chance(1, 2) { chunks(f.cycles, 1) } else { chunks(1, f.cycles.max(1)) });
                    }
                    runs.push(run);
                }
                ms.push(J::obj().with("image", f.img.to_json()).with("runs", J::Arr(runs)));
            }
            let mut f = if r.chance(1, 3) { soft_faults(r) } else { vec![] };
            if r.chance(1, 4) {
                f.push(fault(F_SPAWN, 1 + r.below(300), 0, 0));
            }
            let mut env = J::obj().with("PHANTOM_THREADS", r.pick(&["1", "2", "4"]));
            if r.chance(1, 4) {
                env.set("PHANTOM_VERBOSE_TIMINGS", "1");
            }
            base(prop, "house", SMALL, vec![phase(swarm(r), f, J::obj().with("env", env).with("seq", r.chance(1, 4)))]).with("machines", J::Arr(ms))
        }
        "C11" => {
            let n = 2 + r.us(2);
            let d = pick_dims(r);
            let mut ms = Vec::new();
            for k in 0..n {
                let debug = r.chance(1, 5);
                let mut p = prog(r, W_ALL, if i % 24 == 13 { 9 } else { 2 }, None);
                if debug {
                    p.regs = [0; 32];
                    p.rom[0] = ins(Op::ADDI, 5, 0, 0, 77).enc();
                    p.cycles = 1;
                }
                ms.push(
                    J::obj()
                        .with("prog", p.to_json())
                        .with("keyseed", r.u64() >> 16)
                        .with("threads", threads_j(&[r.pick(&[1usize, 2, 3, 4, 8])]))
                        .with("debug", debug)
                        .with("verbose", r.chance(1, 5))
                        .with("fail", k > 0 && r.chance(1, 8)),
                );
            }
            if r.chance(1, 3) {
                let k = r.us(n);
                let m = ms[k].clone().with("fail", false).with("starve", 1u64 << (12 + r.below(8)));
                ms[k] = m;
            }
            let mut ph: Vec<J> = (0..n).map(|k| phase(calm(r), vec![], J::obj().with("only", k))).collect();
            let s = swarm(r);
            let mut f = if r.chance(1, 3) { soft_faults(r) } else { vec![] };
            if r.chance(1, 3) {
                f.push(fault(F_SPAWN, 1 + r.below(400), 0, r.pick(&[0u64, 12])));
            }
            ph.push(phase(s, f, J::obj().with("seq", r.chance(1, 5))));
            base(prop, "multi", d, ph).with("machines", J::Arr(ms))
        }
        "C12" => {
            let d = r.pick(&[SMALL, SMALL, [64, 14, 1], [32, 14, 2]]);
            let rom: Vec<u32> = (0..1 + r.us(20)).map(|_| ins(Op::ADDI, r.below(32) as u32, r.below(32) as u32, 0, imm12(r)).enc()).collect();
            let n_in = r.pick(&[0u32, 4, 64]);
            // random, empty, all ones, small numbers, or a few busy blocks
            let ram: Vec<u8> = match r.below(8) {
                0..=2 => (0..4096).map(|_| r.u32() as u8).collect(),
                3 | 4 => vec![0; 4096],
                5 => vec![0xff; 4096],
                6 => (0..4096).map(|k| if k % 4 == 0 { r.u32() as u8 } else { 0 }).collect(),
                _ => {
                    let busy = r.u32();
                    (0..4096).map(|k| if busy >> (k / 128) & 1 == 1 { r.u32() as u8 } else { 0 }).collect()
                }
            };
            let img = full_image(r, &rom, &ram, (BASE, n_in));
            let input = rnd_bytes(r, n_in as usize);
            let common = r.u64() >> 16;
            let mk = |r: &mut Rng, ent: u64, f: Vec<J>, n: u64, must: bool| {
                let mut s = swarm(r);
                s.set("entropy", ent);
                s.set("fork", common);
                phase(s, f, J::obj().with("machines", n).with("must_fail", must))
            };
            let (a, b) = (r.u64() >> 16, r.u64() >> 16);
            let mut derive = false;
            let d = if i % 4 < 2 { r.pick(&[[256, 140, 1], [256, 140, 1], [256, 210, 1], [256, 140, 2]]) } else { d };
            let ph = match i % 4 {
                0 if i % 8 == 4 => {
                    // one machine, and then others that share with it eight bytes of the entropy
                    derive = true;
                    let p0 = mk(r, a, vec![], 1, false);
                    let mut v = vec![p0.clone()];
                    for m in 0..7u64 {
                        let mut p = p0.clone();
                        let mut s = p.get("sched").clone();
                        s.set("entropy", r.u64() >> 16);
                        s.set("keep", a);
                        s.set("keep_gran", 8);
                        s.set("keep_mask", 1u64 << if m < 3 { 4 * m } else { r.below(14) });
                        p.set("sched", s);
                        v.push(p);
                    }
                    v
                }
                0 => {
                    // one machine, and then others that share with it one window of the entropy, or all but one
                    derive = true;
                    let p0 = mk(r, a, vec![], 1, false);
                    let mut v = vec![p0.clone()];
                    for m in 0..6u64 {
                        let mut p = p0.clone();
                        let mut s = p.get("sched").clone();
                        s.set("entropy", r.u64() >> 16);
                        s.set("keep", a);
                        s.set("keep_mask", if m < 3 { 1 << m } else { 0xffff ^ 1 << (m - 3) });
                        p.set("sched", s);
                        v.push(p);
                    }
                    v
                }
                1 => vec![mk(r, a, vec![], 2, false), mk(r, b, vec![], 1, false)],
                2 => {
                    // a permanent outage from the first request on must be reported
                    let f = r.pick(&[F_ENT_OPEN, F_ENT_EIO, F_ENT_EOF]);
                    let err = r.pick(&[0u64, 13, 24]);
                    // and the same failure of getrandom, for implementations that use it
                    vec![mk(r, a, vec![fault(f, 1, 1, err), fault(F_GETRANDOM, 1, 1, 38)], 1, true)]
                }
                _ => {
                    let n = 1 + r.below(4);
                    let every = r.pick(&[0u64, 0, 0, 1]);
                    let cut = 1 + r.below(31);
                    let mut f = vec![match r.below(6) {
                        0 => fault(F_ENT_OPEN, n, every, r.pick(&[0u64, 13, 24])),
                        1 => fault(F_ENT_EINTR, n, 0, 0),
                        2 => fault(F_ENT_EIO, n, every, 0),
                        3 => fault(F_ENT_EOF, n, every, 0),
                        _ => fault(F_ENT_SHORT, n, every, cut),
                    }];
                    f.push(match r.below(3) {
                        0 => fault(F_GETRANDOM, n, 0, 4),
                        1 => fault(F_GETRANDOM, n, every, 38),
                        _ => fault(F_GETRANDOM_SHORT, n, every, cut),
                    });
                    let p0 = mk(r, a, f.clone(), 1, false);
                    // half of the time everything but the entropy is equal in the two histories
                    let p1 = if r.chance(1, 2) {
                        let mut p = p0.clone();
                        let mut s = p.get("sched").clone();
                        s.set("entropy", b);
                        p.set("sched", s);
                        p
                    } else {
                        mk(r, b, f, 1, false)
                    };
                    vec![p0, p1]
                }
            };
            base(prop, "entropy", d, ph).with("image", img.to_json()).with("input", J::hex(&input)).with("derive", derive)
        }
        "C13" => {
            let prod = i < 2 || (deep && i % 100 == 50);
            let cyc = if i == 4 { 150 } else if deep && i % 10 == 3 { r.pick(&[200usize, 400]) } else { r.pick(&[8usize, 16, 30, 45]) };
            let mut p = prog(r, W_ALL, cyc, None);
            // log2 of the noise at cycle 1; see DESIGN.md for the measurements behind the numbers
            // (of any cell, growing with the square root of the cycles; of a cell written in this cycle, constant)
            let (d, lim, fresh) = if prod {
                p.cycles = p.cycles.min(if deep { 4 } else { 2 });
                (PROD, -7.5, -9.6)
            } else {
                r.pick(&[(SMALL, -16.0, -18.1), (SMALL, -16.0, -18.1), ([64, 14, 1], -14.7, -16.8), ([128, 14, 1], -13.3, -15.3), ([32, 14, 2], -15.3, -17.2), ([32, 21, 1], -15.8, -17.8)])
            };
            let ph = phase(swarm(r), vec![], J::obj().with("threads", threads_j(&[if r.chance(2, 3) || p.cycles > 60 { 1 + r.us(4) } else { pick_threads(r) }])));
            let s = vm_spec(prop, &p, d, r.u64() >> 16, vec![ph]).with("noise", true).with("limits", J::Arr(vec![J::from(lim), J::from(lim), J::from(fresh), J::from(fresh)]));
            if p.cycles > 60 { s.with("cpu_limit", 900) } else { s }
        }
        "C14" => {
            // executions of equal size, everything else different: program, memory, registers, input, keys
            let d = if prod { PROD } else { pick_dims(r) };
            // the first execution of the process only warms it up and is not compared
            let n = if prod { 3 } else { 3 + r.us(2) };
            let cyc = if prod { 1 } else { r.pick(&[2usize, 3, 4, 6, 9]) };
            let mut s = swarm(r);
            s.set("keep", 0);
            let mut f = if r.chance(1, 3) { soft_faults(r) } else { vec![] };
            for x in f.iter_mut() {
                if x.get("kind").s() == FAULTS[F_STALL as usize] {
                    // within the traced part
                    x.set("n", x.get("n").u() + (1 << 20));
                }
            }
            let verbose = r.chance(1, 4);
            let mut kinds: Vec<u64> = (0..n).map(|_| r.below(7)).collect();
            if r.chance(1, 2) {
                // one that is done early and one that is not
                kinds[1] = 5 + r.below(2);
                kinds[2] = r.below(5);
            }
            let ph: Vec<J> = if prod || i % 2 == 0 {
                let (rom, ram) = if r.chance(1, 12) && !prod { (r.pick(&[600usize, 1025]), 16) } else { (rom_size(r).max(4), ram_size(r)) };
                let zero = r.chance(1, 8);
                let mut ps: Vec<Prog> = kinds.iter().map(|k| secret_prog(r, *k, rom, ram, cyc, zero)).collect();
                let c = ps.iter().map(|p| p.cycles).min().unwrap();
                let t: Vec<J> = (0..if r.chance(1, 2) { 1 } else { 3 }).map(|_| J::from(if prod || r.chance(1, 2) { 1 + r.us(4) } else { pick_threads(r) })).collect();
                let ks = r.u64() >> 16;
                let same_key = r.chance(1, 3);
                ps.iter_mut()
                    .enumerate()
                    .map(|(k, p)| {
                        p.cycles = c;
                        let key = if same_key { ks } else { ks + k as u64 };
                        phase(s.clone(), f.clone(), J::obj().with("prog", p.to_json()).with("keyseed", key).with("threads", J::Arr(t.clone())))
                    })
                    .collect()
            } else {
                let rom = r.pick(&[8usize, 16, 33, 64]);
                let n_in = r.pick(&[0u32, 1, 4, 64, 256]);
                let inp = (BASE + r.below(4096 - n_in as u64 + 1) as u32, n_in);
                let r0 = r.clone();
                let same_image = r.chance(1, 4);
                let env = J::obj().with("PHANTOM_THREADS", r.pick(&["1", "2", "3", "5", "8", "16"])).with("PHANTOM_VERBOSE_TIMINGS", if verbose { "1" } else { "0" });
                let ps: Vec<Prog> = kinds.iter().map(|k| secret_prog(r, if same_image { 0 } else { *k }, rom, 1024, cyc, true)).collect();
                let c = ps.iter().map(|p| p.cycles).min().unwrap();
                let (mc, calls) = if r.chance(2, 3) { (c, 1) } else { (1, c) };
                let tapes = r.chance(1, 2);
                let ent = r.u64() >> 16;
                ps.iter()
                    .enumerate()
                    .map(|(k, p)| {
                        let p = if same_image { &ps[0] } else { p };
                        let img = full_image(&mut r0.clone(), &p.rom, &p.ram, inp);
                        // a program's behaviour may depend on its input: with an image of its own it gets the bytes it was made for
                        let o = (inp.0 - BASE) as usize;
                        let input = if same_image && k > 0 { rnd_bytes(r, n_in as usize) } else { p.ram[o..o + n_in as usize].to_vec() };
                        let mut s = s.clone();
                        s.set("entropy", ent + k as u64);
                        phase(s, f.clone(), J::obj().with("image", img.to_json()).with("input", J::hex(&input)).with("cycles", mc).with("calls", calls).with("tapes", tapes).with("env", env.clone()))
                    })
                    .collect()
            };
            base(prop, "oblivious", d, ph).with("verbose", verbose).with("keyhash", r.u64() >> 16)
        }
        _ => panic!("no such property {prop}"),
    };
    s.with("index", i).with("seed", seed)
}

/// A program of the given size, of one of several characters.
fn secret_prog(r: &mut Rng, kind: u64, rom: usize, ram_words: usize, cycles: usize, zero_regs: bool) -> Prog {
    let mut c = Cfg { rom, ram_words, cycles, zero_regs, m_ext: false, w: W_ALL, focus: None };
    match kind {
        0 | 1 => {}
        2 => c.w = W_MEM,
        3 => c.w = W_FLOW,
        4 => c.focus = Some(r.pick(&RV32I)),
        _ => {
            // idle, at once or after a while
            let mut p = generate(r, &c);
            p.rom = vec![0x13; rom];
            let at = if kind == 5 { 0 } else { r.us(rom.min(cycles + 1)) };
            p.rom[at] = 0x6f;
            p.rom[rom - 1] = 0x6f;
            if r.chance(1, 2) {
                p.ram.fill(0);
            }
            p.cycles = cycles;
            return p;
        }
    }
    generate(r, &c)
}

/// Simplifications of a spec's inputs, used by the minimiser.
pub fn shrink_spec(s: &J) -> Vec<J> {
    let mut out = Vec::new();
    let ph = s.get("phases").arr();
    if s.get("kind").s() == "vm" && ph.len() > 2 {
        for k in 1..ph.len() {
            let mut q = ph.to_vec();
            q.remove(k);
            out.push(s.clone().with("phases", J::Arr(q)));
        }
    }
    if s.has("prog") {
        for p in shrink(&Prog::from_json(s.get("prog"))) {
            out.push(s.clone().with("prog", p.to_json()));
        }
        for (k, p) in ph.iter().enumerate() {
            let t = p.get("body").get("threads").arr();
            let mut cands: Vec<Vec<J>> = Vec::new();
            if t.len() > 1 {
                cands.push(vec![t[0].clone()]);
            }
            if t.len() == 1 && t[0].us() > 1 {
                cands.push(vec![J::from(1)]);
                cands.push(vec![J::from(2)]);
            }
            for c in cands {
                if t == c.as_slice() {
                    continue;
                }
                let mut q = ph.to_vec();
                let b = q[k].get("body").clone().with("threads", J::Arr(c));
                q[k].set("body", b);
                out.push(s.clone().with("phases", J::Arr(q)));
            }
            if p.get("sched").get("garbage").u() != 0 {
                let mut q = ph.to_vec();
                let b = q[k].get("sched").clone().with("garbage", 0);
                q[k].set("sched", b);
                out.push(s.clone().with("phases", J::Arr(q)));
            }
        }
    }
    if s.get("kind").s() == "burst" {
        let a = s.get("progs").arr();
        let h = a.len() / 2;
        if h > 0 {
            out.push(s.clone().with("progs", J::Arr(a[h..].to_vec())));
            out.push(s.clone().with("progs", J::Arr(a[..h].to_vec())));
        }
    }
    for key in ["damage", "runs", "progs"] {
        let a = s.get(key).arr();
        if a.len() > 1 || (key == "damage" && !a.is_empty()) {
            for k in 0..a.len() {
                let mut v = a.to_vec();
                v.remove(k);
                out.push(s.clone().with(key, J::Arr(v)));
            }
        }
    }
    if s.get("kind").s() == "diag" {
        let c = s.get("cycles").us();
        if c > 1 {
            out.push(s.clone().with("cycles", c - 1));
        }
        if s.get("verbose").b() && s.get("debug").b() {
            out.push(s.clone().with("verbose", false));
        }
    }
    if s.get("kind").s() == "guest" {
        let e = s.get("enc").us();
        for n in [0, e / 2, e.saturating_sub(1)] {
            if n < e {
                out.push(s.clone().with("enc", n));
            }
        }
        let x = s.get("input").bytes();
        if s.get("guest").s() == "heap" {
            for n in [x[1] / 2, x[1].saturating_sub(1)] {
                if n < x[1] {
                    let mut y = x.clone();
                    y[1] = n;
                    y[4 + 4 * n as usize..].fill(0);
                    out.push(s.clone().with("input", J::hex(&y)));
                }
            }
            // an operation that needs nothing instead of one that does
            for k in 0..x[1].min(15) as usize {
                if x[4 + 4 * k] != 4 {
                    let mut y = x.clone();
                    y[4 + 4 * k..8 + 4 * k].copy_from_slice(&[4, 0, 0, 0]);
                    out.push(s.clone().with("input", J::hex(&y)));
                }
            }
        }
    }
    if s.get("kind").s() == "testvm" {
        let c = s.get("cycles").us();
        for n in [c / 2, c.saturating_sub(10), c.saturating_sub(1)] {
            if n > 0 && n < c {
                out.push(s.clone().with("cycles", n));
            }
        }
    }
    if s.get("kind").s() == "build" {
        let b = ph[0].get("body");
        let c = b.get("calls").arr();
        if c.len() > 1 {
            for k in 0..c.len() {
                let mut v = c.to_vec();
                v.remove(k);
                let mut q = ph.to_vec();
                q[0].set("body", b.clone().with("calls", J::Arr(v)));
                out.push(s.clone().with("phases", J::Arr(q)));
            }
        }
    }
    if s.get("kind").s() == "oblivious" {
        let all = |f: &dyn Fn(&J) -> J| s.clone().with("phases", J::Arr(ph.iter().map(|p| p.clone().with("body", f(p.get("body")))).collect()));
        let b = ph[0].get("body");
        if ph.len() > 3 {
            for k in 0..ph.len() {
                let mut q = ph.to_vec();
                q.remove(k);
                out.push(s.clone().with("phases", J::Arr(q)));
            }
        }
        if b.has("prog") {
            let n = b.get("prog").get("cycles").us();
            for c in [1, n / 2, n - 1] {
                if c > 0 && c < n {
                    out.push(all(&|b| b.clone().with("prog", b.get("prog").clone().with("cycles", c))));
                }
            }
            if b.get("threads").arr().len() > 1 || b.get("threads").arr()[0].us() > 1 {
                out.push(all(&|b| b.clone().with("threads", J::Arr(vec![J::from(1)]))));
            }
        } else {
            for key in ["cycles", "calls"] {
                let n = b.get(key).us();
                for c in [1, n / 2, n - 1] {
                    if c > 0 && c < n {
                        out.push(all(&|b| b.clone().with(key, c)));
                    }
                }
            }
        }
    }
    if s.get("kind").s() == "phantom" && ph.len() > 2 {
        for k in 1..ph.len() {
            let mut q = ph.to_vec();
            q.remove(k);
            out.push(s.clone().with("phases", J::Arr(q)));
        }
    }
    out
}
