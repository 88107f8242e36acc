//! Helpers: a tiny assembler, an ELF32 image writer, and a direct way to run the encrypted machine.
#![allow(dead_code)]
fn r(f7: u32, rs2: u32, rs1: u32, f3: u32, rd: u32, op: u32) -> u32 {
    f7 << 25 | rs2 << 20 | rs1 << 15 | f3 << 12 | rd << 7 | op
}
fn i(imm: i32, rs1: u32, f3: u32, rd: u32, op: u32) -> u32 {
    (imm as u32 & 0xfff) << 20 | rs1 << 15 | f3 << 12 | rd << 7 | op
}
pub fn addi(rd: u32, rs1: u32, imm: i32) -> u32 { i(imm, rs1, 0, rd, 0x13) }
pub fn alu_imm(f3: u32, rd: u32, rs1: u32, imm: i32) -> u32 { i(imm, rs1, f3, rd, 0x13) }
pub fn alu(f7: u32, f3: u32, rd: u32, rs1: u32, rs2: u32) -> u32 { r(f7, rs2, rs1, f3, rd, 0x33) }
pub fn load(f3: u32, rd: u32, rs1: u32, imm: i32) -> u32 { i(imm, rs1, f3, rd, 0x03) }
pub fn store(f3: u32, rs2: u32, rs1: u32, imm: i32) -> u32 {
    let m = imm as u32;
    (m >> 5 & 0x7f) << 25 | rs2 << 20 | rs1 << 15 | f3 << 12 | (m & 31) << 7 | 0x23
}
pub fn lui(rd: u32, top20: u32) -> u32 { top20 << 12 | rd << 7 | 0x37 }
pub fn auipc(rd: u32, top20: u32) -> u32 { top20 << 12 | rd << 7 | 0x17 }
pub fn jal(rd: u32, off: i32) -> u32 {
    let m = off as u32;
    (m >> 20 & 1) << 31 | (m >> 1 & 0x3ff) << 21 | (m >> 11 & 1) << 20 | (m >> 12 & 0xff) << 12 | rd << 7 | 0x6f
}
pub fn jalr(rd: u32, rs1: u32, imm: i32) -> u32 { i(imm, rs1, 0, rd, 0x67) }
pub fn branch(f3: u32, rs1: u32, rs2: u32, off: i32) -> u32 {
    let m = off as u32;
    (m >> 12 & 1) << 31 | (m >> 5 & 0x3f) << 25 | rs2 << 20 | rs1 << 15 | f3 << 12 | (m >> 1 & 15) << 8 | (m >> 11 & 1) << 7 | 0x63
}
pub const NOP: u32 = 0x13;
pub const RAM: u32 = 0x40000;

/// One LOAD segment as (flags, vaddr, contents, memsz).
pub type Seg = (u32, u32, Vec<u8>, u32);

pub fn image(segs: &[Seg], input: (u32, u32), output: (u32, u32)) -> Vec<u8> {
    let strtab = b"\0.inpdata\0.outdata\0.shstrtab\0";
    let mut pos = 52 + 32 * segs.len() as u32;
    let offs: Vec<u32> = segs.iter().map(|s| { let o = pos; pos += s.2.len() as u32; o }).collect();
    let stroff = pos;
    let shoff = (pos + strtab.len() as u32 + 3) & !3;
    let mut o: Vec<u8> = vec![0x7f, b'E', b'L', b'F', 1, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0];
    let w16 = |o: &mut Vec<u8>, v: u16| o.extend_from_slice(&v.to_le_bytes());
    let w32 = |o: &mut Vec<u8>, v: u32| o.extend_from_slice(&v.to_le_bytes());
    w16(&mut o, 2); w16(&mut o, 243); w32(&mut o, 1); w32(&mut o, 0); w32(&mut o, 52); w32(&mut o, shoff); w32(&mut o, 0);
    for v in [52u16, 32, segs.len() as u16, 40, 4, 3] { w16(&mut o, v); }
    for (s, off) in segs.iter().zip(&offs) {
        for v in [1, *off, s.1, s.1, s.2.len() as u32, s.3, s.0, 4] { w32(&mut o, v); }
    }
    for s in segs { o.extend_from_slice(&s.2); }
    o.extend_from_slice(strtab);
    o.resize(shoff as usize, 0);
    o.resize(o.len() + 40, 0);
    for (name, ty, addr, off, size) in [(1u32, 8u32, input.0, 0, input.1), (10, 8, output.0, 0, output.1), (19, 3, 0, stroff, strtab.len() as u32)] {
        for v in [name, ty, 3, addr, off, size, 0, 0, 4, 0] { w32(&mut o, v); }
    }
    o
}
pub fn words(w: &[u32]) -> Vec<u8> { w.iter().flat_map(|x| x.to_le_bytes()).collect() }
/// Program + RAM contents, regions relative to the RAM base.
pub fn simple(text: &[u32], ram: Vec<u8>, input: (u32, u32), output: (u32, u32)) -> Vec<u8> {
    let n = ram.len() as u32;
    image(&[(5, 0, words(text), 4 * text.len() as u32), (6, RAM, ram, n)], (RAM + input.0, input.1), (RAM + output.0, output.1))
}
