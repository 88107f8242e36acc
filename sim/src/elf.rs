//! A small ELF32 little-endian writer and an independent reader (the oracle for the loader).
use crate::json::J;
use crate::rng::Rng;

pub const PT_LOAD: u32 = 1;
pub const R: u32 = 4;
pub const W: u32 = 2;
pub const X: u32 = 1;

#[derive(Clone, Debug)]
pub struct Seg {
    pub ptype: u32,
    pub flags: u32,
    pub vaddr: u32,
    pub data: Vec<u8>,
    pub memsz: u32,
}
#[derive(Clone, Debug)]
pub struct Image {
    pub segs: Vec<Seg>,
    pub sections: Vec<(String, u32, u32)>,
    pub pad: Vec<u32>,
    /// section headers in front of the segment contents instead of at the end
    pub shdr_first: bool,
    pub entry: u32,
}

fn p16(o: &mut Vec<u8>, v: u16) {
    o.extend_from_slice(&v.to_le_bytes());
}
fn p32(o: &mut Vec<u8>, v: u32) {
    o.extend_from_slice(&v.to_le_bytes());
}

impl Image {
    pub fn to_json(&self) -> J {
        J::obj()
            .with("segs", J::Arr(self.segs.iter().map(|s| J::obj().with("type", s.ptype).with("flags", s.flags).with("vaddr", s.vaddr).with("data", J::hex(&s.data)).with("memsz", s.memsz)).collect()))
            .with("sections", J::Arr(self.sections.iter().map(|s| J::obj().with("name", s.0.as_str()).with("addr", s.1).with("size", s.2)).collect()))
            .with("pad", self.pad.as_slice())
            .with("shdr_first", self.shdr_first)
            .with("entry", self.entry)
    }
    pub fn from_json(j: &J) -> Image {
        Image {
            segs: j.get("segs").arr().iter().map(|s| Seg { ptype: s.get("type").u() as u32, flags: s.get("flags").u() as u32, vaddr: s.get("vaddr").u() as u32, data: s.get("data").bytes(), memsz: s.get("memsz").u() as u32 }).collect(),
            sections: j.get("sections").arr().iter().map(|s| (s.get("name").s().to_string(), s.get("addr").u() as u32, s.get("size").u() as u32)).collect(),
            pad: j.get("pad").u32s(),
            shdr_first: j.get("shdr_first").b(),
            entry: j.get("entry").u() as u32,
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut strtab = vec![0u8];
        let mut names = Vec::new();
        for (n, _, _) in &self.sections {
            names.push(strtab.len() as u32);
            strtab.extend_from_slice(n.as_bytes());
            strtab.push(0);
        }
        let shstr = strtab.len() as u32;
        strtab.extend_from_slice(b".shstrtab\0");
        let shnum = self.sections.len() + 2;
        let phoff = 52u32;
        let mut pos = phoff + 32 * self.segs.len() as u32;
        let shsize = 40 * shnum as u32;
        let mut shoff = 0;
        if self.shdr_first {
            shoff = (pos + 3) & !3;
            pos = shoff + shsize;
        }
        let mut offs = Vec::new();
        for (i, s) in self.segs.iter().enumerate() {
            pos += self.pad.get(i).copied().unwrap_or(0);
            offs.push(pos);
            pos += s.data.len() as u32;
        }
        let stroff = pos;
        pos += strtab.len() as u32;
        if !self.shdr_first {
            shoff = (pos + 3) & !3;
        }
        let mut o = Vec::new();
        o.extend_from_slice(&[0x7f, b'E', b'L', b'F', 1, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0]);
        p16(&mut o, 2);
        p16(&mut o, 243);
        p32(&mut o, 1);
        p32(&mut o, self.entry);
        p32(&mut o, phoff);
        p32(&mut o, shoff);
        p32(&mut o, 0);
        p16(&mut o, 52);
        p16(&mut o, 32);
        p16(&mut o, self.segs.len() as u16);
        p16(&mut o, 40);
        p16(&mut o, shnum as u16);
        p16(&mut o, shnum as u16 - 1);
        for (s, off) in self.segs.iter().zip(&offs) {
            for v in [s.ptype, *off, s.vaddr, s.vaddr, s.data.len() as u32, s.memsz, s.flags, 4] {
                p32(&mut o, v);
            }
        }
        let mut sh = Vec::new();
        sh.resize(40, 0);
        for ((_, addr, size), name) in self.sections.iter().zip(names) {
            let off = self
                .segs
                .iter()
                .zip(&offs)
                .find(|(s, _)| s.ptype == PT_LOAD && s.flags & X == 0 && *addr >= s.vaddr && addr.wrapping_add(*size) <= s.vaddr.wrapping_add(s.data.len() as u32))
                .map(|(s, o)| o + (addr - s.vaddr));
            let ty = if off.is_some() { 1 } else { 8 };
            for v in [name, ty, 3, *addr, off.unwrap_or(stroff), *size, 0, 0, 4, 0] {
                p32(&mut sh, v);
            }
        }
        for v in [shstr, 3, 0, 0, stroff, strtab.len() as u32, 0, 0, 1, 0] {
            p32(&mut sh, v);
        }
        let put = |o: &mut Vec<u8>, off: u32, d: &[u8]| {
            if o.len() < off as usize + d.len() {
                o.resize(off as usize + d.len(), 0);
            }
            o[off as usize..][..d.len()].copy_from_slice(d);
        };
        put(&mut o, shoff, &sh);
        for (s, off) in self.segs.iter().zip(&offs) {
            put(&mut o, *off, &s.data);
        }
        put(&mut o, stroff, &strtab);
        o
    }
}

/// What an image describes, as far as the machine is concerned.
#[derive(Clone, Debug, PartialEq)]
pub struct Desc {
    pub rom: Vec<u8>,
    pub ram: Vec<u8>,
    pub inp: (u32, u32),
    pub out: (u32, u32),
}
#[derive(Debug, PartialEq)]
pub enum Bad {
    /// bytes the image declares are not in the file
    Missing,
    /// a segment to be loaded that the machine has no place for
    Unloadable,
    /// anything else: no verdict
    Other,
}

/// Reads `f` by the ELF specification and the machine's memory map (ROM at 0, 4 KiB RAM at 0x40000).
pub fn read(f: &[u8]) -> Result<Desc, Bad> {
    let g = |o: u64, n: u64| -> Result<u64, Bad> {
        if o + n > f.len() as u64 {
            return Err(Bad::Missing);
        }
        Ok((0..n).fold(0, |a, k| a | (f[(o + k) as usize] as u64) << (8 * k)))
    };
    if f.len() < 52 {
        return Err(Bad::Missing);
    }
    if f[..7] != [0x7f, b'E', b'L', b'F', 1, 1, 1] {
        return Err(Bad::Other);
    }
    let (phoff, shoff) = (g(28, 4)?, g(32, 4)?);
    let (phes, phn, shes, shn, shx) = (g(42, 2)?, g(44, 2)?, g(46, 2)?, g(48, 2)?, g(50, 2)?);
    if phes != 32 || shes != 40 || shx >= shn {
        return Err(Bad::Other);
    }
    let mut rom = None;
    let mut ram = vec![0u8; 4096];
    let mut seen_ram = false;
    for i in 0..phn {
        let b = phoff + i * 32;
        let (ty, off, va, fs, ms, fl) = (g(b, 4)?, g(b + 4, 4)?, g(b + 8, 4)?, g(b + 16, 4)?, g(b + 20, 4)?, g(b + 24, 4)?);
        if ty != 1 {
            continue;
        }
        if ms < fs {
            return Err(Bad::Other);
        }
        if fs > 0 && off + fs > f.len() as u64 {
            return Err(Bad::Missing);
        }
        let d = if fs > 0 { &f[off as usize..(off + fs) as usize] } else { &[] };
        if ms == 0 {
            if fs != 0 {
                return Err(Bad::Other);
            }
            if fl == 5 && rom.is_none() {
                rom = Some(vec![]);
            }
            if (fl == 4 || fl == 6) && !seen_ram {
                if va != 0x40000 {
                    return Err(Bad::Other);
                }
                seen_ram = true;
            }
            continue;
        }
        if fl == 5 {
            if rom.is_some() {
                return Err(Bad::Unloadable);
            }
            if va != 0 || fs != ms {
                return Err(Bad::Other);
            }
            rom = Some(d.to_vec());
        } else if fl == 4 || fl == 6 {
            if (!seen_ram && va != 0x40000) || va < 0x40000 || va + ms.max(fs) > 0x41000 || ms < fs {
                return Err(Bad::Other);
            }
            seen_ram = true;
            ram[(va - 0x40000) as usize..][..d.len()].copy_from_slice(d);
        } else {
            return Err(Bad::Unloadable);
        }
    }
    if shoff + shn * 40 > f.len() as u64 {
        return Err(Bad::Missing);
    }
    let so = g(shoff + shx * 40 + 16, 4)?;
    let name = |o: u64| -> Result<Vec<u8>, Bad> {
        let mut p = so + o;
        let mut v = Vec::new();
        loop {
            let c = g(p, 1).map_err(|_| Bad::Other)? as u8;
            if c == 0 {
                return Ok(v);
            }
            v.push(c);
            p += 1;
        }
    };
    let (mut inp, mut out) = (None, None);
    for i in 0..shn {
        let b = shoff + i * 40;
        let n = name(g(b, 4)?)?;
        let v = (g(b + 12, 4)? as u32, g(b + 20, 4)? as u32);
        if n == b".inpdata" && inp.is_none() {
            inp = Some(v);
        }
        if n == b".outdata" && out.is_none() {
            out = Some(v);
        }
    }
    match (rom, inp, out) {
        (Some(rom), Some(inp), Some(out)) if seen_ram => Ok(Desc { rom, ram, inp, out }),
        _ => Err(Bad::Other),
    }
}

/// An image as the shipped linker script lays it out, with arbitrary region sizes and contents.
pub fn gen_image(r: &mut Rng, rom: &[u32]) -> Image {
    let text: Vec<u8> = rom.iter().flat_map(|w| w.to_le_bytes()).collect();
    let mut segs = vec![Seg { ptype: PT_LOAD, flags: R | X, vaddr: 0, memsz: text.len() as u32, data: text }];
    // sections in RAM, in order; consecutive ones share a segment or start a new one
    let n_in = r.pick(&[0u32, 1, 3, 4, 7, 20, 64, 255, 256]).min(4096);
    let n_out = r.pick(&[0u32, 1, 2, 4, 5, 16, 33, 128, 512]);
    let mut at = 0x40000u32;
    let mut sections = Vec::new();
    let mut parts: Vec<(u32, u32)> = Vec::new();
    let swap = r.chance(1, 4);
    let order = if swap { [(".outdata", n_out), (".inpdata", n_in)] } else { [(".inpdata", n_in), (".outdata", n_out)] };
    for (n, sz) in order {
        sections.push((n.to_string(), at, sz));
        parts.push((at, sz));
        at = at + sz;
        if r.chance(1, 2) {
            at = (at + 3) & !3;
        }
        if r.chance(1, 6) {
            at += r.below(64) as u32;
        }
    }
    for n in [".rodata", ".data"] {
        if r.chance(3, 4) {
            let sz = r.logu(900) as u32;
            at = (at + 3) & !3;
            sections.push((n.to_string(), at, sz));
            parts.push((at, sz));
            at += sz;
        }
    }
    let bss = if r.chance(1, 2) { r.logu(600) as u32 } else { 0 };
    // group the parts into segments
    let mut i = 0;
    while i < parts.len() {
        let mut j = i + 1;
        while j < parts.len() && r.chance(1, 2) {
            j += 1;
        }
        let (lo, hi) = (parts[i].0, parts[j - 1].0 + parts[j - 1].1);
        let mut data: Vec<u8> = (0..hi - lo).map(|_| r.u32() as u8).collect();
        let mut memsz = hi - lo;
        if j == parts.len() {
            memsz += bss;
        }
        if r.chance(1, 12) {
            data.clear();
        }
        if r.chance(1, 8) && memsz > 1 {
            let k = r.us(memsz as usize).min(data.len());
            data.truncate(k);
        }
        segs.push(Seg { ptype: PT_LOAD, flags: if r.chance(1, 2) { R } else { R | W }, vaddr: lo, data, memsz });
        i = j;
    }
    // the whole RAM can also be described
    if r.chance(1, 10) {
        let last = segs.last().unwrap();
        let end = last.vaddr + last.memsz;
        if end < 0x41000 {
            let data: Vec<u8> = (0..0x41000 - end).map(|_| r.u32() as u8).collect();
            segs.push(Seg { ptype: PT_LOAD, flags: R | W, vaddr: end, memsz: data.len() as u32, data });
        }
    }
    if r.chance(1, 2) {
        segs.push(Seg { ptype: 0x6474_e551, flags: R | W, vaddr: 0, data: vec![], memsz: 0 });
    }
    if r.chance(1, 4) {
        // a note: not to be loaded
        segs.insert(r.us(segs.len() + 1), Seg { ptype: 4, flags: R, vaddr: 0x40000, data: (0..24).map(|_| r.u32() as u8).collect(), memsz: 24 });
    }
    let pad = segs.iter().map(|_| if r.chance(1, 2) { 0 } else { r.below(40) as u32 }).collect();
    if r.chance(1, 3) {
        let k = r.us(sections.len() + 1);
        sections.insert(k, (r.pick(&[".inpdata2", ".outdat", ".debug_str", ".inp", "inpdata", ".comment"]).to_string(), 0x40000 + r.below(4096) as u32, r.below(100) as u32));
    }
    Image { segs, sections, pad, shdr_first: r.chance(1, 4), entry: 0 }
}
