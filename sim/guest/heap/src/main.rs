//! A guest that exercises what the project gives guests: entry code, static data, stack, heap, tapes. The input
//! tape is a history of allocator operations.
#![cfg_attr(target_arch = "riscv32", no_std, no_main)]
extern crate alloc;
extern crate runtime;
use alloc::alloc::{alloc, alloc_zeroed, dealloc, realloc};
use core::alloc::Layout;
use core::panic::PanicInfo;
use core::ptr::{addr_of, addr_of_mut, read_volatile, write_volatile};
use macros::entry;

const OPS: usize = 15;

#[no_mangle]
#[link_section = ".inpdata"]
static INPUT: [u8; 64] = [0u8; 64];

/// 0: status, 1: operations completed, 2: damage found, 3: runs of main, then an address per operation
#[no_mangle]
#[link_section = ".outdata"]
static mut OUTPUT: [u8; 64] = [0u8; 64];

static mut DATA: [u8; 12] = [3, 1, 4, 1, 5, 9, 2, 6, 5, 3, 5, 8];
static mut BSS: [u8; 20] = [0; 20];
static TABLE: [u16; 6] = [2, 3, 5, 7, 11, 13];

fn put(i: usize, v: u8) {
    unsafe { write_volatile((addr_of_mut!(OUTPUT) as *mut u8).add(i), v) }
}
fn get(i: usize) -> u8 {
    unsafe { read_volatile((addr_of!(INPUT) as *const u8).add(i)) }
}

#[panic_handler]
fn panic(_info: &PanicInfo) -> ! {
    put(0, 0xee);
    loop {}
}

#[inline(never)]
fn deep(n: u32) -> u32 {
    let mut a = [0u32; 6];
    for (i, x) in a.iter_mut().enumerate() {
        unsafe { write_volatile(x, n.wrapping_mul(31).wrapping_add(i as u32)) }
    }
    let r = if n == 0 { 0 } else { deep(n - 1) };
    let mut s = r;
    for (i, x) in a.iter().enumerate() {
        if unsafe { read_volatile(x) } != n.wrapping_mul(31).wrapping_add(i as u32) {
            s += 1;
        }
    }
    s
}

fn pat(k: usize, j: usize) -> u8 {
    (k as u8).wrapping_mul(37).wrapping_add((j as u8).wrapping_mul(11)).wrapping_add(5)
}
unsafe fn fill(p: *mut u8, k: usize, n: usize) {
    for j in 0..n {
        write_volatile(p.add(j), pat(k, j));
    }
}
unsafe fn same(p: *const u8, k: usize, n: usize) -> bool {
    (0..n).all(|j| read_volatile(p.add(j)) == pat(k, j))
}

fn statics() -> bool {
    unsafe {
        let d = addr_of!(DATA) as *const u8;
        let b = addr_of!(BSS) as *const u8;
        let t = addr_of!(TABLE) as *const u16;
        (0..12).all(|i| read_volatile(d.add(i)) == [3, 1, 4, 1, 5, 9, 2, 6, 5, 3, 5, 8][i])
            && (0..20).all(|i| read_volatile(b.add(i)) == 0)
            && (0..6).all(|i| read_volatile(t.add(i)) == [2, 3, 5, 7, 11, 13][i])
    }
}

fn heap() {
    // (address, size, alignment) of the live blocks
    let mut live: [(u32, u16, u16); OPS] = [(0, 0, 0); OPS];
    let n = (get(1) as usize).min(OPS);
    for k in 0..n {
        let o = |i: usize| get(4 + 4 * k + i) as usize;
        let at;
        match o(0) {
            0 | 1 | 5 => unsafe {
                let size = if o(0) == 5 && o(2) == 15 { 0x7fff_0000 + o(1) } else if o(0) == 5 { (o(1) | 1) << (8 + o(2) % 16) } else { 1 + o(1) + 256 * (o(2) & 7) };
                let al = 1usize << (o(3) % 12);
                let l = Layout::from_size_align_unchecked(size, al);
                let p = if o(0) != 1 { alloc(l) } else { alloc_zeroed(l) };
                at = p as usize as u32;
                if o(0) == 1 && !(0..size).all(|j| read_volatile(p.add(j)) == 0) {
                    put(2, 1);
                }
                fill(p, k, size);
                live[k] = (at, size as u16, al as u16);
            },
            2 => unsafe {
                let (a, s, al) = live[o(1) % OPS];
                at = a;
                if a != 0 {
                    let i = o(1) % OPS;
                    if !same(a as usize as *const u8, i, s as usize) {
                        put(2, 2);
                    }
                    dealloc(a as usize as *mut u8, Layout::from_size_align_unchecked(s as usize, al as usize));
                    live[i] = (0, 0, 0);
                }
            },
            3 => unsafe {
                let i = o(1) % OPS;
                let (a, s, al) = live[i];
                if a != 0 {
                    let new = 1 + o(2) + 256 * (o(3) & 7);
                    let p = realloc(a as usize as *mut u8, Layout::from_size_align_unchecked(s as usize, al as usize), new);
                    at = p as usize as u32;
                    if !same(p, i, new.min(s as usize)) {
                        put(2, 3);
                    }
                    fill(p, i, new);
                    live[i] = (at, new as u16, al);
                } else {
                    at = 0;
                }
            },
            _ => {
                if deep(o(1) as u32 % 3) != 0 {
                    put(2, 4);
                }
                at = 0;
            }
        }
        for (i, b) in at.to_le_bytes().iter().enumerate() {
            put(4 + 4 * k + i, *b);
        }
        put(1, k as u8 + 1);
    }
    for (k, (a, s, _)) in live.iter().enumerate() {
        if *a != 0 && unsafe { !same(*a as usize as *const u8, k, *s as usize) } {
            put(2, 5);
        }
    }
}

#[entry]
fn main() {
    put(3, unsafe { read_volatile((addr_of!(OUTPUT) as *const u8).add(3)) } + 1);
    put(0, 1);
    if !statics() {
        put(2, 6);
    }
    heap();
    if !statics() {
        put(2, 7);
    }
    put(0, 2);
    loop {}
}
