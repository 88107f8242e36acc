//! A guest that performs one of the computations of work.rs.
#![cfg_attr(target_arch = "riscv32", no_std, no_main)]
extern crate alloc;
extern crate runtime;
use core::panic::PanicInfo;
use core::ptr::{addr_of, addr_of_mut, read_volatile, write_volatile};
use macros::entry;

mod work;

#[no_mangle]
#[link_section = ".inpdata"]
static INPUT: [u8; 33] = [0u8; 33];

#[no_mangle]
#[link_section = ".outdata"]
static mut OUTPUT: [u8; 33] = [0u8; 33];

fn put(i: usize, v: u8) {
    unsafe { write_volatile((addr_of_mut!(OUTPUT) as *mut u8).add(i), v) }
}

#[panic_handler]
fn panic(_info: &PanicInfo) -> ! {
    put(0, 0xee);
    loop {}
}

#[entry]
fn main() {
    let input: [u8; 33] = unsafe { read_volatile(addr_of!(INPUT)) };
    let mut a = [0u8; 32];
    a.copy_from_slice(&input[1..]);
    let r = work::run(input[0], &a);
    for (i, x) in r.iter().enumerate() {
        put(1 + i, *x);
    }
    put(0, 2);
    loop {}
}
