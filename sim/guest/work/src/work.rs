//! Ordinary computations: compiled for the guest and, as the oracle, into the simulator.
extern crate alloc;
use alloc::boxed::Box;
use alloc::collections::{BTreeMap, VecDeque};
use alloc::format;
use alloc::rc::Rc;
use alloc::string::String;
use alloc::vec::Vec;

pub const KINDS: u8 = 8;

trait Shape {
    fn area(&self) -> u32;
    fn grow(&mut self, by: u32);
}
struct Sq(u32);
struct Re(u32, u16);
struct Tri {
    a: u8,
    b: u32,
}
impl Shape for Sq {
    fn area(&self) -> u32 {
        self.0.wrapping_mul(self.0)
    }
    fn grow(&mut self, by: u32) {
        self.0 = self.0.wrapping_add(by)
    }
}
impl Shape for Re {
    fn area(&self) -> u32 {
        self.0.wrapping_mul(self.1 as u32)
    }
    fn grow(&mut self, by: u32) {
        self.1 = self.1.wrapping_mul(by as u16)
    }
}
impl Shape for Tri {
    fn area(&self) -> u32 {
        (self.a as u32).wrapping_mul(self.b) / 2
    }
    fn grow(&mut self, by: u32) {
        self.b ^= by
    }
}

static OPS: [fn(u32, u32) -> u32; 6] = [
    |a, b| a.wrapping_add(b),
    |a, b| a.wrapping_mul(b),
    |a, b| a.checked_div(b).unwrap_or(7),
    |a, b| (a as i32).wrapping_rem(if b == 0 { 5 } else { b as i32 }) as u32,
    |a, b| a.rotate_left(b),
    |a, b| ((a as i32) >> (b & 31)) as u32,
];

fn w(a: &[u8; 32], i: usize) -> u32 {
    u32::from_le_bytes([a[4 * i], a[4 * i + 1], a[4 * i + 2], a[4 * i + 3]])
}

fn fib(n: u32) -> u32 {
    if n < 2 {
        n
    } else {
        fib(n - 1).wrapping_add(fib(n - 2))
    }
}

#[inline(never)]
pub fn run(kind: u8, a: &[u8; 32]) -> [u8; 32] {
    let mut o = [0u8; 32];
    let mut n = 0;
    let mut push = |v: u32| {
        if n + 4 <= 32 {
            o[n..n + 4].copy_from_slice(&v.to_le_bytes());
            n += 4;
        }
    };
    match kind % KINDS {
        0 => {
            let mut v: Vec<u32> = Vec::new();
            for i in 0..8 {
                v.push(w(a, i));
                if a[i] & 1 == 1 {
                    v.push(w(a, i).wrapping_mul(2654435761));
                }
            }
            v.sort();
            v.dedup();
            push(v.len() as u32);
            push(v[v.len() / 2]);
            push(v.iter().enumerate().fold(0u32, |s, (i, x)| s.wrapping_mul(31).wrapping_add(x ^ i as u32)));
            v.reverse();
            v.truncate(3);
            push(v.iter().fold(1u32, |s, x| s.wrapping_mul(x | 1)));
        }
        1 => {
            let mut s = String::new();
            for i in 0..2 {
                s.push_str(&format!("{}:{:x};", w(a, i), a[i]));
            }
            s.push(if a[9] & 1 == 0 { 'e' } else { '\u{e9}' });
            push(s.len() as u32);
            push(s.bytes().fold(5381u32, |h, b| h.wrapping_mul(33) ^ b as u32));
            push(s.chars().filter(|c| c.is_ascii_digit()).count() as u32);
            push(s.split(';').next().and_then(|p| p.split(':').next()).and_then(|d| d.parse().ok()).unwrap_or(0));
        }
        2 => {
            let mut v: Vec<Box<dyn Shape>> = Vec::with_capacity(6);
            for i in 0..6 {
                v.push(match a[i] % 3 {
                    0 => Box::new(Sq(w(a, i))),
                    1 => Box::new(Re(w(a, i), a[20 + i] as u16)),
                    _ => Box::new(Tri { a: a[i + 1], b: w(a, i) }),
                });
            }
            for (i, s) in v.iter_mut().enumerate() {
                s.grow(a[26 + i % 6] as u32);
            }
            push(v.iter().fold(0u32, |x, s| x.rotate_left(5) ^ s.area()));
        }
        3 => {
            let mut m: BTreeMap<u8, u32> = BTreeMap::new();
            for i in 0..8 {
                *m.entry(a[i] & 7).or_insert(0) += a[8 + i] as u32;
            }
            m.remove(&(a[16] & 7));
            push(m.len() as u32);
            for (k, v) in &m {
                push((*k as u32) << 16 | (*v & 0xffff));
            }
        }
        4 => {
            let x = w(a, 0) as u64 | (w(a, 1) as u64) << 32;
            let y = w(a, 2) as u64 | (w(a, 3) as u64) << 32;
            let mut p64 = |v: u64| {
                push(v as u32);
                push((v >> 32) as u32);
            };
            p64(x.wrapping_mul(y));
            p64(x.checked_div(y).unwrap_or(1));
            p64((x as i64).wrapping_sub(y as i64) as u64 >> (a[16] & 63));
            p64(x.rotate_left(a[17] as u32) ^ y.swap_bytes());
        }
        5 => {
            let mut x = w(a, 0);
            for i in 0..12 {
                x = OPS[a[4 + i] as usize % 6](x, w(a, 4 + i % 4));
                push(x);
            }
            push(fib((a[31] % 7) as u32));
        }
        6 => {
            // conversions saturate; no NaN leaves the computation
            let f = |i: usize| (w(a, i) as i32) as f32 / 1024.0;
            let (x, y) = (f(0), f(1));
            push((x + y).to_bits());
            push((x * y).to_bits());
            push(if y == 0.0 { 9 } else { (x / y).to_bits() });
            push((x - y * 0.5) as i32 as u32);
            push((x < y) as u32 | ((x == y) as u32) << 1);
            push((w(a, 2) as f32) as u32);
        }
        _ => {
            let mut q: VecDeque<u8> = VecDeque::new();
            let shared = Rc::new(w(a, 7));
            let mut keep = Vec::new();
            for i in 0..12 {
                if a[i] % 3 == 0 {
                    q.push_front(a[i + 8]);
                } else {
                    q.push_back(a[i + 9]);
                }
                if a[i] % 5 == 0 {
                    push(q.pop_front().unwrap_or(0) as u32);
                    keep.push(shared.clone());
                }
            }
            let mut b = [0u8; 24];
            for (i, x) in q.iter().enumerate() {
                b[i] = *x;
            }
            let (f, t) = (a[30] as usize % 8, a[29] as usize % 8);
            b.copy_within(f..f + 13, t);
            push(Rc::strong_count(&shared) as u32 ^ keep.iter().fold(0, |s, x| s ^ **x));
            push(b.iter().fold(0u32, |s, x| s.wrapping_mul(131).wrapping_add(*x as u32)));
        }
    }
    o
}
