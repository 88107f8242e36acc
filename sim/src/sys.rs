//! Bindings to the simulation runtime (rt/simrt.c), the allocator seam and the panic recorder.
use std::alloc::{GlobalAlloc, Layout, System};
use std::ffi::{c_char, c_void};
use std::sync::atomic::{AtomicPtr, AtomicUsize, Ordering};

pub const MAX_DEC: usize = 1 << 19;
pub const MAX_ENT: usize = 4096;
pub const F_N: usize = 32;
pub const P_N: usize = 8;
pub const POINTS: [&str; P_N] = ["spawn", "join", "futex", "alloc", "clock", "io", "atomic", "yield"];
pub const FAULTS: [&str; 20] = [
    "thread-spawn-fails", "allocation-fails", "large-allocation-fails", "spurious-wakeup", "interrupted-wait", "stalled-thread",
    "monotonic-clock-jump", "wall-clock-jump", "getrandom-error", "getrandom-short", "entropy-open-fails", "entropy-eintr",
    "entropy-eio", "entropy-eof", "entropy-short-read", "file-eintr", "file-eio", "file-short-read", "stdout-error", "stderr-error",
];
pub const F_SPAWN: u32 = 0;
pub const F_ALLOC: u32 = 1;
pub const F_ALLOC_BIG: u32 = 2;
pub const F_SPURIOUS: u32 = 3;
pub const F_EINTR_WAIT: u32 = 4;
pub const F_STALL: u32 = 5;
pub const F_MONO_JUMP: u32 = 6;
pub const F_REAL_JUMP: u32 = 7;
pub const F_GETRANDOM: u32 = 8;
pub const F_GETRANDOM_SHORT: u32 = 9;
pub const F_ENT_OPEN: u32 = 10;
pub const F_ENT_EINTR: u32 = 11;
pub const F_ENT_EIO: u32 = 12;
pub const F_ENT_EOF: u32 = 13;
pub const F_ENT_SHORT: u32 = 14;
pub const F_READ_EINTR: u32 = 15;
pub const F_READ_EIO: u32 = 16;
pub const F_READ_SHORT: u32 = 17;
pub const F_STDOUT: u32 = 18;
pub const F_STDERR: u32 = 19;

#[repr(C)]
#[derive(Clone, Copy)]
pub struct SimFault {
    pub kind: u32,
    pub every: u32,
    pub n: u64,
    pub arg: u64,
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct SimDec {
    pub step: u64,
    pub tid: i64,
}
#[repr(C)]
pub struct SimConfig {
    pub seed: u64,
    pub entropy_seed: u64,
    pub entropy_fork: u64,
    pub hash_seed: u64,
    pub keep_seed: u64,
    pub keep_mask: u64,
    pub keep_gran: u64,
    pub preempt: u32,
    pub policy: u32,
    pub explicit_mode: u32,
    pub n_dec: u32,
    pub dec: *const SimDec,
    pub n_faults: u32,
    pub faults: *const SimFault,
    pub max_steps: u64,
    pub big_alloc: u64,
    pub garbage: u64,
    pub cpus: i32,
    pub cpuinfo_err: i32,
    pub has_stall: u32,
    pub has_alloc: u32,
    pub cpuinfo: *const c_char,
    pub watch_prefix: [u8; 256],
}
#[repr(C)]
pub struct SimStats {
    pub steps: u64,
    pub switches: u64,
    pub digest: u64,
    pub creates: u64,
    pub waits: u64,
    pub allocs: u64,
    pub big_allocs: u64,
    pub clock_reads: u64,
    pub entropy_bytes: u64,
    pub ent_opens: u64,
    pub ent_reads: u64,
    pub file_reads: u64,
    pub out_writes: u64,
    pub out_bytes: [u64; 2],
    pub time_skips: u64,
    pub max_live: u64,
    pub real_create_fail: u64,
    pub sim_ns: i64,
    pub points: [u64; P_N],
    pub injected: [u64; F_N],
    pub died: i32,
    pub dec_overflow: i32,
    pub text: [u8; 4096],
    pub n_ent: u32,
    pub ent: [u8; MAX_ENT],
    pub n_dec: u32,
    pub result_len: u32,
    pub result: [u8; 1 << 20],
    pub dec: [SimDec; MAX_DEC],
}
extern "C" {
    pub fn sim_run(cfg: *const SimConfig, stats: *mut SimStats, f: extern "C" fn(*mut c_void) -> *mut c_void, arg: *mut c_void);
    fn sim_alloc_point(size: usize) -> i32;
    fn sim_garbage(p: *mut u8, n: usize);
    fn sim_quiet(on: i32);
    pub fn sim_hash_seed(k: u64);
    pub fn sim_trace_start();
    pub fn sim_trace_read(out: *mut [u64; 4]);
    fn sim_routines(t: *const u32, n: u64);
    pub fn sim_trace_stop();
    pub fn sim_default_signals();
    pub fn sim_stats_size() -> usize;
    fn sim_capture(buf: *mut u8, max: usize);
    fn sim_captured() -> usize;
    fn sim_clock_log(out: *mut i64, max: usize) -> usize;
    fn sim_now() -> i64;
}

/// Runs `f`: what it wrote to stdout, the monotonic times it was told, and the time before and after.
pub fn overhear(f: impl FnOnce()) -> (String, Vec<i64>, i64, i64) {
    let mut buf = quiet(|| vec![0u8; 1 << 20]);
    unsafe {
        sim_capture(buf.as_mut_ptr(), buf.len());
        let a = sim_now();
        f();
        let b = sim_now();
        let n = sim_captured();
        quiet(|| {
            let mut t = vec![0i64; 512];
            let k = sim_clock_log(t.as_mut_ptr(), 512);
            t.truncate(k);
            sim_capture(std::ptr::null_mut(), 0);
            buf.truncate(n);
            (String::from_utf8_lossy(&buf).to_string(), t, a, b)
        })
    }
}

/// Blocks allocated while a trace is on and not freed since: (address, size), open addressing.
/// Simulated threads run one at a time, so no lock is needed.
const TRACE_SLOTS: usize = 1 << 20;
static mut TRACE: *mut [usize; 2] = std::ptr::null_mut();
static mut TRACING: bool = false;
static mut TRACE_N: usize = 0;
unsafe fn trace_slot(p: usize) -> usize {
    let mut i = (p >> 4).wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 44;
    loop {
        let e = (*TRACE.add(i))[0];
        if e == p || e == 0 {
            return i;
        }
        i = (i + 1) % TRACE_SLOTS;
    }
}
unsafe fn trace_add(p: *mut u8, n: usize) {
    if TRACING && !p.is_null() && TRACE_N < TRACE_SLOTS / 2 {
        let i = trace_slot(p as usize);
        TRACE_N += ((*TRACE.add(i))[0] == 0) as usize;
        *TRACE.add(i) = [p as usize, n];
    }
}
unsafe fn trace_del(p: *mut u8) {
    if TRACING {
        let i = trace_slot(p as usize);
        (*TRACE.add(i))[1] = 0;
    }
}
pub fn trace_start() {
    unsafe {
        let n = TRACE_SLOTS * 16;
        if TRACE.is_null() {
            TRACE = libc::mmap(std::ptr::null_mut(), n, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0) as *mut [usize; 2];
        } else {
            libc::madvise(TRACE as *mut c_void, n, libc::MADV_DONTNEED);
        }
        TRACE_N = 0;
        TRACING = true;
    }
}
/// Ends the trace: live blocks by address.
pub fn trace_stop() -> Vec<(usize, usize)> {
    unsafe {
        TRACING = false;
        let mut v: Vec<(usize, usize)> = (0..TRACE_SLOTS).map(|i| *TRACE.add(i)).filter(|e| e[0] != 0 && e[1] != 0).map(|e| (e[0], e[1])).collect();
        v.sort();
        v
    }
}
/// The traced blocks that are reachable from `n` bytes at `root`.
pub fn reachable(blocks: &[(usize, usize)], root: *const u8, n: usize) -> Vec<&'static [u8]> {
    let mut seen = vec![false; blocks.len()];
    let mut todo = vec![(root as usize, n)];
    while let Some((a, n)) = todo.pop() {
        for w in (a..a + n / 8 * 8).step_by(8) {
            let v = unsafe { (w as *const usize).read_unaligned() };
            let i = blocks.partition_point(|b| b.0 <= v);
            if i > 0 && v < blocks[i - 1].0 + blocks[i - 1].1 && !seen[i - 1] {
                seen[i - 1] = true;
                todo.push(blocks[i - 1]);
            }
        }
    }
    (0..blocks.len()).filter(|i| seen[*i]).map(|i| unsafe { std::slice::from_raw_parts(blocks[i].0 as *const u8, blocks[i].1) }).collect()
}

struct Alloc;
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if sim_alloc_point(l.size()) != 0 {
            return std::ptr::null_mut();
        }
        let p = System.alloc(l);
        if !p.is_null() {
            sim_garbage(p, l.size());
        }
        trace_add(p, l.size());
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if sim_alloc_point(l.size()) != 0 {
            return std::ptr::null_mut();
        }
        let p = System.alloc_zeroed(l);
        trace_add(p, l.size());
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if sim_alloc_point(n) != 0 {
            return std::ptr::null_mut();
        }
        trace_del(p);
        let q = System.realloc(p, l, n);
        if !q.is_null() && n > l.size() {
            sim_garbage(q.add(l.size()), n - l.size());
        }
        trace_add(q, n);
        q
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        trace_del(p);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Alloc = Alloc;

/// The crate that defines the function with a mangled name.
fn crate_of(sym: &[u8]) -> Option<&[u8]> {
    let mut i = 0;
    while let Some(k) = sym[i..].windows(2).position(|w| w == b"Cs") {
        let mut j = i + k + 2;
        while j < sym.len() && sym[j].is_ascii_alphanumeric() {
            j += 1;
        }
        if j < sym.len() && sym[j] == b'_' {
            let d = sym[j + 1..].iter().take_while(|c| c.is_ascii_digit()).count();
            let n: usize = std::str::from_utf8(&sym[j + 1..j + 1 + d]).ok()?.parse().ok()?;
            return sym.get(j + 1 + d..j + 1 + d + n);
        }
        i += k + 2;
    }
    None
}
/// Tells the runtime which routines to count: those of the machine and of the encrypted operations. The
/// arithmetic below them chooses some of its steps by the bits of ciphertexts, which are public.
pub fn count_routines() -> usize {
    let f = std::fs::read("/proc/self/exe").expect("own executable");
    let u = |a: usize, n: usize| f[a..a + n].iter().rev().fold(0usize, |x, b| x << 8 | *b as usize);
    let (shoff, shn) = (u(40, 8), u(60, 2));
    let sh = |k: usize| shoff + 64 * k;
    let Some(sym) = (0..shn).find(|k| u(sh(*k) + 4, 4) == 2) else { return 0 };
    let (so, sz, link) = (u(sh(sym) + 24, 8), u(sh(sym) + 32, 8), u(sh(sym) + 40, 4));
    let stro = u(sh(link) + 24, 8);
    let mut table: Vec<u32> = Vec::new();
    let mut n = 0;
    for k in 0..sz / 24 {
        let e = so + 24 * k;
        let (name, info, val, size) = (u(e, 4), f[e + 4], u(e + 8, 8), u(e + 16, 8));
        if info & 15 != 2 || size == 0 {
            continue;
        }
        let s = &f[stro + name..];
        let s = &s[..s.iter().position(|b| *b == 0).unwrap()];
        if matches!(crate_of(s), Some(b"fhevm" | b"compiler" | b"poulpy_core" | b"poulpy_schemes")) {
            n += 1;
            let (a, b) = (val >> 4, (val + size + 15) >> 4);
            if table.len() < b {
                table.resize(b, 0);
            }
            table[a..b].fill(n as u32);
        }
    }
    let t = table.leak();
    unsafe { sim_routines(t.as_ptr(), t.len() as u64) };
    n
}

/// Runs a checker without scheduling points or faults.
pub fn quiet<T>(f: impl FnOnce() -> T) -> T {
    struct G;
    impl Drop for G {
        fn drop(&mut self) {
            unsafe { sim_quiet(0) }
        }
    }
    unsafe { sim_quiet(1) };
    let _g = G;
    f()
}

static PANIC_BUF: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());
static PANIC_LEN: AtomicUsize = AtomicUsize::new(0);
pub static PANICS: AtomicUsize = AtomicUsize::new(0);

/// Panics are silent; the messages are kept (the first few kilobytes).
pub fn install_panic_recorder() {
    let b: &'static mut [u8] = Box::leak(vec![0u8; 8192].into_boxed_slice());
    PANIC_BUF.store(b.as_mut_ptr(), Ordering::SeqCst);
    std::panic::set_hook(Box::new(|info| {
        let body = || {
            PANICS.fetch_add(1, Ordering::SeqCst);
            let m = info.payload().downcast_ref::<String>().map(|s| s.as_str()).or(info.payload().downcast_ref::<&str>().copied()).unwrap_or("?");
            let at = info.location().map(|l| (l.file(), l.line())).unwrap_or(("?", 0));
            let file = at.0.rsplit_once("/repo/").map(|x| x.1).unwrap_or(at.0);
            let mut line = String::new();
            let cut: String = m.chars().take(400).collect();
            use std::fmt::Write;
            let _ = write!(line, "[{}:{} {}]", file, at.1, cut);
            let off = PANIC_LEN.load(Ordering::SeqCst);
            if off + line.len() < 8192 {
                unsafe { std::ptr::copy_nonoverlapping(line.as_ptr(), PANIC_BUF.load(Ordering::SeqCst).add(off), line.len()) };
                PANIC_LEN.store(off + line.len(), Ordering::SeqCst);
            }
        };
        quiet(body)
    }));
}
pub fn panic_text() -> String {
    let n = PANIC_LEN.load(Ordering::SeqCst);
    let p = PANIC_BUF.load(Ordering::SeqCst);
    if p.is_null() {
        return String::new();
    }
    String::from_utf8_lossy(unsafe { std::slice::from_raw_parts(p, n) }).into_owned()
}
pub fn clear_panics() {
    PANIC_LEN.store(0, Ordering::SeqCst);
    PANICS.store(0, Ordering::SeqCst);
}

/// Runs `f` on a thread of its own whose hash keys are a function of `k` alone. The cryptographic library
/// generates some key material in the iteration order of a hash map: this pins it, so that the same seeds
/// give the same keys whatever hash keys the rest of the process uses.
pub fn pinned<T>(k: u64, f: impl FnOnce() -> T) -> T {
    struct S<T>(T);
    unsafe impl<T> Send for S<T> {}
    let f = S(f);
    let r = std::thread::scope(|s| {
        let h = std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn_scoped(s, move || {
                let f = f;
                unsafe { sim_hash_seed(k) };
                S((f.0)())
            })
            .expect("setup thread");
        h.join()
    });
    match r {
        Ok(S(v)) => v,
        Err(e) => std::panic::resume_unwind(e),
    }
}
