//! Coverage of the code under test, which is compiled with LLVM's sanitizer
//! coverage (see tools/rustc-sancov.sh): edge counters, and how close the two
//! sides of each comparison came.  Nothing here decides anything: it only says
//! which cases are worth varying.
use std::sync::atomic::{AtomicUsize, Ordering};

const REGIONS: usize = 256;
static STARTS: [AtomicUsize; REGIONS] = [const { AtomicUsize::new(0) }; REGIONS];
static STOPS: [AtomicUsize; REGIONS] = [const { AtomicUsize::new(0) }; REGIONS];
static COUNT: AtomicUsize = AtomicUsize::new(0);

/// One bit for each (place of a comparison, closeness) seen in this case.
const CMP_BITS: usize = 1 << 16;
static mut CMP: [u64; CMP_BITS / 64] = [0; CMP_BITS / 64];

#[no_mangle]
extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, stop: *mut u8) {
    let (a, b) = (start as usize, stop as usize);
    if a >= b {
        return;
    }
    let n = COUNT.load(Ordering::Relaxed);
    for s in STARTS.iter().take(n) {
        if s.load(Ordering::Relaxed) == a {
            return;
        }
    }
    if n < REGIONS {
        STARTS[n].store(a, Ordering::Relaxed);
        STOPS[n].store(b, Ordering::Relaxed);
        COUNT.store(n + 1, Ordering::Relaxed);
    }
}

#[no_mangle]
extern "C" fn __sanitizer_cov_pcs_init(_: *const usize, _: *const usize) {}

// The hooks are called with the two sides; the place is the return address.
#[cfg(target_arch = "x86_64")]
std::arch::global_asm!(
    ".macro wsverif_cmp name, f",
    ".globl \\name",
    ".type \\name,@function",
    "\\name:",
    "mov rdx, [rsp]",
    "jmp \\f",
    ".endm",
    "wsverif_cmp __sanitizer_cov_trace_cmp1, {narrow}",
    "wsverif_cmp __sanitizer_cov_trace_cmp2, {narrow}",
    "wsverif_cmp __sanitizer_cov_trace_cmp4, {narrow}",
    "wsverif_cmp __sanitizer_cov_trace_cmp8, {wide}",
    "wsverif_cmp __sanitizer_cov_trace_const_cmp1, {narrow}",
    "wsverif_cmp __sanitizer_cov_trace_const_cmp2, {narrow}",
    "wsverif_cmp __sanitizer_cov_trace_const_cmp4, {narrow}",
    "wsverif_cmp __sanitizer_cov_trace_const_cmp8, {wide}",
    ".globl __sanitizer_cov_trace_switch",
    ".type __sanitizer_cov_trace_switch,@function",
    "__sanitizer_cov_trace_switch:",
    "ret",
    narrow = sym compared_narrow,
    wide = sym compared,
);

extern "C" fn compared_narrow(a: u32, b: u32, at: usize) {
    compared(u64::from(a), u64::from(b), at);
}

extern "C" fn compared(a: u64, b: u64, at: usize) {
    // How far apart the two sides are.
    let dist = (a.wrapping_sub(b) as i64).unsigned_abs();
    let dist = 64 - dist.leading_zeros() as usize;
    let at = at.wrapping_sub(compared as *const () as usize);
    let base = at.wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 42;
    let i = base.wrapping_add(dist) % CMP_BITS;
    unsafe {
        let p = (&raw mut CMP).cast::<u64>().add(i / 64);
        *p |= 1 << (i % 64);
    }
}

pub fn available() -> bool {
    COUNT.load(Ordering::Relaxed) > 0
}

pub struct Coverage {
    /// The hit-count classes seen of each counter.
    edges: Vec<u8>,
    cmps: Vec<u64>,
    pub features: usize,
}

fn regions() -> impl Iterator<Item = (usize, usize)> {
    (0..COUNT.load(Ordering::Relaxed)).map(|i| {
        (STARTS[i].load(Ordering::Relaxed), STOPS[i].load(Ordering::Relaxed))
    })
}

/// Forgets what the last case did.
pub fn reset() {
    for (a, b) in regions() {
        unsafe { std::ptr::write_bytes(a as *mut u8, 0, b - a) };
    }
    unsafe { (&raw mut CMP).write([0; CMP_BITS / 64]) };
}

fn class(n: u8) -> u8 {
    match n {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 4,
        4..=7 => 8,
        8..=15 => 16,
        16..=31 => 32,
        32..=127 => 64,
        _ => 128,
    }
}

impl Coverage {
    pub fn new() -> Coverage {
        Coverage {
            edges: vec![0; regions().map(|(a, b)| b - a).sum()],
            cmps: vec![0; CMP_BITS / 64],
            features: 0,
        }
    }

    /// Adds what the last case did: the number of new features.
    pub fn add(&mut self) -> usize {
        let mut new = 0;
        let mut k = 0;
        for (a, b) in regions() {
            let mut i = a;
            while i < b {
                if i + 8 <= b
                    && unsafe { (i as *const u64).read_unaligned() } == 0
                {
                    i += 8;
                    k += 8;
                    continue;
                }
                let c = class(unsafe { *(i as *const u8) });
                if c & !self.edges[k] != 0 {
                    self.edges[k] |= c;
                    new += 1;
                }
                i += 1;
                k += 1;
            }
        }
        for (i, s) in self.cmps.iter_mut().enumerate() {
            let c = unsafe { *(&raw const CMP).cast::<u64>().add(i) };
            let d = c & !*s;
            if d != 0 {
                *s |= d;
                new += d.count_ones() as usize;
            }
        }
        self.features += new;
        new
    }
}
