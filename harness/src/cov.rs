//! Receives the sanitizer-coverage callbacks of the instrumented json crate:
//! edge counters, comparison operands (as distance features and as integer
//! hints), and the step budget.

use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};

static mut START: *mut u8 = std::ptr::null_mut();
static mut STOP: *mut u8 = std::ptr::null_mut();

const VP_BITS: usize = 1 << 17;
static mut CMP_NOW: [u64; VP_BITS / 64] = [0; VP_BITS / 64];
static mut CMP_SEEN: [u64; VP_BITS / 64] = [0; VP_BITS / 64];
static mut CMP_DIRTY: Vec<u32> = Vec::new();
static mut EDGE_SEEN: Vec<u8> = Vec::new();
static ACTIVE: AtomicBool = AtomicBool::new(false);

/// Comparisons executed by the crate under test in the current case
pub static STEPS: AtomicU64 = AtomicU64::new(0);
pub static STEP_LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);
/// Edges executed (the `edges` build only)
pub static EDGES: AtomicU64 = AtomicU64::new(0);
pub static EDGE_LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);
/// Bytes moved, set or compared by the C library's memory functions (only
/// counted with feature `steps`)
pub static COPIED: AtomicU64 = AtomicU64::new(0);
pub static COPY_LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);
static FEATURES: AtomicU64 = AtomicU64::new(0);

extern "C" {
    fn _exit(code: i32) -> !;
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, stop: *mut u8) {
    START = start;
    STOP = stop;
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_pcs_init(_: *const usize, _: *const usize) {}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    while p < stop {
        *p = 1;
        p = p.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(_: *mut u32) {
    // single writer: a plain load and store is enough and much cheaper
    let n = EDGES.load(Relaxed) + 1;
    EDGES.store(n, Relaxed);
    if n > EDGE_LIMIT.load(Relaxed) {
        _exit(77)
    }
}

#[cfg(feature = "steps")]
mod copies {
    use super::*;
    use std::arch::asm;

    #[inline(always)]
    unsafe fn count(n: usize) {
        let n = COPIED.load(Relaxed) + n as u64;
        COPIED.store(n, Relaxed);
        if n > COPY_LIMIT.load(Relaxed) {
            _exit(77)
        }
    }

    #[no_mangle]
    pub unsafe extern "C" fn memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
        count(n);
        asm!("rep movsb", inout("rdi") d => _, inout("rsi") s => _, inout("rcx") n => _, options(nostack, preserves_flags));
        d
    }

    #[no_mangle]
    pub unsafe extern "C" fn memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
        count(n);
        if (d as usize).wrapping_sub(s as usize) >= n {
            asm!("rep movsb", inout("rdi") d => _, inout("rsi") s => _, inout("rcx") n => _, options(nostack, preserves_flags));
        } else {
            asm!("std", "rep movsb", "cld",
                inout("rdi") d.wrapping_add(n).wrapping_sub(1) => _,
                inout("rsi") s.wrapping_add(n).wrapping_sub(1) => _,
                inout("rcx") n => _, options(nostack));
        }
        d
    }

    #[no_mangle]
    pub unsafe extern "C" fn memset(d: *mut u8, c: i32, n: usize) -> *mut u8 {
        count(n);
        asm!("rep stosb", inout("rdi") d => _, in("al") c as u8, inout("rcx") n => _, options(nostack, preserves_flags));
        d
    }

    #[inline(always)]
    unsafe fn compare(a: *const u8, b: *const u8, n: usize) -> i32 {
        let mut i = 0;
        while i < n {
            let (x, y) = (std::ptr::read_volatile(a.add(i)), std::ptr::read_volatile(b.add(i)));
            if x != y {
                count(i + 1);
                return x as i32 - y as i32;
            }
            i += 1;
        }
        count(n);
        0
    }

    #[no_mangle]
    pub unsafe extern "C" fn memcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
        compare(a, b, n)
    }

    #[no_mangle]
    pub unsafe extern "C" fn bcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
        compare(a, b, n)
    }
}

/// True when this build counts the edges the crate under test executes
pub fn stepping() -> bool {
    let a = EDGES.load(Relaxed);
    let _ = json::parse("[1]");
    EDGES.load(Relaxed) != a
}

/// Stops collecting features for the rest of the case (other threads follow,
/// or a lot of data)
pub fn pause() {
    ACTIVE.store(false, Relaxed);
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_indir(_: usize) {}

#[inline(always)]
fn step() {
    let n = STEPS.load(Relaxed) + 1;
    STEPS.store(n, Relaxed);
    if n > STEP_LIMIT.load(Relaxed) {
        unsafe { _exit(77) }
    }
}

#[inline(always)]
#[allow(static_mut_refs)]
unsafe fn feature(i: usize) {
    let i = i & (VP_BITS - 1);
    let (w, b) = (i / 64, 1u64 << (i % 64));
    if CMP_SEEN[w] & b == 0 && CMP_NOW[w] & b == 0 {
        CMP_NOW[w] |= b;
        if CMP_DIRTY.len() < CMP_DIRTY.capacity() {
            CMP_DIRTY.push(i as u32);
        }
    }
}

extern "C" fn on_cmp(a: u64, b: u64, pc: u64) {
    step();
    if !ACTIVE.load(Relaxed) {
        return;
    }
    // addresses differ from run to run
    if matches!(a >> 40, 0x50..=0x7f) || matches!(b >> 40, 0x50..=0x7f) {
        return;
    }
    let d = (a ^ b).count_ones() as usize;
    let dist = 64 - (a.wrapping_sub(b)).leading_zeros().min((b.wrapping_sub(a)).leading_zeros()) as usize;
    unsafe {
        // relative, so that runs do not depend on where the program is loaded
        let base = (pc as usize).wrapping_sub(START as usize).wrapping_mul(0x9e3779b1) >> 3;
        feature(base.wrapping_mul(131).wrapping_add(d));
        feature(base.wrapping_mul(131).wrapping_add(65 + dist));
    }
}

#[allow(static_mut_refs)]
extern "C" fn on_const_cmp(a: u64, b: u64, pc: u64) {
    // the first operand is the constant
    on_cmp(a, b, pc);
    if ACTIVE.load(Relaxed) && a > 8 {
        unsafe {
            static mut SEEN: [u64; 256] = [0; 256];
            let slot = (a.wrapping_mul(0x9e3779b97f4a7c15) >> 56) as usize;
            if SEEN[slot] != a {
                SEEN[slot] = a;
                let d = &mut crate::engine::DICT_INTS;
                if d.len() < d.capacity() && !d.contains(&a) {
                    d.push(a);
                }
            }
        }
    }
}

#[cfg(target_arch = "x86_64")]
mod tramps {
    use super::*;
    use std::arch::naked_asm;

    macro_rules! tramp {
        ($name:ident, $mask:literal, $to:ident) => {
            #[unsafe(naked)]
            #[no_mangle]
            pub unsafe extern "C" fn $name() {
                // the compiler passes narrow operands in full registers
                naked_asm!($mask, "mov rdx, [rsp]", "jmp {}", sym $to)
            }
        };
    }

    tramp!(__sanitizer_cov_trace_cmp1, "movzx edi, dil\nmovzx esi, sil", on_cmp);
    tramp!(__sanitizer_cov_trace_cmp2, "movzx edi, di\nmovzx esi, si", on_cmp);
    tramp!(__sanitizer_cov_trace_cmp4, "mov edi, edi\nmov esi, esi", on_cmp);
    tramp!(__sanitizer_cov_trace_cmp8, "nop", on_cmp);
    tramp!(__sanitizer_cov_trace_const_cmp1, "movzx edi, dil\nmovzx esi, sil", on_const_cmp);
    tramp!(__sanitizer_cov_trace_const_cmp2, "movzx edi, di\nmovzx esi, si", on_const_cmp);
    tramp!(__sanitizer_cov_trace_const_cmp4, "mov edi, edi\nmov esi, esi", on_const_cmp);
    tramp!(__sanitizer_cov_trace_const_cmp8, "nop", on_const_cmp);
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_switch(v: u64, cases: *const u64) {
    step();
    if !ACTIVE.load(Relaxed) {
        return;
    }
    let n = *cases as usize;
    for i in 0..n.min(64) {
        let c = *cases.add(2 + i);
        if c == v {
            feature((cases as usize).wrapping_mul(0x9e3779b1).wrapping_add(i));
        }
    }
}

#[allow(static_mut_refs)]
pub fn start() {
    unsafe {
        CMP_DIRTY.reserve(1 << 16);
        crate::engine::DICT_INTS.reserve(512);
        let n = if START.is_null() { 0 } else { STOP.offset_from(START) as usize };
        EDGE_SEEN = vec![0; n];
    }
}

#[allow(static_mut_refs)]
pub fn instrumented() -> bool {
    unsafe { !START.is_null() }
}

#[allow(static_mut_refs)]
pub fn begin_case() {
    STEPS.store(0, Relaxed);
    unsafe {
        for i in CMP_DIRTY.drain(..) {
            CMP_NOW[i as usize / 64] = 0;
        }
        if !START.is_null() {
            std::ptr::write_bytes(START, 0, STOP.offset_from(START) as usize);
        }
    }
    ACTIVE.store(true, Relaxed);
}

/// Ends a case; true if it showed anything not seen before.
#[allow(static_mut_refs)]
pub fn end_case() -> bool {
    ACTIVE.store(false, Relaxed);
    let mut new = 0u64;
    unsafe {
        for &i in CMP_DIRTY.iter() {
            CMP_SEEN[i as usize / 64] |= 1 << (i % 64);
            new += 1;
        }
        if !START.is_null() {
            let n = STOP.offset_from(START) as usize;
            for i in 0..n {
                let c = *START.add(i);
                if c != 0 {
                    let bucket = match c {
                        1 => 1u8,
                        2 => 2,
                        3 => 4,
                        4..=7 => 8,
                        8..=15 => 16,
                        16..=31 => 32,
                        32..=127 => 64,
                        _ => 128,
                    };
                    if EDGE_SEEN[i] & bucket == 0 {
                        EDGE_SEEN[i] |= bucket;
                        new += 1;
                    }
                }
            }
        }
    }
    FEATURES.fetch_add(new, Relaxed);
    new > 0
}

#[allow(static_mut_refs)]
pub fn summary() -> (usize, usize, u64) {
    unsafe {
        (EDGE_SEEN.len(), EDGE_SEEN.iter().filter(|&&x| x != 0).count(), FEATURES.load(Relaxed))
    }
}
