//! Global allocator with three behaviours, chosen per block by address:
//! plain (counted), paranoid (canaries, poison, no reuse, leak accounting) and
//! arena (one region that can be made read-only).

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU64, AtomicU8, AtomicUsize, Ordering::Relaxed};

pub struct A;

#[global_allocator]
static GLOBAL: A = A;

const PLAIN: u8 = 0;
const PARANOID: u8 = 1;
const ARENA: u8 = 2;

static MODE: AtomicU8 = AtomicU8::new(PLAIN);
static BASE: AtomicUsize = AtomicUsize::new(0);
static TOP: AtomicUsize = AtomicUsize::new(0);
const REGION: usize = if cfg!(target_pointer_width = "32") { 1 << 29 } else { 2 << 30 };

pub static LIVE: AtomicU64 = AtomicU64::new(0);
pub static TOTAL: AtomicU64 = AtomicU64::new(0);
pub static COUNT: AtomicU64 = AtomicU64::new(0);
pub static FREED: AtomicU64 = AtomicU64::new(0);
pub static PEAK: AtomicU64 = AtomicU64::new(0);
pub static LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);

extern "C" {
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(a: *mut u8, len: usize, prot: i32) -> i32;
    fn madvise(a: *mut u8, len: usize, advice: i32) -> i32;
    fn write(fd: i32, p: *const std::ffi::c_void, n: usize) -> isize;
    fn _exit(code: i32) -> !;
}

const MAGIC_LIVE: u64 = 0x51a7e0c0ffee1234;
const MAGIC_FREE: u64 = 0xdeadfee1deadfee1;
const CANARY: u8 = 0xA5;
const POISON: u8 = 0xDD;
const FRESH: u8 = 0xCD;
const HDR: usize = 64;
const TAIL: usize = 32;

#[repr(C)]
struct Header {
    magic: u64,
    size: usize,
    align: usize,
    user: usize,
    next: usize,
    pad: [u64; 3],
}

fn die(what: &str) -> ! {
    unsafe {
        write(2, b"HEAP: ".as_ptr().cast(), 6);
        write(2, what.as_ptr().cast(), what.len());
        write(2, b"\n".as_ptr().cast(), 1);
        _exit(79)
    }
}

fn out_of_memory() -> ! {
    unsafe { _exit(78) }
}

pub fn init_region() {
    unsafe {
        let p = mmap(std::ptr::null_mut(), REGION, 3, 0x22 | 0x4000, -1, 0);
        assert!(p as isize != -1);
        BASE.store(p as usize, Relaxed);
        TOP.store(p as usize, Relaxed);
    }
}

#[inline(always)]
fn in_region(p: *mut u8) -> bool {
    let b = BASE.load(Relaxed);
    b != 0 && (p as usize) >= b && (p as usize) < b + REGION
}

unsafe fn paranoid_alloc(l: Layout) -> *mut u8 {
    let top = TOP.load(Relaxed);
    let hdr = (top + 15) & !15;
    let align = l.align().max(16);
    let user = (hdr + HDR + align - 1) & !(align - 1);
    // place the block so that its last byte is followed at once by the canary
    let end = user + l.size() + TAIL;
    let next = (end + 15) & !15;
    if next + 4096 > BASE.load(Relaxed) + REGION {
        out_of_memory();
    }
    let h = hdr as *mut Header;
    *h = Header { magic: MAGIC_LIVE, size: l.size(), align: l.align(), user, next, pad: [0; 3] };
    std::ptr::write_bytes((hdr + std::mem::size_of::<Header>()) as *mut u8, CANARY, user - hdr - std::mem::size_of::<Header>());
    std::ptr::write_bytes(user as *mut u8, FRESH, l.size());
    std::ptr::write_bytes((user + l.size()) as *mut u8, CANARY, next - user - l.size());
    TOP.store(next, Relaxed);
    user as *mut u8
}

unsafe fn header_of(p: *mut u8) -> *mut Header {
    // blocks with align <= 16 have their header right before; others are searched
    let guess = (p as usize - HDR) as *mut Header;
    if guess as usize >= BASE.load(Relaxed) && (*guess).user == p as usize {
        return guess;
    }
    let mut at = BASE.load(Relaxed);
    while at < TOP.load(Relaxed) {
        let h = at as *mut Header;
        if (*h).user == p as usize {
            return h;
        }
        if (*h).next <= at {
            die("block list damaged");
        }
        at = (*h).next;
    }
    die("free of an address that is not a block")
}

unsafe fn check_canary(h: *mut Header) {
    let end = (*h).user + (*h).size;
    let mut p = end;
    while p < (*h).next {
        if *(p as *const u8) != CANARY {
            die("write past the end of a block");
        }
        p += 1;
    }
    let mut p = h as usize + std::mem::size_of::<Header>();
    while p < (*h).user {
        if *(p as *const u8) != CANARY {
            die("write before the start of a block");
        }
        p += 1;
    }
}

unsafe fn region_free(p: *mut u8, l: Layout) {
    if MODE.load(Relaxed) == ARENA || ARENA_USED.load(Relaxed) == 1 {
        return;
    }
    let h = header_of(p);
    if (*h).magic == MAGIC_FREE {
        die("double free");
    }
    if (*h).magic != MAGIC_LIVE {
        die("block header damaged");
    }
    if (*h).size != l.size() || (*h).align != l.align() {
        die("free with a different size or alignment than allocated");
    }
    check_canary(h);
    (*h).magic = MAGIC_FREE;
    std::ptr::write_bytes(p, POISON, l.size());
}

static ARENA_USED: AtomicU8 = AtomicU8::new(0);

unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        match MODE.load(Relaxed) {
            PLAIN => {
                let n = l.size() as u64;
                TOTAL.fetch_add(n, Relaxed);
                COUNT.fetch_add(1, Relaxed);
                let live = LIVE.fetch_add(n, Relaxed) + n;
                if live > PEAK.load(Relaxed) {
                    PEAK.store(live, Relaxed);
                }
                if live > LIMIT.load(Relaxed) {
                    out_of_memory();
                }
                System.alloc(l)
            }
            PARANOID => paranoid_alloc(l),
            _ => {
                let top = TOP.load(Relaxed);
                let align = l.align().max(16);
                let p = (top + align - 1) & !(align - 1);
                if p + l.size() + 4096 > BASE.load(Relaxed) + REGION {
                    out_of_memory();
                }
                TOP.store(p + l.size(), Relaxed);
                p as *mut u8
            }
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if in_region(p) {
            region_free(p, l)
        } else {
            LIVE.fetch_sub(l.size() as u64, Relaxed);
            FREED.fetch_add(1, Relaxed);
            System.dealloc(p, l)
        }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = self.alloc(l);
        if !p.is_null() {
            std::ptr::write_bytes(p, 0, l.size());
        }
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if !in_region(p) && MODE.load(Relaxed) == PLAIN {
            let n = new as u64;
            TOTAL.fetch_add(n, Relaxed);
            COUNT.fetch_add(1, Relaxed);
            FREED.fetch_add(1, Relaxed);
            LIVE.fetch_sub(l.size() as u64, Relaxed);
            let live = LIVE.fetch_add(n, Relaxed) + n;
            if live > PEAK.load(Relaxed) {
                PEAK.store(live, Relaxed);
            }
            if live > LIMIT.load(Relaxed) {
                out_of_memory();
            }
            return System.realloc(p, l, new);
        }
        // always move, so that stale pointers show
        let q = self.alloc(Layout::from_size_align_unchecked(new, l.align()));
        std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
        self.dealloc(p, l);
        q
    }
}

/// Allocation inside `f` is checked; everything allocated inside must have
/// been freed exactly once when it returns.
pub fn paranoid(f: impl FnOnce() -> Result<(), String>) -> Result<(), String> {
    if cfg!(any(feature = "asan", miri)) {
        // somebody else watches the accesses; count what is left over
        let (live, count) = (LIVE.load(Relaxed), FREED.load(Relaxed).wrapping_sub(COUNT.load(Relaxed)));
        let r = f();
        let (live2, count2) = (LIVE.load(Relaxed), FREED.load(Relaxed).wrapping_sub(COUNT.load(Relaxed)));
        r?;
        if live != live2 || count != count2 {
            return Err(format!("{} bytes in {} blocks were never released", live2.wrapping_sub(live), count.wrapping_sub(count2)));
        }
        return Ok(());
    }
    assert!(BASE.load(Relaxed) != 0 && MODE.load(Relaxed) == PLAIN);
    reset();
    MODE.store(PARANOID, Relaxed);
    let r = f();
    MODE.store(PLAIN, Relaxed);
    let out = match &r {
        Ok(()) => Ok(()),
        Err(m) => Err(String::from(&m[..])),
    };
    drop(r);
    out?;
    let leak = sweep();
    reset();
    leak
}

fn sweep() -> Result<(), String> {
    let (mut blocks, mut leaked, mut bytes) = (0, 0, 0);
    let mut first = String::new();
    unsafe {
        let mut at = BASE.load(Relaxed);
        while at < TOP.load(Relaxed) {
            let h = ((at + 15) & !15) as *mut Header;
            blocks += 1;
            check_canary(h);
            if (*h).magic == MAGIC_LIVE {
                leaked += 1;
                bytes += (*h).size;
                if first.is_empty() {
                    let n = (*h).size.min(48);
                    let b = std::slice::from_raw_parts((*h).user as *const u8, n);
                    first = String::from_utf8_lossy(b).into_owned();
                }
            } else if (*h).magic == MAGIC_FREE {
                for i in 0..(*h).size {
                    if *(((*h).user + i) as *const u8) != POISON {
                        die("write into a freed block");
                    }
                }
            } else {
                die("block header damaged");
            }
            at = (*h).next;
        }
    }
    if leaked > 0 {
        return Err(format!("{} of {} blocks ({} bytes) were never released; one starts {:?}", leaked, blocks, bytes, first));
    }
    Ok(())
}

pub fn blocks_used() -> usize {
    TOP.load(Relaxed) - BASE.load(Relaxed)
}

fn reset() {
    let used = TOP.load(Relaxed) - BASE.load(Relaxed);
    if used > 64 << 20 {
        unsafe { madvise(BASE.load(Relaxed) as *mut u8, REGION, 4) };
    }
    TOP.store(BASE.load(Relaxed), Relaxed);
}

pub fn suspend() {
    MODE.store(PLAIN, Relaxed);
}

pub fn after_panic() {
    MODE.store(PLAIN, Relaxed);
    if BASE.load(Relaxed) != 0 {
        protect(false);
        ARENA_USED.store(0, Relaxed);
        reset();
    }
}

/// Runs `f` with every allocation in the arena.
pub fn in_arena<T>(f: impl FnOnce() -> T) -> T {
    if ARENA_USED.load(Relaxed) == 0 {
        reset();
        ARENA_USED.store(1, Relaxed);
    }
    MODE.store(ARENA, Relaxed);
    let r = f();
    MODE.store(PLAIN, Relaxed);
    r
}

pub fn protect(read_only: bool) {
    let base = BASE.load(Relaxed);
    let used = (TOP.load(Relaxed) - base + 4095) & !4095;
    unsafe {
        assert!(mprotect(base as *mut u8, used.max(4096), if read_only { 1 } else { 3 }) == 0);
    }
}

pub fn end_arena() {
    ARENA_USED.store(0, Relaxed);
    reset();
}
