//! Choice-sequence engine: every random decision of a case is one recorded
//! `u64`, so a case is replayed, mutated and shrunk as a plain vector.

use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub type R = Result<(), String>;

/// Notes are printed as they come, for replays that end in a crash
/// Small cases, for slow ways of running them
pub static SMALL: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub static LIVE_TRACE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

#[macro_export]
macro_rules! fail {
    ($($a:tt)*) => { return Err(format!($($a)*)) };
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}

// ---------------------------------------------------------------- random

#[derive(Clone)]
pub struct Rng([u64; 4]);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut z = seed;
        let mut next = || {
            z = z.wrapping_add(0x9e3779b97f4a7c15);
            let mut x = z;
            x = (x ^ (x >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
            x = (x ^ (x >> 27)).wrapping_mul(0x94d049bb133111eb);
            x ^ (x >> 31)
        };
        Rng([next(), next(), next(), next()])
    }
    pub fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    /// Uniform in 0..=max
    pub fn upto(&mut self, max: u64) -> u64 {
        if max == u64::MAX {
            return self.next();
        }
        let n = max + 1;
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.upto(n - 1)
    }
}

// ------------------------------------------------------- dictionary hints

pub static mut DICT_INTS: Vec<u64> = Vec::new();
pub static mut DICT_STRS: Vec<String> = Vec::new();
/// Names of items the macros may declare
pub static mut DICT_NAMES: Vec<String> = Vec::new();

#[allow(static_mut_refs)]
pub fn dict_ints() -> &'static [u64] {
    unsafe { &DICT_INTS[..] }
}

#[allow(static_mut_refs)]
pub fn dict_strs() -> &'static [String] {
    unsafe { &DICT_STRS[..] }
}

#[allow(static_mut_refs)]
pub fn dict_names() -> &'static [String] {
    unsafe { &DICT_NAMES[..] }
}

#[allow(static_mut_refs)]
pub fn load_hints(path: &str) {
    if let Some(text) = crate::host::read(path).ok().and_then(|t| String::from_utf8(t).ok()) {
        for line in text.lines() {
            if let Some(n) = line.strip_prefix("i ") {
                if let Ok(n) = n.parse() {
                    unsafe { DICT_INTS.push(n) };
                }
            } else if let Some(n) = line.strip_prefix("n ") {
                unsafe { DICT_NAMES.push(n.to_string()) };
            } else if let Some(h) = line.strip_prefix("s ") {
                let bytes: Option<Vec<u8>> = (0..h.len() / 2)
                    .map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).ok())
                    .collect();
                if let Some(Ok(s)) = bytes.map(String::from_utf8) {
                    unsafe { DICT_STRS.push(s) };
                }
            }
        }
    }
}

// ---------------------------------------------------------------- journal

pub static mut JOURNAL: *mut u64 = std::ptr::null_mut();
pub const JOURNAL_CAP: usize = 1 << 20;

extern "C" {
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, opts: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn alarm(s: u32) -> u32;
}

/// The choices drawn so far in the current case, kept where they outlive a
/// crash of this process. `[0]` is the count.
pub fn open_journal(path: Option<&str>) {
    let len = (JOURNAL_CAP + 1) * 8;
    unsafe {
        let p = match path {
            #[cfg(not(target_arch = "wasm32"))]
            Some(path) => {
                use std::os::fd::AsRawFd;
                let f = std::fs::OpenOptions::new()
                    .read(true).write(true).create(true).truncate(true)
                    .open(path).expect("journal");
                f.set_len(len as u64).expect("journal size");
                mmap(std::ptr::null_mut(), len, 3, 1, f.as_raw_fd(), 0)
            }
            _ => mmap(std::ptr::null_mut(), len, 3, 0x21, -1, 0),
        };
        assert!(p as isize != -1, "mmap journal");
        JOURNAL = p as *mut u64;
    }
}

pub fn read_journal() -> Vec<u64> {
    unsafe {
        if JOURNAL.is_null() {
            return Vec::new();
        }
        let n = (*JOURNAL as usize).min(JOURNAL_CAP);
        (0..n).map(|i| *JOURNAL.add(1 + i)).collect()
    }
}

// -------------------------------------------------------------------- G

/// Statistics that accumulate over the cases of a run.
#[derive(Default)]
pub struct Stats {
    pub cases: u64,
    pub nontrivial: u64,
    pub labels: HashMap<&'static str, u64>,
    pub prints: Vec<u64>,
    pub samples: Vec<String>,
}

pub struct G {
    input: Vec<u64>,
    tail_random: bool,
    /// Draws after this many give the simplest answer
    pub max_draws: usize,
    pub rec: Vec<u64>,
    rng: Rng,
    // observations about this case
    pub nontrivial: bool,
    /// Bytes fingerprinted, as a measure of the case's size
    pub printed: usize,
    pub labels: Vec<&'static str>,
    pub fp: u64,
    fp_set: bool,
    pub sample: Option<String>,
    pub want_sample: bool,
    pub quick: bool,
    /// What the case did, for the report; filled lazily by the property
    pub trace: Vec<String>,
    pub want_trace: bool,
    hidden: bool,
}

impl G {
    pub fn new(input: Vec<u64>, tail_random: bool, seed: u64) -> G {
        unsafe {
            if !JOURNAL.is_null() {
                *JOURNAL = 0;
            }
        }
        G {
            input,
            tail_random,
            max_draws: JOURNAL_CAP - 1,
            rec: Vec::with_capacity(64),
            rng: Rng::new(seed),
            nontrivial: false,
            printed: 0,
            labels: Vec::new(),
            fp: 0xcbf29ce484222325,
            fp_set: false,
            sample: None,
            want_sample: false,
            quick: true,
            trace: Vec::new(),
            want_trace: false,
            hidden: false,
        }
    }
    /// Random choices that no journal keeps, for a thread of its own
    pub fn unseen(seed: u64) -> G {
        G {
            input: Vec::new(),
            tail_random: true,
            max_draws: 2000,
            rec: Vec::with_capacity(64),
            rng: Rng::new(seed),
            nontrivial: false,
            printed: 0,
            labels: Vec::new(),
            fp: 0xcbf29ce484222325,
            fp_set: false,
            sample: None,
            want_sample: false,
            quick: true,
            trace: Vec::new(),
            want_trace: false,
            hidden: true,
        }
    }

    #[inline]
    pub fn draw_by(&mut self, max: u64, f: impl FnOnce(&mut Rng) -> u64) -> u64 {
        let pos = self.rec.len();
        let v = if pos >= self.max_draws {
            0
        } else if pos < self.input.len() {
            let x = self.input[pos];
            if x > max { x % (max + 1) } else { x }
        } else if self.tail_random {
            f(&mut self.rng).min(max)
        } else {
            0
        };
        self.rec.push(v);
        unsafe {
            if !JOURNAL.is_null() && pos < JOURNAL_CAP && !self.hidden {
                *JOURNAL.add(1 + pos) = v;
                *JOURNAL = pos as u64 + 1;
            }
        }
        v
    }

    /// Uniform in 0..=max
    pub fn upto(&mut self, max: u64) -> u64 {
        self.draw_by(max, |r| r.upto(max))
    }
    /// Uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        self.upto(n as u64 - 1) as usize
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.upto(hi - lo)
    }
    pub fn flip(&mut self) -> bool {
        self.upto(1) == 1
    }
    /// True with probability p/1000; false is the simpler answer
    pub fn prob(&mut self, p: u64) -> bool {
        self.draw_by(1, |r| (r.below(1000) < p) as u64) == 1
    }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        &items[self.below(items.len())]
    }
    /// Index by weight; put the simplest alternative first
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        self.draw_by(w.len() as u64 - 1, |r| {
            let mut x = r.below(total as u64) as u32;
            for (i, &w) in w.iter().enumerate() {
                if x < w {
                    return i as u64;
                }
                x -= w;
            }
            0
        }) as usize
    }
    /// A length: mostly small, with edges, powers of two, and hints
    pub fn size(&mut self, max: usize) -> usize {
        let max = if SMALL.load(std::sync::atomic::Ordering::Relaxed) { max.min(40) } else { max } as u64;
        self.draw_by(max, |r| {
            let v = match r.below(100) {
                0..=39 => r.below(4),
                40..=69 => r.below(12),
                70..=84 => r.below(40),
                85..=89 => {
                    let p = 1u64 << r.below(17);
                    (p + r.below(3)).saturating_sub(1)
                }
                90..=92 => *[29u64, 30, 31, 32, 33, 34][r.below(6) as usize..].first().unwrap(),
                93..=95 => {
                    let d = dict_ints();
                    if d.is_empty() {
                        r.upto(max)
                    } else {
                        let x = d[r.below(d.len() as u64) as usize];
                        if x <= max { (x + r.below(3)).saturating_sub(1) } else { r.below(8) }
                    }
                }
                _ => r.upto(max.min(300)),
            };
            v.min(max)
        }) as usize
    }
    /// Any integer in 0..=max, biased to edges, powers and hints
    pub fn int(&mut self, max: u64) -> u64 {
        self.draw_by(max, |r| {
            let v = match r.below(20) {
                0..=2 => r.below(20),
                3..=4 => max - r.below(20).min(max),
                5..=7 => {
                    let p = 1u64 << r.below(64);
                    p.wrapping_add(r.below(5)).wrapping_sub(2)
                }
                8..=10 => {
                    let p = 10u64.pow(r.below(20) as u32);
                    match r.below(3) {
                        0 => p.wrapping_add(r.below(5)).wrapping_sub(2),
                        1 => p.wrapping_mul(r.below(100)),
                        _ => p - 1,
                    }
                }
                11..=12 => {
                    let d = dict_ints();
                    if d.is_empty() {
                        r.next()
                    } else {
                        d[r.below(d.len() as u64) as usize].wrapping_add(r.below(3)).wrapping_sub(1)
                    }
                }
                13..=16 => {
                    let bits = r.below(64);
                    r.next() >> bits
                }
                _ => r.upto(max),
            };
            if v <= max { v } else if max == u64::MAX { v } else { v % (max + 1) }
        })
    }

    // ------------------------------------------------------ observations

    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.labels.push(l);
        }
    }
    pub fn print_bytes(&mut self, b: &[u8]) {
        self.fp_set = true;
        self.printed += b.len();
        let mut h = self.fp;
        for chunk in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..chunk.len()].copy_from_slice(chunk);
            h = (h ^ u64::from_le_bytes(x)).wrapping_mul(0x9fb21c651e98df25);
            h ^= h >> 29;
        }
        self.fp = (h ^ b.len() as u64).wrapping_mul(0x9e3779b97f4a7c15);
    }
    pub fn print_u64(&mut self, v: u64) {
        self.print_bytes(&v.to_le_bytes());
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if (self.want_sample && self.trace.len() < 40) || self.want_trace {
            let mut s = f();
            if s.len() > 600 && !self.want_trace {
                let mut i = 600;
                while !s.is_char_boundary(i) {
                    i -= 1;
                }
                let l = s.len();
                s.truncate(i);
                s.push_str(&format!("... ({} bytes)", l));
            }
            if LIVE_TRACE.load(std::sync::atomic::Ordering::Relaxed) {
                crate::host::out(&format!("  {}", s));
            } else {
                self.trace.push(s);
            }
        }
    }
    pub fn fingerprint(&self) -> u64 {
        if self.fp_set {
            self.fp
        } else {
            let mut h = 0xcbf29ce484222325u64;
            for &v in &self.rec {
                h = (h ^ v).wrapping_mul(0x9fb21c651e98df25);
                h ^= h >> 31;
            }
            h
        }
    }
}

// ------------------------------------------------------------ running

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    pub static QUIET: Cell<bool> = const { Cell::new(true) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        crate::alloc::suspend();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some(format!("panicked at {}: {}", loc, msg)));
    }));
}

pub fn take_panic() -> String {
    PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panicked".into())
}

pub type Prop = fn(&mut G) -> R;

/// Runs one case; a panic anywhere inside is a failure.
pub fn run_case(prop: Prop, g: &mut G) -> R {
    match catch_unwind(AssertUnwindSafe(|| prop(g))) {
        Ok(r) => r,
        Err(_) => {
            let r = Err(take_panic());
            crate::alloc::after_panic();
            r
        }
    }
}

/// Runs a case in a child process. Returns (failed, how, choices as drawn).
pub fn run_forked(prop: Prop, input: &[u64], secs: u32) -> (bool, String, Vec<u64>) {
    run_forked_with(prop, input, false, 0, secs)
}

/// The same for choices that go on at random when `input` is used up
pub fn run_forked_with(prop: Prop, input: &[u64], tail: bool, seed: u64, secs: u32) -> (bool, String, Vec<u64>) {
    static mut MSG: *mut u8 = std::ptr::null_mut();
    const MSG_LEN: usize = 1 << 16;
    unsafe {
        if MSG.is_null() {
            MSG = mmap(std::ptr::null_mut(), MSG_LEN, 3, 0x21, -1, 0);
        }
        *(MSG as *mut u32) = 0;
        if JOURNAL.is_null() {
            open_journal(None);
        }
        *JOURNAL = 0;
        if cfg!(target_arch = "wasm32") {
            // a trap ends the shrinking
            let mut g = G::new(input.to_vec(), false, 0);
            let r = run_case(prop, &mut g);
            let how = r.err();
            return (how.is_some(), how.unwrap_or_default(), g.rec);
        }
        let mut pid = fork();
        for _ in 0..20 {
            if pid >= 0 {
                break;
            }
            std::thread::sleep(std::time::Duration::from_millis(500));
            pid = fork();
        }
        if pid == 0 {
            alarm(secs);
            let mut g = G::new(input.to_vec(), tail, seed);
            let r = run_case(prop, &mut g);
            if let Err(m) = r {
                let b = m.as_bytes();
                let n = b.len().min(MSG_LEN - 4);
                std::ptr::copy_nonoverlapping(b.as_ptr(), MSG.add(4), n);
                *(MSG as *mut u32) = n as u32;
                _exit(10);
            }
            _exit(0);
        }
        assert!(pid > 0, "fork");
        let mut status = 0;
        waitpid(pid, &mut status, 0);
        let choices = read_journal();
        let (failed, how) = if status & 0x7f == 0 {
            match (status >> 8) & 0xff {
                0 => (false, String::new()),
                10 => {
                    let n = *(MSG as *const u32) as usize;
                    let b = std::slice::from_raw_parts(MSG.add(4), n);
                    (true, String::from_utf8_lossy(b).into_owned())
                }
                77 => (true, "did not finish within the step budget".into()),
                78 => (true, "exceeded the memory budget".into()),
                79 => (true, "the allocator found heap corruption".into()),
                c => (true, format!("the process exited with code {}", c)),
            }
        } else if status & 0x7f == 14 {
            (false, "timeout".into())
        } else {
            (true, format!("the process was killed by signal {}", status & 0x7f))
        };
        (failed, how, choices)
    }
}

fn kind(m: &str) -> u8 {
    if m.contains("killed by signal") { 1 } else if m.contains("budget") { 2 }
    else if m.starts_with("panicked") { 3 } else { 4 }
}

/// Minimises a failing choice sequence.
pub fn shrink(prop: Prop, start: Vec<u64>, max_runs: usize, secs: u64, case_secs: u32) -> (Vec<u64>, String, usize) {
    let t0 = crate::host::Instant::now();
    let mut runs = 0;
    let (failed, mut msg, rec) = run_forked(prop, &start, case_secs.max(60));
    runs += 1;
    if !failed {
        return (start, String::new(), runs);
    }
    let want = kind(&msg);
    let mut best = if want == 1 { start } else { rec };
    let attempt = |cand: &[u64], best: &mut Vec<u64>, msg: &mut String, runs: &mut usize| -> bool {
        if *runs >= max_runs || t0.elapsed().as_secs() >= secs {
            return false;
        }
        *runs += 1;
        let (f, m, rec) = run_forked(prop, cand, case_secs);
        if f && kind(&m) == want {
            let mut new = if want == 1 || want == 2 || rec.is_empty() { cand.to_vec() } else { rec };
            while new.last() == Some(&0) {
                new.pop();
            }
            let better = new.len() < best.len() || (new.len() == best.len() && new < *best);
            if better {
                *best = new;
                *msg = m;
            }
            return better;
        }
        false
    };
    loop {
        let before = best.clone();
        // truncate
        let mut keep = best.len() / 2;
        while keep > 0 && keep < best.len() {
            let c = best[..keep].to_vec();
            if !attempt(&c, &mut best, &mut msg, &mut runs) {
                keep = keep + (best.len() - keep + 1) / 2;
                if keep >= best.len() { break; }
            } else {
                keep = best.len() / 2;
            }
        }
        // delete chunks
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut i = best.len().saturating_sub(size);
            loop {
                if i + size <= best.len() {
                    let mut c = best.clone();
                    c.drain(i..i + size);
                    if !attempt(&c, &mut best, &mut msg, &mut runs) && i > 0 && size <= 8 {
                        // deleting while lowering a count just before
                        if best[i - 1] > 0 && i + size <= best.len() {
                            let mut c = best.clone();
                            c[i - 1] -= 1;
                            c.drain(i..i + size);
                            attempt(&c, &mut best, &mut msg, &mut runs);
                        }
                    }
                }
                if i == 0 { break; }
                i = i.saturating_sub(if size > 4 { size } else { 1 });
                if runs >= max_runs { break; }
            }
            if size == 1 { break; }
            size /= 2;
        }
        // zero chunks, then lower values
        let mut i = 0;
        while i < best.len() {
            if best[i] != 0 {
                let mut c = best.clone();
                c[i] = 0;
                if !attempt(&c, &mut best, &mut msg, &mut runs) && i < best.len() {
                    let (mut lo, mut hi) = (0, best[i]);
                    while lo + 1 < hi {
                        let mid = lo + (hi - lo) / 2;
                        let mut c = best.clone();
                        if i >= c.len() { break; }
                        c[i] = mid;
                        if attempt(&c, &mut best, &mut msg, &mut runs) { hi = mid } else { lo = mid }
                    }
                    if i < best.len() && best[i] > 0 {
                        let mut c = best.clone();
                        c[i] -= 1;
                        attempt(&c, &mut best, &mut msg, &mut runs);
                    }
                }
            }
            i += 1;
        }
        if best == before || runs >= max_runs || t0.elapsed().as_secs() >= secs {
            break;
        }
    }
    (best, msg, runs)
}

// ------------------------------------------------ coverage-guided mutation

pub fn mutate(r: &mut Rng, corpus: &[Vec<u64>]) -> Vec<u64> {
    // favour recent finds
    let n = corpus.len() as u64;
    let i = if r.below(3) == 0 { n - 1 - r.below(n.min(16)) } else { r.below(n) };
    // the shorter of two, to keep cases cheap
    let j = r.below(n);
    let i = if corpus[j as usize].len() < corpus[i as usize].len() { j } else { i };
    let mut v = corpus[i as usize].clone();
    let rounds = 1 + r.below(4);
    for _ in 0..rounds {
        if v.is_empty() {
            break;
        }
        let len = v.len() as u64;
        let p = r.below(len) as usize;
        match r.below(12) {
            0 => v[p] = r.next() >> r.below(64),
            1 => v[p] = v[p].wrapping_add(1),
            2 => v[p] = v[p].wrapping_sub(1),
            3 => v[p] = r.below(4),
            4 => {
                let d = dict_ints();
                if !d.is_empty() {
                    v[p] = d[r.below(d.len() as u64) as usize];
                }
            }
            5 => {
                let q = r.below(len) as usize;
                v[p] = v[q];
            }
            6 => {
                let n = 1 + r.below(8.min(len - p as u64));
                v.drain(p..p + n as usize);
            }
            7 => {
                let n = 1 + r.below(8.min(len - p as u64)) as usize;
                let chunk: Vec<u64> = v[p..p + n].to_vec();
                let q = r.below(len) as usize;
                v.splice(q..q, chunk);
            }
            8 => v.truncate(p),
            9 => {
                let o = &corpus[r.below(n) as usize];
                if !o.is_empty() {
                    let q = r.below(o.len() as u64) as usize;
                    v.truncate(p);
                    v.extend_from_slice(&o[q..]);
                }
            }
            10 => {
                let o = &corpus[r.below(n) as usize];
                if !o.is_empty() {
                    let q = r.below(o.len() as u64) as usize;
                    let m = (1 + r.below(16) as usize).min(o.len() - q);
                    let chunk = o[q..q + m].to_vec();
                    v.splice(p..p, chunk);
                }
            }
            _ => {
                let n = 1 + r.below(4);
                let chunk: Vec<u64> = (0..n).map(|_| r.next() >> r.below(64)).collect();
                v.splice(p..p, chunk);
            }
        }
        v.truncate(3000);
    }
    v
}
