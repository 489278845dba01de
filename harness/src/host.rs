//! What the harness needs from the system. On wasm32, where there is none,
//! `wasm.mjs` provides it.

#[cfg(not(target_arch = "wasm32"))]
mod imp {
    pub use std::time::Instant;
    pub fn args() -> Vec<String> {
        std::env::args().skip(1).collect()
    }
    pub fn read(path: &str) -> std::io::Result<Vec<u8>> {
        std::fs::read(path)
    }
    pub fn write(path: &str, bytes: &[u8]) {
        std::fs::write(path, bytes).expect("write")
    }
    pub fn out(s: &str) {
        println!("{}", s)
    }
    pub fn err(s: &str) {
        eprintln!("{}", s)
    }
    pub fn exit(code: i32) -> ! {
        std::process::exit(code)
    }
}

#[cfg(target_arch = "wasm32")]
mod imp {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::time::Duration;

    #[link(wasm_import_module = "host")]
    extern "C" {
        fn host_now() -> f64;
        /// Ends the program that many seconds from now; 0: not at all
        fn host_alarm(secs: u32);
        fn host_print(p: *const u8, n: usize);
        fn host_exit(code: i32) -> !;
        /// Size of the file (or of the arguments, for no name), -1 for none
        fn host_open(p: *const u8, n: usize) -> i32;
        /// Copies what was opened last
        fn host_fetch(p: *mut u8);
        fn host_write(path: *const u8, n: usize, p: *const u8, len: usize);
    }

    #[derive(Clone, Copy)]
    pub struct Instant(f64);
    impl Instant {
        pub fn now() -> Instant {
            Instant(unsafe { host_now() })
        }
        pub fn elapsed(&self) -> Duration {
            Duration::from_secs_f64((Instant::now().0 - self.0).max(0.0))
        }
    }

    pub fn read(path: &str) -> std::io::Result<Vec<u8>> {
        unsafe {
            let n = host_open(path.as_ptr(), path.len());
            if n < 0 {
                return Err(std::io::ErrorKind::NotFound.into());
            }
            let mut v = vec![0; n as usize];
            host_fetch(v.as_mut_ptr());
            Ok(v)
        }
    }
    pub fn args() -> Vec<String> {
        let all = read("").expect("arguments");
        all.split(|b| *b == 0).filter(|a| !a.is_empty()).map(|a| String::from_utf8_lossy(a).into_owned()).collect()
    }
    pub fn write(path: &str, bytes: &[u8]) {
        unsafe { host_write(path.as_ptr(), path.len(), bytes.as_ptr(), bytes.len()) }
    }
    pub fn out(s: &str) {
        unsafe { host_print(s.as_ptr(), s.len()) }
    }
    pub fn err(s: &str) {
        out(s)
    }
    pub fn exit(code: i32) -> ! {
        unsafe { host_exit(code) }
    }

    // Stand-ins for the C functions that the modules declare

    #[no_mangle]
    unsafe extern "C" fn mmap(_: *mut u8, len: usize, _: i32, _: i32, _: i32, _: i64) -> *mut u8 {
        match Layout::from_size_align(len, 1 << 12).map(|l| System.alloc_zeroed(l)) {
            Ok(p) if !p.is_null() => p,
            _ => -1isize as *mut u8,
        }
    }
    #[no_mangle]
    extern "C" fn mprotect(_: *mut u8, _: usize, _: i32) -> i32 {
        0
    }
    #[no_mangle]
    extern "C" fn madvise(_: *mut u8, _: usize, _: i32) -> i32 {
        0
    }
    #[export_name = "write"]
    unsafe extern "C" fn c_write(_: i32, p: *const std::ffi::c_void, n: usize) -> isize {
        host_print(p.cast(), n);
        n as isize
    }
    #[no_mangle]
    unsafe extern "C" fn _exit(code: i32) -> ! {
        host_exit(code)
    }
    #[no_mangle]
    extern "C" fn fork() -> i32 {
        -1
    }
    #[no_mangle]
    extern "C" fn waitpid(_: i32, _: *mut i32, _: i32) -> i32 {
        -1
    }
    #[no_mangle]
    unsafe extern "C" fn alarm(secs: u32) -> u32 {
        host_alarm(secs);
        0
    }
    #[no_mangle]
    extern "C" fn clock_gettime(_: i32, _: *mut u8) -> i32 {
        -1
    }
    /// Where the choices of the current case are, for when it traps
    #[no_mangle]
    extern "C" fn journal() -> *const u64 {
        unsafe { crate::engine::JOURNAL }
    }
}

pub use imp::*;
