//! Raw system interface: no libc crate is needed, and the calls the simulator makes for itself can
//! never be confused with the interposed ones.
use std::sync::atomic::AtomicU32;

pub unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _);
    r
}

pub const SYS_FUTEX: i64 = 202;
pub const SYS_CLOCK_GETTIME: i64 = 228;
pub const SYS_CLOCK_NANOSLEEP: i64 = 230;
pub const SYS_GETRANDOM: i64 = 318;

pub fn futex_wait(a: &AtomicU32, v: u32) {
    unsafe {
        raw(SYS_FUTEX, a as *const _ as i64, 128, v as i64, 0, 0, 0);
    }
}
pub fn futex_wake(a: &AtomicU32) {
    unsafe {
        raw(SYS_FUTEX, a as *const _ as i64, 129, 1, 0, 0, 0);
    }
}

extern "C" {
    pub fn fork() -> i32;
    pub fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    pub fn _exit(c: i32) -> !;
    pub fn kill(pid: i32, sig: i32) -> i32;
    pub fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    pub fn pipe(fds: *mut i32) -> i32;
    pub fn read(fd: i32, b: *mut u8, n: usize) -> isize;
    pub fn write(fd: i32, b: *const u8, n: usize) -> isize;
    pub fn close(fd: i32) -> i32;
    pub fn alarm(s: u32) -> u32;
    pub fn prctl(a: i32, b: u64, c: u64, d: u64, e: u64) -> i32;
    pub fn __errno_location() -> *mut i32;
}

/// Anonymous memory shared with forked children.
pub fn shared(n: usize) -> *mut u8 {
    let p = unsafe { mmap(std::ptr::null_mut(), n, 3, 0x21 | 0x4000, -1, 0) };
    if p as isize == -1 {
        panic!("mmap of {} bytes failed", n);
    }
    p
}

pub fn set_errno(e: i32) {
    unsafe { *__errno_location() = e }
}
