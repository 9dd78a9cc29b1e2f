//! Raw system calls (the libc entry points are interposed, so the simulator itself must not use them).
use std::arch::asm;

#[inline]
pub unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _,
         options(nostack));
    r
}

extern "C" {
    fn __errno_location() -> *mut i32;
}

pub unsafe fn set_errno(e: i32) {
    *__errno_location() = e;
}

/// Turns a raw kernel result into the libc convention.
pub unsafe fn ret(r: i64) -> i64 {
    if (-4095..0).contains(&r) {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}

pub const SYS_READ: i64 = 0;
pub const SYS_WRITE: i64 = 1;
pub const SYS_OPEN: i64 = 2;
pub const SYS_CLOSE: i64 = 3;
pub const SYS_FSTAT: i64 = 5;
pub const SYS_LSEEK: i64 = 8;
pub const SYS_READV: i64 = 19;
pub const SYS_WRITEV: i64 = 20;
pub const SYS_FCNTL: i64 = 72;
pub const SYS_FSYNC: i64 = 74;
pub const SYS_FDATASYNC: i64 = 75;
pub const SYS_FTRUNCATE: i64 = 77;
pub const SYS_RENAME: i64 = 82;
pub const SYS_UNLINK: i64 = 87;
pub const SYS_FUTEX: i64 = 202;
pub const SYS_CLOCK_GETTIME: i64 = 228;
pub const SYS_EXIT_GROUP: i64 = 231;
pub const SYS_OPENAT: i64 = 257;
pub const SYS_GETRANDOM: i64 = 318;
pub const SYS_STATX: i64 = 332;
pub const SYS_SETAFFINITY: i64 = 203;
pub const SYS_GETAFFINITY: i64 = 204;
pub const SYS_SCHED_YIELD: i64 = 24;

pub const EINTR: i32 = 4;
pub const EIO: i32 = 5;
pub const EBADF: i32 = 9;
pub const EAGAIN: i32 = 11;
pub const EACCES: i32 = 13;
pub const ENOENT: i32 = 2;
pub const EINVAL: i32 = 22;
pub const ENOSPC: i32 = 28;
pub const EMFILE: i32 = 24;

pub fn exit_group(code: i32) -> ! {
    unsafe {
        raw(SYS_EXIT_GROUP, code as i64, 0, 0, 0, 0, 0);
    }
    loop {}
}

pub fn write_all(fd: i32, mut b: &[u8]) {
    while !b.is_empty() {
        let r = unsafe { raw(SYS_WRITE, fd as i64, b.as_ptr() as i64, b.len() as i64, 0, 0, 0) };
        if r <= 0 {
            if r == -(EINTR as i64) || r == -(EAGAIN as i64) {
                continue;
            }
            return;
        }
        b = &b[r as usize..];
    }
}

pub fn pin_to_cpu(k: usize) {
    unsafe {
        let mut m = [0u64; 16];
        let r = raw(SYS_GETAFFINITY, 0, 128, m.as_mut_ptr() as i64, 0, 0, 0);
        if r <= 0 {
            return;
        }
        let cpus: Vec<usize> = (0..1024).filter(|c| m[c / 64] >> (c % 64) & 1 == 1).collect();
        if cpus.is_empty() {
            return;
        }
        let c = cpus[k % cpus.len()];
        let mut n = [0u64; 16];
        n[c / 64] |= 1 << (c % 64);
        raw(SYS_SETAFFINITY, 0, 128, n.as_ptr() as i64, 0, 0, 0);
    }
}

pub fn num_cpus() -> usize {
    unsafe {
        let mut m = [0u64; 16];
        let r = raw(SYS_GETAFFINITY, 0, 128, m.as_mut_ptr() as i64, 0, 0, 0);
        if r <= 0 {
            return 1;
        }
        m.iter().map(|x| x.count_ones() as usize).sum::<usize>().max(1)
    }
}
