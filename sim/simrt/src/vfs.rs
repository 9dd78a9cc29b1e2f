//! The simulated disk: paths below /simfs/ live in memory, and every call on them may be given a
//! fault. The libc entry points used by Rust's std are interposed here; everything that does not
//! concern a simulated path or descriptor goes to the kernel unchanged.
use crate::faults::{self, Fault, Site};
use crate::sched;
use crate::sys::*;
use std::collections::BTreeMap;
use std::ffi::CStr;

pub const PREFIX: &str = "/simfs/";
const FD0: i32 = 1 << 20;

pub struct OpenFile {
    path: String,
    pos: usize,
    read: bool,
    write: bool,
    append: bool,
}

#[derive(Default)]
pub struct Disk {
    pub files: BTreeMap<String, Vec<u8>>,
    pub fds: BTreeMap<i32, OpenFile>,
    pub next: i32,
    /// remaining capacity in bytes
    pub space: Option<u64>,
    pub crashed: bool,
    pub failing: bool,
    pub writes: u64,
    pub bytes: u64,
    /// number of open descriptors ever
    pub opens: u64,
}

pub static mut DISK: Option<Box<Disk>> = None;

pub fn d() -> &'static mut Disk {
    unsafe { (*std::ptr::addr_of_mut!(DISK)).get_or_insert_with(Default::default) }
}

pub fn reset() {
    unsafe { DISK = Some(Default::default()) }
}

pub fn put(p: &str, b: Vec<u8>) {
    d().files.insert(p.to_string(), b);
}
pub fn append(p: &str, b: &[u8]) {
    d().files.entry(p.to_string()).or_default().extend_from_slice(b);
}

fn ours(fd: i64) -> bool {
    fd >= FD0 as i64 && sched::active()
}

unsafe fn path<'a>(p: *const i8) -> Option<&'a str> {
    if !sched::active() || p.is_null() {
        return None;
    }
    let s = CStr::from_ptr(p).to_str().ok()?;
    s.starts_with(PREFIX).then_some(s)
}

unsafe fn fail(e: i32) -> i64 {
    set_errno(e);
    -1
}

unsafe fn sim_open(p: &str, flags: i64) -> i64 {
    sched::note(10, flags as u64, p.len() as u64);
    match faults::point(Site::Open, 0) {
        Some(Fault::OpenEintr) => return fail(EINTR),
        Some(Fault::OpenErr) => {
            let e = [EMFILE, EACCES, ENOSPC, EIO][(faults::arg() % 4) as usize];
            return fail(e);
        }
        _ => {}
    }
    let dk = d();
    let acc = flags & 3;
    let creat = flags & 0o100 != 0;
    let excl = flags & 0o200 != 0;
    let trunc = flags & 0o1000 != 0;
    let exists = dk.files.contains_key(p);
    if !exists && !creat {
        return fail(ENOENT);
    }
    if exists && creat && excl {
        return fail(17);
    }
    if dk.crashed && (creat || trunc) {
        // a dead machine changes nothing; the descriptor is good for nothing either
    } else {
        if !exists {
            dk.files.insert(p.to_string(), vec![]);
        }
        if trunc && acc != 0 {
            dk.files.insert(p.to_string(), vec![]);
        }
    }
    let fd = FD0 + dk.next;
    dk.next += 1;
    dk.opens += 1;
    dk.fds.insert(
        fd,
        OpenFile {
            path: p.to_string(),
            pos: 0,
            read: acc == 0 || acc == 2,
            write: acc == 1 || acc == 2,
            append: flags & 0o2000 != 0,
        },
    );
    sched::trace(|| format!("open {} flags {:o} -> fd {}", p, flags, fd));
    fd as i64
}

unsafe fn sim_write(fd: i64, buf: &[u8]) -> i64 {
    let dk = d();
    let Some(of) = dk.fds.get_mut(&(fd as i32)) else { return fail(EBADF) };
    if !of.write {
        return fail(EBADF);
    }
    sched::note(11, fd as u64, buf.len() as u64);
    if buf.is_empty() {
        return 0;
    }
    if dk.crashed {
        // nothing after the power cut matters; pretend it worked
        return buf.len() as i64;
    }
    let mut n = buf.len();
    let mut res = None;
    match faults::point(Site::Write, buf.len() as u64) {
        Some(Fault::WriteShort) => n = 1 + (faults::arg() % (buf.len() as u64 - 1)) as usize,
        Some(Fault::WriteEintr) => return fail(EINTR),
        Some(Fault::WriteEio) => {
            if faults::arg() % 2 == 0 {
                dk.failing = true; // the device stays broken
            }
            return fail(EIO);
        }
        Some(Fault::WriteEnospc) => {
            // the disk fills up during this write
            n = (faults::arg() % buf.len() as u64) as usize;
            dk.space = Some(0);
            if n == 0 {
                return fail(ENOSPC);
            }
        }
        Some(Fault::WriteZero) => return 0,
        Some(Fault::Crash) => {
            n = (faults::arg() % (buf.len() as u64 + 1)) as usize;
            res = Some(buf.len() as i64);
            dk.crashed = true;
        }
        _ => {
            if dk.failing {
                return fail(EIO);
            }
            if let Some(sp) = dk.space {
                if sp == 0 {
                    return fail(ENOSPC);
                }
                n = n.min(sp as usize);
            }
        }
    }
    if let Some(sp) = dk.space.as_mut() {
        *sp = sp.saturating_sub(n as u64);
    }
    let Some(f) = dk.files.get_mut(&of.path) else { return fail(EIO) };
    if of.append {
        of.pos = f.len();
    }
    if f.len() < of.pos + n {
        f.resize(of.pos + n, 0);
    }
    f[of.pos..of.pos + n].copy_from_slice(&buf[..n]);
    of.pos += n;
    dk.writes += 1;
    dk.bytes += n as u64;
    sched::trace(|| format!("write fd {} len {} -> {}", fd, buf.len(), n));
    res.unwrap_or(n as i64)
}

unsafe fn sim_read(fd: i64, buf: *mut u8, len: usize) -> i64 {
    let dk = d();
    let Some(of) = dk.fds.get_mut(&(fd as i32)) else { return fail(EBADF) };
    if !of.read {
        return fail(EBADF);
    }
    sched::note(12, fd as u64, len as u64);
    let Some(f) = dk.files.get(&of.path) else { return fail(EIO) };
    let avail = f.len().saturating_sub(of.pos).min(len);
    let mut n = avail;
    match faults::point(Site::Read, avail as u64) {
        Some(Fault::ReadShort) => n = 1 + (faults::arg() % (avail as u64 - 1)) as usize,
        Some(Fault::ReadEintr) => return fail(EINTR),
        Some(Fault::ReadEio) => return fail(EIO),
        _ => {}
    }
    std::ptr::copy_nonoverlapping(f.as_ptr().add(of.pos.min(f.len())), buf, n);
    of.pos += n;
    sched::trace(|| format!("read fd {} len {} -> {}", fd, len, n));
    n as i64
}

#[no_mangle]
pub unsafe extern "C" fn open(p: *const i8, flags: i64, mode: i64) -> i64 {
    let flags = flags as i32 as i64;
    match path(p) {
        Some(s) => sim_open(s, flags),
        None => ret(raw(SYS_OPEN, p as i64, flags, mode & 0o7777, 0, 0, 0)),
    }
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const i8, flags: i64, mode: i64) -> i64 {
    open(p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(dir: i64, p: *const i8, flags: i64, mode: i64) -> i64 {
    let flags = flags as i32 as i64;
    match path(p) {
        Some(s) => sim_open(s, flags),
        None => ret(raw(SYS_OPENAT, dir as i32 as i64, p as i64, flags, mode & 0o7777, 0, 0)),
    }
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dir: i64, p: *const i8, flags: i64, mode: i64) -> i64 {
    openat(dir, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: i64, buf: *mut u8, n: i64) -> i64 {
    let fd = fd as i32 as i64;
    if ours(fd) {
        sim_read(fd, buf, n as usize)
    } else {
        ret(raw(SYS_READ, fd, buf as i64, n, 0, 0, 0))
    }
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: i64, buf: *const u8, n: i64) -> i64 {
    let fd = fd as i32 as i64;
    if ours(fd) {
        sim_write(fd, std::slice::from_raw_parts(buf, n as usize))
    } else if crate::process::in_child() {
        n // what a simulated process prints goes nowhere
    } else {
        ret(raw(SYS_WRITE, fd, buf as i64, n, 0, 0, 0))
    }
}
#[repr(C)]
pub struct IoVec {
    base: *mut u8,
    len: usize,
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: i64, iov: *const IoVec, n: i64) -> i64 {
    let fd = fd as i32 as i64;
    if ours(fd) {
        let mut all = vec![];
        for i in 0..n as i32 as usize {
            let v = &*iov.add(i);
            all.extend_from_slice(std::slice::from_raw_parts(v.base, v.len));
        }
        sim_write(fd, &all)
    } else if crate::process::in_child() {
        (0..n as i32 as usize).map(|i| (*iov.add(i)).len as i64).sum()
    } else {
        ret(raw(SYS_WRITEV, fd, iov as i64, n as i32 as i64, 0, 0, 0))
    }
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: i64, iov: *const IoVec, n: i64) -> i64 {
    let fd = fd as i32 as i64;
    if ours(fd) {
        for i in 0..n as i32 as usize {
            let v = &*iov.add(i);
            if v.len > 0 {
                return sim_read(fd, v.base, v.len);
            }
        }
        0
    } else {
        ret(raw(SYS_READV, fd, iov as i64, n as i32 as i64, 0, 0, 0))
    }
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: i64) -> i64 {
    let fd = fd as i32 as i64;
    if ours(fd) {
        sched::note(13, fd as u64, 0);
        if d().fds.remove(&(fd as i32)).is_none() {
            return fail(EBADF);
        }
        0
    } else {
        ret(raw(SYS_CLOSE, fd, 0, 0, 0, 0, 0))
    }
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: i64, cmd: i64, arg: i64) -> i64 {
    let fd = fd as i32 as i64;
    if ours(fd) {
        if !d().fds.contains_key(&(fd as i32)) {
            return fail(EBADF);
        }
        0
    } else {
        ret(raw(SYS_FCNTL, fd, cmd as i32 as i64, arg, 0, 0, 0))
    }
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: i64, cmd: i64, arg: i64) -> i64 {
    fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: i64, off: i64, whence: i64) -> i64 {
    let fd = fd as i32 as i64;
    if ours(fd) {
        let dk = d();
        let Some(of) = dk.fds.get_mut(&(fd as i32)) else { return fail(EBADF) };
        let len = dk.files.get(&of.path).map(|f| f.len()).unwrap_or(0) as i64;
        let n = match whence as i32 {
            0 => off,
            1 => of.pos as i64 + off,
            2 => len + off,
            _ => return fail(EINVAL),
        };
        if n < 0 {
            return fail(EINVAL);
        }
        of.pos = n as usize;
        n
    } else {
        ret(raw(SYS_LSEEK, fd, off, whence as i32 as i64, 0, 0, 0))
    }
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: i64, off: i64, whence: i64) -> i64 {
    lseek(fd, off, whence)
}

unsafe fn fill_stat(buf: *mut u8, len: usize) {
    // struct stat, x86_64: 144 bytes
    std::ptr::write_bytes(buf, 0, 144);
    *(buf.add(16) as *mut u64) = 1; // nlink
    *(buf.add(24) as *mut u32) = 0o100644; // mode
    *(buf.add(48) as *mut i64) = len as i64;
    *(buf.add(56) as *mut i64) = 4096;
}
unsafe fn fill_statx(buf: *mut u8, len: usize) {
    std::ptr::write_bytes(buf, 0, 256);
    *(buf as *mut u32) = 0x7ff; // basic stats
    *(buf.add(4) as *mut u32) = 4096;
    *(buf.add(16) as *mut u32) = 1; // nlink
    *(buf.add(28) as *mut u16) = 0o100644; // mode
    *(buf.add(40) as *mut u64) = len as u64; // size
}
fn fd_len(fd: i64) -> Option<usize> {
    let dk = d();
    let of = dk.fds.get(&(fd as i32))?;
    dk.files.get(&of.path).map(|f| f.len())
}
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: i64, buf: *mut u8) -> i64 {
    let fd = fd as i32 as i64;
    if ours(fd) {
        match fd_len(fd) {
            Some(l) => {
                fill_stat(buf, l);
                0
            }
            None => fail(EBADF),
        }
    } else {
        ret(raw(SYS_FSTAT, fd, buf as i64, 0, 0, 0, 0))
    }
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: i64, buf: *mut u8) -> i64 {
    fstat(fd, buf)
}
#[no_mangle]
pub unsafe extern "C" fn statx(dir: i64, p: *const i8, flags: i64, mask: i64, buf: *mut u8) -> i64 {
    let dirfd = dir as i32 as i64;
    if ours(dirfd) {
        return match fd_len(dirfd) {
            Some(l) => {
                fill_statx(buf, l);
                0
            }
            None => fail(EBADF),
        };
    }
    match path(p) {
        Some(s) => match d().files.get(s) {
            Some(f) => {
                fill_statx(buf, f.len());
                0
            }
            None => fail(ENOENT),
        },
        None => ret(raw(SYS_STATX, dirfd, p as i64, flags as i32 as i64, mask as u32 as i64, buf as i64, 0)),
    }
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: i64) -> i64 {
    if ours(fd as i32 as i64) {
        if d().failing { fail(EIO) } else { 0 }
    } else {
        ret(raw(SYS_FSYNC, fd as i32 as i64, 0, 0, 0, 0, 0))
    }
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: i64) -> i64 {
    if ours(fd as i32 as i64) {
        if d().failing { fail(EIO) } else { 0 }
    } else {
        ret(raw(SYS_FDATASYNC, fd as i32 as i64, 0, 0, 0, 0, 0))
    }
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: i64, len: i64) -> i64 {
    let fd = fd as i32 as i64;
    if ours(fd) {
        let dk = d();
        let Some(of) = dk.fds.get(&(fd as i32)) else { return fail(EBADF) };
        if !dk.crashed {
            if let Some(f) = dk.files.get_mut(&of.path) {
                f.resize(len as usize, 0);
            }
        }
        0
    } else {
        ret(raw(SYS_FTRUNCATE, fd, len, 0, 0, 0, 0))
    }
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: i64, len: i64) -> i64 {
    ftruncate64(fd, len)
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const i8, b: *const i8) -> i64 {
    match (path(a), path(b)) {
        (Some(x), Some(y)) => {
            let dk = d();
            if dk.crashed {
                return 0;
            }
            match dk.files.remove(x) {
                Some(f) => {
                    dk.files.insert(y.to_string(), f);
                    for of in dk.fds.values_mut() {
                        if of.path == x {
                            of.path = y.to_string();
                        }
                    }
                    0
                }
                None => fail(ENOENT),
            }
        }
        _ => ret(raw(SYS_RENAME, a as i64, b as i64, 0, 0, 0, 0)),
    }
}
#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const i8) -> i64 {
    match path(a) {
        Some(x) => {
            let dk = d();
            if dk.crashed {
                return 0;
            }
            match dk.files.remove(x) {
                Some(_) => 0,
                None => fail(ENOENT),
            }
        }
        None => ret(raw(SYS_UNLINK, a as i64, 0, 0, 0, 0, 0)),
    }
}

// ---- processor, entropy, clock ----

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if sched::active() {
        if n == SYS_FUTEX {
            return ret(sched::futex(a, b, c as i32 as u32 as i64));
        }
        if n == SYS_GETRANDOM {
            crate::fill_entropy(std::slice::from_raw_parts_mut(a as *mut u8, b as usize));
            return b;
        }
        if n == SYS_STATX {
            return statx(a, b as *const i8, c, d, e as *mut u8);
        }
    }
    ret(raw(n, a, b, c, d, e, f))
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, n: i64, flags: i64) -> i64 {
    if sched::active() {
        crate::fill_entropy(std::slice::from_raw_parts_mut(buf, n as usize));
        n
    } else {
        ret(raw(SYS_GETRANDOM, buf as i64, n, flags as u32 as i64, 0, 0, 0))
    }
}

#[repr(C)]
pub struct Timespec {
    s: i64,
    n: i64,
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i64, ts: *mut Timespec) -> i64 {
    if sched::active() {
        // simulated time: one microsecond per basic block, from an arbitrary epoch
        let us = 1_000_000_000_000_000 + sched::now();
        (*ts).s = (us / 1_000_000) as i64;
        (*ts).n = (us % 1_000_000 * 1000) as i64;
        0
    } else {
        ret(raw(SYS_CLOCK_GETTIME, id as i32 as i64, ts as i64, 0, 0, 0, 0))
    }
}
