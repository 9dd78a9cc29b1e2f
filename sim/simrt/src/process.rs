//! Simulated processes: `run` executes a program's `main` in a forked child on the simulated disk,
//! under the run's entropy and faults; what it left on the disk and how it ended come back.
use crate::faults;
use crate::{sched, sys, vfs};
use std::collections::BTreeMap;

/// How a process ended.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum End {
    Exit(i32),
    /// killed by a signal or by the simulator (out of memory, no progress)
    Died(i32),
}

const SIZE: usize = 32 << 20;
const HEAD: usize = 8;
static mut MAP: *mut u8 = std::ptr::null_mut();
static mut CHILD: bool = false;
static mut ARGC: usize = 0;
static mut ARGV: *mut *const u8 = std::ptr::null_mut();

extern "C" fn take_args(argc: i32, argv: *mut *const u8) {
    unsafe {
        ARGC = argc as usize;
        ARGV = argv;
    }
}
#[used]
#[link_section = ".init_array"]
static TAKE_ARGS: extern "C" fn(i32, *mut *const u8) = take_args;

/// Arguments a worker is started with so that there is room for those of simulated processes.
pub const ROOM: usize = 28;

extern "C" {
    fn fork() -> i32;
}

pub fn in_child() -> bool {
    unsafe { CHILD }
}

/// Counts calls into the environment where a dying child leaves the number behind.
pub fn seq(n: u64) {
    unsafe {
        if CHILD {
            *(MAP as *mut u64).add(2) = n;
        }
    }
}

fn put(b: &mut Vec<u8>, v: &[u8]) {
    b.extend_from_slice(&(v.len() as u64).to_le_bytes());
    b.extend_from_slice(v);
}

struct Get<'a>(&'a [u8]);
impl<'a> Get<'a> {
    fn n(&mut self) -> u64 {
        let (a, b) = self.0.split_at(8);
        self.0 = b;
        u64::from_le_bytes(a.try_into().unwrap())
    }
    fn v(&mut self) -> Vec<u8> {
        let n = self.n() as usize;
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        a.to_vec()
    }
}

/// The end of the child: leaves everything for the parent.
fn finish(code: i32) -> ! {
    let sc = sched::s();
    sc.quiet += 1;
    sched::CUR.with(|c| c.set(0));
    let mut b = vec![];
    b.extend_from_slice(&sc.gstep.to_le_bytes());
    let d = vfs::d();
    b.extend_from_slice(&(d.failing as u64).to_le_bytes());
    b.extend_from_slice(&d.space.unwrap_or(u64::MAX).to_le_bytes());
    b.extend_from_slice(&(d.files.len() as u64).to_le_bytes());
    for (k, v) in &d.files {
        put(&mut b, k.as_bytes());
        put(&mut b, v);
    }
    b.extend_from_slice(&(sc.trace.len() as u64).to_le_bytes());
    for t in &sc.trace {
        put(&mut b, t.as_bytes());
    }
    unsafe {
        let ng = (sched::NG as usize).min(sched::NGUARD);
        #[allow(static_mut_refs)]
        put(&mut b, &sched::FLAGS[..ng]);
        let w = MAP as *mut u64;
        if b.len() + HEAD * 8 <= SIZE {
            std::ptr::copy_nonoverlapping(b.as_ptr(), MAP.add(HEAD * 8), b.len());
            *w.add(1) = b.len() as u64;
            *w = 1;
        }
    }
    sys::exit_group(code)
}

/// `std::process::exit` of a simulated process ends up here.
#[no_mangle]
pub unsafe extern "C" fn exit(code: i32) -> ! {
    if CHILD {
        finish(code)
    }
    sys::exit_group(code)
}

/// Runs `main` with these arguments in a process of its own.
pub fn run(args: &[String], main: fn()) -> End {
    let fn0 = crate::blackbox::faults();
    let r = sched::quietly(|| unsafe {
        if MAP.is_null() {
            let p = sys::raw(9, 0, SIZE as i64, 3, 0x21, -1, 0);
            assert!(p > 0, "simrt: no shared memory");
            MAP = p as *mut u8;
        }
        let w = MAP as *mut u64;
        *w = 0;
        *w.add(2) = faults::f().seq;
        assert!(args.len() + 1 < ARGC, "simrt: no room for arguments");
        let pid = fork();
        assert!(pid >= 0, "simrt: fork failed");
        if pid == 0 {
            CHILD = true;
            child(args, main);
        }
        let mut st: i32 = 0;
        loop {
            let r = sys::raw(61, pid as i64, &mut st as *mut i32 as i64, 0, 0, 0, 0);
            if r != -(sys::EINTR as i64) {
                break;
            }
        }
        let fl = faults::f();
        // faults the child met
        for r in crate::blackbox::faults_from(fn0) {
            fl.counts[r.fault.idx()] += 1;
            fl.made.push(r);
        }
        fl.seq = *w.add(2);
        let end = if st & 127 != 0 {
            End::Died(st & 127)
        } else if st >> 8 & 255 == 77 && *w == 0 {
            End::Died(0)
        } else {
            End::Exit(st >> 8 & 255)
        };
        if *w == 1 {
            let n = *w.add(1) as usize;
            let mut g = Get(std::slice::from_raw_parts(MAP.add(HEAD * 8), n));
            let sc = sched::s();
            sc.gstep = g.n();
            let d = vfs::d();
            d.failing = g.n() != 0;
            let sp = g.n();
            d.space = if sp == u64::MAX { None } else { Some(sp) };
            let mut files = BTreeMap::new();
            for _ in 0..g.n() {
                let k = String::from_utf8(g.v()).unwrap();
                let v = g.v();
                files.insert(k, v);
            }
            d.files = files;
            let k = g.n();
            if sc.tracing {
                sc.trace.clear();
            }
            for _ in 0..k {
                sc.trace.push(String::from_utf8(g.v()).unwrap());
            }
            let f = g.v();
            #[allow(static_mut_refs)]
            for (i, x) in f.iter().enumerate() {
                sched::FLAGS[i] |= x & 1;
            }
        }
        end
    });
    let (a, b) = match r {
        End::Exit(c) => (0, c),
        End::Died(c) => (1, c),
    };
    sched::note(30, a, b as u64);
    for (k, v) in &vfs::d().files {
        sched::note(31, k.len() as u64, v.iter().fold(7u64, |h, x| h.wrapping_mul(1099511628211) ^ *x as u64));
    }
    sched::trace(|| format!("process {:?} ended: {:?}", args, r));
    r
}

unsafe fn child(args: &[String], main: fn()) -> ! {
    for (i, a) in args.iter().enumerate() {
        let c = std::ffi::CString::new(a.as_str()).unwrap();
        *ARGV.add(i) = c.into_raw() as *const u8;
    }
    *ARGV.add(args.len()) = std::ptr::null();
    std::env::remove_var("RUST_LOG");
    std::env::remove_var("RUST_LOG_STYLE");
    std::env::remove_var("RUST_BACKTRACE");
    let sc = sched::s();
    sc.quiet = 0;
    // a thread of its own: hash keys are drawn anew
    let r = sched::interleave(1000, vec![Box::new(main)]);
    finish(if r[0].is_ok() { 0 } else { 101 })
}
