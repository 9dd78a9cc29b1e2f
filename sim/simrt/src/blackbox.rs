//! An mmap'ed flight recorder: survives the death of the worker, so that a run that ends in a
//! crash can still be replayed and minimised.
use crate::faults::{FaultRec, ALL};
use crate::sched::Decision;
use crate::sys;

const WORDS: usize = 1 << 18; // 2 MiB
const TAPE: usize = 16;
const TAPE_MAX: usize = 60_000;
const DEC: usize = TAPE + TAPE_MAX;
const DEC_MAX: usize = 120_000;
const FLT: usize = DEC + DEC_MAX;
const FLT_MAX: usize = 20_000;

static mut BB: *mut u64 = std::ptr::null_mut();

pub fn open(path: &str) -> std::io::Result<()> {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new()
        .read(true)
        .write(true)
        .create(true)
        .truncate(false)
        .open(path)?;
    f.set_len((WORDS * 8) as u64)?;
    let p = unsafe { sys::raw(9, 0, (WORDS * 8) as i64, 3, 1, f.as_raw_fd() as i64, 0) };
    if p < 0 {
        return Err(std::io::Error::from_raw_os_error(-p as i32));
    }
    unsafe { BB = p as *mut u64 };
    std::mem::forget(f);
    Ok(())
}

fn put(i: usize, v: u64) {
    unsafe {
        if !BB.is_null() && i < WORDS {
            *BB.add(i) = v;
        }
    }
}
fn get(i: usize) -> u64 {
    unsafe {
        if BB.is_null() {
            0
        } else {
            *BB.add(i)
        }
    }
}

pub fn begin(run: u64, entropy: u64) {
    put(0, 0xB1ACB0);
    put(1, run);
    put(2, entropy);
    put(3, 0);
    put(4, 0);
    put(5, 0);
}
pub fn tape(v: u64) {
    let n = get(3) as usize;
    if n < TAPE_MAX {
        put(TAPE + n, v);
        put(3, n as u64 + 1);
    }
}
pub fn decision(d: &Decision) {
    let n = get(4) as usize;
    if 2 * n + 1 < DEC_MAX {
        put(DEC + 2 * n, (d.kind as u64) << 16 | (d.tid as u64) << 8 | d.to as u64);
        put(DEC + 2 * n + 1, d.at);
        put(4, n as u64 + 1);
    }
}
pub fn fault(r: &FaultRec) {
    let n = get(5) as usize;
    if 3 * n + 2 < FLT_MAX {
        put(FLT + 3 * n, r.seq);
        put(FLT + 3 * n + 1, r.fault.idx() as u64);
        put(FLT + 3 * n + 2, r.arg);
        put(5, n as u64 + 1);
    }
}

/// Number of faults on record; those after the first `n`.
pub fn faults() -> usize {
    get(5) as usize
}
pub fn faults_from(n: usize) -> Vec<FaultRec> {
    (n..faults())
        .map(|i| FaultRec { seq: get(FLT + 3 * i), fault: ALL[get(FLT + 3 * i + 1) as usize % ALL.len()], arg: get(FLT + 3 * i + 2) })
        .collect()
}

pub struct Dump {
    pub run: u64,
    pub entropy: u64,
    pub tape: Vec<u64>,
    pub sched: Vec<Decision>,
    pub faults: Vec<FaultRec>,
}

pub fn read(path: &str) -> Option<Dump> {
    let b = std::fs::read(path).ok()?;
    let w: Vec<u64> = b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
    if w.len() < WORDS || w[0] != 0xB1ACB0 {
        return None;
    }
    let tape = w[TAPE..TAPE + w[3] as usize].to_vec();
    let sched = (0..w[4] as usize)
        .map(|i| {
            let x = w[DEC + 2 * i];
            Decision {
                kind: (x >> 16) as u8,
                tid: (x >> 8) as u8,
                to: x as u8,
                at: w[DEC + 2 * i + 1],
            }
        })
        .collect();
    let faults = (0..w[5] as usize)
        .map(|i| FaultRec {
            seq: w[FLT + 3 * i],
            fault: ALL[w[FLT + 3 * i + 1] as usize % ALL.len()],
            arg: w[FLT + 3 * i + 2],
        })
        .collect();
    Some(Dump { run: w[1], entropy: w[2], tape, sched, faults })
}
