//! Fault injection: every place at which the environment can misbehave calls `point`.
use crate::blackbox;
use crate::rng::Rng;
use crate::sched;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Site {
    Open,
    Read,
    Write,
    FutexWait,
    /// a call from the code under test into a component the harness supplies
    Callback,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Fault {
    OpenEintr,
    OpenErr,
    ReadShort,
    ReadEintr,
    ReadEio,
    WriteShort,
    WriteEintr,
    WriteEio,
    WriteEnospc,
    WriteZero,
    /// power is cut during this write: a prefix of it reaches the disk, nothing later does
    Crash,
    SpuriousWake,
    CallErr,
    CallPanic,
}

pub const ALL: [Fault; 14] = [
    Fault::OpenEintr,
    Fault::OpenErr,
    Fault::ReadShort,
    Fault::ReadEintr,
    Fault::ReadEio,
    Fault::WriteShort,
    Fault::WriteEintr,
    Fault::WriteEio,
    Fault::WriteEnospc,
    Fault::WriteZero,
    Fault::Crash,
    Fault::SpuriousWake,
    Fault::CallErr,
    Fault::CallPanic,
];

impl Fault {
    pub fn site(self) -> Site {
        use Fault::*;
        match self {
            OpenEintr | OpenErr => Site::Open,
            ReadShort | ReadEintr | ReadEio => Site::Read,
            WriteShort | WriteEintr | WriteEio | WriteEnospc | WriteZero | Crash => Site::Write,
            SpuriousWake => Site::FutexWait,
            CallErr | CallPanic => Site::Callback,
        }
    }
    pub fn idx(self) -> usize {
        ALL.iter().position(|f| *f == self).unwrap()
    }
    pub fn name(self) -> &'static str {
        use Fault::*;
        match self {
            OpenEintr => "open_eintr",
            OpenErr => "open_error",
            ReadShort => "read_short",
            ReadEintr => "read_eintr",
            ReadEio => "read_eio",
            WriteShort => "write_short",
            WriteEintr => "write_eintr",
            WriteEio => "write_eio",
            WriteEnospc => "write_enospc",
            WriteZero => "write_zero",
            Crash => "crash_during_write",
            SpuriousWake => "spurious_wakeup",
            CallErr => "callback_error",
            CallPanic => "callback_panic",
        }
    }
    pub fn from_name(n: &str) -> Option<Fault> {
        ALL.iter().copied().find(|f| f.name() == n)
    }
    /// Faults that the caller must absorb without any visible effect.
    pub fn benign(self) -> bool {
        use Fault::*;
        matches!(self, OpenEintr | ReadShort | ReadEintr | WriteShort | WriteEintr | SpuriousWake)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct FaultRec {
    pub seq: u64,
    pub fault: Fault,
    pub arg: u64,
}

pub struct Faults {
    pub enabled: Vec<(Fault, u64)>, // probability in 1/10000 per eligible call
    pub seq: u64,
    pub rng: Rng,
    pub replay: Option<Vec<FaultRec>>,
    pub made: Vec<FaultRec>,
    pub counts: [u64; 14],
    pub last_arg: u64,
    pub sites: [u64; 5],
    pub off: bool,
}

pub static mut FAULTS: Option<Box<Faults>> = None;

pub fn f() -> &'static mut Faults {
    unsafe { (*std::ptr::addr_of_mut!(FAULTS)).as_mut().expect("no run") }
}

pub fn new_faults(seed: u64, replay: Option<Vec<FaultRec>>) -> Box<Faults> {
    Box::new(Faults {
        enabled: vec![],
        seq: 0,
        rng: Rng::new(seed ^ 0xfa17),
        replay,
        made: vec![],
        counts: [0; 14],
        last_arg: 0,
        sites: [0; 5],
        off: false,
    })
}

/// Sets the fault mix of the run from here on: (kind, probability per eligible call in 1/10000).
pub fn enable(mix: &[(Fault, u64)]) {
    f().enabled = mix.to_vec();
}

pub fn off(v: bool) {
    f().off = v;
}

/// Runs `g` on a machine that does not fail (call it from `quietly`).
pub fn silently<R>(g: impl FnOnce() -> R) -> R {
    let d = crate::vfs::d();
    let was = std::mem::replace(&mut f().off, true);
    let disk = (std::mem::take(&mut d.failing), d.space.take(), std::mem::take(&mut d.crashed));
    let r = g();
    f().off = was;
    let d = crate::vfs::d();
    (d.failing, d.space, d.crashed) = disk;
    r
}

/// One call into the environment; returns the fault to inject, if any. `len`: size of the transfer.
pub fn point(site: Site, len: u64) -> Option<Fault> {
    let fl = f();
    fl.seq += 1;
    let seq = fl.seq;
    crate::process::seq(seq);
    fl.sites[site as usize] += 1;
    if fl.off {
        return None;
    }
    let hit = if let Some(r) = &fl.replay {
        r.iter().find(|x| x.seq == seq && x.fault.site() == site).map(|x| (x.fault, x.arg))
    } else {
        let mut hit = None;
        for i in 0..fl.enabled.len() {
            let (k, p) = fl.enabled[i];
            if k.site() == site && p > 0 && fl.rng.below(10_000) < p {
                let arg = fl.rng.next() >> 8;
                hit = Some((k, arg));
                break;
            }
        }
        hit
    };
    let (k, arg) = hit?;
    if matches!(k, Fault::WriteShort | Fault::ReadShort) && len <= 1 {
        return None;
    }
    let rec = FaultRec { seq, fault: k, arg };
    fl.made.push(rec);
    blackbox::fault(&rec);
    fl.counts[k.idx()] += 1;
    fl.last_arg = arg;
    sched::note(3, k.idx() as u64, arg);
    sched::trace(|| format!("fault {} at environment call {}", k.name(), seq));
    Some(k)
}

pub fn arg() -> u64 {
    f().last_arg
}
