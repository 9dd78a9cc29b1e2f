//! Deterministic simulation runtime: scheduler, simulated disk, entropy, clock, fault injection.
#![allow(static_mut_refs, suspicious_runtime_symbol_definitions, invalid_runtime_symbol_definitions)]
pub mod alloc;
pub mod blackbox;
pub mod faults;
pub mod process;
pub mod rng;
pub mod runner;
pub mod sched;
pub mod sys;
pub mod vfs;

use faults::FaultRec;
use rng::{mix, Digest, Rng};
use sched::Decision;
use std::cell::RefCell;
use std::collections::BTreeMap;

/// Everything that determines one run.
#[derive(Clone, Debug, Default)]
pub struct Spec {
    pub prop: String,
    pub run: u64,
    /// keys of every hash map, and the seed of everything not fixed below
    pub entropy: u64,
    pub tape: Option<Vec<u64>>,
    pub sched: Option<Vec<Decision>>,
    pub faults: Option<Vec<FaultRec>>,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub class: String,
    pub msg: String,
}

#[derive(Clone, Debug, Default)]
pub struct Outcome {
    pub violation: Option<Violation>,
    pub discarded: bool,
    pub nontrivial: bool,
    pub digest: u64,
    pub inter: u64,
    pub case: u64,
    pub steps: u64,
    pub switches: u64,
    pub blocked: u64,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub sample: String,
    pub trace: Vec<String>,
    pub made: Spec,
    pub harness_error: Option<String>,
}

pub struct Run {
    tape: Option<Vec<u64>>,
    pos: usize,
    made: Vec<u64>,
    rng: Rng,
    entropy: u64,
    ent_calls: [u64; sched::MAXT],
    probes: BTreeMap<String, u64>,
    sample: String,
    nontrivial: bool,
    case: Digest,
}

static mut RUN: Option<Box<Run>> = None;

fn run() -> &'static mut Run {
    unsafe { RUN.as_mut().expect("no run") }
}

thread_local! {
    static PANIC: RefCell<Option<sched::Panicked>> = const { RefCell::new(None) };
}

pub fn take_panic() -> sched::Panicked {
    PANIC
        .with(|p| p.borrow_mut().take())
        .unwrap_or(sched::Panicked { msg: "?".into(), loc: "?".into() })
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        if sched::active() {
            sched::s().quiet += 1;
        }
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "Box<dyn Any>".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if sched::active() {
            sched::trace(|| format!("panic: {} at {}", msg, loc));
        } else {
            eprintln!("panic outside a run: {} at {}", msg, loc);
        }
        PANIC.with(|p| *p.borrow_mut() = Some(sched::Panicked { msg, loc }));
        if sched::active() {
            sched::s().quiet -= 1;
        }
    }));
}

/// Does this panic come from the machinery rather than from the code under test?
pub fn is_harness_panic(p: &sched::Panicked) -> bool {
    let l = &p.loc;
    l.contains("/verif/") || l.starts_with("harness/") || l.starts_with("simrt/") || l.starts_with("models/")
        || l.starts_with("src/") && !l.contains("/repo/")
}

pub fn fill_entropy(buf: &mut [u8]) {
    if buf.is_empty() {
        return; // a probe for the system call, once per process
    }
    let t = sched::tid();
    let r = run();
    r.ent_calls[t] += 1;
    let mut g = Rng::new(mix(r.entropy) ^ mix((t as u64) << 32 | r.ent_calls[t]));
    for b in buf.iter_mut() {
        *b = g.next() as u8;
    }
    sched::note(20, t as u64, buf.len() as u64);
}

/// Replaces the entropy of the rest of the run (threads already started keep the keys they drew).
pub fn set_entropy(e: u64) {
    run().entropy = e;
}
pub fn entropy() -> u64 {
    run().entropy
}

/// Draws from the run's choice tape.
pub fn draw(n: u64) -> u64 {
    let r = run();
    let v = match &r.tape {
        Some(t) => {
            let v = t.get(r.pos).copied().unwrap_or(0);
            r.pos += 1;
            if n == 0 {
                v
            } else {
                v % n
            }
        }
        None => {
            if n == 0 {
                r.rng.next()
            } else {
                r.rng.below(n)
            }
        }
    };
    r.made.push(v);
    r.case.add(v);
    blackbox::tape(v);
    v
}

/// Uniform in lo..=hi
pub fn range(lo: u64, hi: u64) -> u64 {
    lo + draw(hi - lo + 1)
}

pub fn chance(num: u64, den: u64) -> bool {
    // 0 on the tape means "no", so that shrinking removes things
    draw(den) >= den - num
}

pub fn pick<T: Copy>(v: &[T]) -> T {
    v[draw(v.len() as u64) as usize]
}

pub fn probe(name: &str) {
    if sched::active() {
        sched::quietly(|| *run().probes.entry(name.to_string()).or_default() += 1)
    }
}

pub fn nontrivial() {
    run().nontrivial = true;
}

pub fn sample(s: String) {
    run().sample = s;
}

static mut FATAL_HOOK: Option<fn(&str, &str)> = None;
pub fn set_fatal_hook(f: fn(&str, &str)) {
    unsafe { FATAL_HOOK = Some(f) }
}

/// The run cannot be continued or unwound: report from here and end the process.
pub fn fatal(class: &str, msg: &str) -> ! {
    sched::s().quiet += 1;
    sched::CUR.with(|c| c.set(0));
    unsafe {
        if let Some(f) = FATAL_HOOK {
            f(class, msg);
        }
    }
    sys::exit_group(77);
}

pub enum Verdict {
    Ok,
    Discard,
    Bad(Violation),
}

pub fn bad<T>(class: &str, msg: impl Into<String>) -> Result<T, Violation> {
    Err(Violation { class: class.to_string(), msg: msg.into() })
}

pub const DISCARD: &str = "__discard";
pub fn discard<T>() -> Result<T, Violation> {
    bad(DISCARD, "")
}

pub fn trace_so_far() -> Vec<String> {
    sched::s().trace.clone()
}

pub fn made_so_far(spec: &Spec) -> Spec {
    Spec {
        prop: spec.prop.clone(),
        run: spec.run,
        entropy: spec.entropy,
        tape: Some(run().made.clone()),
        sched: Some(sched::s().made.clone()),
        faults: Some(faults::f().made.clone()),
    }
}

/// Executes one run on fresh threads.
pub fn execute(spec: &Spec, budget: u64, tracing: bool, body: fn() -> Result<(), Violation>) -> Outcome {
    let seed = mix(spec.entropy ^ mix(spec.run));
    unsafe {
        RUN = Some(Box::new(Run {
            tape: spec.tape.clone(),
            pos: 0,
            made: vec![],
            rng: Rng::new(seed ^ 0x7a9e),
            entropy: spec.entropy,
            ent_calls: [0; sched::MAXT],
            probes: Default::default(),
            sample: String::new(),
            nontrivial: false,
            case: Digest::default(),
        }));
        sched::SCHED = Some(sched::new_sched(seed, spec.sched.clone(), budget, tracing));
        faults::FAULTS = Some(faults::new_faults(seed, spec.faults.clone()));
        vfs::reset();
    }
    blackbox::begin(spec.run, spec.entropy);
    let h = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            sched::start_driver();
            let r = std::panic::catch_unwind(body);
            let p = if r.is_err() { Some(take_panic()) } else { None };
            sched::stop_driver();
            (r.ok(), p)
        })
        .expect("spawn driver");
    let (r, p) = match h.join() {
        Ok(x) => x,
        Err(_) => (None, Some(sched::Panicked { msg: "driver died".into(), loc: "simrt/".into() })),
    };
    let rn = unsafe { RUN.take().unwrap() };
    let sc = unsafe { sched::SCHED.take().unwrap() };
    let fl = unsafe { faults::FAULTS.take().unwrap() };
    let mut out = Outcome {
        nontrivial: rn.nontrivial,
        digest: sc.digest.0,
        inter: sc.inter.0,
        case: rn.case.0,
        steps: sc.gstep,
        switches: sc.switches,
        blocked: sc.blocked_waits,
        probes: rn.probes,
        sample: rn.sample,
        trace: sc.trace,
        ..Default::default()
    };
    for (i, k) in faults::ALL.iter().enumerate() {
        if fl.counts[i] > 0 {
            out.faults.insert(k.name().to_string(), fl.counts[i]);
        }
    }
    out.made = Spec {
        prop: spec.prop.clone(),
        run: spec.run,
        entropy: spec.entropy,
        tape: Some(rn.made),
        sched: Some(sc.made),
        faults: Some(fl.made),
    };
    match (r, p) {
        (Some(Ok(())), _) => {}
        (Some(Err(v)), _) if v.class == DISCARD => out.discarded = true,
        (Some(Err(v)), _) => out.violation = Some(v),
        (None, p) => {
            let p = p.unwrap_or(sched::Panicked { msg: "?".into(), loc: "?".into() });
            if is_harness_panic(&p) {
                out.harness_error = Some(format!("{} at {}", p.msg, p.loc));
            } else {
                out.violation = Some(Violation {
                    class: "panic".into(),
                    msg: format!("panicked: {} at {}", p.msg, p.loc),
                });
            }
        }
    }
    out
}
