//! The scheduler: real OS threads, exactly one of which runs at any time. Who runs next is
//! decided here, from the run's seed (search) or from a recorded decision list (replay).
use crate::blackbox;
use crate::rng::{Digest, Rng};
use crate::sys;
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering};

pub const MAXT: usize = 24;
pub const NGUARD: usize = 1 << 19;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum St {
    Unused,
    Runnable,
    Blocked(usize),
    Joining,
    Done,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Decision {
    /// 0 = preemption after `at` basic blocks of `tid`; 1 = `tid`'s `at`-th blocking wait; 2 = `tid` exited
    pub kind: u8,
    pub tid: u8,
    pub to: u8,
    pub at: u64,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Strategy {
    /// run until blocked
    Serial,
    /// exponential slices with the given mean length
    Random(u64),
    /// random priorities, d priority-change points within the given length
    Pct(u32, u64),
    /// preempt with probability 1/2 at a random subset of code locations
    Hot,
}

pub struct Th {
    pub st: St,
    pub word: AtomicU32,
    pub local: u64,
    pub stop: u64,
    pub blocks: u64,
    pub prio: u64,
    pub wakes: u64,
}

pub struct Sched {
    pub th: [Th; MAXT],
    pub n: usize,
    pub cur: usize,
    pub gstep: u64,
    pub budget: u64,
    pub quiet: u32,
    pub multi: bool,
    pub strat: Strategy,
    pub rng: Rng,
    pub pct: Vec<u64>,
    pub replay: Option<Vec<Decision>>,
    pub made: Vec<Decision>,
    pub digest: Digest,
    pub inter: Digest,
    pub switches: u64,
    pub blocked_waits: u64,
    pub last_guard: u32,
    pub tracing: bool,
    pub trace: Vec<String>,
}

pub static mut SCHED: Option<Box<Sched>> = None;
/// bit 0: covered; bit 1: a hot preemption site in this run
pub static mut FLAGS: [u8; NGUARD] = [0; NGUARD];
pub static mut NG: u32 = 1;

thread_local! {
    pub static CUR: Cell<u32> = const { Cell::new(0) };
}

#[inline(always)]
pub fn s() -> &'static mut Sched {
    unsafe { (*std::ptr::addr_of_mut!(SCHED)).as_mut().unwrap_unchecked() }
}

pub fn active() -> bool {
    CUR.with(|c| c.get()) != 0
}

pub fn tid() -> usize {
    CUR.with(|c| c.get()) as usize
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(a: *mut u32, b: *mut u32) {
    if a == b || *a != 0 {
        return;
    }
    let mut p = a;
    while p < b {
        *p = NG % NGUARD as u32;
        NG += 1;
        p = p.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    let t = CUR.with(|c| c.get());
    if t == 0 {
        return;
    }
    let id = *g as usize;
    let f = FLAGS[id];
    FLAGS[id] = f | 1;
    let sc = s();
    let th = &mut sc.th[t as usize];
    th.local += 1;
    sc.gstep += 1;
    if th.local >= th.stop || f & 2 != 0 {
        slow(t as usize, id as u32, f & 2 != 0);
    }
}

fn park(t: usize) {
    let w = &s().th[t].word as *const AtomicU32;
    unsafe {
        loop {
            if (*w).swap(0, Ordering::Acquire) == 1 {
                return;
            }
            sys::raw(sys::SYS_FUTEX, w as i64, 128, 0, 0, 0, 0);
        }
    }
}

fn unpark(t: usize) {
    let w = &s().th[t].word as *const AtomicU32;
    unsafe {
        (*w).store(1, Ordering::Release);
        sys::raw(sys::SYS_FUTEX, w as i64, 129, 1, 0, 0, 0);
    }
}

fn set_stop(t: usize) {
    let sc = s();
    let local = sc.th[t].local;
    let left = sc.budget.saturating_sub(sc.gstep) + 1;
    let slice = if !sc.multi {
        u64::MAX
    } else if let Some(r) = &sc.replay {
        r.iter()
            .filter(|d| d.kind == 0 && d.tid as usize == t && d.at > local)
            .map(|d| d.at - local)
            .min()
            .unwrap_or(u64::MAX)
    } else {
        match sc.strat {
            Strategy::Serial | Strategy::Hot => u64::MAX,
            Strategy::Random(m) => {
                // geometric-ish: -ln(u) * m
                let u = (sc.rng.next() >> 11) as f64 / (1u64 << 53) as f64;
                (1.0 + -(1.0 - u).ln() * m as f64) as u64
            }
            Strategy::Pct(..) => sc
                .pct
                .iter()
                .filter(|x| **x > sc.gstep)
                .map(|x| x - sc.gstep)
                .min()
                .unwrap_or(u64::MAX),
        }
    };
    // fairness: nobody keeps the processor for ever, whatever the strategy
    let fair = if sc.multi && sc.replay.is_none() { 400_000 } else { u64::MAX };
    sc.th[t].stop = local.saturating_add(slice.min(left).min(fair).max(1));
}

pub fn runnable() -> Vec<usize> {
    let sc = s();
    (1..=sc.n).filter(|i| sc.th[*i].st == St::Runnable).collect()
}

/// Search-mode choice among the runnable threads, `me` included when it can continue.
fn choose(c: &[usize], me: usize, preempt: bool) -> usize {
    let sc = s();
    match sc.strat {
        Strategy::Pct(..) => {
            if preempt && me != 0 {
                // demote the current thread below everybody
                let low = sc.th.iter().map(|t| t.prio).min().unwrap_or(0);
                sc.th[me].prio = low.saturating_sub(1);
            }
            *c.iter().max_by_key(|t| sc.th[**t].prio).unwrap()
        }
        _ => c[sc.rng.below(c.len() as u64) as usize],
    }
}

fn record(d: Decision) {
    let sc = s();
    sc.made.push(d);
    blackbox::decision(&d);
}

pub fn note(kind: u64, a: u64, b: u64) {
    let sc = s();
    sc.digest.add(kind);
    sc.digest.add(a);
    sc.digest.add(b);
}

pub fn trace(f: impl FnOnce() -> String) {
    let sc = s();
    if sc.tracing {
        // describing a step takes no steps
        let t = tid();
        let (local, stop, gstep) = (sc.th[t].local, sc.th[t].stop, sc.gstep);
        sc.th[t].stop = u64::MAX;
        sc.quiet += 1;
        let m = f();
        sc.quiet -= 1;
        sc.th[t].local = local;
        sc.th[t].stop = stop;
        sc.gstep = gstep;
        let l = format!("step={} t{} {}", sc.gstep, tid(), m);
        sc.trace.push(l);
    }
}

fn switch(me: usize, to: usize, guard: u32) {
    let sc = s();
    sc.switches += 1;
    sc.cur = to;
    note(1, (me as u64) << 8 | to as u64, sc.th[me].local);
    sc.inter.add((guard as u64) << 16 | (me as u64) << 8 | to as u64);
    trace(|| format!("switch t{} -> t{} at block {} (guard {})", me, to, s().th[me].local, guard));
    unpark(to);
    park(me);
}

#[cold]
fn slow(t: usize, guard: u32, hot: bool) {
    let sc = s();
    if sc.gstep > sc.budget {
        crate::fatal("no-progress", &format!("run exceeded {} steps without finishing", sc.budget));
    }
    if sc.quiet > 0 || !sc.multi {
        if sc.th[t].local >= sc.th[t].stop {
            set_stop(t);
        }
        return;
    }
    sc.last_guard = guard;
    let at = sc.th[t].local;
    let to = if let Some(r) = &sc.replay {
        match r.iter().find(|d| d.kind == 0 && d.tid as usize == t && d.at == at) {
            Some(d) if sc.th[d.to as usize].st == St::Runnable => d.to as usize,
            _ => t,
        }
    } else {
        if hot && sc.th[t].local < sc.th[t].stop && sc.rng.below(2) == 0 {
            return;
        }
        let c = runnable();
        choose(&c, t, true)
    };
    if to != t {
        record(Decision { kind: 0, tid: t as u8, to: to as u8, at });
        switch(t, to, guard);
    }
    set_stop(t);
}

/// The current thread cannot continue: hand the processor to somebody else.
fn yield_blocked(me: usize, kind: u8, at: u64) {
    let sc = s();
    let mut c = runnable();
    if c.is_empty() {
        // everything but the joining driver is done?
        let live: Vec<usize> =
            (1..=sc.n).filter(|i| matches!(sc.th[*i].st, St::Blocked(_))).collect();
        let joiner = (1..=sc.n).find(|i| sc.th[*i].st == St::Joining);
        if live.is_empty() {
            if let Some(j) = joiner {
                sc.th[j].st = St::Runnable;
                c.push(j);
            }
        } else {
            crate::fatal(
                "deadlock",
                &format!("threads {:?} wait for each other and none can run", live),
            );
        }
    }
    let to = if c.len() == 1 {
        c[0]
    } else if let Some(r) = &sc.replay {
        match r.iter().find(|d| d.kind == kind && d.tid as usize == me && d.at == at) {
            Some(d) if c.contains(&(d.to as usize)) => d.to as usize,
            _ => c[0],
        }
    } else {
        choose(&c, 0, false)
    };
    if c.len() > 1 {
        record(Decision { kind, tid: me as u8, to: to as u8, at });
    }
    if kind == 2 {
        let sc = s();
        sc.switches += 1;
        sc.cur = to;
        note(2, me as u64, to as u64);
        trace(|| format!("t{} exits -> t{}", me, to));
        CUR.with(|c| c.set(0));
        unpark(to);
    } else {
        switch(me, to, sc.last_guard);
        set_stop(me);
    }
}

/// Futex calls of simulated threads.
pub unsafe fn futex(addr: i64, op: i64, val: i64) -> i64 {
    let me = tid();
    let sc = s();
    match op & 127 {
        0 | 9 => {
            // WAIT, WAIT_BITSET
            let cur = (*(addr as *const AtomicU32)).load(Ordering::SeqCst);
            if cur != val as u32 {
                return -(sys::EAGAIN as i64);
            }
            if let Some(crate::faults::Fault::SpuriousWake) =
                crate::faults::point(crate::faults::Site::FutexWait, 0)
            {
                return 0;
            }
            sc.th[me].st = St::Blocked(addr as usize);
            sc.th[me].blocks += 1;
            sc.blocked_waits += 1;
            let at = sc.th[me].blocks;
            trace(|| format!("t{} blocks", me));
            yield_blocked(me, 1, at);
            0
        }
        1 | 10 => {
            let mut n = 0;
            for i in 1..=sc.n {
                if n < val && sc.th[i].st == St::Blocked(addr as usize) {
                    sc.th[i].st = St::Runnable;
                    n += 1;
                }
            }
            n
        }
        _ => -(sys::EINVAL as i64),
    }
}

pub fn new_sched(seed: u64, replay: Option<Vec<Decision>>, budget: u64, tracing: bool) -> Box<Sched> {
    let mk = || Th {
        st: St::Unused,
        word: AtomicU32::new(0),
        local: 0,
        stop: u64::MAX,
        blocks: 0,
        prio: 0,
        wakes: 0,
    };
    Box::new(Sched {
        th: std::array::from_fn(|_| mk()),
        n: 0,
        cur: 0,
        gstep: 0,
        budget,
        quiet: 0,
        multi: false,
        strat: Strategy::Serial,
        rng: Rng::new(seed ^ 0x5ced),
        pct: vec![],
        replay,
        made: vec![],
        digest: Digest::default(),
        inter: Digest::default(),
        switches: 0,
        blocked_waits: 0,
        last_guard: 0,
        tracing,
        trace: vec![],
    })
}

pub fn start_driver() {
    let sc = s();
    sc.n = 1;
    sc.cur = 1;
    sc.th[1].st = St::Runnable;
    CUR.with(|c| c.set(1));
    set_stop(1);
}

pub fn stop_driver() {
    CUR.with(|c| c.set(0));
}

/// Picks the run's strategy (swarm style).
fn pick_strategy(len_hint: u64) {
    let sc = s();
    if sc.replay.is_some() {
        return;
    }
    let n = sc.n;
    for i in 1..=n {
        sc.th[i].prio = 1 << 40 | sc.rng.next() >> 30;
    }
    let k = sc.rng.below(100);
    sc.strat = if k < 8 {
        Strategy::Serial
    } else if k < 40 {
        let m = [1, 2, 4, 8, 16, 40, 100, 300][sc.rng.below(8) as usize];
        Strategy::Random(m)
    } else if k < 72 {
        Strategy::Pct(1 + sc.rng.below(5) as u32, len_hint.max(50))
    } else {
        Strategy::Hot
    };
    sc.pct.clear();
    if let Strategy::Pct(d, len) = sc.strat {
        let g = sc.gstep;
        for _ in 0..d {
            let x = g + 1 + sc.rng.below(len);
            sc.pct.push(x);
        }
    }
    if sc.strat == Strategy::Hot {
        unsafe {
            let den = [4, 16, 64, 200][sc.rng.below(4) as usize];
            let ng = NG as usize;
            // only locations already seen by this process would make the choice depend on
            // history, so draw over all locations
            for i in 1..ng.min(NGUARD) {
                FLAGS[i] &= 1;
                if sc.rng.below(den) == 0 {
                    FLAGS[i] |= 2;
                }
            }
        }
    }
}

fn clear_hot() {
    unsafe {
        for i in 0..(NG as usize).min(NGUARD) {
            FLAGS[i] &= 1;
        }
    }
}

pub type Body<'a> = Box<dyn FnOnce() + Send + 'a>;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Panicked {
    pub msg: String,
    pub loc: String,
}

/// Runs the bodies as simulated threads, interleaved; returns how each ended.
pub fn interleave<'a>(len_hint: u64, bodies: Vec<Body<'a>>) -> Vec<Result<(), Panicked>> {
    assert_eq!(tid(), 1, "interleave is for the driver");
    let sc = s();
    sc.quiet += 1;
    let mut handles = vec![];
    let first = sc.n + 1;
    let k = bodies.len();
    if first + k > MAXT {
        panic!("too many simulated threads");
    }
    let results: std::sync::Arc<Vec<std::sync::Mutex<Option<Result<(), Panicked>>>>> =
        std::sync::Arc::new((0..k).map(|_| std::sync::Mutex::new(None)).collect());
    for (i, b) in bodies.into_iter().enumerate() {
        let b: Body<'static> = unsafe { std::mem::transmute(b) };
        let t = first + i;
        sc.th[t].st = St::Runnable;
        sc.th[t].word.store(0, Ordering::SeqCst);
        let res = results.clone();
        let h = std::thread::Builder::new()
            .stack_size(4 << 20)
            .spawn(move || {
                park(t);
                CUR.with(|c| c.set(t as u32));
                set_stop(t);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(b));
                let sc = s();
                sc.quiet += 1;
                let out = match r {
                    Ok(()) => Ok(()),
                    Err(_) => Err(crate::take_panic()),
                };
                *res[t - first].lock().unwrap() = Some(out);
                sc.quiet -= 1;
                sc.th[t].st = St::Done;
                sc.th[t].blocks += 1;
                let at = sc.th[t].blocks;
                yield_blocked(t, 2, at);
            })
            .expect("spawn");
        handles.push(h);
    }
    sc.n = first + k - 1;
    sc.quiet -= 1;
    pick_strategy(len_hint);
    sc.multi = true;
    // hand over to the first thread
    sc.th[1].st = St::Joining;
    sc.th[1].blocks += 1;
    let at = sc.th[1].blocks;
    yield_blocked(1, 1, at);
    sc.multi = false;
    sc.quiet += 1;
    clear_hot();
    for h in handles {
        let _ = h.join();
    }
    let out = (0..k)
        .map(|i| results[i].lock().unwrap().take().expect("thread result"))
        .collect();
    // The finished threads' slots are reused by the next phase.
    sc.n = first - 1;
    for t in first..first + k {
        sc.th[t].st = St::Unused;
    }
    sc.quiet -= 1;
    set_stop(1);
    out
}

/// Runs harness code of a simulated thread with preemption off.
pub fn quietly<R>(f: impl FnOnce() -> R) -> R {
    if !active() {
        return f();
    }
    struct G;
    impl Drop for G {
        fn drop(&mut self) {
            s().quiet -= 1;
        }
    }
    s().quiet += 1;
    let _g = G;
    f()
}

pub fn now() -> u64 {
    s().gstep
}

/// An explicit event stamp: strictly increasing over all threads of the run.
pub fn stamp() -> u64 {
    let sc = s();
    sc.gstep += 1;
    sc.gstep
}
