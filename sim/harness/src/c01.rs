//! C01: threads sharing one lazy FST.
use crate::ops::{self, check_lang, Case};
use crate::util;
use crate::view::{explore, Row, View};
use models::RefFst;
use simrt::rng::Rng;
use simrt::sched::{now, quietly, Body};
use simrt::{bad, chance, discard, draw, range, Violation};
use std::collections::BTreeMap;

#[derive(Default)]
pub struct Log {
    pub start: Vec<Option<usize>>,
    pub trs: Vec<(usize, Row)>,
    pub fin: Vec<(usize, Option<i64>)>,
    pub count: Vec<(usize, u8, usize)>,
    pub computed: Vec<RefFst>,
    pub errs: Vec<String>,
    pub iterated: Vec<Vec<usize>>,
    /// somebody emptied the cache meanwhile: iterations may end early, counts may fail
    pub cleared: bool,
}

/// What one thread does: a few explorations, each chosen from its own stream.
pub fn program(v: &dyn View, seed: u64, steps: u64, log: &mut Log) {
    let mut r = Rng::new(seed);
    let acts = 1 + r.below(2);
    for _ in 0..acts {
        let kind = r.below(16);
        match kind {
            0..=7 => walk(v, &mut r, steps, log),
            8..=9 => match explore(v, 5000) {
                Ok(Some(f)) => quietly(|| {
                    log.start.push(f.start);
                    let visited = f.reachable();
                    for (i, st) in f.states.into_iter().enumerate().filter(|x| visited.contains(&x.0)) {
                        log.trs.push((i, st.arcs));
                        log.fin.push((i, st.fin));
                    }
                }),
                Ok(None) => {}
                Err(e) => quietly(|| log.errs.push(e)),
            },
            10..=11 => {
                let mut seen = vec![];
                v.each_state(&mut |s| {
                    quietly(|| seen.push(s));
                    seen.len() < 5000
                });
                quietly(|| log.iterated.push(seen));
            }
            12..=13 => {
                let mut seen = vec![];
                v.each(&mut |s, t, f, n| {
                    quietly(|| {
                        seen.push(s);
                        log.count.push((s, 0, n));
                        log.trs.push((s, t));
                        log.fin.push((s, f));
                        seen.len() < 5000
                    })
                });
                quietly(|| log.iterated.push(seen));
            }
            14 => match v.compute() {
                Ok(f) => quietly(|| log.computed.push(f)),
                Err(e) => quietly(|| log.errs.push(e)),
            },
            _ => {
                v.debug();
            }
        }
    }
}

fn walk(v: &dyn View, r: &mut Rng, steps: u64, log: &mut Log) {
    let st = v.start();
    quietly(|| log.start.push(st));
    let Some(s0) = st else { return };
    let mut s = s0;
    let mut known = vec![s0];
    let mut last: Option<Row> = None;
    for _ in 0..1 + r.below(steps) {
        match r.below(8) {
            0..=4 => match v.trs(s) {
                Ok(t) => {
                    quietly(|| {
                        for a in &t {
                            if !known.contains(&a.next) {
                                known.push(a.next);
                            }
                        }
                        log.trs.push((s, t.clone()));
                        last = Some(t);
                    });
                }
                Err(e) => quietly(|| log.errs.push(format!("get_trs({}): {}", s, e))),
            },
            5 => match v.fin(s) {
                Ok(f) => quietly(|| log.fin.push((s, f))),
                Err(e) => quietly(|| log.errs.push(format!("final_weight({}): {}", s, e))),
            },
            _ => {
                let w = r.below(3) as u8;
                match v.count(s, w) {
                    Ok(n) => quietly(|| log.count.push((s, w, n))),
                    Err(_) if log.cleared => {}
                    Err(e) => quietly(|| log.errs.push(format!("count {} of state {}: {}", w, s, e))),
                }
            }
        }
        // where next: along a transition, or back to a state seen before
        if let (Some(t), true) = (&last, r.below(4) > 0) {
            if !t.is_empty() {
                s = t[r.below(t.len() as u64) as usize].next;
                last = None;
                continue;
            }
        }
        s = known[r.below(known.len() as u64) as usize];
    }
}

/// All observations must come from one machine; `full` is that machine.
pub fn check_logs(logs: &[Log], full: &RefFst) -> Result<(), Violation> {
    let reach = full.reachable();
    let mut other: BTreeMap<usize, &Row> = BTreeMap::new();
    for (t, l) in logs.iter().enumerate() {
        if let Some(e) = l.errs.first() {
            return bad("error", format!("thread {}: {}", t, e));
        }
        for x in &l.start {
            if *x != full.start {
                return bad("start", format!("thread {} saw start {:?}, others {:?}", t, x, full.start));
            }
        }
        for (s, row) in &l.trs {
            if !reach.contains(s) {
                // visited by iteration only: at least always the same
                if other.entry(*s).or_insert(row) != &row {
                    return bad("transitions", format!("thread {} saw {:?} leaving state {}, and {:?}", t, row, s, other[s]));
                }
                continue;
            }
            if *s >= full.states.len() || full.states[*s].arcs != *row {
                return bad(
                    "transitions",
                    format!("thread {} saw {:?} leaving state {}, later {:?}", t, row, s, full.states.get(*s)),
                );
            }
        }
        for (s, f) in &l.fin {
            if !reach.contains(s) {
                continue;
            }
            if *s >= full.states.len() || full.states[*s].fin != *f {
                return bad("final", format!("thread {} saw final weight {:?} of state {}, later {:?}", t, f, s, full.states.get(*s)));
            }
        }
        for (s, w, n) in &l.count {
            let st = if reach.contains(s) { &full.states[*s].arcs } else if let Some(r) = other.get(s) { *r } else { continue };
            let real = match w {
                0 => st.len(),
                1 => st.iter().filter(|a| a.il == 0).count(),
                _ => st.iter().filter(|a| a.ol == 0).count(),
            };
            if real != *n {
                return bad("count", format!("thread {}: count {} of state {} was {}, is {}", t, w, s, n, real));
            }
        }
        for seen in &l.iterated {
            if l.cleared {
                continue;
            }
            let mut v = seen.clone();
            v.sort_unstable();
            v.dedup();
            if v.len() != seen.len() {
                return bad("iteration", format!("thread {}: a state was visited twice in one iteration", t));
            }
            for s in &reach {
                if seen.len() < 5000 && v.binary_search(s).is_err() {
                    return bad("iteration", format!("thread {}: state {} was left out of an iteration over the states", t, s));
                }
            }
        }
    }
    Ok(())
}

pub fn check_computed(c: &Case, logs: &[Log], size: (usize, usize)) -> Result<(), Violation> {
    for l in logs {
        for f in &l.computed {
            if f.size() != size {
                return bad("computed", format!("materialised {:?} states and transitions, expected {:?}", f.size(), size));
            }
            if let Err(e) = check_lang(c, f) {
                return bad("computed", e);
            }
        }
    }
    Ok(())
}

pub fn sequential(c: &Case) -> Result<(RefFst, u64), Violation> {
    let g0 = now();
    let v = match (c.make)() {
        Ok(v) => v,
        Err(e) => return bad("construction", format!("{}: {}", c.name, e)),
    };
    let seq = match explore(&*v, 800) {
        Ok(Some(f)) => f,
        Ok(None) => return discard(),
        Err(e) => return bad("error", format!("{} explored by one thread: {}", c.name, e)),
    };
    let blocks = now() - g0;
    match check_lang(c, &seq) {
        Ok(Some(())) => {}
        Ok(None) => return discard(),
        Err(e) => return bad("sequential", format!("{} explored by one thread: {}", c.name, e)),
    }
    Ok((seq, blocks))
}

pub fn body() -> Result<(), Violation> {
    let Some(c) = ops::case(true) else { return discard() };
    let (seq, blocks) = sequential(&c)?;
    let v = (c.make)().map_err(|e| Violation { class: "construction".into(), msg: e })?;
    util::wakeups();
    let n = range(2, 4) as usize;
    let steps = range(3, 24);
    let mut logs: Vec<Log> = (0..n).map(|_| Log::default()).collect();
    // same stream: threads do the same thing at the same time
    let same = draw(3) == 0;
    let s0 = draw(1 << 16);
    let seeds: Vec<u64> = (0..n as u64).map(|i| if same { s0 } else { draw(1 << 16) ^ (i << 20) }).collect();
    let mut bodies: Vec<Body> = vec![];
    let clearing = v.clear() && chance(1, 2);
    let times = range(1, 6);
    for l in logs.iter_mut() {
        l.cleared = clearing;
    }
    for (l, sd) in logs.iter_mut().zip(&seeds) {
        let v: &(dyn View + Send + Sync) = &*v;
        let sd = *sd;
        bodies.push(Box::new(move || program(v, sd, steps, l)));
    }
    if clearing {
        let v: &(dyn View + Send + Sync) = &*v;
        bodies.push(Box::new(move || {
            for _ in 0..times {
                v.clear();
            }
        }));
        simrt::probe("cache_cleared_concurrently");
    }
    util::threads(blocks * n as u64, bodies)?;
    // the driver looks at everything, after the threads
    let full = match explore(&*v, 5000) {
        Ok(Some(f)) => f,
        Ok(None) => return bad("states", "the shared automaton has more states than the sequential one".to_string()),
        Err(e) => return bad("error", format!("{} explored after the threads: {}", c.name, e)),
    };
    check_logs(&logs, &full)?;
    if full.size() != seq.size() {
        return bad("states", format!("{}: (states, transitions) {:?} when shared, {:?} when explored alone", c.name, full.size(), seq.size()));
    }
    if let Err(e) = check_lang(&c, &full) {
        return bad("language", format!("{} shared by {} threads: {}", c.name, n, e));
    }
    check_computed(&c, &logs, seq.size())?;
    let seen: BTreeMap<usize, usize> = logs.iter().flat_map(|l| l.trs.iter()).fold(BTreeMap::new(), |mut m, (s, _)| {
        *m.entry(*s).or_default() += 1;
        m
    });
    if seq.size().0 >= 2 && !c.expect.is_empty() && seen.values().any(|x| *x > 1) {
        simrt::nontrivial();
    }
    simrt::sample(format!("{} over {}: {} threads, {:?} states/transitions, {} strings", c.name, c.input, n, seq.size(), c.expect.len()));
    Ok(())
}
