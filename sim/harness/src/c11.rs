//! C11: failing and panicking expansions leave no trace.
use crate::c01::{check_computed, check_logs, sequential, Log};
use crate::faulty::{hits, Faulty};
use crate::gen::{self, vector, Cfg, Cyc};
use crate::ops::{self, check_lang, describe, s, sorted, Case};
use crate::util;
use crate::view::{explore, vref, Row, View, V};
use models::{RefFst, Ring};
use rustfst::algorithms::factor_weight::factor_iterators::StringFactorLeft;
use rustfst::algorithms::factor_weight::{FactorWeightFst, FactorWeightOptions, FactorWeightType};
use rustfst::algorithms::replace::ReplaceFst;
use rustfst::semirings::{IntegerWeight, StringWeightLeft};
use simrt::faults::{self, Fault};
use simrt::rng::Rng;
use simrt::sched::{quietly, Body};
use simrt::{bad, chance, discard, draw, pick, range, Violation};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

type I = IntegerWeight;
type Fi = Faulty<I>;

fn words(a: &mut RefFst) {
    let word = || {
        let n = draw(4);
        models::str_code(&(0..n.min(3)).map(|_| 1 + draw(3) as u32).collect::<Vec<_>>())
    };
    for st in a.states.iter_mut() {
        for x in st.arcs.iter_mut() {
            x.w = word();
        }
        if st.fin.is_some() {
            st.fin = Some(word());
        }
    }
}

fn case() -> Option<Case> {
    let ring = Ring::Count;
    let seed = draw(1 << 20);
    match draw(12) {
        0..=4 => {
            let (a, b, expect, k) = ops::compose_inputs(ring, true)?;
            let input = describe(&[&a, &b]);
            let va = Arc::new(Faulty(sorted::<I>(&a, true)));
            let vb = Arc::new(Faulty(sorted::<I>(&b, false)));
            let cache = draw(ops::CACHES);
            let filter = draw(4);
            Some(Case {
                name: format!("compose filter {} cache {}", filter, cache),
                ring,
                make: Box::new(move || match filter {
                    0 => ops::seq_f(&va, &vb, cache, seed),
                    1 => ops::alt_f(&va, &vb, cache, seed),
                    2 => ops::mat_f(&va, &vb, cache, seed),
                    _ => {
                        let f = s(ops::autof::<I, Fi, Fi>(&va, &vb))?;
                        Ok(Box::new(V::<I, _>::new(f, |f| Ok(vref::<I>(f.compute()?)), None)))
                    }
                }),
                expect,
                k,
                string: false,
                input,
            })
        }
        5..=8 => {
            let k = 4;
            let nested = chance(1, 3);
            let n = range(2, 3) as usize;
            let mut fs: Vec<RefFst> = vec![];
            for i in 0..n {
                let mut f = gen::fst(&ops::swarm(Cfg { states: 4, arcs: 6, ..ops::cfg(ring, Cyc::No) }));
                if i + 1 < n {
                    for st in f.states.iter_mut() {
                        for a in st.arcs.iter_mut() {
                            if chance(1, 3) {
                                a.ol = 100 + range(i as u64 + 1, n as u64 - 1) as u32;
                            }
                        }
                    }
                }
                fs.push(f);
            }
            let keep = draw(2) == 1;
            let e = ops::inline(&fs, 0, keep);
            if e.states.len() > 400 {
                return None;
            }
            let vs: Vec<Arc<Fi>> = fs.iter().map(|f| Arc::new(Faulty(vector::<I>(f)))).collect();
            let input = describe(&fs.iter().collect::<Vec<_>>());
            let mk = move || {
                let l = vs.iter().enumerate().map(|(i, v)| (100 + i as u32, v.clone())).collect();
                s(ReplaceFst::<I, Fi, Arc<Fi>>::new(l, 100, !keep))
            };
            if nested {
                let c = gen::fst(&ops::swarm(Cfg { states: 4, arcs: 7, ..ops::cfg(ring, Cyc::No) }));
                let la = e.lang(ring, 3, usize::MAX, 3000).finite()?;
                let m = la.keys().map(|x| x.1.len()).max().unwrap_or(0);
                let lc = c.lang(ring, m, 3, 3000).finite()?;
                let expect = models::compose(&la, &lc, ring);
                let vc = Arc::new(Faulty(sorted::<I>(&c, false)));
                return Some(Case {
                    name: "compose over a lazy replace".into(),
                    ring,
                    make: Box::new(move || {
                        let u = Arc::new(mk()?);
                        let f = s(ops::autof::<I, _, _>(&u, &vc))?;
                        Ok(Box::new(V::<I, _>::new(f, |f| Ok(vref::<I>(f.compute()?)), None)))
                    }),
                    expect,
                    k: 3,
                    string: false,
                    input,
                });
            }
            let expect = e.lang(ring, k, k, ops::CAP).finite()?;
            Some(Case {
                name: "replace".into(),
                ring,
                make: Box::new(move || Ok(Box::new(V::<I, _>::new(mk()?, |f| Ok(vref::<I>(f.compute()?)), None)))),
                expect,
                k,
                string: false,
                input,
            })
        }
        9 => {
            type S = StringWeightLeft;
            let mut a = gen::fst(&Cfg { states: 5, arcs: 8, acceptor: true, ..ops::cfg(ring, Cyc::No) });
            words(&mut a);
            let k = 6;
            let expect = a.spell().lang(Ring::Count, k, 64, ops::CAP).finite()?;
            let input = describe(&[&a]);
            let va = Faulty(vector::<S>(&a));
            let mode = match draw(3) {
                0 => FactorWeightType::FACTOR_FINAL_WEIGHTS | FactorWeightType::FACTOR_ARC_WEIGHTS,
                1 => FactorWeightType::FACTOR_ARC_WEIGHTS,
                _ => FactorWeightType::FACTOR_FINAL_WEIGHTS,
            };
            Some(Case {
                name: format!("factor weight {:?}", mode),
                ring,
                make: Box::new(move || {
                    let f = s(FactorWeightFst::<S, Faulty<S>, Faulty<S>, StringFactorLeft>::new(va.clone(), FactorWeightOptions::new(mode)))?;
                    Ok(Box::new(V::<S, _>::new(f, |f| Ok(vref::<S>(f.compute()?)), None)))
                }),
                expect,
                k,
                string: true,
                input,
            })
        }
        _ => {
            let k = 3;
            let mut a = gen::fst(&ops::swarm(ops::cfg(ring, Cyc::Both)));
            if a.start.is_some() {
                a = a.canonical();
            }
            let expect = a.lang(ring, k, k, ops::CAP).finite()?;
            let input = describe(&[&a]);
            let which = draw(5);
            Some(Case {
                name: format!("user operation {}", which),
                ring,
                make: Box::new(move || ops::table_view(&a, which, seed)),
                expect,
                k,
                string: false,
                input,
            })
        }
    }
}

#[derive(Default)]
pub struct FLog {
    log: Log,
    failed: u64,
    wrong: Vec<(&'static str, String)>,
}

/// Calls that have no way to return an error: an error underneath may surface as a panic.
enum Kind {
    Returns,
    Panics,
}

impl FLog {
    /// One call; what failed must have been made to fail.
    fn call<X>(&mut self, what: &str, kind: Kind, may_fail: bool, f: impl FnOnce() -> Result<X, String>) -> Option<X> {
        let h0 = hits();
        let r = catch_unwind(AssertUnwindSafe(f));
        let r = r.map_err(|_| simrt::take_panic());
        let h1 = hits();
        quietly(|| match r {
            Ok(Ok(x)) => {
                return Some(x);
            }
            Ok(Err(e)) => {
                if h0 == h1 && !may_fail {
                    self.wrong.push(("error", format!("{} failed, though nothing underneath did: {}", what, e)));
                }
                self.failed += 1;
                None
            }
            Err(p) => {
                if p.loc.contains("unsafe_unwrap") {
                    self.wrong.push(("undefined", format!("{}: a failure underneath was taken for a success (undefined behaviour in a build without debug assertions)", what)));
                } else if h0 == h1 && !may_fail {
                    self.wrong.push(("panic", format!("{} panicked, though nothing underneath failed: {} at {}", what, p.msg, p.loc)));
                } else if h0.1 == h1.1 && matches!(kind, Kind::Returns) && !may_fail {
                    self.wrong.push(("swallowed", format!("{} panicked instead of reporting the failure underneath: {} at {}", what, p.msg, p.loc)));
                }
                self.failed += 1;
                None
            }
        })
    }
}

fn program(v: &dyn View, seed: u64, steps: u64, l: &mut FLog) {
    let mut r = Rng::new(seed);
    let mut known: Vec<usize> = vec![];
    let mut last: Row = vec![];
    for _ in 0..1 + r.below(steps) {
        if known.is_empty() || r.below(8) == 0 {
            if let Some(st) = l.call("start", Kind::Panics, false, || Ok(v.start())) {
                quietly(|| {
                    l.log.start.push(st);
                    if let Some(x) = st {
                        if !known.contains(&x) {
                            known.push(x);
                        }
                    }
                });
                if st.is_none() {
                    return;
                }
            }
            continue;
        }
        let sel = if !last.is_empty() && r.below(4) > 0 {
            last[r.below(last.len() as u64) as usize].next
        } else {
            known[r.below(known.len() as u64) as usize]
        };
        match r.below(20) {
            0..=9 => {
                if let Some(t) = l.call("get_trs", Kind::Returns, false, || v.trs(sel)) {
                    quietly(|| {
                        for a in &t {
                            if !known.contains(&a.next) {
                                known.push(a.next);
                            }
                        }
                        l.log.trs.push((sel, t.clone()));
                        last = t;
                    });
                }
            }
            10..=12 => {
                if let Some(f) = l.call("final_weight", Kind::Returns, false, || v.fin(sel)) {
                    quietly(|| l.log.fin.push((sel, f)));
                }
            }
            13..=14 => {
                let w = r.below(3) as u8;
                let cl = l.log.cleared;
                if let Some(n) = l.call("count", Kind::Returns, cl, || v.count(sel, w)) {
                    quietly(|| l.log.count.push((sel, w, n)));
                }
            }
            15 => {
                let mut seen = vec![];
                let ok = l.call("states_iter", Kind::Panics, false, || {
                    v.each_state(&mut |s| {
                        quietly(|| seen.push(s));
                        seen.len() < 5000
                    });
                    Ok(())
                });
                if ok.is_some() {
                    quietly(|| l.log.iterated.push(seen));
                }
            }
            16 => {
                let mut seen = vec![];
                let mut part = Log::default();
                let ok = l.call("fst_iter", Kind::Panics, false, || {
                    v.each(&mut |s, t, f, n| {
                        quietly(|| {
                            seen.push(s);
                            part.count.push((s, 0, n));
                            part.trs.push((s, t));
                            part.fin.push((s, f));
                            seen.len() < 5000
                        })
                    });
                    Ok(())
                });
                quietly(|| {
                    l.log.trs.append(&mut part.trs);
                    l.log.fin.append(&mut part.fin);
                    if !l.log.cleared {
                        l.log.count.append(&mut part.count);
                    }
                    if ok.is_some() {
                        l.log.iterated.push(seen);
                    }
                });
            }
            17 => {
                if let Some(f) = l.call("compute", Kind::Panics, false, || v.compute()) {
                    quietly(|| l.log.computed.push(f));
                }
            }
            18 => {
                // a state nobody has ever heard of
                let s = 1_000_000 + r.below(1000) as usize;
                let w = r.below(3);
                let x = l.call("unknown state", Kind::Panics, true, || match w {
                    0 => v.trs(s).map(|_| ()),
                    1 => v.fin(s).map(|_| ()),
                    _ => v.count(s, 0).map(|_| ()),
                });
                quietly(|| {
                    if x.is_some() {
                        l.wrong.push(("unknown", format!("state {} has an answer, though it does not exist", s)));
                    }
                    simrt::probe("fault:unknown_state");
                });
            }
            _ => {
                l.call("debug", Kind::Panics, false, || Ok(v.debug()));
            }
        }
    }
}

pub fn body() -> Result<(), Violation> {
    let Some(c) = case() else { return discard() };
    let (seq, blocks) = sequential(&c)?;
    let v = (c.make)().map_err(|e| Violation { class: "construction".into(), msg: e })?;
    let n = range(1, 3) as usize;
    let steps = range(3, 30);
    let p = pick(&[0, 100, 500, 2000]);
    let q = pick(&[0, 100, 500, 2000]);
    let mut mix = vec![(Fault::CallErr, p), (Fault::CallPanic, q)];
    if chance(1, 4) {
        mix.push((Fault::SpuriousWake, 2000));
    }
    let clearing = v.clear() && chance(1, 2);
    let seeds: Vec<u64> = (0..n).map(|_| draw(1 << 16)).collect();
    let mut logs: Vec<FLog> = (0..n).map(|_| FLog::default()).collect();
    for l in logs.iter_mut() {
        l.log.cleared = clearing;
    }
    faults::enable(&mix);
    let mut bodies: Vec<Body> = vec![];
    for (l, sd) in logs.iter_mut().zip(&seeds) {
        let v: &(dyn View + Send + Sync) = &*v;
        let sd = *sd;
        bodies.push(Box::new(move || program(v, sd, steps, l)));
    }
    if clearing {
        let v: &(dyn View + Send + Sync) = &*v;
        bodies.push(Box::new(move || {
            for _ in 0..3 {
                v.clear();
            }
        }));
    }
    let r = util::threads(blocks * n as u64, bodies);
    faults::off(true);
    r?;
    for l in &logs {
        if let Some((k, m)) = l.wrong.first() {
            return bad(k, format!("{}: {}", c.name, m));
        }
    }
    // the causes are gone: everything must be there
    let mut seen = vec![];
    let full = match catch_unwind(AssertUnwindSafe(|| {
        v.each_state(&mut |s| {
            seen.push(s);
            seen.len() < 5000
        });
        explore(&*v, 5000)
    })) {
        Ok(Ok(Some(f))) => f,
        Ok(Ok(None)) => return bad("states", "more states than without failures".to_string()),
        Ok(Err(e)) => return bad("error", format!("{} explored after the failures: {}", c.name, e)),
        Err(_) => {
            let p = simrt::take_panic();
            return bad("panic", format!("{} explored after the failures: {} at {}", c.name, p.msg, p.loc));
        }
    };
    let failed: u64 = logs.iter().map(|l| l.failed).sum();
    let mut logs: Vec<Log> = logs.into_iter().map(|l| l.log).collect();
    logs.push(Log { iterated: if clearing { vec![] } else { vec![seen] }, ..Log::default() });
    check_logs(&logs, &full)?;
    if full.size() != seq.size() {
        return bad("states", format!("{}: (states, transitions) {:?} after failures, {:?} without", c.name, full.size(), seq.size()));
    }
    if let Err(e) = check_lang(&c, &full) {
        return bad("language", format!("{} after failures: {}", c.name, e));
    }
    check_computed(&c, &logs, seq.size())?;
    if failed > 0 && seq.size().0 >= 2 {
        simrt::nontrivial();
    }
    simrt::sample(format!("{} over {}: {} threads, {} calls failed", c.name, c.input, n, failed));
    Ok(())
}
