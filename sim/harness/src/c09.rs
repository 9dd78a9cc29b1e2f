//! C09: results do not depend on the keys of the hash tables, and keep the promised language.
use crate::gen::{self, to_ref, vector, Cfg, Cyc, Wt};
use crate::ops;
use crate::util;
use models::{Map, RefFst, Ring};
use rustfst::algorithms::closure::{closure, ClosureType};
use rustfst::algorithms::concat::concat;
use rustfst::algorithms::determinize::{determinize_with_config, DeterminizeConfig, DeterminizeType};
use rustfst::algorithms::encode::{decode, encode, EncodeType};
use rustfst::algorithms::replace::replace;
use rustfst::algorithms::rm_epsilon::rm_epsilon;
use rustfst::algorithms::union::union;
use rustfst::algorithms::*;
use rustfst::prelude::*;
use simrt::sched::{quietly, Body};
use simrt::{bad, chance, discard, draw, range, Violation};
use std::collections::{BTreeMap, BTreeSet};

type T = TropicalWeight;
type Tv = VectorFst<T>;
type Run = Box<dyn Fn() -> Result<Vec<RefFst>, String> + Send + Sync>;
/// Given the results in one process: is the promised language there?
type Judge = Box<dyn Fn(&[RefFst]) -> Result<(), String>>;

pub struct Job {
    pub name: String,
    pub run: Run,
    pub judge: Judge,
    pub input: String,
    pub size: usize,
}

fn e<X>(r: anyhow::Result<X>) -> Result<X, String> {
    r.map_err(|x| format!("{:#}", x))
}

const CAP: usize = 20_000;

pub fn lang(f: &RefFst, ring: Ring, k: usize) -> Option<Map> {
    f.lang(ring, k, k, CAP).finite()
}

/// The result has this language (bounded by k labels on either side).
fn same(expect: Map, ring: Ring, k: usize) -> Judge {
    Box::new(move |fs: &[RefFst]| {
        let f = &fs[0];
        match f.lang(ring, k, k, 50 * CAP) {
            models::Lang::TooBig => Ok(()),
            models::Lang::Infinite => Err("the result has a cycle that reads and writes nothing".into()),
            models::Lang::Finite(m) => {
                if m == expect {
                    Ok(())
                } else {
                    Err(format!("weighted language: {}", models::diff(&expect, &m)))
                }
            }
        }
    })
}

fn both(a: Judge, b: impl Fn(&RefFst) -> Result<(), String> + 'static) -> Judge {
    Box::new(move |f| {
        a(f)?;
        b(&f[0])
    })
}

/// No two transitions with the same input label.
fn deterministic(f: &RefFst) -> Result<(), String> {
    for (i, s) in f.states.iter().enumerate() {
        let mut seen = BTreeSet::new();
        for a in &s.arcs {
            if !seen.insert(a.il) {
                return Err(format!("state {} has two transitions reading {}", i, a.il));
            }
        }
    }
    Ok(())
}

fn cfg(acceptor: bool, cyc: Cyc, eps: u64) -> Cfg {
    Cfg {
        states: range(2, 6),
        arcs: range(3, 11),
        ilabels: range(1, 3),
        olabels: range(1, 3),
        eps,
        cyc,
        ring: Ring::Trop,
        acceptor,
    }
}

fn unweighted(f: &mut RefFst) {
    for s in &mut f.states {
        for a in &mut s.arcs {
            a.w = 0;
        }
        if s.fin.is_some() {
            s.fin = Some(0);
        }
    }
}

/// At most one output per input, over the whole (finite) language.
fn functional(m: &Map) -> bool {
    let mut by: BTreeMap<&Vec<u32>, &Vec<u32>> = BTreeMap::new();
    m.keys().all(|(i, o)| *by.entry(i).or_insert(o) == o)
}

fn show(f: &RefFst) -> String {
    format!("{:?}", f)
}

fn t(f: &RefFst) -> Tv {
    vector::<T>(f)
}

fn r1(f: &Tv) -> Vec<RefFst> {
    vec![to_ref::<T, _>(f)]
}

/// A random acceptor that determinization terminates on.
fn determinizable() -> (RefFst, usize) {
    if chance(1, 3) {
        let mut c = cfg(true, Cyc::Both, 0);
        c.arcs += 2;
        let mut f = gen::fst(&c);
        unweighted(&mut f);
        (f, 5)
    } else {
        let mut c = cfg(true, Cyc::No, 1);
        c.arcs += 4;
        (gen::fst(&c), 9)
    }
}

pub fn job() -> Option<Job> {
    let trop = Ring::Trop;
    match draw(17) {
        0 | 1 => {
            let (a, k) = determinizable();
            let m = lang(&a, trop, k)?;
            let v = t(&a);
            Some(Job {
                name: "determinize acceptor".into(),
                input: show(&a),
                size: a.num_arcs(),
                run: Box::new(move || Ok(r1(&e(determinize::determinize(&v))?))),
                judge: both(same(m, trop, k), deterministic),
            })
        }
        2 => {
            let mut c = cfg(false, Cyc::No, 1);
            c.olabels = 1 + draw(2);
            let mut a = gen::fst(&c);
            // dead branches may be ambiguous
            a.trim();
            let k = 9;
            let m = lang(&a, trop, k)?;
            let v = t(&a);
            let f = functional(&m);
            let ty = if f && chance(2, 3) { DeterminizeType::DeterminizeFunctional } else { DeterminizeType::DeterminizeNonFunctional };
            Some(Job {
                name: format!("determinize transducer {:?}", ty),
                input: show(&a),
                size: a.num_arcs(),
                run: Box::new(move || {
                    let c = DeterminizeConfig::default().with_det_type(ty);
                    Ok(r1(&e(determinize_with_config::<_, Tv, Tv>(&v, c))?))
                }),
                judge: same(m, trop, k),
            })
        }
        3 | 4 => {
            let (a, k) = determinizable();
            let m = lang(&a, trop, k)?;
            let v = t(&a);
            let nd = chance(1, 3);
            Some(Job {
                name: format!("minimize acceptor (non-deterministic: {})", nd),
                input: show(&a),
                size: a.num_arcs(),
                run: Box::new(move || {
                    let mut d = v.clone();
                    let mut c = MinimizeConfig::default();
                    if nd {
                        c = c.with_allow_nondet(true);
                    } else {
                        d = e(determinize::determinize(&v))?;
                    }
                    e(minimize_with_config(&mut d, c))?;
                    Ok(r1(&d))
                }),
                judge: same(m, trop, k),
            })
        }
        5 => {
            // deterministic transducers
            let c = cfg(false, if chance(1, 3) { Cyc::In } else { Cyc::No }, 2);
            let mut a = gen::fst(&c);
            for s in &mut a.states {
                let mut seen = BTreeSet::new();
                s.arcs.retain(|x| x.il != 0 && seen.insert(x.il));
            }
            let k = 5;
            let m = lang(&a, trop, k)?;
            let v = t(&a);
            Some(Job {
                name: "minimize transducer".into(),
                input: show(&a),
                size: a.num_arcs(),
                run: Box::new(move || {
                    let mut d = v.clone();
                    e(minimize(&mut d))?;
                    Ok(r1(&d))
                }),
                judge: same(m, trop, k),
            })
        }
        6 => {
            let a = gen::fst(&Cfg { eps: 4, ..cfg(chance(1, 2), if chance(1, 2) { Cyc::Both } else { Cyc::No }, 4) });
            let k = 4;
            let m = lang(&a, trop, k)?;
            let v = t(&a);
            Some(Job {
                name: "remove epsilons".into(),
                input: show(&a),
                size: a.num_arcs(),
                run: Box::new(move || {
                    let mut d = v.clone();
                    e(rm_epsilon(&mut d))?;
                    Ok(r1(&d))
                }),
                judge: both(same(m, trop, k), |f| {
                    let bad = f.states.iter().flat_map(|s| &s.arcs).any(|a| a.il == 0 && a.ol == 0);
                    if bad {
                        Err("an epsilon transition is left".into())
                    } else {
                        Ok(())
                    }
                }),
            })
        }
        7 | 8 => {
            let a = gen::fst(&cfg(false, Cyc::Both, 2));
            let v = t(&a);
            let ty = simrt::pick(&[0, 1, 2]);
            let mk = move || match ty {
                0 => EncodeType::EncodeWeights,
                1 => EncodeType::EncodeLabels,
                _ => EncodeType::EncodeWeightsAndLabels,
            };
            let k = 4;
            let m = lang(&a, trop, k)?;
            Some(Job {
                name: format!("encode and decode, type {}", ty),
                input: show(&a),
                size: a.num_arcs(),
                run: Box::new(move || {
                    let mut d = v.clone();
                    let table = e(encode(&mut d, mk()))?;
                    let enc = to_ref::<T, _>(&d);
                    e(decode(&mut d, table))?;
                    Ok(vec![to_ref::<T, _>(&d), enc])
                }),
                judge: same(m, trop, k),
            })
        }
        9 => {
            let mut c = ops::case(false)?;
            let mut n = 0;
            while c.string {
                c = ops::case(false)?;
                n += 1;
                if n > 3 {
                    return None;
                }
            }
            let (expect, ring, k) = (std::mem::take(&mut c.expect), c.ring, c.k);
            let mk = c.make;
            Some(Job {
                name: c.name,
                input: c.input,
                size: 3,
                run: Box::new(move || {
                    let v = mk()?;
                    Ok(vec![v.compute()?])
                }),
                judge: same(expect, ring, k),
            })
        }
        10 => {
            let a = gen::fst(&cfg(false, Cyc::Both, 2));
            let v = t(&a);
            let n = range(1, 3) as u32;
            // a permutation or merge of labels
            let pairs = |n: u32| -> Vec<(u32, u32)> { (1..=n).filter(|_| chance(2, 3)).map(|l| (l, 1 + draw(4) as u32)).collect::<Vec<_>>() };
            let (ip, op) = (pairs(n), pairs(n));
            let mut b = a.clone();
            for s in &mut b.states {
                for x in &mut s.arcs {
                    if let Some(p) = ip.iter().find(|p| p.0 == x.il) {
                        x.il = p.1;
                    }
                    if let Some(p) = op.iter().find(|p| p.0 == x.ol) {
                        x.ol = p.1;
                    }
                }
            }
            Some(Job {
                name: "relabel".into(),
                input: show(&a),
                size: a.num_arcs(),
                run: Box::new(move || {
                    let mut d = v.clone();
                    e(relabel_pairs(&mut d, ip.clone(), op.clone()))?;
                    Ok(r1(&d))
                }),
                judge: Box::new(move |f| {
                    if f[0] == b {
                        Ok(())
                    } else {
                        Err(format!("expected {:?}", b))
                    }
                }),
            })
        }
        11 => {
            let which = draw(3);
            let c = cfg(false, if which < 2 { Cyc::Both } else { Cyc::No }, 1);
            let mut a = gen::fst(&c);
            let b = gen::fst(&c);
            let k = 4;
            let plus = chance(1, 2);
            if which == 2 {
                a.drop_empty();
            }
            let ma = lang(&a, trop, k)?;
            let mb = lang(&b, trop, k)?;
            if which == 2 && ma.contains_key(&(vec![], vec![])) {
                return None;
            }
            let m = match which {
                0 => models::union(&ma, &mb, trop),
                1 => models::concat(&ma, &mb, trop, k, k),
                _ => models::closure(&ma, trop, plus, k, k),
            };
            let (va, vb) = (t(&a), t(&b));
            Some(Job {
                name: ["union", "concatenation", "closure"][which as usize].into(),
                input: format!("{:?} with {:?}", a, b),
                size: a.num_arcs() + b.num_arcs(),
                run: Box::new(move || {
                    let mut d = va.clone();
                    match which {
                        0 => e(union(&mut d, &vb))?,
                        1 => e(concat(&mut d, &vb))?,
                        _ => closure(&mut d, if plus { ClosureType::ClosurePlus } else { ClosureType::ClosureStar }),
                    }
                    Ok(r1(&d))
                }),
                judge: same(m, trop, k),
            })
        }
        12 => {
            let a = gen::fst(&cfg(chance(1, 2), if chance(1, 3) { Cyc::Both } else { Cyc::No }, 1));
            let n = range(1, 4) as usize;
            let k = 7;
            let m = lang(&a, trop, k)?;
            let v = t(&a);
            Some(Job {
                name: format!("{} shortest paths", n),
                input: show(&a),
                size: a.num_arcs(),
                run: Box::new(move || {
                    let c = ShortestPathConfig::default().with_nshortest(n);
                    Ok(r1(&e(shortest_path_with_config::<_, _, Tv>(&v, c))?))
                }),
                judge: Box::new(move |f| {
                    let Some(r) = f[0].lang(trop, 40, 40, 50 * CAP).finite() else { return Ok(()) };
                    if r.len() > n {
                        return Err(format!("{} different paths", r.len()));
                    }
                    let (best, got) = (m.values().min(), r.values().min());
                    // the best path within the bound is the best of all: weights are not negative,
                    // but a longer path may tie or win
                    if let Some(b) = best {
                        match got {
                            Some(g) if g <= b => {}
                            g => return Err(format!("best weight {:?}, there is a path with {}", g, b)),
                        }
                    }
                    for (p, w) in &r {
                        if p.0.len() <= k && p.1.len() <= k && m.get(p) != Some(w) {
                            // not unique: a second path for the same labels may be heavier
                            match m.get(p) {
                                Some(x) if n > 1 && x < w => {}
                                x => return Err(format!("{:?} has weight {} instead of {:?}", p, w, x)),
                            }
                        }
                    }
                    Ok(())
                }),
            })
        }
        13 | 14 => {
            let acc = chance(1, 2);
            let known = chance(2, 3);
            let (a, k) = if chance(1, 3) {
                // weighted cycles
                (gen::fst(&cfg(acc, Cyc::Both, 1)), 4)
            } else if acc {
                let (mut a, k) = determinizable();
                if chance(1, 2) && k == 9 {
                    // some epsilons
                    for s in &mut a.states {
                        for x in &mut s.arcs {
                            if chance(1, 5) {
                                x.il = 0;
                                x.ol = 0;
                            }
                        }
                    }
                }
                (a, k)
            } else {
                (gen::fst(&cfg(false, Cyc::No, 1)), 9)
            };
            let m = lang(&a, trop, k)?;
            let v = t(&a);
            Some(Job {
                name: format!("optimize (acceptor: {})", acc),
                input: show(&a),
                size: a.num_arcs(),
                run: Box::new(move || {
                    let mut d = v.clone();
                    if known {
                        e(d.compute_and_update_properties_all())?;
                    }
                    e(optimize(&mut d))?;
                    Ok(r1(&d))
                }),
                judge: same(m, trop, k),
            })
        }
        15 => {
            // replace: a root with calls of two others
            let a0 = gen::fst(&cfg(false, Cyc::No, 1));
            let a1 = gen::fst(&cfg(false, Cyc::No, 1));
            let a2 = gen::fst(&cfg(false, Cyc::No, 1));
            let mut fs = [a0, a1, a2];
            for i in 0..2 {
                for s in &mut fs[i].states {
                    for x in &mut s.arcs {
                        if chance(1, 4) {
                            // nonterminals 101.. ; no recursion
                            x.ol = 101 + i as u32 + draw(2 - i as u64) as u32;
                            x.il = x.ol;
                        }
                    }
                }
            }
            // root 100, then 101, 102
            let inl = ops::inline(&fs, 0, false);
            let k = 6;
            let m = inl.lang(trop, k, k, CAP).finite()?;
            let l: Vec<(u32, Tv)> = fs.iter().enumerate().map(|(i, f)| (100 + i as u32, t(f))).collect();
            Some(Job {
                name: "replace".into(),
                input: format!("{:?}", fs),
                size: fs[0].num_arcs(),
                run: Box::new(move || Ok(r1(&e(replace::<_, Tv, Tv, _>(l.clone(), 100, true))?))),
                judge: same(m, trop, k),
            })
        }
        _ => {
            let a = gen::fst(&cfg(true, Cyc::No, 3));
            let k = 9;
            let m = lang(&a, trop, k)?;
            let v = t(&a);
            let w = draw(4);
            Some(Job {
                name: ["remove final epsilons", "unique transitions", "summed transitions", "push to initial"][w as usize].into(),
                input: show(&a),
                size: a.num_arcs(),
                run: Box::new(move || {
                    let mut d = v.clone();
                    match w {
                        0 => e(rm_final_epsilon(&mut d))?,
                        1 => tr_unique(&mut d),
                        2 => tr_sum(&mut d),
                        _ => e(push_weights(&mut d, ReweightType::ReweightToInitial))?,
                    }
                    Ok(r1(&d))
                }),
                judge: same(m, trop, k),
            })
        }
    }
}

pub fn body() -> Result<(), Violation> {
    let Some(j) = job() else { return discard() };
    let n = 3;
    let mut res: Vec<Option<Result<Vec<RefFst>, String>>> = vec![None; n];
    // each thread draws hash keys of its own, like a process does
    for r in res.iter_mut() {
        simrt::set_entropy(simrt::entropy().wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add(draw(1 << 30)));
        simrt::probe("fault:hash_keys");
        let run = &j.run;
        let body: Body = Box::new(move || *r = Some(run()));
        util::threads(1 << 20, vec![body])?;
    }
    let res: Vec<_> = res.into_iter().map(|r| r.unwrap()).collect();
    quietly(|| judge(&j, &res))
}

fn judge(j: &Job, res: &[Result<Vec<RefFst>, String>]) -> Result<(), Violation> {
    for r in res {
        match (r, &res[0]) {
            (Ok(a), Ok(b)) => {
                for (x, y) in a.iter().zip(b) {
                    if x.shape() != y.shape() {
                        return bad(
                            "differs",
                            format!("{}: {} states and {} transitions with some hash keys, {} and {} with others\n{:?}\n{:?}\ninput {}", j.name, y.size().0, y.size().1, x.size().0, x.size().1, y, x, j.input),
                        );
                    }
                }
            }
            (Err(a), Err(_)) => return bad("error", format!("{}: {}\ninput {}", j.name, a, j.input)),
            (a, b) => return bad("differs", format!("{}: {:?} with some hash keys, {:?} with others\ninput {}", j.name, b.as_ref().err(), a.as_ref().err(), j.input)),
        }
    }
    for r in res.iter().flatten() {
        if let Err(x) = (j.judge)(r) {
            return bad("language", format!("{}: {}\nresult {:?}\ninput {}", j.name, x, r[0], j.input));
        }
    }
    simrt::probe(&j.name);
    if j.size >= 3 && res[0].as_ref().is_ok_and(|r| r[0].size().0 > 0) {
        simrt::nontrivial();
    }
    simrt::sample(format!("{}: {} ({} processes)", j.name, j.input.chars().take(120).collect::<String>(), res.len()));
    Ok(())
}
