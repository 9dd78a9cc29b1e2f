//! C10: seeded random generation is reproducible and yields paths of the input.
use crate::gen::{self, vector, Cfg, Cyc};
use crate::util;
use models::{RefFst, Ring};
use rustfst::algorithms::closure::{ClosureFst, ClosureType};
use rustfst::algorithms::randgen::{randgen, randgen_with_config, RandGenConfig, UniformTrSelector};
use rustfst::algorithms::union::UnionFst;
use rustfst::fst_impls::ConstFst;
use rustfst::prelude::*;
use simrt::sched::{quietly, Body};
use simrt::{bad, chance, draw, pick, range, Violation};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

type T = TropicalWeight;
type Tv = VectorFst<T>;
type Path = Vec<(u32, u32)>;

/// Exact contents, weights by their bits.
#[derive(Clone, PartialEq, Debug)]
struct Out {
    start: Option<u32>,
    finals: Vec<Option<u32>>,
    arcs: Vec<Vec<(u32, u32, u32, u32)>>,
}

fn out(f: &Tv) -> Out {
    let n = f.num_states() as u32;
    Out {
        start: f.start(),
        finals: (0..n).map(|s| f.final_weight(s).unwrap().map(|w| w.value().to_bits())).collect(),
        arcs: (0..n)
            .map(|s| f.get_trs(s).unwrap().trs().iter().map(|t| (t.ilabel, t.olabel, t.weight.value().to_bits(), t.nextstate)).collect())
            .collect(),
    }
}

impl Out {
    /// Renumbered depth first, so that two results compare up to numbering (of a tree).
    fn paths(&self, cap: usize) -> Result<Vec<(Path, f64)>, String> {
        let mut res = vec![];
        let Some(s) = self.start else { return Ok(res) };
        let mut stack: Vec<(u32, Path, f64)> = vec![(s, vec![], 0.0)];
        while let Some((s, p, w)) = stack.pop() {
            if p.len() > self.arcs.len() {
                return Err("the result has a cycle".into());
            }
            if let Some(f) = self.finals[s as usize] {
                res.push((p.clone(), w + f32::from_bits(f) as f64));
            }
            for &(i, o, w2, n) in &self.arcs[s as usize] {
                let mut q = p.clone();
                q.push((i, o));
                stack.push((n, q, w + f32::from_bits(w2) as f64));
            }
            if res.len() > cap {
                return Err(format!("more than {} paths", cap));
            }
        }
        res.sort_by(|a, b| a.partial_cmp(b).unwrap());
        Ok(res)
    }
}

/// Is there a path of the input with exactly these transitions' labels?
fn accepts(f: &RefFst, p: &Path) -> bool {
    let mut cur: BTreeSet<usize> = f.start.into_iter().collect();
    for &(i, o) in p {
        cur = cur.iter().flat_map(|&s| f.states[s].arcs.iter().filter(|a| a.il == i && a.ol == o).map(|a| a.next)).collect();
    }
    cur.iter().any(|&s| f.states[s].fin.is_some())
}

#[derive(Clone, Copy, Debug)]
struct Conf {
    seed: u64,
    max_length: Option<usize>,
    npath: usize,
    weighted: bool,
    remove_total: bool,
}

fn run<F: Fst<T>>(f: &F, c: Conf, sel: Option<UniformTrSelector>) -> Result<Tv, String> {
    let sel = sel.unwrap_or_else(|| UniformTrSelector::from_seed(c.seed));
    let mut k = RandGenConfig::new(sel).with_npath(c.npath).with_weighted(c.weighted).with_remove_total_weight(c.remove_total);
    if let Some(l) = c.max_length {
        k = k.with_max_length(l);
    }
    randgen_with_config(f, k).map_err(|e| format!("{:#}", e))
}

type Lazy = ClosureFst<T, Tv>;
type LazyU = UnionFst<T, Tv>;
enum Input {
    Vector(Tv),
    Const(ConstFst<T>),
    Union(LazyU),
    Closure(Lazy),
}

impl Input {
    fn run(&self, c: Conf, sel: Option<UniformTrSelector>) -> Result<Tv, String> {
        match self {
            Input::Vector(f) => run(f, c, sel),
            Input::Const(f) => run(f, c, sel),
            Input::Union(f) => run(f, c, sel),
            Input::Closure(f) => run(f, c, sel),
        }
    }
    fn unseeded(&self) -> Result<Tv, String> {
        match self {
            Input::Vector(f) => randgen(f),
            Input::Const(f) => randgen(f),
            Input::Union(f) => randgen(f),
            Input::Closure(f) => randgen(f),
        }
        .map_err(|e| format!("{:#}", e))
    }
}

pub fn body() -> Result<(), Violation> {
    // choices available at the start, when the distribution is looked at
    let mut star = 0usize;
    let mut f = if chance(1, 12) {
        star = range(2, 4) as usize;
        let mut f = RefFst::default();
        f.add();
        f.start = Some(0);
        for i in 0..star {
            let mut s = 0;
            for j in 0..range(1, 2) {
                let n = f.add();
                f.arc(s, 1 + 10 * j as u32 + i as u32, 1 + i as u32, gen::weight(Ring::Trop), n);
                s = n;
            }
            f.states[s].fin = Some(gen::weight(Ring::Trop));
        }
        if chance(1, 2) {
            f.states[0].fin = Some(gen::weight(Ring::Trop));
        }
        f
    } else {
        gen::fst(&Cfg {
            states: range(2, 8),
            arcs: range(3, 14),
            ilabels: range(1, 4),
            olabels: range(1, 3),
            eps: 2,
            cyc: pick(&[Cyc::No, Cyc::Both]),
            ring: Ring::Trop,
            acceptor: chance(1, 3),
        })
    };
    let trim = chance(3, 4);
    if trim {
        f.trim();
    }
    let mut c = Conf {
        seed: pick(&[0, 1, 2022, u64::MAX, draw(1 << 40), draw(1000)]),
        max_length: None,
        npath: pick(&[1, 1, 2, 3, 5, 10, 30]),
        weighted: chance(1, 2),
        remove_total: chance(1, 2),
    };
    if star > 0 {
        c.npath = 100 * (star + 1);
    } else if !trim || chance(1, 3) {
        c.max_length = Some(pick(&[0, 1, 2, 3, 4, 6, 10]));
    }
    let kind = draw(6);
    let (model, input) = quietly(|| {
        let v = vector::<T>(&f);
        match kind {
            3 => (f.clone(), Input::Const(v.into())),
            4 if star == 0 => {
                let u = UnionFst::new(v.clone(), v).unwrap();
                let m: Tv = u.compute().unwrap();
                (gen::to_ref::<T, _>(&m), Input::Union(u))
            }
            5 if star == 0 => {
                let l = ClosureFst::new(v, ClosureType::ClosureStar).unwrap();
                let m: Tv = l.compute().unwrap();
                (gen::to_ref::<T, _>(&m), Input::Closure(l))
            }
            _ => (f.clone(), Input::Vector(v)),
        }
    });
    let input = match input {
        // not explored yet
        Input::Union(_) => {
            let v = vector::<T>(&f);
            Input::Union(UnionFst::new(v.clone(), v).unwrap())
        }
        Input::Closure(_) => {
            let v = vector::<T>(&f);
            Input::Closure(ClosureFst::new(v, ClosureType::ClosureStar).unwrap())
        }
        x => x,
    };
    let input = Arc::new(input);
    // several processes, with entropy of their own; in each, one or more threads
    type R = Result<Tv, String>;
    let procs = range(2, 3) as usize;
    let mut res: Vec<Vec<Vec<(bool, R)>>> = vec![];
    for _ in 0..procs {
        simrt::set_entropy(simrt::entropy().wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add(draw(1 << 30)));
        simrt::probe("fault:entropy");
        let n = if star > 0 { 1 } else { range(1, 3) as usize };
        let mut outs: Vec<Vec<(bool, R)>> = vec![vec![]; n];
        let mut bodies: Vec<Body> = vec![];
        for o in outs.iter_mut() {
            let input = Arc::clone(&input);
            let plan: Vec<u64> = (0..if star > 0 { 1 } else { range(1, 2) }).map(|_| draw(5)).collect();
            bodies.push(Box::new(move || {
                for k in plan {
                    match k {
                        0 if c.max_length.is_none() => {
                            let r = input.unseeded();
                            quietly(|| o.push((false, r)));
                        }
                        1 => {
                            // a clone of a selector goes on like the selector itself
                            let s = UniformTrSelector::from_seed(c.seed);
                            let s2 = s.clone();
                            let a = input.run(c, Some(s));
                            let b = input.run(c, Some(s2));
                            quietly(|| {
                                o.push((true, a));
                                o.push((true, b));
                            });
                        }
                        _ => {
                            let r = input.run(c, None);
                            quietly(|| o.push((true, r)));
                        }
                    }
                }
            }));
        }
        util::threads(400_000, bodies)?;
        res.push(outs);
    }
    quietly(|| judge(&model, trim, star, c, &res))
}

type Res = Vec<Vec<Vec<(bool, Result<Tv, String>)>>>;

fn judge(f: &RefFst, trim: bool, star: usize, c: Conf, res: &Res) -> Result<(), Violation> {
    let show = || format!("{:?} input {:?}", c, f);
    let mut first: Option<Out> = None;
    let mut n = 0;
    let co = f.coaccessible();
    let live = f.start.is_some_and(|s| co[s]) && f.reachable().iter().all(|&s| co[s]);
    for r in res.iter().flatten().flatten() {
        let (seeded, r) = r;
        n += 1;
        let r = match r {
            Ok(r) => out(r),
            Err(e) => return bad("error", format!("{} {}", e, show())),
        };
        let npath = if *seeded { c.npath } else { 1 };
        let ps = match r.paths(if *seeded { c.npath } else { 1 }) {
            Ok(p) => p,
            Err(e) => return bad("count", format!("{} {}", e, show())),
        };
        let weighted = *seeded && c.weighted;
        let mut total = 0.0;
        for (p, w) in &ps {
            if !accepts(f, p) {
                return bad("not-a-path", format!("{:?} {}", p, show()));
            }
            if *seeded && c.max_length.is_some_and(|l| p.len() > l) {
                return bad("too-long", format!("{:?} {}", p, show()));
            }
            if weighted {
                let k = (-w).exp() * if c.remove_total { c.npath as f64 } else { 1.0 };
                if (k - k.round()).abs() > 0.01 * k.max(1.0) || k < 0.5 {
                    return bad("weight", format!("{:?} has weight {}: not a number of samples, {}", p, w, show()));
                }
                total += k;
            } else {
                if *w != 0.0 {
                    return bad("weight", format!("{:?} has weight {} in an unweighted result, {}", p, w, show()));
                }
                total += 1.0;
            }
        }
        if total > npath as f64 + 0.01 * npath as f64 {
            return bad("count", format!("paths for {} samples, {} asked for {}", total, npath, show()));
        }
        let limited = *seeded && c.max_length.is_some();
        let merged = !weighted && f.start.is_some_and(|s| f.states[s].fin.is_some());
        if trim && live && !limited && !merged && total < 0.98 * npath as f64 {
            return bad("count", format!("paths for {} samples, {} asked for {}", total, npath, show()));
        }
        if star > 0 && *seeded {
            // how often each choice at the start was taken
            let s = f.start.unwrap();
            let mut by: BTreeMap<u32, f64> = f.states[s].arcs.iter().map(|a| (a.ol, 0.0)).collect();
            let mut empty = 0.0;
            for (p, w) in &ps {
                let k = if weighted { (-w).exp() * if c.remove_total { c.npath as f64 } else { 1.0 } } else { 1.0 };
                match p.first() {
                    Some((_, o)) => *by.get_mut(o).unwrap() += k,
                    None => empty += k,
                }
            }
            if f.states[s].fin.is_some() {
                if !weighted {
                    empty = c.npath as f64 - by.values().sum::<f64>();
                }
                by.insert(0, empty);
            }
            let mean = c.npath as f64 / by.len() as f64;
            let sd = (mean * (1.0 - 1.0 / by.len() as f64)).sqrt();
            if by.values().any(|k| (k - mean).abs() > 7.5 * sd + 2.0) {
                return bad("biased", format!("choices taken {:?} times, {}", by, show()));
            }
            simrt::probe("distribution");
        }
        if *seeded {
            match &first {
                None => first = Some(r),
                Some(g) => {
                    if *g != r && g.paths(c.npath).ok() != Some(ps) {
                        return bad("differs", format!("the same seed gave {:?} and {:?}, {}", g, r, show()));
                    }
                }
            }
        }
    }
    if f.num_arcs() >= 3 && n >= 2 && first.is_some_and(|f| f.start.is_some()) {
        simrt::nontrivial();
    }
    simrt::probe(if c.weighted { "weighted" } else { "unweighted" });
    simrt::sample(format!("{:?}, {} results in {} processes", c, n, res.len()));
    Ok(())
}
