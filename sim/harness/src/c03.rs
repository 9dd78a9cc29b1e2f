//! C03: every cache is one atomic map per kind of entry.
use crate::gen::Wt;
use crate::util;
use models::lin::{linearizable, Op};
use rustfst::algorithms::lazy::*;
use rustfst::prelude::*;
use rustfst::semirings::IntegerWeight;
use simrt::rng::Rng;
use simrt::sched::{quietly, stamp, Body};
use simrt::{bad, draw, range, Violation};
use std::collections::BTreeMap;
use std::sync::Arc;

type I = IntegerWeight;
type Dyn = dyn FstCache<I> + Send + Sync;

/// One cache and what its owner can do with it besides the trait.
pub struct Cache {
    pub c: Arc<Dyn>,
    pub clear: Option<Box<dyn Fn() + Send + Sync>>,
    pub clone: Option<Box<dyn Fn() -> Box<Dyn> + Send + Sync>>,
    /// the size of a table is its highest slot, not its number of entries
    pub slots: bool,
    pub name: &'static str,
}

pub fn cache(k: u64) -> Cache {
    match k {
        0 => {
            let c = Arc::new(SimpleVecCache::<I>::default());
            let (a, b) = (c.clone(), c.clone());
            Cache {
                c,
                clear: Some(Box::new(move || a.clear())),
                clone: Some(Box::new(move || Box::new(SimpleVecCache::clone(&b)))),
                slots: true,
                name: "vector cache",
            }
        }
        1 => {
            let c = Arc::new(SimpleHashMapCache::<I>::default());
            let (a, b) = (c.clone(), c.clone());
            Cache {
                c,
                clear: Some(Box::new(move || a.clear())),
                clone: Some(Box::new(move || Box::new(SimpleHashMapCache::clone(&b)))),
                slots: false,
                name: "hash map cache",
            }
        }
        2 => Cache {
            c: Arc::new(FirstCache::<I, SimpleVecCache<I>>::default()),
            clear: None,
            clone: None,
            slots: true,
            name: "last-entry cache over a vector cache",
        },
        3 => Cache {
            c: Arc::new(FirstCache::<I, SimpleHashMapCache<I>>::default()),
            clear: None,
            clone: None,
            slots: false,
            name: "last-entry cache over a hash map cache",
        },
        4 => Cache {
            c: Arc::new(FirstCache::<I, FirstCache<I, SimpleVecCache<I>>>::default()),
            clear: None,
            clone: None,
            slots: true,
            name: "two last-entry caches over a vector cache",
        },
        _ => {
            // a shared handle to a cache is a cache too
            let c: Arc<Arc<SimpleHashMapCache<I>>> = Arc::new(Arc::default());
            let a = c.clone();
            Cache { c, clear: Some(Box::new(move || a.clear())), clone: None, slots: false, name: "handle to a hash map cache" }
        }
    }
}

type Val = (usize, usize, usize, usize); // tag, transitions, input epsilons, output epsilons

#[derive(Clone, Debug)]
enum T {
    Put(u32, Val),
    Get(u32, Option<usize>),
    Num(u32, u8, Option<usize>),
    Len(usize),
    Sum(usize),
    Clear,
    Snap(BTreeMap<u32, usize>),
}
#[derive(Clone, Debug)]
enum F {
    Put(u32, Option<i64>),
    Get(u32, Option<Option<i64>>),
    Len(usize),
    Clear,
    Snap(BTreeMap<u32, Option<i64>>),
}
#[derive(Clone, Debug)]
enum S {
    Put(Option<u32>),
    Get(Option<Option<u32>>),
    Clear,
    Snap(Option<Option<u32>>),
}

#[derive(Default)]
struct Log {
    t: Vec<Op<T>>,
    f: Vec<Op<F>>,
    s: Vec<Op<S>>,
    /// num_known_states: (inv, res, answer)
    known: Vec<(u64, u64, usize)>,
    /// what made states known: (inv, res, bound)
    puts: Vec<(u64, u64, usize)>,
    clears: Vec<(u64, u64)>,
    wrong: Option<String>,
}

fn make(tag: usize, r: &mut Rng, ids: u64) -> (TrsVec<I>, Val, usize) {
    let n = r.below(4) as usize + usize::from(r.below(4) > 0);
    let mut v = vec![];
    let (mut ie, mut oe, mut hi) = (0, 0, 0);
    for _ in 0..n {
        let il = r.below(2) as u32;
        let ol = r.below(2) as u32;
        ie += usize::from(il == 0);
        oe += usize::from(ol == 0);
        let nx = r.below(ids) as u32;
        hi = hi.max(nx as usize + 1);
        v.push(Tr::new(il, ol, I::of(tag as i64), nx));
    }
    (TrsVec(Arc::new(v)), (tag, n, ie, oe), hi)
}

/// The tag of a list of transitions; lists without transitions have tag 0.
fn tag(t: &TrsVec<I>, made: &BTreeMap<usize, TrsVec<I>>) -> Result<usize, String> {
    let Some(x) = t.first() else { return Ok(0) };
    let g = x.weight.val() as usize;
    match made.get(&g) {
        Some(m) if m.trs() == t.trs() => Ok(g),
        m => Err(format!("a lookup returned {:?}; inserted under that tag: {:?}", t.trs(), m)),
    }
}

fn opt<X>(c: CacheStatus<X>) -> Option<X> {
    match c {
        CacheStatus::Computed(x) => Some(x),
        CacheStatus::NotComputed => None,
    }
}

struct Plan {
    seed: u64,
    ops: u64,
    ids: u64,
    base: usize,
    made: BTreeMap<usize, (TrsVec<I>, Val, usize)>,
}

fn plan(seed: u64, ops: u64, ids: u64, base: usize) -> Plan {
    let mut r = Rng::new(seed ^ 77);
    let mut made = BTreeMap::new();
    for i in 0..ops as usize {
        made.insert(base + i, make(base + i, &mut r, ids));
    }
    Plan { seed, ops, ids, base, made }
}

fn run(c: &Cache, p: &Plan, all: &BTreeMap<usize, TrsVec<I>>, l: &mut Log) {
    let mut r = Rng::new(p.seed);
    let sparse = p.seed & 1 == 1;
    for i in 0..p.ops as usize {
        let mut id = r.below(p.ids) as u32;
        if sparse {
            id *= 3;
        }
        let kind = r.below(24);
        let inv = stamp();
        macro_rules! rec {
            ($l:ident, $op:expr) => {{
                let res = stamp();
                let op = $op;
                quietly(|| l.$l.push(Op { inv, res, op }));
            }};
        }
        match kind {
            0..=5 => {
                let (t, v, hi) = quietly(|| p.made[&(p.base + i)].clone());
                c.c.insert_trs(id, t);
                let res = stamp();
                quietly(|| {
                    l.t.push(Op { inv, res, op: T::Put(id, if v.1 == 0 { (0, 0, 0, 0) } else { v }) });
                    l.puts.push((inv, res, hi));
                });
            }
            6..=10 => {
                let g = opt(c.c.get_trs(id));
                let res = stamp();
                quietly(|| match g.map(|t| tag(&t, all)).transpose() {
                    Ok(g) => l.t.push(Op { inv, res, op: T::Get(id, g) }),
                    Err(e) => l.wrong = Some(e),
                });
            }
            11 => {
                let w = r.below(3) as u8;
                let n = match w {
                    0 => c.c.num_trs(id),
                    1 => c.c.num_input_epsilons(id),
                    _ => c.c.num_output_epsilons(id),
                };
                rec!(t, T::Num(id, w, n));
            }
            12..=14 => {
                let w = if r.below(4) == 0 { None } else { Some(1000 + (p.base + i) as i64) };
                c.c.insert_final_weight(id, w.map(I::of));
                let res = stamp();
                quietly(|| {
                    l.f.push(Op { inv, res, op: F::Put(id, w) });
                    l.puts.push((inv, res, id as usize + 1));
                });
            }
            15..=17 => {
                let g = opt(c.c.get_final_weight(id)).map(|w| w.map(|w| w.val()));
                rec!(f, F::Get(id, g));
            }
            18 => {
                let v = if r.below(4) == 0 { None } else { Some(r.below(p.ids) as u32) };
                c.c.insert_start(v);
                let res = stamp();
                quietly(|| {
                    l.s.push(Op { inv, res, op: S::Put(v) });
                    l.puts.push((inv, res, v.map_or(0, |x| x as usize + 1)));
                });
            }
            19 => {
                let g = opt(c.c.get_start());
                rec!(s, S::Get(g));
            }
            20 => match r.below(3) {
                0 => {
                    let n = c.c.len_trs();
                    rec!(t, T::Len(n));
                }
                1 => {
                    let n = c.c.compute_num_known_trs();
                    rec!(t, T::Sum(n));
                }
                _ => {
                    let n = c.c.len_final_weights();
                    rec!(f, F::Len(n));
                }
            },
            21 => {
                let n = c.c.num_known_states();
                let res = stamp();
                quietly(|| l.known.push((inv, res, n)));
            }
            22 => {
                if let Some(cl) = &c.clear {
                    cl();
                    let res = stamp();
                    quietly(|| {
                        l.t.push(Op { inv, res, op: T::Clear });
                        l.f.push(Op { inv, res, op: F::Clear });
                        l.s.push(Op { inv, res, op: S::Clear });
                        l.clears.push((inv, res));
                    });
                }
            }
            _ => {
                if let Some(cl) = &c.clone {
                    let k = cl();
                    let res = stamp();
                    // the original moves on; the copy must not
                    let (mut ts, mut fs) = (BTreeMap::new(), BTreeMap::new());
                    for id in 0..(3 * p.ids) as u32 {
                        if let Some(t) = opt(k.get_trs(id)) {
                            match quietly(|| tag(&t, all)) {
                                Ok(g) => quietly(|| ts.insert(id, g)),
                                Err(e) => return l.wrong = Some(e),
                            };
                        }
                        if let Some(w) = opt(k.get_final_weight(id)) {
                            quietly(|| fs.insert(id, w.map(|w| w.val())));
                        }
                    }
                    let st = opt(k.get_start());
                    quietly(|| {
                        l.t.push(Op { inv, res, op: T::Snap(ts) });
                        l.f.push(Op { inv, res, op: F::Snap(fs) });
                        l.s.push(Op { inv, res, op: S::Snap(st) });
                    });
                }
            }
        }
    }
}

type Ts = (BTreeMap<u32, Val>, u32);
fn at(slots: bool) -> impl Fn(&Ts, &T) -> Option<Ts> {
    move |(m, top), o| {
        let keep = Some((m.clone(), *top));
        match o {
            T::Put(k, v) => {
                let mut m = m.clone();
                m.insert(*k, *v);
                Some((m, (*top).max(k + 1)))
            }
            T::Get(k, g) => (m.get(k).map(|v| v.0) == *g).then_some(())?.map_keep(keep),
            T::Num(k, w, n) => {
                let x = m.get(k).map(|v| match w {
                    0 => v.1,
                    1 => v.2,
                    _ => v.3,
                });
                (x == *n).then_some(())?.map_keep(keep)
            }
            T::Len(n) => ((if slots { *top as usize } else { m.len() }) == *n).then_some(())?.map_keep(keep),
            T::Sum(n) => (m.values().map(|v| v.1).sum::<usize>() == *n).then_some(())?.map_keep(keep),
            T::Clear => Some((BTreeMap::new(), 0)),
            T::Snap(s) => (m.iter().map(|(k, v)| (*k, v.0)).collect::<BTreeMap<_, _>>() == *s).then_some(())?.map_keep(keep),
        }
    }
}
trait MapKeep {
    fn map_keep<T>(self, t: T) -> T;
}
impl MapKeep for () {
    fn map_keep<T>(self, t: T) -> T {
        t
    }
}
type Fs = (BTreeMap<u32, Option<i64>>, u32);
fn af(slots: bool) -> impl Fn(&Fs, &F) -> Option<Fs> {
    move |(m, top), o| {
        let keep = Some((m.clone(), *top));
        match o {
            F::Put(k, v) => {
                let mut m = m.clone();
                m.insert(*k, *v);
                Some((m, (*top).max(k + 1)))
            }
            F::Get(k, g) => (m.get(k) == g.as_ref()).then_some(())?.map_keep(keep),
            F::Len(n) => ((if slots { *top as usize } else { m.len() }) == *n).then_some(())?.map_keep(keep),
            F::Clear => Some((BTreeMap::new(), 0)),
            F::Snap(s) => (m == s).then_some(())?.map_keep(keep),
        }
    }
}
fn as_(s: &Option<Option<u32>>, o: &S) -> Option<Option<Option<u32>>> {
    match o {
        S::Put(v) => Some(Some(*v)),
        S::Get(g) | S::Snap(g) => (s == g).then_some(*s),
        S::Clear => Some(None),
    }
}

fn decide<O: std::fmt::Debug>(what: &str, name: &str, ops: &[Op<O>], r: Option<bool>) -> Result<(), Violation> {
    match r {
        Some(true) => Ok(()),
        None => {
            simrt::probe("history_too_large");
            Ok(())
        }
        Some(false) => {
            let mut v: Vec<_> = ops.iter().collect();
            v.sort_by_key(|o| o.inv);
            let h: Vec<String> = v.iter().map(|o| format!("[{}..{}] {:?}", o.inv, o.res, o.op)).collect();
            bad(what, format!("{}: no order of the operations explains the answers: {}", name, h.join("; ")))
        }
    }
}

pub fn body() -> Result<(), Violation> {
    util::wakeups();
    let c = cache(draw(6));
    let n = range(2, 4);
    let ids = range(1, 4);
    let ops = if n == 2 { range(3, 14) } else { range(3, 9) };
    let plans: Vec<Plan> = (0..n).map(|i| plan(draw(1 << 20), ops, ids, 1 + 100 * i as usize)).collect();
    let all: BTreeMap<usize, TrsVec<I>> = plans.iter().flat_map(|p| p.made.iter().map(|(k, v)| (*k, v.0.clone()))).collect();
    let mut logs: Vec<Log> = (0..n).map(|_| Log::default()).collect();
    let bodies: Vec<Body> =
        logs.iter_mut().zip(&plans).map(|(l, p)| Box::new({ let (c, all) = (&c, &all); move || run(c, p, all, l) }) as Body).collect();
    util::threads(150 * ops * n, bodies)?;
    let mut m = Log::default();
    for l in logs {
        if let Some(e) = l.wrong {
            return bad("value", format!("{}: {}", c.name, e));
        }
        m.t.extend(l.t);
        m.f.extend(l.f);
        m.s.extend(l.s);
        m.known.extend(l.known);
        m.puts.extend(l.puts);
        m.clears.extend(l.clears);
    }
    // what is left at the end
    let (mut ts, mut fs) = (BTreeMap::new(), BTreeMap::new());
    for id in 0..(3 * ids) as u32 {
        if let Some(t) = opt(c.c.get_trs(id)) {
            match tag(&t, &all) {
                Ok(g) => ts.insert(id, g),
                Err(e) => return bad("value", format!("{}: {}", c.name, e)),
            };
        }
        if let Some(w) = opt(c.c.get_final_weight(id)) {
            fs.insert(id, w.map(|w| w.val()));
        }
    }
    let (inv, res) = (stamp(), stamp());
    m.t.push(Op { inv, res, op: T::Snap(ts) });
    m.t.push(Op { inv, res, op: T::Len(c.c.len_trs()) });
    m.t.push(Op { inv, res, op: T::Sum(c.c.compute_num_known_trs()) });
    m.f.push(Op { inv, res, op: F::Snap(fs) });
    m.f.push(Op { inv, res, op: F::Len(c.c.len_final_weights()) });
    m.s.push(Op { inv, res, op: S::Get(opt(c.c.get_start())) });
    m.known.push((inv, res, c.c.num_known_states()));
    decide("transitions", c.name, &m.t, linearizable((BTreeMap::new(), 0), &m.t, at(c.slots), 200_000))?;
    decide("final weights", c.name, &m.f, linearizable((BTreeMap::new(), 0), &m.f, af(c.slots), 200_000))?;
    decide("start", c.name, &m.s, linearizable(None, &m.s, as_, 200_000))?;
    for (inv, res, n) in &m.known {
        let hi = m.puts.iter().filter(|p| p.0 < *res).map(|p| p.2).max().unwrap_or(0);
        let lo = m
            .puts
            .iter()
            .filter(|p| p.1 < *inv && !m.clears.iter().any(|c| c.1 > p.0 && c.0 < *res))
            .map(|p| p.2)
            .max()
            .unwrap_or(0);
        if *n < lo || *n > hi {
            return bad("known states", format!("{}: {} states known at [{}..{}], must be {}..{}", c.name, n, inv, res, lo, hi));
        }
    }
    if m.t.iter().any(|a| m.t.iter().any(|b| a.inv < b.inv && b.inv < a.res && matches!(a.op, T::Put(..)) || matches!(b.op, T::Put(..)))) {
        simrt::nontrivial();
    }
    simrt::sample(format!("{}: {} threads, {} + {} + {} operations on transitions, finals, start", c.name, n, m.t.len(), m.f.len(), m.s.len()));
    Ok(())
}
