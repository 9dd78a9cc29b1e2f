//! C14: any mix of operations on shared lazy FSTs, caches and tables completes.
use crate::c01::{program, Log};
use crate::c04::{Collide, Tuple};
use crate::gen::{self, Cfg, Cyc, Wt};
use crate::util;
use crate::view::{vref, V};
use models::Ring;
use rustfst::algorithms::compose::compose_filters::SequenceComposeFilterBuilder;
use rustfst::algorithms::compose::matchers::{MatchType, Matcher, SortedMatcher};
use rustfst::algorithms::compose::{ComposeFst, ComposeFstOpOptions};
use rustfst::algorithms::lazy::*;
use rustfst::algorithms::tr_sort;
use rustfst::prelude::tr_compares::{ILabelCompare, OLabelCompare};
use rustfst::prelude::*;
use rustfst::semirings::IntegerWeight;
use simrt::rng::Rng;
use simrt::sched::{quietly, Body};
use simrt::{bad, draw, range, Violation};
use std::sync::Arc;

type I = IntegerWeight;
type F = VectorFst<I>;
type SM = SortedMatcher<I, F, Arc<F>>;
type BB = SequenceComposeFilterBuilder<I, F, F, Arc<F>, Arc<F>, SM, SM>;
type Lazy<C> = ComposeFst<I, F, F, Arc<F>, Arc<F>, SM, SM, BB, Arc<C>>;

trait Kind: FstCache<I> + SerializableCache + Default + Clone + PartialEq + Send + Sync + 'static {
    fn wipe(&self);
}
impl Kind for SimpleVecCache<I> {
    fn wipe(&self) {
        self.clear()
    }
}
impl Kind for SimpleHashMapCache<I> {
    fn wipe(&self) {
        self.clear()
    }
}

struct World<C: Kind> {
    caches: [Arc<C>; 2],
    tables: [StateTable<Collide>; 2],
    lazy: [V<I, Lazy<C>>; 2],
}

fn lazy<C: Kind>(a: &Arc<F>, b: &Arc<F>, c: &Arc<C>) -> anyhow::Result<Lazy<C>> {
    let m1 = SortedMatcher::new(a.clone(), MatchType::MatchOutput)?;
    let m2 = SortedMatcher::new(b.clone(), MatchType::MatchInput)?;
    ComposeFst::new_with_options_and_cache(a.clone(), b.clone(), ComposeFstOpOptions::new(Some(m1), Some(m2), None, None), c.clone())
}

fn act<C: Kind>(w: &World<C>, seed: u64, ops: u64, me: u64) {
    let mut r = Rng::new(seed);
    for _ in 0..ops {
        let (x, y) = (r.below(2) as usize, r.below(2) as usize);
        match r.below(20) {
            0..=2 => {
                std::hint::black_box(*w.caches[x] == *w.caches[y]);
            }
            3..=5 => {
                std::hint::black_box(w.tables[x] == w.tables[y]);
            }
            6 => w.caches[x].wipe(),
            7 => {
                std::hint::black_box(C::clone(&w.caches[x]));
            }
            8 => {
                std::hint::black_box(w.tables[x].clone());
            }
            9 => {
                std::hint::black_box(format!("{:?}", w.caches[x]));
            }
            10 => {
                std::hint::black_box(format!("{:?}", w.tables[x]));
            }
            11 => {
                std::hint::black_box(format!("{:?}", w.lazy[x].f));
            }
            12 => {
                let p = quietly(|| format!("/simfs/{}-{}", me, x));
                let q = quietly(|| format!("/simfs/{}-{}s", me, x));
                w.lazy[x].f.write(&p, &q).unwrap();
            }
            13 => {
                w.tables[x].find_id(Collide::of(r.below(5)));
            }
            14 => {
                std::hint::black_box(w.caches[x].num_known_states() + w.caches[x].compute_num_known_trs());
            }
            15 => {
                std::hint::black_box(w.lazy[x].f.clone());
            }
            _ => {
                let mut l = Log { cleared: true, ..Default::default() };
                program(&w.lazy[x], r.next(), 6, &mut l);
            }
        }
    }
}

fn go<C: Kind>() -> Result<(), Violation> {
    util::wakeups();
    let c = Cfg { states: 4, arcs: 7, ilabels: 2, olabels: 2, eps: 2, cyc: Cyc::No, ring: Ring::Count, acceptor: false };
    let mk = |out: bool| {
        let mut v = gen::vector::<I>(&gen::fst(&c));
        if out {
            tr_sort(&mut v, OLabelCompare {});
        } else {
            tr_sort(&mut v, ILabelCompare {});
        }
        Arc::new(v)
    };
    let (a, b) = (mk(true), mk(false));
    let caches: [Arc<C>; 2] = Default::default();
    let l = [lazy(&a, &b, &caches[0]), lazy(&a, &b, &caches[1])].map(|f| f.map(|f| V::<I, _>::new(f, |f: &Lazy<C>| Ok(vref::<I>(f.compute()?)), None)));
    let [Ok(l0), Ok(l1)] = l else { return bad("construction", "composition failed") };
    let w = World { caches, tables: Default::default(), lazy: [l0, l1] };
    // something to compare
    for t in &w.tables {
        for k in 0..draw(4) {
            t.find_id(Collide::of(k));
        }
    }
    let n = range(2, 4);
    let ops = range(1, 8);
    let seeds: Vec<u64> = (0..n).map(|_| draw(1 << 20)).collect();
    let wr = &w;
    let bodies: Vec<Body> = seeds.iter().enumerate().map(|(i, s)| { let s = *s; Box::new(move || act(wr, s, ops, i as u64)) as Body }).collect();
    util::threads(400 * ops * n, bodies)?;
    for i in 0..2 {
        if *w.caches[i] != *w.caches[i] || w.tables[i] != w.tables[i] {
            return bad("comparison", "an object differs from itself");
        }
        if *w.caches[i] != C::clone(&w.caches[i]) || w.tables[i] != w.tables[i].clone() {
            return bad("comparison", "an object differs from its copy");
        }
    }
    if n * ops >= 4 {
        simrt::nontrivial();
    }
    simrt::sample(format!("{} threads with {} operations each", n, ops));
    Ok(())
}

pub fn body() -> Result<(), Violation> {
    if draw(2) == 0 {
        go::<SimpleVecCache<I>>()
    } else {
        go::<SimpleHashMapCache<I>>()
    }
}
