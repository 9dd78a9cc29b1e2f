//! Lazy FSTs over generated inputs, each with the weighted language it must have.
use crate::gen::{self, vector, Cfg, Cyc, Wt};
use crate::faulty::{fault, Faulty};
use crate::view::{vref, Shared, Unshared, V};
use models::{Map, RefFst, Ring};
use rustfst::algorithms::closure::{ClosureFst, ClosureType};
use rustfst::algorithms::compose::compose_filters::*;
use rustfst::algorithms::compose::lookahead_filters::lookahead_selector::SMatchOutput;
use rustfst::algorithms::compose::lookahead_filters::*;
use rustfst::algorithms::compose::lookahead_matchers::*;
use rustfst::algorithms::compose::matchers::{GenericMatcher, MatchType, Matcher, MatcherFlags, SortedMatcher};
use rustfst::algorithms::compose::{ComposeFst, ComposeFstOpOptions, LabelReachableData, MatcherFst};
use rustfst::algorithms::concat::ConcatFst;
use rustfst::algorithms::factor_weight::factor_iterators::StringFactorLeft;
use rustfst::algorithms::factor_weight::{FactorWeightFst, FactorWeightOptions, FactorWeightType};
use rustfst::algorithms::lazy::*;
use rustfst::algorithms::replace::ReplaceFst;
use rustfst::algorithms::rm_epsilon::RmEpsilonFst;
use rustfst::algorithms::tr_sort;
use rustfst::algorithms::union::UnionFst;
use rustfst::fst_properties::FstProperties;
use rustfst::prelude::tr_compares::{ILabelCompare, OLabelCompare};
use rustfst::prelude::*;
use rustfst::semirings::{IntegerWeight, StringWeightLeft, TropicalWeight};
use simrt::{chance, draw, range};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

impl Wt for StringWeightLeft {
    const RING: Ring = Ring::Count;
    fn of(v: i64) -> Self {
        models::str_digits(v).into()
    }
    fn val(&self) -> i64 {
        if self.is_zero() {
            return 0;
        }
        models::str_code(&self.value().unwrap_labels().iter().map(|x| *x as u32).collect::<Vec<_>>())
    }
}

pub struct Case {
    pub name: String,
    pub ring: Ring,
    pub make: Box<dyn Fn() -> Result<Shared, String> + Send + Sync>,
    pub expect: Map,
    pub k: usize,
    /// weights are strings: compare spelt-out machines
    pub string: bool,
    pub input: String,
}

pub const CAP: usize = 60_000;

/// The language of an observed machine, or why it is wrong.
pub fn check_lang(c: &Case, f: &RefFst) -> Result<Option<()>, String> {
    let l = if c.string {
        f.spell().lang(Ring::Count, c.k, 64, 20 * CAP)
    } else {
        f.lang(c.ring, c.k, c.k, 20 * CAP)
    };
    match l {
        models::Lang::TooBig => Ok(None),
        models::Lang::Infinite => Err("the automaton has a cycle that reads and writes nothing".into()),
        models::Lang::Finite(m) => {
            if m == c.expect {
                Ok(Some(()))
            } else {
                Err(format!("weighted language differs: {}", models::diff(&c.expect, &m)))
            }
        }
    }
}

/// A cache that loses entries at arbitrary times.
#[derive(Debug)]
pub struct Forgetful<W: Semiring> {
    inner: SimpleHashMapCache<W>,
    n: AtomicU64,
    seed: u64,
}
impl<W: Semiring> Forgetful<W> {
    pub fn new(seed: u64) -> Self {
        Forgetful { inner: Default::default(), n: AtomicU64::new(0), seed }
    }
    fn lost(&self) -> bool {
        let n = self.n.fetch_add(1, Ordering::SeqCst);
        let l = simrt::rng::mix(n ^ self.seed) % 3 == 0;
        if l {
            simrt::probe("cache_entry_lost");
        }
        l
    }
}
impl<W: Semiring> Clone for Forgetful<W> {
    fn clone(&self) -> Self {
        Forgetful {
            inner: self.inner.clone(),
            n: AtomicU64::new(self.n.load(Ordering::SeqCst)),
            seed: self.seed,
        }
    }
}
impl<W: Semiring> FstCache<W> for Forgetful<W> {
    fn get_start(&self) -> CacheStatus<Option<StateId>> {
        if self.lost() {
            return CacheStatus::NotComputed;
        }
        self.inner.get_start()
    }
    fn insert_start(&self, id: Option<StateId>) {
        self.inner.insert_start(id)
    }
    fn get_trs(&self, id: StateId) -> CacheStatus<TrsVec<W>> {
        if self.lost() {
            return CacheStatus::NotComputed;
        }
        self.inner.get_trs(id)
    }
    fn insert_trs(&self, id: StateId, trs: TrsVec<W>) {
        self.inner.insert_trs(id, trs)
    }
    fn get_final_weight(&self, id: StateId) -> CacheStatus<Option<W>> {
        if self.lost() {
            return CacheStatus::NotComputed;
        }
        self.inner.get_final_weight(id)
    }
    fn insert_final_weight(&self, id: StateId, weight: Option<W>) {
        self.inner.insert_final_weight(id, weight)
    }
    fn num_known_states(&self) -> usize {
        self.inner.num_known_states()
    }
    fn compute_num_known_trs(&self) -> usize {
        self.inner.compute_num_known_trs()
    }
    fn num_trs(&self, id: StateId) -> Option<usize> {
        if self.lost() {
            return None;
        }
        self.inner.num_trs(id)
    }
    fn num_input_epsilons(&self, id: StateId) -> Option<usize> {
        if self.lost() {
            return None;
        }
        self.inner.num_input_epsilons(id)
    }
    fn num_output_epsilons(&self, id: StateId) -> Option<usize> {
        if self.lost() {
            return None;
        }
        self.inner.num_output_epsilons(id)
    }
    fn len_trs(&self) -> usize {
        self.inner.len_trs()
    }
    fn len_final_weights(&self) -> usize {
        self.inner.len_final_weights()
    }
}

/// A lazy operation that simply presents a given machine; its calls are fault points.
#[derive(Debug, Clone)]
pub struct TableOp<W: Semiring> {
    pub f: Arc<RefFst>,
    pub w: std::marker::PhantomData<fn() -> W>,
}
impl<W: Wt> TableOp<W> {
    pub fn new(f: &RefFst) -> Self {
        TableOp { f: Arc::new(f.clone()), w: Default::default() }
    }
    fn row(&self, id: StateId) -> anyhow::Result<TrsVec<W>> {
        let s = self.f.states.get(id as usize).ok_or_else(|| anyhow::anyhow!("no state {}", id))?;
        Ok(TrsVec(Arc::new(
            s.arcs.iter().map(|a| Tr::new(a.il, a.ol, W::of(a.w), a.next as u32)).collect(),
        )))
    }
    fn fin(&self, id: StateId) -> anyhow::Result<Option<W>> {
        let s = self.f.states.get(id as usize).ok_or_else(|| anyhow::anyhow!("no state {}", id))?;
        Ok(s.fin.map(W::of))
    }
}
impl<W: Wt> FstOp<W> for TableOp<W> {
    fn compute_start(&self) -> anyhow::Result<Option<StateId>> {
        fault()?;
        Ok(self.f.start.map(|s| s as u32))
    }
    fn compute_trs(&self, id: StateId) -> anyhow::Result<TrsVec<W>> {
        fault()?;
        let r = self.row(id);
        fault()?;
        r
    }
    fn compute_final_weight(&self, id: StateId) -> anyhow::Result<Option<W>> {
        fault()?;
        self.fin(id)
    }
    fn properties(&self) -> FstProperties {
        FstProperties::empty()
    }
}
#[derive(Debug, Clone)]
pub struct TableOp2<W: Semiring>(pub TableOp<W>);
impl<W: Wt> FstOp2<W> for TableOp2<W> {
    fn compute_start(&self) -> anyhow::Result<Option<StateId>> {
        FstOp::compute_start(&self.0)
    }
    fn compute_trs_and_final_weight(&self, id: StateId) -> anyhow::Result<(TrsVec<W>, Option<W>)> {
        fault()?;
        Ok((self.0.row(id)?, self.0.fin(id)?))
    }
    fn properties(&self) -> FstProperties {
        FstProperties::empty()
    }
}

pub fn cfg(ring: Ring, cyc: Cyc) -> Cfg {
    Cfg { states: 6, arcs: 11, ilabels: 3, olabels: 3, eps: 2, cyc, ring, acceptor: false }
}

pub fn swarm(mut c: Cfg) -> Cfg {
    match draw(4) {
        0 => {}
        1 => c.eps = 0,
        2 => c.eps = 5,
        _ => {
            c.states = 3;
            c.arcs = 5;
        }
    }
    match draw(6) {
        0 => {}
        1 => {
            c.ilabels = 1;
            c.olabels = 1;
        }
        _ => {
            c.ilabels = 2;
            c.olabels = 2;
        }
    }
    c
}

pub fn s<T, E: std::fmt::Display>(r: Result<T, E>) -> Result<T, String> {
    r.map_err(|e| format!("{:#}", e))
}

/// Composition inputs and the expected language.
pub fn compose_inputs(ring: Ring, cyc: bool) -> Option<(RefFst, RefFst, Map, usize)> {
    let k = 3;
    let (ca, cb) = if cyc && chance(1, 3) { (Cyc::In, Cyc::Out) } else { (Cyc::No, Cyc::No) };
    let a = gen::fst(&swarm(cfg(ring, ca)));
    let b = gen::fst(&swarm(cfg(ring, cb)));
    let la = a.lang(ring, k, usize::MAX, CAP).finite()?;
    let m = la.keys().map(|x| x.1.len()).max().unwrap_or(0);
    let lb = b.lang(ring, m, k, CAP).finite()?;
    Some((a, b, models::compose(&la, &lb, ring), k))
}

type Comp<W, F1, F2, M1, M2, CFB, C> = ComposeFst<W, F1, F2, Arc<F1>, Arc<F2>, M1, M2, CFB, C>;
type SM<W> = SortedMatcher<W, VectorFst<W>, Arc<VectorFst<W>>>;

pub trait NewCache: Sized {
    fn make(seed: u64) -> Self;
}
impl<W: Semiring> NewCache for SimpleVecCache<W> {
    fn make(_: u64) -> Self {
        Default::default()
    }
}
impl<W: Semiring> NewCache for SimpleHashMapCache<W> {
    fn make(_: u64) -> Self {
        Default::default()
    }
}
impl<W: Semiring, C: FstCache<W> + Default> NewCache for FirstCache<W, C> {
    fn make(_: u64) -> Self {
        Default::default()
    }
}
impl<W: Semiring> NewCache for Forgetful<W> {
    fn make(seed: u64) -> Self {
        Forgetful::new(seed)
    }
}
impl<C: NewCache> NewCache for Arc<C> {
    fn make(seed: u64) -> Self {
        Arc::new(C::make(seed))
    }
}

fn cloner<W: Wt, F: Fst<W> + Clone + Send + Sync + 'static>(f: &F, comp: fn(&F) -> anyhow::Result<RefFst>) -> Shared {
    Box::new(V::<W, F>::new(f.clone(), comp, None))
}

/// Which caches a composition case may use.
pub const CACHES: u64 = 7;

macro_rules! composed {
    ($name:ident, $W:ty, $F:ty, $builder:ident) => {
        pub fn $name(a: &Arc<$F>, b: &Arc<$F>, cache: u64, seed: u64) -> Result<Shared, String> {
            type W0 = $W;
            type F0 = $F;
            type SMF = SortedMatcher<W0, F0, Arc<F0>>;
            type BB = $builder<W0, F0, F0, Arc<F0>, Arc<F0>, SMF, SMF>;
            type T<C> = Comp<W0, F0, F0, SMF, SMF, BB, C>;
            fn go<C: FstCache<W0> + NewCache + Clone + Send + Sync + 'static>(
                a: &Arc<F0>,
                b: &Arc<F0>,
                seed: u64,
            ) -> Result<Shared, String> {
                let m1 = s(SortedMatcher::new(a.clone(), MatchType::MatchOutput))?;
                let m2 = s(SortedMatcher::new(b.clone(), MatchType::MatchInput))?;
                let f: T<C> = s(ComposeFst::new_with_options_and_cache(
                    a.clone(),
                    b.clone(),
                    ComposeFstOpOptions::new(Some(m1), Some(m2), None, None),
                    C::make(seed),
                ))?;
                fn comp<C: FstCache<W0> + 'static>(f: &T<C>) -> anyhow::Result<RefFst> {
                    Ok(vref::<W0>(f.compute()?))
                }
                Ok(Box::new(V::<W0, _>::new(f, comp::<C>, Some(|f| cloner::<W0, _>(f, comp::<C>)))))
            }
            fn go2<C: FstCache<W0> + NewCache + Send + Sync + 'static>(
                a: &Arc<F0>,
                b: &Arc<F0>,
                seed: u64,
            ) -> Result<Shared, String> {
                let m1 = s(SortedMatcher::new(a.clone(), MatchType::MatchOutput))?;
                let m2 = s(SortedMatcher::new(b.clone(), MatchType::MatchInput))?;
                let f: T<C> = s(ComposeFst::new_with_options_and_cache(
                    a.clone(),
                    b.clone(),
                    ComposeFstOpOptions::new(Some(m1), Some(m2), None, None),
                    C::make(seed),
                ))?;
                Ok(Box::new(V::<W0, _>::new(f, |f| Ok(vref::<W0>(f.compute()?)), None)))
            }
            /// the user keeps the cache, and may empty it
            fn with_cache<C: FstCache<W0> + Send + Sync + 'static>(
                a: &Arc<F0>,
                b: &Arc<F0>,
                c: C,
                clear: Box<dyn Fn() + Send + Sync>,
            ) -> Result<Shared, String> {
                let m1 = s(SortedMatcher::new(a.clone(), MatchType::MatchOutput))?;
                let m2 = s(SortedMatcher::new(b.clone(), MatchType::MatchInput))?;
                let f: T<C> = s(ComposeFst::new_with_options_and_cache(
                    a.clone(),
                    b.clone(),
                    ComposeFstOpOptions::new(Some(m1), Some(m2), None, None),
                    c,
                ))?;
                let mut v = V::<W0, _>::new(f, |f| Ok(vref::<W0>(f.compute()?)), None);
                v.clearer = Some(clear);
                Ok(Box::new(v))
            }
            match cache {
                0 => go::<SimpleVecCache<W0>>(a, b, seed),
                1 => go::<SimpleHashMapCache<W0>>(a, b, seed),
                2 => go2::<FirstCache<W0, SimpleVecCache<W0>>>(a, b, seed),
                3 => go2::<FirstCache<W0, SimpleHashMapCache<W0>>>(a, b, seed),
                4 => go::<Forgetful<W0>>(a, b, seed),
                5 => {
                    let c = Arc::new(SimpleVecCache::<W0>::default());
                    let c2 = c.clone();
                    with_cache(a, b, c, Box::new(move || c2.clear()))
                }
                _ => {
                    let c = Arc::new(SimpleHashMapCache::<W0>::default());
                    let c2 = c.clone();
                    with_cache(a, b, c, Box::new(move || c2.clear()))
                }
            }
        }
    };
}
composed!(seq_i, IntegerWeight, VectorFst<IntegerWeight>, SequenceComposeFilterBuilder);
composed!(alt_i, IntegerWeight, VectorFst<IntegerWeight>, AltSequenceComposeFilterBuilder);
composed!(mat_i, IntegerWeight, VectorFst<IntegerWeight>, MatchComposeFilterBuilder);
composed!(seq_f, IntegerWeight, Faulty<IntegerWeight>, SequenceComposeFilterBuilder);
composed!(alt_f, IntegerWeight, Faulty<IntegerWeight>, AltSequenceComposeFilterBuilder);
composed!(mat_f, IntegerWeight, Faulty<IntegerWeight>, MatchComposeFilterBuilder);
composed!(seq_t, TropicalWeight, VectorFst<TropicalWeight>, SequenceComposeFilterBuilder);

type GM<W, F> = GenericMatcher<W, F, Arc<F>>;
type AutoFst<W, F1, F2> =
    Comp<W, F1, F2, GM<W, F1>, GM<W, F2>, SequenceComposeFilterBuilder<W, F1, F2, Arc<F1>, Arc<F2>, GM<W, F1>, GM<W, F2>>, SimpleVecCache<W>>;
pub fn autof<W: Wt, F1: Fst<W>, F2: Fst<W>>(a: &Arc<F1>, b: &Arc<F2>) -> anyhow::Result<AutoFst<W, F1, F2>> {
    ComposeFst::new_auto(a.clone(), b.clone())
}

fn auto<W: Wt>(a: &Arc<VectorFst<W>>, b: &Arc<VectorFst<W>>) -> Result<Shared, String> {
    let f = s(autof::<W, VectorFst<W>, VectorFst<W>>(a, b))?;
    Ok(Box::new(V::<W, _>::new(
        f,
        |f| Ok(vref::<W>(f.compute()?)),
        Some(|f| cloner::<W, _>(f, |f| Ok(vref::<W>(f.compute()?)))),
    )))
}

#[derive(Debug, Clone, PartialOrd, PartialEq)]
pub struct LaFlags {}
impl MatcherFlagsTrait for LaFlags {
    fn flags() -> MatcherFlags {
        MatcherFlags::OUTPUT_LOOKAHEAD_MATCHER
            | MatcherFlags::LOOKAHEAD_WEIGHT
            | MatcherFlags::LOOKAHEAD_PREFIX
            | MatcherFlags::LOOKAHEAD_EPSILONS
            | MatcherFlags::LOOKAHEAD_NON_EPSILON_PREFIX
    }
}

/// Composition with label look-ahead, weight and label pushing.
pub fn lookahead(a: &VectorFst<TropicalWeight>, b: &VectorFst<TropicalWeight>) -> Result<Shared, String> {
    type W = TropicalWeight;
    type F = VectorFst<W>;
    type M1<F> = LabelLookAheadMatcher<W, F, Arc<F>, SortedMatcher<W, F, Arc<F>>, LaFlags>;
    type La = MatcherFst<W, F, Arc<F>, M1<F>, LabelReachableData>;
    type M2 = SortedMatcher<W, F, Arc<F>>;
    type Seq = AltSequenceComposeFilterBuilder<W, La, F, Arc<La>, Arc<F>, M1<La>, M2>;
    type Look = LookAheadComposeFilterBuilder<W, La, F, Arc<La>, Arc<F>, M1<La>, M2, Seq, SMatchOutput>;
    type PushW = PushWeightsComposeFilterBuilder<W, La, F, Arc<La>, Arc<F>, M1<La>, M2, Look, SMatchOutput>;
    type PushL = PushLabelsComposeFilterBuilder<W, La, F, Arc<La>, Arc<F>, M1<La>, M2, PushW, SMatchOutput>;
    let mut b = b.clone();
    let la = Arc::new(s(La::new_with_relabeling(a.clone(), &mut b, true))?);
    tr_sort(&mut b, ILabelCompare {});
    let b = Arc::new(b);
    let m1 = s(M1::<La>::new_with_data(
        Arc::clone(&la),
        MatchType::MatchOutput,
        la.data(MatchType::MatchOutput).cloned(),
    ))?;
    let m2 = s(M2::new(Arc::clone(&b), MatchType::MatchInput))?;
    let filter = s(PushL::new(Arc::clone(&la), Arc::clone(&b), Some(m1), Some(m2)))?;
    let opts = ComposeFstOpOptions::<_, _, PushL, _>::new(None, None, filter, None);
    let f = s(ComposeFst::<_, _, _, _, _, _, _, _, SimpleHashMapCache<_>>::new_with_options(la, b, opts))?;
    Ok(Box::new(V::<W, _>::new(f, |f| Ok(vref::<W>(f.compute()?)), None)))
}

pub fn sorted<W: Wt>(f: &RefFst, out: bool) -> VectorFst<W> {
    let mut v = vector::<W>(f);
    if out {
        tr_sort(&mut v, OLabelCompare {});
    } else {
        tr_sort(&mut v, ILabelCompare {});
    }
    v
}

/// Inlines non-terminals 100.. (as output labels) into the root; call arcs are epsilon, or keep
/// their input label.
pub fn inline(fs: &[RefFst], root: usize, keep: bool) -> RefFst {
    fn put(fs: &[RefFst], which: usize, keep: bool, out: &mut RefFst, ring: Ring, depth: usize) -> Option<(usize, Vec<(usize, i64)>)> {
        let f = &fs[which];
        let s0 = f.start?;
        let base = out.states.len();
        for _ in &f.states {
            out.add();
        }
        let mut fin = vec![];
        for (i, st) in f.states.iter().enumerate() {
            if let Some(w) = st.fin {
                fin.push((base + i, w));
            }
            for a in &st.arcs {
                if a.ol >= 100 && ((a.ol - 100) as usize) < fs.len() {
                    assert!(depth < 10);
                    if let Some((en, ex)) = put(fs, (a.ol - 100) as usize, keep, out, ring, depth + 1) {
                        out.arc(base + i, if keep { a.il } else { 0 }, 0, a.w, en);
                        for (x, w) in ex {
                            out.arc(x, 0, 0, w, base + a.next);
                        }
                    }
                } else {
                    out.arc(base + i, a.il, a.ol, a.w, base + a.next);
                }
            }
        }
        Some((base + s0, fin))
    }
    let mut out = RefFst::default();
    if let Some((en, ex)) = put(fs, root, keep, &mut out, Ring::Count, 0) {
        out.start = Some(en);
        for (x, w) in ex {
            out.states[x].fin = Some(w);
        }
    }
    out
}

pub fn describe(fs: &[&RefFst]) -> String {
    fs.iter()
        .map(|f| format!("{} states/{} arcs", f.states.len(), f.num_arcs()))
        .collect::<Vec<_>>()
        .join(" x ")
}

/// `forget`: may use a cache that loses entries.
pub fn case(forget: bool) -> Option<Case> {
    type I = IntegerWeight;
    let kind = draw(14);
    let seed = draw(1 << 20);
    let ring = Ring::Count;
    let caches = if forget { CACHES } else { 4 };
    match kind {
        0..=3 => {
            let (a, b, expect, k) = compose_inputs(ring, true)?;
            let input = describe(&[&a, &b]);
            let va = Arc::new(sorted::<I>(&a, true));
            let vb = Arc::new(sorted::<I>(&b, false));
            let cache = draw(caches);
            let filter = if kind == 0 { 9 } else { draw(3) };
            let name = format!("compose filter {} cache {}", filter, cache);
            Some(Case {
                name,
                ring,
                make: Box::new(move || match filter {
                    9 => auto(&va, &vb),
                    0 => seq_i(&va, &vb, cache, seed),
                    1 => alt_i(&va, &vb, cache, seed),
                    _ => mat_i(&va, &vb, cache, seed),
                }),
                expect,
                k,
                string: false,
                input,
            })
        }
        4 => {
            // tropical
            let ring = Ring::Trop;
            let (a, b, expect, k) = compose_inputs(ring, true)?;
            let input = describe(&[&a, &b]);
            let va = Arc::new(sorted::<TropicalWeight>(&a, true));
            let vb = Arc::new(sorted::<TropicalWeight>(&b, false));
            let cache = draw(caches);
            Some(Case {
                name: format!("compose tropical cache {}", cache),
                ring,
                make: Box::new(move || seq_t(&va, &vb, cache, seed)),
                expect,
                k,
                string: false,
                input,
            })
        }
        5 => {
            let ring = Ring::Trop;
            let (a, b, expect, k) = compose_inputs(ring, false)?;
            let input = describe(&[&a, &b]);
            let va = vector::<TropicalWeight>(&a);
            let vb = vector::<TropicalWeight>(&b);
            Some(Case {
                name: "compose with look-ahead".into(),
                ring,
                make: Box::new(move || lookahead(&va, &vb)),
                expect,
                k,
                string: false,
                input,
            })
        }
        6 => {
            // nested laziness: compose(union(a, b), c)
            let k = 3;
            let c0 = swarm(Cfg { states: 4, arcs: 7, ..cfg(ring, Cyc::No) });
            let (a, b, c) = (gen::fst(&c0), gen::fst(&c0), gen::fst(&c0));
            let la = a.lang(ring, k, usize::MAX, CAP).finite()?;
            let lb = b.lang(ring, k, usize::MAX, CAP).finite()?;
            let lu = models::union(&la, &lb, ring);
            let m = lu.keys().map(|x| x.1.len()).max().unwrap_or(0);
            let lc = c.lang(ring, m, k, CAP).finite()?;
            let expect = models::compose(&lu, &lc, ring);
            let input = describe(&[&a, &b, &c]);
            let (va, vb) = (vector::<I>(&a), vector::<I>(&b));
            let vc = Arc::new(sorted::<I>(&c, false));
            Some(Case {
                name: "compose over a lazy union".into(),
                ring,
                make: Box::new(move || {
                    let u = Arc::new(s(UnionFst::new(va.clone(), vb.clone()))?);
                    let f = s(autof::<I, _, _>(&u, &vc))?;
                    Ok(Box::new(V::<I, _>::new(f, |f| Ok(vref::<I>(f.compute()?)), None)))
                }),
                expect,
                k,
                string: false,
                input,
            })
        }
        7 => {
            let k = 3;
            let (a, b) = (gen::fst(&swarm(cfg(ring, Cyc::Both))), gen::fst(&swarm(cfg(ring, Cyc::In))));
            let expect = models::union(&a.lang(ring, k, k, CAP).finite()?, &b.lang(ring, k, k, CAP).finite()?, ring);
            let input = describe(&[&a, &b]);
            let (va, vb) = (vector::<I>(&a), vector::<I>(&b));
            Some(Case {
                name: "union".into(),
                ring,
                make: Box::new(move || {
                    let f = s(UnionFst::new(va.clone(), vb.clone()))?;
                    Ok(Box::new(V::<I, _>::new(f, |f| Ok(vref::<I>(f.compute()?)), None)))
                }),
                expect,
                k,
                string: false,
                input,
            })
        }
        8 => {
            let k = 3;
            let (a, b) = (gen::fst(&swarm(cfg(ring, Cyc::Both))), gen::fst(&swarm(cfg(ring, Cyc::In))));
            let expect = models::concat(&a.lang(ring, k, k, CAP).finite()?, &b.lang(ring, k, k, CAP).finite()?, ring, k, k);
            let input = describe(&[&a, &b]);
            let (va, vb) = (vector::<I>(&a), vector::<I>(&b));
            Some(Case {
                name: "concat".into(),
                ring,
                make: Box::new(move || {
                    let f = s(ConcatFst::new(va.clone(), vb.clone()))?;
                    Ok(Box::new(V::<I, _>::new(f, |f| Ok(vref::<I>(f.compute()?)), None)))
                }),
                expect,
                k,
                string: false,
                input,
            })
        }
        9 => {
            let k = 3;
            let mut a = gen::fst(&swarm(Cfg { states: 5, arcs: 8, ..cfg(ring, Cyc::No) }));
            a.drop_empty();
            let plus = draw(2) == 1;
            let expect = models::closure(&a.lang(ring, k, k, CAP).finite()?, ring, plus, k, k);
            let input = describe(&[&a]);
            let va = vector::<I>(&a);
            Some(Case {
                name: format!("closure plus={}", plus),
                ring,
                make: Box::new(move || {
                    let t = if plus { ClosureType::ClosurePlus } else { ClosureType::ClosureStar };
                    let f = s(ClosureFst::new(va.clone(), t))?;
                    Ok(Box::new(V::<I, _>::new(f, |f| Ok(vref::<I>(f.compute()?)), None)))
                }),
                expect,
                k,
                string: false,
                input,
            })
        }
        10 | 11 => {
            // recursive replacement, non-terminals 100.. as output labels, calls only downwards
            let k = 4;
            let n = range(2, 3) as usize;
            let mut fs: Vec<RefFst> = vec![];
            for i in 0..n {
                let mut f = gen::fst(&swarm(Cfg { states: 4, arcs: 6, ..cfg(ring, Cyc::No) }));
                if i + 1 < n {
                    for st in f.states.iter_mut() {
                        for a in st.arcs.iter_mut() {
                            if chance(1, 3) {
                                a.ol = 100 + range(i as u64 + 1, n as u64 - 1) as u32;
                            }
                        }
                    }
                }
                fs.push(f);
            }
            let keep = draw(2) == 1;
            let e = inline(&fs, 0, keep);
            if e.states.len() > 400 {
                return None;
            }
            let expect = e.lang(ring, k, k, CAP).finite()?;
            let input = describe(&fs.iter().collect::<Vec<_>>());
            let vs: Vec<Arc<VectorFst<I>>> = fs.iter().map(|f| Arc::new(vector::<I>(f))).collect();
            Some(Case {
                name: format!("replace keep={}", keep),
                ring,
                make: Box::new(move || {
                    let l = vs.iter().enumerate().map(|(i, v)| (100 + i as u32, v.clone())).collect();
                    let f = s(ReplaceFst::<I, VectorFst<I>, Arc<VectorFst<I>>>::new(l, 100, !keep))?;
                    Ok(Box::new(V::<I, _>::new(f, |f| Ok(vref::<I>(f.compute()?)), None)))
                }),
                expect,
                k,
                string: false,
                input,
            })
        }
        12 => {
            let mut a = gen::fst(&Cfg { states: 5, arcs: 8, acceptor: true, ..cfg(ring, Cyc::No) });
            let word = || {
                let n = draw(4);
                models::str_code(&(0..n.min(3)).map(|_| 1 + draw(3) as u32).collect::<Vec<_>>())
            };
            for st in a.states.iter_mut() {
                for x in st.arcs.iter_mut() {
                    x.w = word();
                }
                if st.fin.is_some() {
                    st.fin = Some(word());
                }
            }
            let k = 6;
            let expect = a.spell().lang(Ring::Count, k, 64, CAP).finite()?;
            let input = describe(&[&a]);
            let va = vector::<StringWeightLeft>(&a);
            let mode = match draw(3) {
                0 => FactorWeightType::FACTOR_FINAL_WEIGHTS | FactorWeightType::FACTOR_ARC_WEIGHTS,
                1 => FactorWeightType::FACTOR_ARC_WEIGHTS,
                _ => FactorWeightType::FACTOR_FINAL_WEIGHTS,
            };
            Some(Case {
                name: format!("factor weight {:?}", mode),
                ring,
                make: Box::new(move || {
                    let f = s(FactorWeightFst::<
                        StringWeightLeft,
                        VectorFst<StringWeightLeft>,
                        VectorFst<StringWeightLeft>,
                        StringFactorLeft,
                    >::new(va.clone(), FactorWeightOptions::new(mode)))?;
                    Ok(Box::new(V::<StringWeightLeft, _>::new(
                        f,
                        |f| Ok(vref::<StringWeightLeft>(f.compute()?)),
                        None,
                    )))
                }),
                expect,
                k,
                string: true,
                input,
            })
        }
        _ => {
            let k = 3;
            let mut a = gen::fst(&swarm(cfg(ring, Cyc::Both)));
            if a.start.is_some() {
                // a lazy operation numbers only what it can reach, densely
                a = a.canonical();
            }
            let expect = a.lang(ring, k, k, CAP).finite()?;
            let input = describe(&[&a]);
            let which = draw(5);
            Some(Case {
                name: format!("user operation {}", which),
                ring,
                make: Box::new(move || table_view(&a, which, seed)),
                expect,
                k,
                string: false,
                input,
            })
        }
    }
}

/// Lazy epsilon removal: cannot be shared.
pub fn rm_epsilon_case() -> Option<Case> {
    type T = TropicalWeight;
    let k = 3;
    let ring = Ring::Trop;
    let mut c = swarm(cfg(ring, if chance(1, 2) { Cyc::Both } else { Cyc::No }));
    c.eps = c.eps.max(3);
    let mut a = gen::fst(&c);
    for st in a.states.iter_mut() {
        for x in st.arcs.iter_mut() {
            if chance(1, 4) {
                x.ol = x.il;
            }
        }
    }
    let expect = a.lang(ring, k, k, CAP).finite()?;
    let input = describe(&[&a]);
    let va = vector::<T>(&a);
    Some(Case {
        name: "epsilon removal".into(),
        ring,
        make: Box::new(move || {
            let f = s(RmEpsilonFst::<T, VectorFst<T>, VectorFst<T>>::new(va.clone()))?;
            let v = V::<T, _>::new(f, |f| Ok(vref::<T>(f.compute()?)), None);
            Ok(Box::new(Unshared(Box::new(v))))
        }),
        expect,
        k,
        string: false,
        input,
    })
}

/// A lazy FST over a user-supplied operation.
pub fn table_view(a: &RefFst, which: u64, seed: u64) -> Result<Shared, String> {
    type I = IntegerWeight;
    type L<C> = LazyFst<I, TableOp<I>, C>;
    fn mk<C: FstCache<I> + NewCache + Send + Sync + Clone + 'static>(a: &RefFst, seed: u64) -> Shared {
        let f: L<C> = LazyFst::from_op_and_cache(TableOp::new(a), C::make(seed), None, None);
        fn comp<C: FstCache<I> + 'static>(f: &L<C>) -> anyhow::Result<RefFst> {
            Ok(vref::<I>(f.compute()?))
        }
        Box::new(V::<I, _>::new(f, comp::<C>, Some(|f| cloner::<I, _>(f, comp::<C>))))
    }
    fn mk2<C: FstCache<I> + NewCache + Send + Sync + 'static>(a: &RefFst, seed: u64) -> Shared {
        let f = LazyFst2::from_op_and_cache(TableOp2(TableOp::new(a)), C::make(seed), None, None);
        Box::new(V::<I, _>::new(f, |f| Ok(vref::<I>(f.compute()?)), None))
    }
    Ok(match which {
        0 => mk::<SimpleVecCache<I>>(a, seed),
        1 => mk::<SimpleHashMapCache<I>>(a, seed),
        2 => mk2::<SimpleHashMapCache<I>>(a, seed),
        3 => mk2::<FirstCache<I, SimpleVecCache<I>>>(a, seed),
        _ => mk2::<SimpleVecCache<I>>(a, seed),
    })
}
