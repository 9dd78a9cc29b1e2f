//! C05: snapshots of a lazy composition taken while others expand it, and process death meanwhile.
use crate::c01::{check_logs, program, Log};
use crate::ops::{check_lang, compose_inputs, Case};
use crate::util;
use crate::view::{explore, vref, Row, View, V};
use models::{RefFst, Ring};
use rustfst::algorithms::compose::compose_filters::*;
use rustfst::algorithms::compose::filter_states::IntegerFilterState;
use rustfst::algorithms::compose::matchers::{MatchType, Matcher, SortedMatcher};
use rustfst::algorithms::compose::{ComposeFst, ComposeFstOpOptions, ComposeFstOpState, ComposeStateTuple};
use rustfst::algorithms::lazy::*;
use rustfst::algorithms::tr_sort;
use rustfst::prelude::tr_compares::{ILabelCompare, OLabelCompare};
use rustfst::prelude::*;
use rustfst::semirings::IntegerWeight;
use simrt::faults::{self, Fault};
use simrt::sched::{quietly, Body};
use simrt::{bad, chance, discard, draw, range, vfs, Violation};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

type I = IntegerWeight;
type F = VectorFst<I>;
type SM = SortedMatcher<I, F, Arc<F>>;
type OpState = ComposeFstOpState<ComposeStateTuple<IntegerFilterState>>;

pub const CACHE: &str = "/simfs/snapshot.cache";
pub const OPS: &str = "/simfs/snapshot.state";

/// A lazy composition that can be saved and rebuilt.
trait Saved: View + Send + Sync {
    fn save(&self) -> Result<(), String> {
        self.save_to(CACHE, OPS)
    }
    fn save_to(&self, cache: &str, ops: &str) -> Result<(), String>;
}
struct Handle<L, C>(V<I, L>, Arc<C>);

macro_rules! snap {
    ($new:ident, $restore:ident, $builder:ident, $C:ty) => {
        fn $new(a: &Arc<F>, b: &Arc<F>, cache: $C, ops: Option<OpState>) -> Result<Box<dyn Saved>, String> {
            type BB = $builder<I, F, F, Arc<F>, Arc<F>, SM, SM>;
            type L = ComposeFst<I, F, F, Arc<F>, Arc<F>, SM, SM, BB, Arc<$C>>;
            impl Saved for Handle<L, $C> {
                fn save_to(&self, cache: &str, ops: &str) -> Result<(), String> {
                    self.0.f.write(cache, ops).map_err(|e| format!("{:#}", e))
                }
            }
            let go = || -> anyhow::Result<L> {
                let m1 = SortedMatcher::new(a.clone(), MatchType::MatchOutput)?;
                let m2 = SortedMatcher::new(b.clone(), MatchType::MatchInput)?;
                ComposeFst::new_with_options_and_cache(
                    a.clone(),
                    b.clone(),
                    ComposeFstOpOptions::new(Some(m1), Some(m2), None, ops),
                    Arc::new(cache),
                )
            };
            let f = go().map_err(|e| format!("{:#}", e))?;
            let c: Arc<$C> = Arc::default();
            Ok(Box::new(Handle(V::<I, L>::new(f, |f: &L| Ok(vref::<I>(f.compute()?)), None), c)))
        }
        /// What the files hold: the cache's entries, and the composition rebuilt from both.
        fn $restore(a: &Arc<F>, b: &Arc<F>) -> Restored {
            let c = <$C>::read(CACHE).map_err(|e| format!("{:#}", e));
            let o = OpState::read(OPS).map_err(|e| format!("{:#}", e));
            let rows = c.as_ref().map_err(|e| e.clone()).map(|c| {
                let mut m = BTreeMap::new();
                for s in 0..5000u32 {
                    if s as usize > c.len_trs().max(c.num_known_states()) + 40 {
                        break;
                    }
                    if let CacheStatus::Computed(t) = c.get_trs(s) {
                        let r: Row = t
                            .iter()
                            .map(|t| models::Arc { il: t.ilabel, ol: t.olabel, w: crate::gen::Wt::val(&t.weight), next: t.nextstate as usize })
                            .collect();
                        m.insert(s as usize, r);
                    }
                }
                m
            });
            let ops = o.as_ref().map(|_| ()).map_err(|e| e.clone());
            let f = match (c, o) {
                (Ok(c), Ok(o)) => Some($new(a, b, c, Some(o))),
                _ => None,
            };
            Restored { rows, ops, f }
        }
    };
}
impl<L: rustfst::fst_traits::Fst<I> + Send + Sync, C: Send + Sync> View for Handle<L, C> {
    fn start(&self) -> Option<usize> {
        self.0.start()
    }
    fn trs(&self, s: usize) -> Result<Row, String> {
        self.0.trs(s)
    }
    fn fin(&self, s: usize) -> Result<Option<i64>, String> {
        self.0.fin(s)
    }
    fn count(&self, s: usize, what: u8) -> Result<usize, String> {
        self.0.count(s, what)
    }
    fn each_state(&self, f: &mut dyn FnMut(usize) -> bool) {
        self.0.each_state(f)
    }
    fn each(&self, f: &mut dyn FnMut(usize, Row, Option<i64>, usize) -> bool) {
        self.0.each(f)
    }
    fn compute(&self) -> Result<RefFst, String> {
        self.0.compute()
    }
    fn debug(&self) -> usize {
        self.0.debug()
    }
    fn boxed_clone(&self) -> Option<crate::view::Shared> {
        let _ = &self.1;
        None
    }
}
struct Restored {
    rows: Result<BTreeMap<usize, Row>, String>,
    ops: Result<(), String>,
    f: Option<Result<Box<dyn Saved>, String>>,
}
snap!(seq_vec, seq_vec_back, SequenceComposeFilterBuilder, SimpleVecCache<I>);
snap!(alt_map, alt_map_back, AltSequenceComposeFilterBuilder, SimpleHashMapCache<I>);

/// The internal state of a composition as an object with a file format: what counts is the ids that
/// a composition resumed from it gives to its states.
pub fn ops_obj() -> crate::files::Obj {
    let (a, b) = match compose_inputs(Ring::Count, true) {
        Some((a, b, _, _)) => (a, b),
        None => Default::default(),
    };
    let mut va = crate::gen::vector::<I>(&a);
    tr_sort(&mut va, OLabelCompare {});
    let mut vb = crate::gen::vector::<I>(&b);
    tr_sort(&mut vb, ILabelCompare {});
    let (va, vb) = (Arc::new(va), Arc::new(vb));
    let f = seq_vec(&va, &vb, Default::default(), None).unwrap();
    // touch some states out of order first, so that ids are not simply in order of discovery
    let mut l = Log::default();
    program(&*f, draw(1 << 16), range(2, 16), &mut l);
    let show = move |f: &dyn View| format!("{:?}", explore(f, 300));
    let want = show(&*f);
    crate::files::Obj {
        name: "composition state".into(),
        want,
        write: Box::new(move |p| f.save_to(&format!("{}.cache", p), p)),
        read: Box::new(move |p, sh| {
            let o = OpState::read(p).map_err(|e| format!("{:#}", e))?;
            if !sh {
                return Ok(String::new());
            }
            let f = seq_vec(&va, &vb, Default::default(), Some(o))?;
            Ok(show(&*f))
        }),
        binary: true,
        text: false,
    }
}

pub fn body() -> Result<(), Violation> {
    let ring = Ring::Count;
    let Some((a, b, expect, k)) = compose_inputs(ring, true) else { return discard() };
    let mut va = crate::gen::vector::<I>(&a);
    tr_sort(&mut va, OLabelCompare {});
    let mut vb = crate::gen::vector::<I>(&b);
    tr_sort(&mut vb, ILabelCompare {});
    let (va, vb) = (Arc::new(va), Arc::new(vb));
    let vec = draw(2) == 0;
    let fresh = || if vec { seq_vec(&va, &vb, Default::default(), None) } else { alt_map(&va, &vb, Default::default(), None) };
    let back = || if vec { seq_vec_back(&va, &vb) } else { alt_map_back(&va, &vb) };
    let c = Case { name: "snapshot".into(), ring, make: Box::new(|| Err(String::new())), expect, k, string: false, input: String::new() };
    let e = |e: String| Violation { class: "construction".into(), msg: e };
    let one = fresh().map_err(e)?;
    let seq = match explore(&*one, 800) {
        Ok(Some(f)) => f,
        Ok(None) => return discard(),
        Err(x) => return bad("error", x),
    };
    match check_lang(&c, &seq) {
        Ok(Some(())) => {}
        Ok(None) => return discard(),
        Err(x) => return bad("sequential", x),
    }

    let v = fresh().map_err(e)?;
    let mode = draw(4); // 0, 1: benign faults only; 2: disk errors; 3: the process dies
    let n = draw(4) as usize; // other threads
    let mut warm = Log::default();
    if chance(2, 3) {
        program(&*v, draw(1 << 16), range(2, 16), &mut warm);
    }
    // what had been answered before the write began
    let answered: Mutex<Vec<(usize, Row)>> = Mutex::new(warm.trs.clone());
    let mut before = vec![];
    let mut saved = None;
    let mut logs: Vec<Log> = (0..n).map(|_| Log::default()).collect();
    let seeds: Vec<u64> = (0..n).map(|_| draw(1 << 16)).collect();
    let steps = range(2, 12);
    let delay = draw(4);
    let mut mix = vec![];
    if chance(1, 3) {
        mix.push((Fault::SpuriousWake, 2000));
    }
    if chance(1, 2) {
        mix.extend([(Fault::WriteShort, 2000), (Fault::WriteEintr, 1000), (Fault::OpenEintr, 1000)]);
    }
    match mode {
        2 => mix.extend([(Fault::WriteEio, 1500), (Fault::WriteEnospc, 1500), (Fault::OpenErr, 500), (Fault::WriteZero, 200)]),
        3 => mix.push((Fault::Crash, 4000)),
        _ => {}
    }
    faults::enable(&mix);
    {
        let mut bodies: Vec<Body> = vec![];
        let (v, answered, before, saved) = (&v, &answered, &mut before, &mut saved);
        bodies.push(Box::new(move || {
            for _ in 0..delay {
                // look at something first, like any other user
                v.start();
            }
            quietly(|| *before = answered.lock().unwrap().clone());
            *saved = Some(v.save());
        }));
        for (l, sd) in logs.iter_mut().zip(seeds) {
            bodies.push(Box::new(move || {
                let from = l.trs.len();
                program(&**v, sd, steps, l);
                quietly(|| answered.lock().unwrap().extend(l.trs[from..].iter().cloned()));
                let from = l.trs.len();
                program(&**v, sd ^ 0x5555, steps, l);
                quietly(|| answered.lock().unwrap().extend(l.trs[from..].iter().cloned()));
            }));
        }
        util::threads(1500 * (n as u64 + 1), bodies)?;
    }
    let hard = faults::f().made.iter().any(|f| !f.fault.benign());
    let crashed = vfs::d().crashed;
    let full = match explore(&*v, 5000) {
        Ok(Some(f)) => f,
        Ok(None) => return bad("states", "more states than when explored alone"),
        Err(x) => return bad("error", format!("the original after the write: {}", x)),
    };
    check_logs(&logs, &full)?;
    if full.size() != seq.size() {
        return bad("states", format!("the original has (states, transitions) {:?} after the write, {:?} alone", full.size(), seq.size()));
    }

    // restart: only the files are left
    drop(v);
    faults::enable(&[]);
    vfs::d().crashed = false;
    vfs::d().failing = false;
    vfs::d().space = None;
    simrt::set_entropy(simrt::entropy() ^ 0x1234_5678);
    if chance(1, 3) {
        faults::enable(&[(Fault::ReadShort, 3000), (Fault::ReadEintr, 1500), (Fault::OpenEintr, 1000)]);
    }
    let r = back();
    let ok = matches!(saved, Some(Ok(())));
    if let Some(Err(x)) = &saved {
        if !hard {
            return bad("write", format!("writing the snapshot failed without a disk error: {}", x));
        }
    }
    if ok && !crashed {
        if let Err(x) = &r.rows {
            return bad("unreadable", format!("the cache that was written cannot be read: {}", x));
        }
        if let Err(x) = &r.ops {
            return bad("unreadable", format!("the state that was written cannot be read: {}", x));
        }
    }
    // whatever can be read is whole
    if let Ok(rows) = &r.rows {
        for (s, row) in &before {
            match rows.get(s) {
                Some(x) if x == row => {}
                x => {
                    return bad(
                        "incomplete",
                        format!("state {} had {:?} when the write began; the cache read back has {:?} (crashed: {})", s, row, x, crashed),
                    )
                }
            }
        }
        for (s, row) in rows {
            if full.states.get(*s).map(|x| &x.arcs) != Some(row) {
                return bad("wrong", format!("the cache read back has {:?} for state {}, the original {:?}", row, s, full.states.get(*s)));
            }
        }
    }
    if let Some(f) = r.f {
        let f = f.map_err(e)?;
        // continue, with threads or without
        let mut more: Vec<Log> = vec![Log::default(), Log::default()];
        if chance(1, 2) {
            let sd = [draw(1 << 16), draw(1 << 16)];
            let f = &f;
            let bodies: Vec<Body> = more.iter_mut().zip(sd).map(|(l, s)| Box::new(move || program(&**f, s, 10, l)) as Body).collect();
            util::threads(2000, bodies)?;
        }
        let again = match explore(&*f, 5000) {
            Ok(Some(f)) => f,
            Ok(None) => return bad("resumed", "the rebuilt composition has more states than the original"),
            Err(x) => return bad("resumed", format!("the rebuilt composition: {}", x)),
        };
        check_logs(&more, &again)?;
        if again.start != full.start {
            return bad("resumed", format!("start {:?} became {:?}", full.start, again.start));
        }
        for (s, row) in &before {
            if again.states.get(*s).map(|x| &x.arcs) != Some(row) {
                return bad("resumed", format!("state {} had {:?}, rebuilt {:?}", s, row, again.states.get(*s)));
            }
        }
        if again.size() != seq.size() {
            return bad("resumed", format!("(states, transitions) {:?}, rebuilt {:?}", seq.size(), again.size()));
        }
        if let Err(x) = check_lang(&c, &again) {
            return bad("resumed", x);
        }
        simrt::probe("resumed");
        if crashed {
            simrt::probe("resumed_after_death");
        }
    } else if crashed {
        simrt::probe("unreadable_after_death");
    }
    if !full.states.is_empty() && (n > 0 || hard) && seq.size().0 >= 2 {
        simrt::nontrivial();
    }
    simrt::sample(format!("{} threads besides the writer, {:?} states/transitions, mode {}, {} answers before the write", n, seq.size(), mode, before.len()));
    Ok(())
}
