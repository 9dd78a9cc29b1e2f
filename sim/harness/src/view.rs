//! One interface over all lazy FSTs.
use crate::gen::{to_ref, Wt};
use models::{Arc as MArc, RefFst};
use rustfst::prelude::*;
use std::marker::PhantomData;

pub type Row = Vec<MArc>;

pub trait View {
    fn start(&self) -> Option<usize>;
    fn trs(&self, s: usize) -> Result<Row, String>;
    fn fin(&self, s: usize) -> Result<Option<i64>, String>;
    /// 0: transitions, 1: input epsilons, 2: output epsilons
    fn count(&self, s: usize, what: u8) -> Result<usize, String>;
    fn each_state(&self, f: &mut dyn FnMut(usize) -> bool);
    fn each(&self, f: &mut dyn FnMut(usize, Row, Option<i64>, usize) -> bool);
    fn compute(&self) -> Result<RefFst, String>;
    fn debug(&self) -> usize;
    fn boxed_clone(&self) -> Option<Box<dyn View + Send + Sync>>;
    /// empties the cache behind the FST, if the user kept hold of it
    fn clear(&self) -> bool {
        false
    }
}

/// A lazy FST that one thread uses at a time.
pub struct Unshared(pub Box<dyn View>);
unsafe impl Send for Unshared {}
unsafe impl Sync for Unshared {}
impl View for Unshared {
    fn start(&self) -> Option<usize> {
        self.0.start()
    }
    fn trs(&self, s: usize) -> Result<Row, String> {
        self.0.trs(s)
    }
    fn fin(&self, s: usize) -> Result<Option<i64>, String> {
        self.0.fin(s)
    }
    fn count(&self, s: usize, what: u8) -> Result<usize, String> {
        self.0.count(s, what)
    }
    fn each_state(&self, f: &mut dyn FnMut(usize) -> bool) {
        self.0.each_state(f)
    }
    fn each(&self, f: &mut dyn FnMut(usize, Row, Option<i64>, usize) -> bool) {
        self.0.each(f)
    }
    fn compute(&self) -> Result<RefFst, String> {
        self.0.compute()
    }
    fn debug(&self) -> usize {
        self.0.debug()
    }
    fn boxed_clone(&self) -> Option<Shared> {
        None
    }
}

pub type Shared = Box<dyn View + Send + Sync>;

type ComputeFn<F> = fn(&F) -> anyhow::Result<RefFst>;
type CloneFn<F> = fn(&F) -> Shared;

pub struct V<W, F> {
    pub f: F,
    compute: ComputeFn<F>,
    clone: Option<CloneFn<F>>,
    pub clearer: Option<Box<dyn Fn() + Send + Sync>>,
    w: PhantomData<fn() -> W>,
}

impl<W: Wt, F: Fst<W>> V<W, F> {
    pub fn new(f: F, compute: ComputeFn<F>, clone: Option<CloneFn<F>>) -> Self {
        V { f, compute, clone, clearer: None, w: PhantomData }
    }
}

fn row<W: Wt, T: Trs<W>>(t: &T) -> Row {
    t.trs()
        .iter()
        .map(|t| MArc { il: t.ilabel, ol: t.olabel, w: t.weight.val(), next: t.nextstate as usize })
        .collect()
}

fn e<T>(r: anyhow::Result<T>) -> Result<T, String> {
    r.map_err(|x| format!("{:#}", x))
}

impl<W: Wt, F: Fst<W>> View for V<W, F> {
    fn start(&self) -> Option<usize> {
        self.f.start().map(|s| s as usize)
    }
    fn trs(&self, s: usize) -> Result<Row, String> {
        e(self.f.get_trs(s as u32)).map(|t| row::<W, _>(&t))
    }
    fn fin(&self, s: usize) -> Result<Option<i64>, String> {
        e(self.f.final_weight(s as u32)).map(|w| w.map(|w| w.val()))
    }
    fn count(&self, s: usize, what: u8) -> Result<usize, String> {
        e(match what {
            0 => self.f.num_trs(s as u32),
            1 => self.f.num_input_epsilons(s as u32),
            _ => self.f.num_output_epsilons(s as u32),
        })
    }
    fn each_state(&self, f: &mut dyn FnMut(usize) -> bool) {
        for s in self.f.states_iter() {
            if !f(s as usize) {
                break;
            }
        }
    }
    fn each(&self, f: &mut dyn FnMut(usize, Row, Option<i64>, usize) -> bool) {
        for d in self.f.fst_iter() {
            if !f(d.state_id as usize, row::<W, _>(&d.trs), d.final_weight.map(|w| w.val()), d.num_trs) {
                break;
            }
        }
    }
    fn compute(&self) -> Result<RefFst, String> {
        e((self.compute)(&self.f))
    }
    fn debug(&self) -> usize {
        format!("{:?}", self.f).len()
    }
    fn boxed_clone(&self) -> Option<Shared> {
        self.clone.map(|c| c(&self.f))
    }
    fn clear(&self) -> bool {
        match &self.clearer {
            Some(c) => {
                c();
                true
            }
            None => false,
        }
    }
}

pub fn vref<W: Wt>(v: VectorFst<W>) -> RefFst {
    to_ref::<W, _>(&v)
}

/// Expands everything reachable, breadth first; at most `cap` states.
pub fn explore(v: &dyn View, cap: usize) -> Result<Option<RefFst>, String> {
    let mut r = RefFst::default();
    let Some(s0) = v.start() else { return Ok(Some(r)) };
    r.start = Some(s0);
    let mut q = std::collections::VecDeque::from([s0]);
    let mut seen = std::collections::BTreeSet::from([s0]);
    while let Some(s) = q.pop_front() {
        while r.states.len() <= s {
            r.add();
        }
        let t = v.trs(s)?;
        for a in &t {
            if seen.insert(a.next) {
                q.push_back(a.next);
            }
        }
        r.states[s].arcs = t;
        r.states[s].fin = v.fin(s)?;
        if seen.len() > cap {
            return Ok(None);
        }
    }
    let m = seen.last().copied().unwrap_or(0);
    while r.states.len() <= m {
        r.add();
    }
    Ok(Some(r))
}
