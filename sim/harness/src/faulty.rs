//! An input FST whose every call is a fault point: it may fail or panic.
use crate::gen::Wt;
use anyhow::Result;
use rustfst::fst_properties::FstProperties;
use rustfst::fst_traits::*;
use rustfst::prelude::*;
use simrt::faults::{point, Fault, Site};
use std::cell::Cell;
use std::sync::Arc;

thread_local! {
    /// failures and panics injected into calls made by this thread
    static HITS: Cell<(u64, u64)> = const { Cell::new((0, 0)) };
}

pub fn hits() -> (u64, u64) {
    HITS.with(|h| h.get())
}

fn hit(panic: bool) {
    HITS.with(|h| {
        let (a, b) = h.get();
        h.set(if panic { (a, b + 1) } else { (a + 1, b) });
    })
}

pub fn fault() -> Result<()> {
    match point(Site::Callback, 0) {
        Some(Fault::CallErr) => {
            hit(false);
            Err(anyhow::anyhow!("injected failure"))
        }
        Some(Fault::CallPanic) => {
            hit(true);
            std::panic::panic_any("injected panic")
        }
        _ => Ok(()),
    }
}

/// In a call that cannot report failure.
fn fault_panic() {
    if let Some(Fault::CallErr | Fault::CallPanic) = point(Site::Callback, 0) {
        hit(true);
        std::panic::panic_any("injected panic")
    }
}

#[derive(Debug, Clone)]
pub struct Faulty<W: Semiring>(pub VectorFst<W>);

impl<W: Wt> CoreFst<W> for Faulty<W> {
    type TRS = TrsVec<W>;
    fn start(&self) -> Option<StateId> {
        fault_panic();
        self.0.start()
    }
    fn final_weight(&self, s: StateId) -> Result<Option<W>> {
        fault()?;
        self.0.final_weight(s)
    }
    unsafe fn final_weight_unchecked(&self, s: StateId) -> Option<W> {
        fault_panic();
        self.0.final_weight_unchecked(s)
    }
    fn num_trs(&self, s: StateId) -> Result<usize> {
        fault()?;
        self.0.num_trs(s)
    }
    unsafe fn num_trs_unchecked(&self, s: StateId) -> usize {
        fault_panic();
        self.0.num_trs_unchecked(s)
    }
    fn get_trs(&self, s: StateId) -> Result<Self::TRS> {
        fault()?;
        self.0.get_trs(s)
    }
    unsafe fn get_trs_unchecked(&self, s: StateId) -> Self::TRS {
        fault_panic();
        self.0.get_trs_unchecked(s)
    }
    fn properties(&self) -> FstProperties {
        self.0.properties()
    }
    fn num_input_epsilons(&self, s: StateId) -> Result<usize> {
        fault()?;
        self.0.num_input_epsilons(s)
    }
    fn num_output_epsilons(&self, s: StateId) -> Result<usize> {
        fault()?;
        self.0.num_output_epsilons(s)
    }
}
impl<'a, W: Wt> StateIterator<'a> for Faulty<W> {
    type Iter = <VectorFst<W> as StateIterator<'a>>::Iter;
    fn states_iter(&'a self) -> Self::Iter {
        self.0.states_iter()
    }
}
impl<'a, W: Wt> FstIterator<'a, W> for Faulty<W> {
    type FstIter = <VectorFst<W> as FstIterator<'a, W>>::FstIter;
    fn fst_iter(&'a self) -> Self::FstIter {
        self.0.fst_iter()
    }
}
impl<W: Wt> Fst<W> for Faulty<W> {
    fn input_symbols(&self) -> Option<&Arc<SymbolTable>> {
        self.0.input_symbols()
    }
    fn output_symbols(&self) -> Option<&Arc<SymbolTable>> {
        self.0.output_symbols()
    }
    fn set_input_symbols(&mut self, symt: Arc<SymbolTable>) {
        self.0.set_input_symbols(symt)
    }
    fn set_output_symbols(&mut self, symt: Arc<SymbolTable>) {
        self.0.set_output_symbols(symt)
    }
    fn take_input_symbols(&mut self) -> Option<Arc<SymbolTable>> {
        self.0.take_input_symbols()
    }
    fn take_output_symbols(&mut self) -> Option<Arc<SymbolTable>> {
        self.0.take_output_symbols()
    }
}
