//! C12: the C interface, called from several threads.
use crate::gen::{self, Cfg, Cyc};
use crate::util;
use models::{RefFst, Ring};
use rustfst::algorithms::compose::{compose_with_config, ComposeConfig, ComposeFilterEnum, MatcherConfig};
use rustfst::algorithms::compose::matchers::MatcherRewriteMode;
use rustfst::algorithms::compose::SigmaMatcherConfig;
use rustfst::algorithms::concat::concat;
use rustfst::algorithms::determinize::{determinize_with_config, DeterminizeConfig, DeterminizeType};
use rustfst::algorithms::randgen::{randgen_with_config, RandGenConfig, UniformTrSelector};
use rustfst::algorithms::replace::replace;
use rustfst::algorithms::rm_epsilon::rm_epsilon;
use rustfst::algorithms::union::union;
use rustfst::algorithms::*;
use rustfst::fst_impls::ConstFst;
use rustfst::fst_traits::*;
use rustfst::prelude::tr_compares::{ILabelCompare, OLabelCompare};
use rustfst::prelude::*;
use rustfst::utils::{acceptor, transducer};
use rustfst::DrawingConfig;
use rustfst_ffi::algorithms as ffa;
use rustfst_ffi::fst::utils::*;
use rustfst_ffi::fst::vector_fst::*;
use rustfst_ffi::fst::*;
use rustfst_ffi::iterators::*;
use rustfst_ffi::string_path::*;
use rustfst_ffi::string_paths_iterator::*;
use rustfst_ffi::symbol_table::*;
use rustfst_ffi::tr::*;
use rustfst_ffi::trs::*;
use rustfst_ffi::{rustfst_destroy_string, rustfst_ffi_get_last_error, RUSTFST_FFI_RESULT};
use simrt::faults::{self, Fault};
use simrt::rng::Rng;
use simrt::sched::{quietly, Body};
use simrt::{bad, chance, draw, pick, range, vfs, Violation};
use std::ffi::{c_char, c_void, CStr, CString};
use std::ptr::{null, null_mut};
use std::sync::{Arc, Mutex};

extern "C" {
    fn fst_minimize(ptr: *mut CFst) -> RUSTFST_FFI_RESULT;
    fn fst_minimize_config_new(delta: f32, allow_nondet: bool, ptr: *mut *const c_void) -> RUSTFST_FFI_RESULT;
    fn fst_minimize_with_config(ptr: *mut CFst, config: *const c_void) -> RUSTFST_FFI_RESULT;
}

type T = TropicalWeight;
type Tv = VectorFst<T>;
type Arcs = Vec<(u32, u32, u32, u32)>;
type Syms = Vec<(u32, String)>;

/// What an FST handle holds.
#[derive(Clone, PartialEq, Debug, Default)]
struct Con {
    start: Option<u32>,
    finals: Vec<Option<u32>>,
    arcs: Vec<Arcs>,
    isyms: Option<Syms>,
    osyms: Option<Syms>,
    mirror: Mirror,
}

/// The same FST, made by the library's own operations: what an operation answers may
/// depend on which properties are known.
#[derive(Clone)]
struct Mirror(Tv, bool);
impl Default for Mirror {
    fn default() -> Self {
        Mirror(Tv::new(), false)
    }
}
impl PartialEq for Mirror {
    fn eq(&self, _: &Self) -> bool {
        true
    }
}
impl std::fmt::Debug for Mirror {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", if self.1 { "lost" } else { "." })
    }
}

fn arcs(t: &[Tr<T>]) -> Arcs {
    t.iter().map(|t| (t.ilabel, t.olabel, t.weight.value().to_bits(), t.nextstate)).collect()
}

fn syms(t: &SymbolTable) -> Syms {
    t.iter().map(|(l, s)| (l, s.to_string())).collect()
}

fn table(v: &Syms) -> SymbolTable {
    let mut t = SymbolTable::empty();
    for (_, s) in v {
        t.add_symbol(s);
    }
    t
}

fn con<F: ExpandedFst<T>>(f: &F) -> Con {
    let n = f.num_states() as u32;
    Con {
        start: f.start(),
        finals: (0..n).map(|s| f.final_weight(s).unwrap().map(|w| w.value().to_bits())).collect(),
        arcs: (0..n).map(|s| arcs(f.get_trs(s).unwrap().trs())).collect(),
        isyms: f.input_symbols().map(|t| syms(t)),
        osyms: f.output_symbols().map(|t| syms(t)),
        mirror: Mirror(Tv::new(), true),
    }
}

fn mirrored(f: Tv) -> Con {
    let mut c = con(&f);
    c.mirror = Mirror(f, false);
    c
}

impl Con {
    fn fst(&self) -> Tv {
        if !self.mirror.1 {
            let c = con(&self.mirror.0);
            if c == *self {
                return self.mirror.0.clone();
            }
            panic!("harness: mirror {:?} of {:?}", c, self);
        }
        self.plain()
    }
    fn plain(&self) -> Tv {
        let mut v = Tv::new();
        v.add_states(self.finals.len());
        for (i, a) in self.arcs.iter().enumerate() {
            for a in a {
                v.add_tr(i as u32, Tr::new(a.0, a.1, T::new(f32::from_bits(a.2)), a.3)).unwrap();
            }
        }
        for (i, f) in self.finals.iter().enumerate() {
            if let Some(w) = f {
                v.set_final(i as u32, T::new(f32::from_bits(*w))).unwrap();
            }
        }
        if let Some(x) = self.start {
            v.set_start(x).unwrap();
        }
        if let Some(t) = &self.isyms {
            v.set_input_symbols(Arc::new(table(t)));
        }
        if let Some(t) = &self.osyms {
            v.set_output_symbols(Arc::new(table(t)));
        }
        v
    }
    /// Changes the mirror, too.
    fn also(&mut self, f: impl FnOnce(&mut Tv)) {
        if !self.mirror.1 {
            quietly(|| f(&mut self.mirror.0));
        }
    }
    /// As read back from its stored form.
    fn stored(&self) -> Con {
        quietly(|| {
            let mut b = vec![];
            self.fst().store(&mut b).unwrap();
            let mut c = mirrored(VectorFst::load(&b).unwrap());
            c.mirror.1 = self.mirror.1;
            c
        })
    }
    fn lang(&self) -> Option<models::Map> {
        // the model has whole weights
        let whole = |w: u32| f32::from_bits(w).fract() == 0.0 && f32::from_bits(w).abs() < 1e6;
        if !self.finals.iter().flatten().all(|w| whole(*w)) || !self.arcs.iter().flatten().all(|a| whole(a.2)) {
            return None;
        }
        gen::to_ref::<T, _>(&self.plain()).lang(Ring::Trop, 4, 4, 4000).finite()
    }
    fn acyclic(&self) -> bool {
        let n = self.arcs.len();
        let mut deg = vec![0; n];
        for a in self.arcs.iter().flatten() {
            deg[a.3 as usize] += 1;
        }
        let mut q: Vec<usize> = (0..n).filter(|s| deg[*s] == 0).collect();
        let mut seen = 0;
        while let Some(s) = q.pop() {
            seen += 1;
            for a in &self.arcs[s] {
                deg[a.3 as usize] -= 1;
                if deg[a.3 as usize] == 0 {
                    q.push(a.3 as usize);
                }
            }
        }
        seen == n
    }
    fn whole(&self) -> bool {
        self.finals.iter().flatten().chain(self.arcs.iter().flatten().map(|a| &a.2)).all(|w| f32::from_bits(*w).is_finite())
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Vector,
    Const,
    Concat,
}

enum Item {
    Fst { p: *mut CFst, kind: Kind, is: Con },
    Symt { p: *mut CSymbolTable, is: Syms, alone: bool },
    Trs { p: *mut CTrs, is: Arcs },
}
unsafe impl Send for Item {}
unsafe impl Sync for Item {}

#[derive(Default)]
struct Ctx {
    shared: Vec<Item>,
    exchange: Mutex<Vec<Item>>,
    faulty: bool,
}
unsafe impl Sync for Ctx {}

#[derive(Default)]
struct Th {
    id: usize,
    n: u64,
    none: String,
    items: Vec<Item>,
    wrong: Option<(&'static str, String)>,
    calls: u64,
    failures: u64,
    files: Vec<(String, Con)>,
}

type R<X> = Result<X, (&'static str, String)>;

fn no<X>(class: &'static str, msg: String) -> R<X> {
    Err((class, msg))
}

fn is_ok(r: &RUSTFST_FFI_RESULT) -> bool {
    *r == RUSTFST_FFI_RESULT::RUSTFST_FFI_RESULT_OK
}

fn cs(s: &str) -> CString {
    CString::new(s).unwrap()
}

/// Tokens of failing calls in a message.
fn tokens(m: &str) -> Vec<String> {
    let b: Vec<char> = m.chars().collect();
    let mut res = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() {
            let j = (i..b.len()).find(|j| !b[*j].is_ascii_digit()).unwrap_or(b.len());
            if j - i == 9 && b[i] == '7' {
                res.push(b[i..j].iter().collect());
            }
            i = j;
        } else {
            i += 1;
        }
    }
    res
}

fn string(p: *const c_char) -> String {
    let s = unsafe { CStr::from_ptr(p) }.to_string_lossy().into_owned();
    unsafe { rustfst_destroy_string(p as *mut c_char) };
    s
}

impl Th {
    fn last_error(&mut self) -> R<String> {
        let mut e: *mut c_char = null_mut();
        if !is_ok(&unsafe { rustfst_ffi_get_last_error(&mut e) }) || e.is_null() {
            return no("error", "rustfst_ffi_get_last_error failed".into());
        }
        Ok(string(e))
    }
    /// This call must succeed.
    fn ok(&mut self, what: &str, r: RUSTFST_FFI_RESULT) -> R<()> {
        self.calls += 1;
        if is_ok(&r) {
            return Ok(());
        }
        let m = self.last_error()?;
        no("refused", format!("{} failed: {}", what, m))
    }
    /// A token to be found in the message of the next failure: the thread, then a count.
    fn token(&mut self) -> u32 {
        self.n += 1;
        700_000_000 + self.id as u32 * 10_000_000 + (self.n as u32 % 10_000_000)
    }
    /// This call must fail, with this token in its message.
    fn ko(&mut self, what: &str, r: RUSTFST_FFI_RESULT, token: Option<u32>, rng: &mut Rng) -> R<()> {
        self.calls += 1;
        if is_ok(&r) {
            return no("accepted", format!("{} succeeded", what));
        }
        self.failures += 1;
        // the caller cleans up first
        for _ in 0..rng.below(3) {
            self.harmless(rng)?;
        }
        let m = self.last_error()?;
        simrt::sched::trace(|| format!("thread {}: {} failed, message {:?}", self.id, what, m));
        if m == self.none {
            return no("lost message", format!("thread {}: {} failed, but there is no message", self.id, what));
        }
        let t = tokens(&m);
        match token {
            Some(k) if t.is_empty() || t.iter().any(|x| *x != k.to_string()) => return no("wrong message", format!("thread {}: {} (mark {}) failed; the message read is {:?}", self.id, what, k, m)),
            None if !t.is_empty() => return no("wrong message", format!("thread {}: {} failed; the message read is {:?}", self.id, what, m)),
            _ => {}
        }
        if rng.below(3) == 0 {
            let again = self.last_error()?;
            if again != self.none {
                return no("stale message", format!("thread {}: after the message of {} was read, another is there: {:?}", self.id, what, again));
            }
        }
        Ok(())
    }
    fn harmless(&mut self, rng: &mut Rng) -> R<()> {
        match rng.below(4) {
            0 => {
                let mut w = 5f32;
                let r = unsafe { fst_weight_one(&mut w) };
                self.ok("fst_weight_one", r)?;
                if w != 0.0 {
                    return no("result", format!("weight one is {}", w));
                }
            }
            1 => {
                let mut w = 5f32;
                let r = unsafe { fst_weight_zero(&mut w) };
                self.ok("fst_weight_zero", r)?;
                if w != f32::INFINITY {
                    return no("result", format!("weight zero is {}", w));
                }
            }
            2 => {
                let r = unsafe { fst_destroy(null_mut()) };
                self.ok("fst_destroy(NULL)", r)?;
            }
            _ => {
                let mut p: *const CSymbolTable = null();
                let r = unsafe { symt_new(&mut p) };
                self.ok("symt_new", r)?;
                let r = unsafe { symt_destroy(p as *mut _) };
                self.ok("symt_destroy", r)?;
            }
        }
        Ok(())
    }

    fn read_symt(&mut self, p: *const CSymbolTable) -> R<Syms> {
        let mut n = usize::MAX;
        let r = unsafe { symt_num_symbols(p, &mut n) };
        self.ok("symt_num_symbols", r)?;
        let mut v = vec![];
        for i in 0..n.min(50) as u32 {
            let mut there = 9;
            let r = unsafe { symt_member_index(p, i, &mut there) };
            self.ok("symt_member_index", r)?;
            let mut s: *const c_char = null();
            let r = unsafe { symt_find_index(p, i, &mut s) };
            self.ok("symt_find_index", r)?;
            let s = string(s);
            let mut k = usize::MAX;
            let r = unsafe { symt_find_symbol(p, cs(&s).as_ptr(), &mut k) };
            self.ok("symt_find_symbol", r)?;
            let mut m = 9;
            let r = unsafe { symt_member_symbol(p, cs(&s).as_ptr(), &mut m) };
            self.ok("symt_member_symbol", r)?;
            if k != i as usize || there != 1 || m != 1 {
                return no("result", format!("symbol {} of a table is {:?}, whose label is {} (members: {} {})", i, s, k, there, m));
            }
            v.push((i, s));
        }
        Ok(v)
    }

    fn tr(&mut self, p: *const CTr) -> R<(u32, u32, u32, u32)> {
        let (mut i, mut o, mut w, mut n) = (u32::MAX, u32::MAX, f32::NAN, u32::MAX);
        let r = unsafe { tr_ilabel(p, &mut i) };
        self.ok("tr_ilabel", r)?;
        let r = unsafe { tr_olabel(p, &mut o) };
        self.ok("tr_olabel", r)?;
        let r = unsafe { tr_weight(p, &mut w) };
        self.ok("tr_weight", r)?;
        let r = unsafe { tr_next_state(p, &mut n) };
        self.ok("tr_next_state", r)?;
        let r = unsafe { tr_delete(p as *mut _) };
        self.ok("tr_delete", r)?;
        Ok((i, o, w.to_bits(), n))
    }

    fn new_tr(&mut self, a: (u32, u32, u32, u32), rng: &mut Rng) -> R<*const CTr> {
        let mut p: *const CTr = null();
        let w = f32::from_bits(a.2);
        if rng.below(2) == 0 {
            let r = unsafe { tr_new(a.0, a.1, w, a.3, &mut p) };
            self.ok("tr_new", r)?;
        } else {
            let r = unsafe { tr_new(91, 92, 93.0, 94, &mut p) };
            self.ok("tr_new", r)?;
            // these take the value in the place of the pointer
            let q = p as *mut CTr;
            let r = unsafe { tr_set_olabel(q, a.1 as usize as *const u32) };
            self.ok("tr_set_olabel", r)?;
            let r = unsafe { tr_set_ilabel(q, a.0 as usize as *const u32) };
            self.ok("tr_set_ilabel", r)?;
            let r = unsafe { tr_set_weight(q, w) };
            self.ok("tr_set_weight", r)?;
            let r = unsafe { tr_set_next_state(q, a.3 as usize as *const u32) };
            self.ok("tr_set_next_state", r)?;
        }
        Ok(p)
    }

    fn read_trs(&mut self, p: *const CTrs) -> R<Arcs> {
        let mut n = usize::MAX;
        let r = unsafe { trs_vec_len(p, &mut n) };
        self.ok("trs_vec_len", r)?;
        let mut q: *const CTrs = null();
        let r = unsafe { trs_vec_shallow_clone(p, &mut q) };
        self.ok("trs_vec_shallow_clone", r)?;
        let mut v = vec![];
        for k in (0..n.min(100)).rev() {
            let mut t: *const CTr = null();
            let r = unsafe { trs_vec_remove(q as *mut _, k, &mut t) };
            self.ok("trs_vec_remove", r)?;
            v.push(self.tr(t)?);
        }
        v.reverse();
        let r = unsafe { trs_vec_delete(q as *mut _) };
        self.ok("trs_vec_delete", r)?;
        Ok(v)
    }

    fn row(&mut self, p: *const CFst, s: u32, rng: &mut Rng) -> R<(Option<u32>, Arcs)> {
        let mut w = f32::NAN;
        let r = unsafe { fst_final_weight(p, s, &mut w) };
        self.ok("fst_final_weight", r)?;
        let fin = if w.is_nan() { None } else { Some(w.to_bits()) };
        let mut f = 9;
        let r = unsafe { fst_is_final(p, s, &mut f) };
        self.ok("fst_is_final", r)?;
        if (f == 1) != fin.is_some() || f > 1 {
            return no("result", format!("state {}: final weight {:?}, is_final {}", s, fin, f));
        }
        let mut n = usize::MAX;
        let r = unsafe { fst_num_trs(p, s, &mut n) };
        self.ok("fst_num_trs", r)?;
        let v = if rng.below(2) == 0 {
            let mut t: *const CTrs = null();
            let r = unsafe { fst_get_trs(p, s, &mut t) };
            self.ok("fst_get_trs", r)?;
            let v = self.read_trs(t)?;
            let r = unsafe { trs_vec_delete(t as *mut _) };
            self.ok("trs_vec_delete", r)?;
            v
        } else {
            let mut it: *const CTrsIterator = null();
            let r = unsafe { trs_iterator_new(p as *mut _, s, &mut it) };
            self.ok("trs_iterator_new", r)?;
            if it.is_null() {
                return no("result", format!("no iterator over the transitions of state {}", s));
            }
            let it = it as *mut CTrsIterator;
            let mut v = vec![];
            for round in 0..2 {
                v.clear();
                loop {
                    let mut d = 9;
                    let r = unsafe { trs_iterator_done(it, &mut d) };
                    self.ok("trs_iterator_done", r)?;
                    if d == 1 {
                        break;
                    }
                    let mut t: *const CTr = null();
                    let r = unsafe { trs_iterator_next(it, &mut t) };
                    self.ok("trs_iterator_next", r)?;
                    if t.is_null() || v.len() > 200 {
                        return no("result", format!("the iterator over the transitions of state {} is not done, but has no more", s));
                    }
                    v.push(self.tr(t)?);
                }
                if round == 0 {
                    // nothing after the end, however often one asks
                    for _ in 0..rng.below(3) {
                        let mut t = 8 as *const CTr;
                        let r = unsafe { trs_iterator_next(it, &mut t) };
                        self.ok("trs_iterator_next", r)?;
                        let mut d = 9;
                        let r = unsafe { trs_iterator_done(it, &mut d) };
                        self.ok("trs_iterator_done", r)?;
                        if !t.is_null() || d != 1 {
                            return no("result", format!("after the last transition of state {}: pointer {:?}, done {}", s, t, d));
                        }
                    }
                    if rng.below(2) == 0 {
                        break;
                    }
                    let r = unsafe { trs_iterator_reset(it) };
                    self.ok("trs_iterator_reset", r)?;
                }
            }
            let r = unsafe { trs_iterator_destroy(it) };
            self.ok("trs_iterator_destroy", r)?;
            v
        };
        if v.len() != n {
            return no("result", format!("state {} has {} transitions, num_trs says {}", s, v.len(), n));
        }
        Ok((fin, v))
    }

    fn start(&mut self, p: *const CFst) -> R<Option<u32>> {
        let mut s = u32::MAX;
        let r = unsafe { fst_start(p, &mut s) };
        self.ok("fst_start", r)?;
        let s = if s == u32::MAX { None } else { Some(s) };
        if let Some(s) = s {
            let mut f = 9;
            let r = unsafe { fst_is_start(p, s, &mut f) };
            self.ok("fst_is_start", r)?;
            let mut g = 9;
            let r = unsafe { fst_is_start(p, s + 1, &mut g) };
            self.ok("fst_is_start", r)?;
            if f != 1 || g != 0 {
                return no("result", format!("start state {}: is_start says {} and {} of the next one", s, f, g));
            }
        }
        Ok(s)
    }

    fn symt_of(&mut self, p: *const CFst, input: bool) -> R<*const CSymbolTable> {
        let mut t = 8 as *const CSymbolTable;
        if input {
            let r = unsafe { fst_input_symbols(p, &mut t) };
            self.ok("fst_input_symbols", r)?;
        } else {
            let r = unsafe { fst_output_symbols(p, &mut t) };
            self.ok("fst_output_symbols", r)?;
        }
        if t == 8 as *const CSymbolTable {
            return no("result", "fst_input_symbols / fst_output_symbols succeeded without setting the pointer".into());
        }
        Ok(t)
    }

    fn read_fst(&mut self, p: *const CFst, kind: Kind, n: usize, rng: &mut Rng) -> R<Con> {
        let start = self.start(p)?;
        let mut n = n;
        if kind == Kind::Vector {
            let r = unsafe { vec_fst_num_states(p, &mut n) };
            self.ok("vec_fst_num_states", r)?;
        }
        let mut c = Con { start, mirror: Mirror(Tv::new(), true), ..Default::default() };
        for s in 0..n.min(400) as u32 {
            let (f, a) = self.row(p, s, rng)?;
            c.finals.push(f);
            c.arcs.push(a);
        }
        for input in [true, false] {
            let t = self.symt_of(p, input)?;
            if t.is_null() {
                continue;
            }
            let v = self.read_symt(t)?;
            let r = unsafe { symt_destroy(t as *mut _) };
            self.ok("symt_destroy", r)?;
            if input {
                c.isyms = Some(v);
            } else {
                c.osyms = Some(v);
            }
        }
        Ok(c)
    }

    /// A lazy FST, explored through the interface.
    fn explore(&mut self, p: *const CFst, rng: &mut Rng) -> R<RefFst> {
        let mut f = RefFst::default();
        let mut ids = vec![];
        let mut at = std::collections::HashMap::new();
        if let Some(s) = self.start(p)? {
            ids.push(s);
            at.insert(s, f.add());
            f.start = Some(0);
        }
        let mut i = 0;
        while i < ids.len() && i < 200 {
            let (fin, a) = self.row(p, ids[i], rng)?;
            f.states[i].fin = fin.map(|w| f32::from_bits(w) as i64);
            for a in a {
                let n = match at.get(&a.3) {
                    Some(n) => *n,
                    None => {
                        ids.push(a.3);
                        let n = f.add();
                        at.insert(a.3, n);
                        n
                    }
                };
                f.arc(i, a.0, a.1, f32::from_bits(a.2) as i64, n);
            }
            i += 1;
        }
        Ok(f)
    }

    fn check(&mut self, it: &Item, rng: &mut Rng) -> R<()> {
        match it {
            Item::Fst { p, kind: Kind::Concat, is } => {
                let f = self.explore(*p, rng)?;
                let (got, want) = quietly(|| (f.lang(Ring::Trop, 4, 4, 4000).finite(), is.lang()));
                if let (Some(g), Some(w)) = (got, want) {
                    if g != w {
                        return no("changed", format!("a lazy concatenation: {}", models::diff(&w, &g)));
                    }
                }
            }
            Item::Fst { p, kind, is } => {
                let c = self.read_fst(*p, *kind, is.finals.len(), rng)?;
                if c != *is {
                    return no("changed", format!("{:?} FST: was {:?}, is {:?}", kind, is, c));
                }
            }
            Item::Symt { p, is, .. } => {
                let v = self.read_symt(*p)?;
                if v != *is {
                    return no("changed", format!("symbol table: was {:?}, is {:?}", is, v));
                }
            }
            Item::Trs { p, is } => {
                let v = self.read_trs(*p)?;
                if v != *is {
                    return no("changed", format!("transitions: were {:?}, are {:?}", is, v));
                }
            }
        }
        Ok(())
    }

    fn destroy(&mut self, it: Item) -> R<()> {
        match it {
            Item::Fst { p, .. } => {
                let r = unsafe { fst_destroy(p) };
                self.ok("fst_destroy", r)
            }
            Item::Symt { p, .. } => {
                let r = unsafe { symt_destroy(p) };
                self.ok("symt_destroy", r)
            }
            Item::Trs { p, .. } => {
                let r = unsafe { trs_vec_delete(p) };
                self.ok("trs_vec_delete", r)
            }
        }
    }

    /// The outcome of `what` agrees with the library's own.
    fn agree(&mut self, what: &str, r: RUSTFST_FFI_RESULT, lib: &Result<Con, String>, lost: bool, rng: &mut Rng) -> R<bool> {
        if lost && is_ok(&r) != lib.is_ok() {
            simrt::probe("mirror lost");
            let ok = is_ok(&r);
            if !ok {
                self.ko_any(what, r, rng)?;
            }
            return Ok(ok);
        }
        match lib {
            Ok(_) => {
                self.ok(what, r)?;
                Ok(true)
            }
            Err(_) => {
                self.ko(what, r, None, rng)?;
                Ok(false)
            }
        }
    }

    /// Takes over the result of an operation after comparing it with the library's own.
    fn adopt(&mut self, what: &str, p: *const CFst, lib: Con, exact: bool, rng: &mut Rng) -> R<Con> {
        let mut c = self.read_fst(p, Kind::Vector, 0, rng)?;
        if c == lib {
            return Ok(lib);
        }
        simrt::probe("other numbering");
        c.mirror.1 = true;
        if exact || c.isyms != lib.isyms || c.osyms != lib.osyms {
            return no("result", format!("{} gave {:?}; the library gives {:?}", what, c, lib));
        }
        let (g, w) = quietly(|| (c.lang(), lib.lang()));
        if let (Some(g), Some(w)) = (g, w) {
            if g != w {
                return no("result", format!("{} gave {:?}; the library gives {:?}: {}", what, c, lib, models::diff(&w, &g)));
            }
        }
        Ok(c)
    }
}

/// The library's own operation, or `None` if it panics.
fn lib(f: impl FnOnce() -> anyhow::Result<Con>) -> Option<Result<Con, String>> {
    quietly(|| match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => Some(r.map_err(|e| format!("{:#}", e))),
        Err(_) => {
            simrt::take_panic();
            simrt::probe("refused");
            None
        }
    })
}


const COMPOSE: [ComposeFilterEnum; 5] = [
    ComposeFilterEnum::AutoFilter,
    ComposeFilterEnum::SequenceFilter,
    ComposeFilterEnum::AltSequenceFilter,
    ComposeFilterEnum::MatchFilter,
    ComposeFilterEnum::TrivialFilter,
];
const COMPOSE_NO: [usize; 5] = [0, 3, 4, 5, 2];

fn rand_tr(rng: &mut Rng, n: u64) -> (u32, u32, u32, u32) {
    (rng.below(4) as u32, rng.below(4) as u32, (rng.below(5) as f32).to_bits(), rng.below(n.max(1)) as u32)
}

fn as_tr(a: (u32, u32, u32, u32)) -> Tr<T> {
    Tr::new(a.0, a.1, T::new(f32::from_bits(a.2)), a.3)
}

/// Failing calls that touch nothing.
fn fail(th: &mut Th, c: &Ctx, rng: &mut Rng) -> R<()> {
    let k = th.token();
    let shared = &c.shared[rng.below(c.shared.len() as u64) as usize];
    let (p, kind) = match shared {
        Item::Fst { p, kind, .. } => (*p, *kind),
        _ => unreachable!(),
    };
    match rng.below(14) {
        0 | 1 => {
            let mut t: *const CSymbolTable = null();
            let r = unsafe { symt_new(&mut t) };
            th.ok("symt_new", r)?;
            let t = t as *mut CSymbolTable;
            let mut key = 55usize;
            let r = unsafe { symt_find_symbol(t, cs(&format!("s{}", k)).as_ptr(), &mut key) };
            th.ko("symt_find_symbol", r, Some(k), rng)?;
            if key != 55 {
                return no("result", format!("a failing symt_find_symbol changed the key to {}", key));
            }
            let r = unsafe { symt_destroy(t) };
            th.ok("symt_destroy", r)?;
        }
        2 | 3 => {
            let mut t: *const CSymbolTable = null();
            let r = unsafe { symt_new(&mut t) };
            th.ok("symt_new", r)?;
            let mut s: *const c_char = null();
            let r = unsafe { symt_find_index(t, k, &mut s) };
            let r2 = unsafe { symt_destroy(t as *mut _) };
            th.ok("symt_destroy", r2)?;
            th.ko("symt_find_index", r, Some(k), rng)?;
        }
        4 => {
            let mut t: *const CSymbolTable = null();
            let r = unsafe { symt_new(&mut t) };
            th.ok("symt_new", r)?;
            let mut f: *const CFst = null();
            let r = unsafe { utils_string_to_acceptor(cs(&format!("s{}", k)).as_ptr(), t as *mut _, 1.0, &mut f) };
            th.ko("utils_string_to_acceptor", r, Some(k), rng)?;
            let r = unsafe { symt_destroy(t as *mut _) };
            th.ok("symt_destroy", r)?;
        }
        5 if kind != Kind::Concat => {
            let mut w = 5.0;
            let r = unsafe { fst_final_weight(p, k, &mut w) };
            th.ko("fst_final_weight", r, Some(k), rng)?;
        }
        6 if kind != Kind::Concat => {
            let mut n = 5;
            let r = unsafe { fst_num_trs(p, k, &mut n) };
            th.ko("fst_num_trs", r, Some(k), rng)?;
        }
        7 if kind != Kind::Concat => {
            let mut t: *const CTrs = null();
            let r = unsafe { fst_get_trs(p, k, &mut t) };
            th.ko("fst_get_trs", r, Some(k), rng)?;
        }
        8 => {
            let mut f: *const CFst = null();
            let r = unsafe { vec_fst_from_path(&mut f, cs(&format!("/simfs/none{}", k)).as_ptr()) };
            // the message need not name the file
            th.ko_any("vec_fst_from_path", r, rng)?;
        }
        9 if kind != Kind::Vector => {
            let mut n = 5;
            let r = unsafe { vec_fst_num_states(p, &mut n) };
            th.ko("vec_fst_num_states of another kind of FST", r, None, rng)?;
        }
        10 if kind != Kind::Const => {
            let mut n: *const CFst = null();
            let r = unsafe { const_fst::const_fst_copy(p, &mut n) };
            th.ko("const_fst_copy of another kind of FST", r, None, rng)?;
        }
        11 => {
            let mut s = 7;
            let r = unsafe { fst_start(null(), &mut s) };
            th.ko("fst_start(NULL)", r, None, rng)?;
        }
        12 => {
            // no such state: the iterator is NULL or the call fails
            if kind != Kind::Concat {
                let mut it = 8 as *const CTrsIterator;
                let r = unsafe { trs_iterator_new(p, k, &mut it) };
                if is_ok(&r) {
                    if !it.is_null() {
                        return no("result", "trs_iterator_new of an unknown state succeeded without setting the pointer to NULL".into());
                    }
                } else {
                    th.ko("trs_iterator_new", r, Some(k), rng)?;
                }
            }
        }
        _ => {
            let mut t: *const CTrs = null();
            let r = unsafe { trs_vec_new(&mut t) };
            th.ok("trs_vec_new", r)?;
            let n = rng.below(3);
            for _ in 0..n {
                let x = th.new_tr(rand_tr(rng, 3), rng)?;
                let r = unsafe { trs_vec_push(t as *mut _, x) };
                th.ok("trs_vec_push", r)?;
                let r = unsafe { tr_delete(x as *mut _) };
                th.ok("tr_delete", r)?;
            }
            let mut x: *const CTr = null();
            let r = unsafe { trs_vec_remove(t as *mut _, (n + rng.below(3)) as usize, &mut x) };
            th.ko("trs_vec_remove after the end", r, None, rng)?;
            let r = unsafe { trs_vec_delete(t as *mut _) };
            th.ok("trs_vec_delete", r)?;
        }
    }
    Ok(())
}

impl Th {
    /// Must fail; the message may or may not carry a mark of this thread's last failure.
    fn ko_any(&mut self, what: &str, r: RUSTFST_FFI_RESULT, rng: &mut Rng) -> R<()> {
        let k = 700_000_000 + self.id as u32 * 10_000_000 + (self.n as u32 % 10_000_000);
        self.calls += 1;
        if is_ok(&r) {
            return no("accepted", format!("{} succeeded", what));
        }
        self.failures += 1;
        for _ in 0..rng.below(3) {
            self.harmless(rng)?;
        }
        let m = self.last_error()?;
        if m == self.none {
            return no("lost message", format!("thread {}: {} failed, but there is no message", self.id, what));
        }
        if tokens(&m).iter().any(|t| *t != k.to_string()) {
            return no("wrong message", format!("thread {}: {} failed; the message read is {:?}", self.id, what, m));
        }
        Ok(())
    }
}

/// A new vector FST with these contents, built through the interface.
fn construct(th: &mut Th, c: &Con, rng: &mut Rng) -> R<Item> {
    let mut p: *const CFst = null();
    if rng.below(3) == 0 {
        let bytes = quietly(|| {
            let mut b = vec![];
            c.fst().store(&mut b).unwrap();
            b
        });
        let a = quietly(|| <ffi_convert::CArray<u8> as ffi_convert::CReprOf<Vec<u8>>>::c_repr_of(bytes).unwrap());
        let r = unsafe { vec_fst_from_bytes(&a, &mut p) };
        th.ok("vec_fst_from_bytes", r)?;
        return Ok(Item::Fst { p: p as *mut _, kind: Kind::Vector, is: c.stored() });
    }
    let mut is = Con::default();
    let r = unsafe { vec_fst_new(&mut p) };
    th.ok("vec_fst_new", r)?;
    let p = p as *mut CFst;
    for i in 0..c.finals.len() {
        let mut s = u32::MAX;
        let r = unsafe { vec_fst_add_state(p, &mut s) };
        th.ok("vec_fst_add_state", r)?;
        if s as usize != i {
            return no("result", format!("state {} added as {}", i, s));
        }
        is.also(|m| {
            m.add_state();
        });
    }
    if let Some(s) = c.start {
        let r = unsafe { vec_fst_set_start(p, s) };
        th.ok("vec_fst_set_start", r)?;
        is.also(|m| m.set_start(s).unwrap());
    }
    for (i, a) in c.arcs.iter().enumerate() {
        for a in a {
            let t = th.new_tr(*a, rng)?;
            let r = unsafe { vec_fst_add_tr(p, i as u32, t) };
            th.ok("vec_fst_add_tr", r)?;
            let r = unsafe { tr_delete(t as *mut _) };
            th.ok("tr_delete", r)?;
            is.also(|m| m.add_tr(i as u32, as_tr(*a)).unwrap());
        }
    }
    for (i, w) in c.finals.iter().enumerate() {
        if let Some(w) = w {
            let r = unsafe { vec_fst_set_final(p, i as u32, f32::from_bits(*w)) };
            th.ok("vec_fst_set_final", r)?;
            is.also(|m| m.set_final(i as u32, T::new(f32::from_bits(*w))).unwrap());
        }
    }
    for (input, t) in [(true, &c.isyms), (false, &c.osyms)] {
        if let Some(t) = t {
            let q = new_table(th, t)?;
            let r = unsafe { if input { fst_set_input_symbols(p, q) } else { fst_set_output_symbols(p, q) } };
            th.ok("fst_set_symbols", r)?;
            let r = unsafe { symt_destroy(q) };
            th.ok("symt_destroy", r)?;
            is.also(|m| {
                let t = Arc::new(table(t));
                if input {
                    m.set_input_symbols(t)
                } else {
                    m.set_output_symbols(t)
                }
            });
        }
    }
    let is = quietly(|| mirrored(is.mirror.0));
    Ok(Item::Fst { p, kind: Kind::Vector, is })
}

fn new_table(th: &mut Th, t: &Syms) -> R<*mut CSymbolTable> {
    let mut q: *const CSymbolTable = null();
    let r = unsafe { symt_new(&mut q) };
    th.ok("symt_new", r)?;
    let q = q as *mut CSymbolTable;
    for (l, s) in t {
        let mut k = usize::MAX;
        let r = unsafe { symt_add_symbol(q, cs(s).as_ptr(), &mut k) };
        th.ok("symt_add_symbol", r)?;
        if k != *l as usize {
            return no("result", format!("symbol {} added as {}", l, k));
        }
    }
    Ok(q)
}

/// One operation on an FST handle; new handles go to `more`.
fn fst_op(th: &mut Th, c: &Ctx, p: *mut CFst, is: &mut Con, other: (*const CFst, &Con), more: &mut Vec<Item>, rng: &mut Rng) -> R<()> {
    let n = is.finals.len() as u64;
    let st = |rng: &mut Rng| if n == 0 || rng.below(6) == 0 { None } else { Some(rng.below(n) as u32) };
    let code = rng.below(46);
    simrt::sched::trace(|| format!("thread {}: operation {} on {:?}", th.id, code, is));
    if matches!(code, 26 | 27 | 38 | 39 | 42 | 43) {
        simrt::sched::trace(|| format!("  with {:?}", other.1));
        is.mirror.1 |= other.1.mirror.1;
    }
    match code {
        0 => {
            let mut s = u32::MAX;
            let r = unsafe { vec_fst_add_state(p, &mut s) };
            th.ok("vec_fst_add_state", r)?;
            is.finals.push(None);
            is.arcs.push(vec![]);
            is.also(|m| {
                m.add_state();
            });
            if s as u64 != n {
                return no("result", format!("vec_fst_add_state gave {} with {} states", s, n));
            }
        }
        1 => match st(rng) {
            Some(s) => {
                let r = unsafe { vec_fst_set_start(p, s) };
                th.ok("vec_fst_set_start", r)?;
                is.start = Some(s);
                is.also(|m| m.set_start(s).unwrap());
            }
            None => {
                let k = th.token();
                let r = unsafe { vec_fst_set_start(p, k) };
                th.ko("vec_fst_set_start", r, Some(k), rng)?;
            }
        },
        2 => match st(rng) {
            Some(s) => {
                let w = rng.below(9) as f32;
                let r = unsafe { vec_fst_set_final(p, s, w) };
                th.ok("vec_fst_set_final", r)?;
                is.finals[s as usize] = Some(w.to_bits());
                is.also(|m| m.set_final(s, T::new(w)).unwrap());
            }
            None => {
                let k = th.token();
                let r = unsafe { vec_fst_set_final(p, k, 1.0) };
                th.ko("vec_fst_set_final", r, Some(k), rng)?;
            }
        },
        3..=5 => match st(rng) {
            Some(s) => {
                let a = rand_tr(rng, n);
                let t = th.new_tr(a, rng)?;
                let r = unsafe { vec_fst_add_tr(p, s, t) };
                th.ok("vec_fst_add_tr", r)?;
                let r = unsafe { tr_delete(t as *mut _) };
                th.ok("tr_delete", r)?;
                is.arcs[s as usize].push(a);
                is.also(|m| m.add_tr(s, as_tr(a)).unwrap());
            }
            None => {
                let k = th.token();
                let t = th.new_tr((1, 1, 0, 0), rng)?;
                let r = unsafe { vec_fst_add_tr(p, k, t) };
                let r2 = unsafe { tr_delete(t as *mut _) };
                th.ok("tr_delete", r2)?;
                th.ko("vec_fst_add_tr", r, Some(k), rng)?;
            }
        },
        6 => match st(rng) {
            Some(s) => {
                let r = unsafe { vec_fst_del_final_weight(p, s) };
                th.ok("vec_fst_del_final_weight", r)?;
                is.finals[s as usize] = None;
                is.also(|m| m.delete_final_weight(s).unwrap());
            }
            None => {
                let k = th.token();
                let r = unsafe { vec_fst_del_final_weight(p, k) };
                th.ko("vec_fst_del_final_weight", r, Some(k), rng)?;
            }
        },
        7 => {
            if rng.below(5) == 0 {
                let r = unsafe { vec_fst_delete_states(p) };
                th.ok("vec_fst_delete_states", r)?;
                is.start = None;
                is.finals.clear();
                is.arcs.clear();
                is.also(|m| m.del_all_states());
            }
        }
        8..=10 => {
            let mut q: *const CFst = null();
            let r = unsafe { vec_fst_copy(p, &mut q) };
            th.ok("vec_fst_copy", r)?;
            if q == p {
                return no("result", "vec_fst_copy gave the same handle".into());
            }
            more.push(Item::Fst { p: q as *mut _, kind: Kind::Vector, is: is.clone() });
        }
        11 | 12 => {
            let input = rng.below(2) == 0;
            let t = th.symt_of(p, input)?;
            let want = if input { &is.isyms } else { &is.osyms };
            match want {
                None if !t.is_null() => return no("result", "a symbol table out of nothing".into()),
                None => {}
                Some(v) => {
                    if t.is_null() {
                        return no("result", "a symbol table is missing".into());
                    }
                    more.push(Item::Symt { p: t as *mut _, is: v.clone(), alone: false });
                }
            }
        }
        13 => {
            let input = rng.below(2) == 0;
            let r = unsafe { if input { fst_unset_input_symbols(p) } else { fst_unset_output_symbols(p) } };
            th.ok("fst_unset_symbols", r)?;
            if input {
                is.isyms = None;
            } else {
                is.osyms = None;
            }
            is.also(|m| {
                if input {
                    m.take_input_symbols();
                } else {
                    m.take_output_symbols();
                }
            });
        }
        14 | 15 => {
            // the symbol table handle goes on living, attached
            let v: Syms = std::iter::once("<eps>").chain(["a", "b", "c", "d"]).enumerate().map(|(i, s)| (i as u32, s.to_string())).collect();
            let q = new_table(th, &v)?;
            let both = rng.below(2) == 0;
            let r = unsafe { fst_set_input_symbols(p, q) };
            th.ok("fst_set_input_symbols", r)?;
            is.isyms = Some(v.clone());
            is.also(|m| m.set_input_symbols(Arc::new(table(&v))));
            if both {
                let r = unsafe { fst_set_output_symbols(p, q) };
                th.ok("fst_set_output_symbols", r)?;
                is.osyms = Some(v.clone());
                is.also(|m| m.set_output_symbols(Arc::new(table(&v))));
            }
            more.push(Item::Symt { p: q, is: v, alone: false });
        }
        16 | 17 => {
            if let Some(s) = st(rng) {
                let mut t: *const CTrs = null();
                let r = unsafe { fst_get_trs(p, s, &mut t) };
                th.ok("fst_get_trs", r)?;
                more.push(Item::Trs { p: t as *mut _, is: is.arcs[s as usize].clone() });
            }
        }
        18 => {
            // change transitions in place
            if let Some(s) = st(rng) {
                let mut it = 8 as *const CMutTrsIterator;
                let r = unsafe { mut_trs_iterator_new(p as *mut CVecFst, s, &mut it) };
                th.ok("mut_trs_iterator_new", r)?;
                let it = it as *mut CMutTrsIterator;
                let len = is.arcs[s as usize].len();
                let again = rng.below(2);
                for k in 0..len {
                    let mut t = 8 as *const CTr;
                    let r = unsafe { mut_trs_iterator_value(it, &mut t) };
                    th.ok("mut_trs_iterator_value", r)?;
                    let a = th.tr(t)?;
                    if a != is.arcs[s as usize][k] {
                        return no("result", format!("transition {} of state {} is {:?}, the mutable iterator says {:?}", k, s, is.arcs[s as usize][k], a));
                    }
                    if rng.below(2) == 0 {
                        let a = rand_tr(rng, n);
                        let t = th.new_tr(a, rng)?;
                        let r = unsafe { mut_trs_iterator_set_value(it, t) };
                        th.ok("mut_trs_iterator_set_value", r)?;
                        let r = unsafe { tr_delete(t as *mut _) };
                        th.ok("tr_delete", r)?;
                        is.arcs[s as usize][k] = a;
                        is.also(|m| m.tr_iter_mut(s).unwrap().set_tr(k, as_tr(a)).unwrap());
                    }
                    let mut d = 9;
                    let r = unsafe { mut_trs_iterator_done(it, &mut d) };
                    th.ok("mut_trs_iterator_done", r)?;
                    if d != 0 {
                        return no("result", format!("done at transition {} of {}", k, len));
                    }
                    let r = unsafe { mut_trs_iterator_next(it) };
                    th.ok("mut_trs_iterator_next", r)?;
                }
                let mut d = 9;
                let r = unsafe { mut_trs_iterator_done(it, &mut d) };
                th.ok("mut_trs_iterator_done", r)?;
                let mut t = 8 as *const CTr;
                let r = unsafe { mut_trs_iterator_value(it, &mut t) };
                th.ok("mut_trs_iterator_value", r)?;
                if d != 1 || !t.is_null() {
                    return no("result", format!("after the last transition: done {}, value {:?}", d, t));
                }
                if again == 0 && len > 0 {
                    let r = unsafe { mut_trs_iterator_reset(it) };
                    th.ok("mut_trs_iterator_reset", r)?;
                    let mut t = 8 as *const CTr;
                    let r = unsafe { mut_trs_iterator_value(it, &mut t) };
                    th.ok("mut_trs_iterator_value", r)?;
                    let a = th.tr(t)?;
                    if a != is.arcs[s as usize][0] {
                        return no("result", format!("after a reset the first transition is {:?} instead of {:?}", a, is.arcs[s as usize][0]));
                    }
                }
                let r = unsafe { mut_trs_iterator_destroy(it) };
                th.ok("mut_trs_iterator_destroy", r)?;
            }
        }
        19 => {
            let mut it: *const CStateIterator = null();
            let r = unsafe { state_iterator_new(p as *mut CVecFst, &mut it) };
            th.ok("state_iterator_new", r)?;
            let it = it as *mut CStateIterator;
            let mut seen = vec![];
            loop {
                let mut d = 9;
                let r = unsafe { state_iterator_done(it, &mut d) };
                th.ok("state_iterator_done", r)?;
                if d == 1 || seen.len() > 1000 {
                    break;
                }
                let mut s = u32::MAX;
                let r = unsafe { state_iterator_next(it, &mut s) };
                th.ok("state_iterator_next", r)?;
                seen.push(s);
            }
            let r = unsafe { state_iterator_destroy(it) };
            th.ok("state_iterator_destroy", r)?;
            if seen != (0..n as u32).collect::<Vec<_>>() {
                return no("result", format!("the states of an FST of {} states are {:?}", n, seen));
            }
        }
        20 => {
            // all strings
            if is.acyclic() && is.whole() && n < 8 && is.arcs.iter().map(|a| a.len()).sum::<usize>() < 14 {
                let want = quietly(|| {
                    let f = is.fst();
                    let r: anyhow::Result<Vec<_>> = f.string_paths_iter().and_then(|i| i.map(|p| Ok((p.istring()?, p.ostring()?, p.weight().value().to_bits()))).collect());
                    r.ok()
                });
                let mut it: *const CStringPathsIterator = null();
                let r = unsafe { string_paths_iterator_new(p, &mut it) };
                match want {
                    None => {
                        if is_ok(&r) {
                            let r = unsafe { string_paths_iterator_destroy(it as *mut _) };
                            th.ok("string_paths_iterator_destroy", r)?;
                        } else {
                            th.ko("string_paths_iterator_new", r, None, rng)?;
                        }
                    }
                    Some(mut want) => {
                        th.ok("string_paths_iterator_new", r)?;
                        let it = it as *mut CStringPathsIterator;
                        let mut got = vec![];
                        loop {
                            let mut d = 9;
                            let r = unsafe { string_paths_iterator_done(it, &mut d) };
                            th.ok("string_paths_iterator_done", r)?;
                            let mut q = 8 as *const CStringPath;
                            let r = unsafe { string_paths_iterator_next(it, &mut q) };
                            th.ok("string_paths_iterator_next", r)?;
                            if (d == 1) != q.is_null() {
                                return no("result", format!("paths done: {}, next: {:?}", d, q));
                            }
                            if d == 1 {
                                break;
                            }
                            let (mut i, mut o, mut w): (*const c_char, *const c_char, f32) = (null(), null(), f32::NAN);
                            let r = unsafe { string_path_istring(q, &mut i) };
                            th.ok("string_path_istring", r)?;
                            let r = unsafe { string_path_ostring(q, &mut o) };
                            th.ok("string_path_ostring", r)?;
                            let r = unsafe { string_path_weight(q, &mut w) };
                            th.ok("string_path_weight", r)?;
                            got.push((string(i), string(o), w.to_bits()));
                            let r = unsafe { string_path_destroy(q as *mut _) };
                            th.ok("string_path_destroy", r)?;
                        }
                        let r = unsafe { string_paths_iterator_destroy(it) };
                        th.ok("string_paths_iterator_destroy", r)?;
                        got.sort();
                        want.sort();
                        if got != want {
                            return no("result", format!("the strings of {:?} are {:?}, the library says {:?}", is, got, want));
                        }
                    }
                }
            }
        }
        21 => {
            let mut s: *const c_char = null();
            let r = unsafe { vec_fst_display(p, &mut s) };
            th.ok("vec_fst_display", r)?;
            let s = string(s);
            let want = quietly(|| format!("{}", is.plain()));
            if s != want {
                return no("result", format!("displayed as\n{}\ninstead of\n{}", s, want));
            }
        }
        22 => {
            let mut b: *const ffi_convert::CArray<u8> = null();
            let r = unsafe { vec_fst_to_bytes(p, &mut b) };
            th.ok("vec_fst_to_bytes", r)?;
            let mut q: *const CFst = null();
            let r = unsafe { vec_fst_from_bytes(b, &mut q) };
            th.ok("vec_fst_from_bytes", r)?;
            quietly(|| drop(unsafe { Box::from_raw(b as *mut ffi_convert::CArray<u8>) }));
            more.push(Item::Fst { p: q as *mut _, kind: Kind::Vector, is: is.stored() });
        }
        23 | 24 => {
            th.n += 1;
            let path = format!("/simfs/t{}-{}", th.id, th.n);
            let r = unsafe { vec_fst_write_file(p, cs(&path).as_ptr()) };
            th.calls += 1;
            if is_ok(&r) {
                th.files.push((path.clone(), is.clone()));
                let mut q: *const CFst = null();
                let r = unsafe { vec_fst_from_path(&mut q, cs(&path).as_ptr()) };
                if is_ok(&r) {
                    more.push(Item::Fst { p: q as *mut _, kind: Kind::Vector, is: is.stored() });
                } else if c.faulty {
                    th.ko_any("vec_fst_from_path", r, rng)?;
                } else {
                    th.ok("vec_fst_from_path", r)?;
                }
            } else if c.faulty {
                th.ko_any("vec_fst_write_file", r, rng)?;
            } else {
                th.ok("vec_fst_write_file", r)?;
            }
        }
        25 => {
            // equality with a copy and with another
            let mut e = 9;
            let r = unsafe { vec_fst_equals(p, other.0, &mut e) };
            th.ok("vec_fst_equals", r)?;
            let same = quietly(|| is.plain() == other.1.plain());
            if e != same as usize {
                return no("result", format!("vec_fst_equals says {} of {:?} and {:?}", e, is, other.1));
            }
            let mut e = 9;
            let r = unsafe { vec_fst_equals(p, p, &mut e) };
            th.ok("vec_fst_equals", r)?;
            if e != 1 && is.whole() {
                return no("result", format!("an FST does not equal itself: {:?}", is));
            }
        }
        26 if n < 14 => in_place(th, "fst_concat", is, p, rng, |p| unsafe { ffa::concat::fst_concat(p, other.0) }, |f| Ok(concat(f, &other.1.fst())?))?,
        27 if n < 14 => in_place(th, "fst_union", is, p, rng, |p| unsafe { ffa::union::fst_union(p, other.0) }, |f| union(f, &other.1.fst()))?,
        28 => in_place(th, "fst_connect", is, p, rng, |p| unsafe { ffa::connect::fst_connect(p) }, |f| connect(f))?,
        29 => {
            let k = rng.below(4) as usize;
            let mut t: *const ffa::project::CProjectType = null();
            let r = unsafe { ffa::project::fst_project_type_new(k, &mut t) };
            th.ok("fst_project_type_new", r)?;
            in_place(th, "fst_project", is, p, rng, |p| unsafe { ffa::project::fst_project(p, t) }, |f| {
                match k {
                    0 => project(f, ProjectType::ProjectInput),
                    1 => project(f, ProjectType::ProjectOutput),
                    _ => anyhow::bail!("no such type"),
                }
                Ok(())
            })?;
        }
        30 if is.whole() && n < 12 => in_place(th, "fst_rm_epsilon", is, p, rng, |p| unsafe { ffa::rm_epsilon::fst_rm_epsilon(p) }, |f| Ok(rm_epsilon(f)?))?,
        31 => {
            let i = rng.below(2) == 0;
            in_place(th, "fst_tr_sort", is, p, rng, |p| unsafe { ffa::tr_sort::fst_tr_sort(p, i) }, |f| {
                if i {
                    tr_sort(f, ILabelCompare {})
                } else {
                    tr_sort(f, OLabelCompare {})
                }
                Ok(())
            })?;
        }
        32 => in_place(th, "fst_tr_unique", is, p, rng, |p| unsafe { ffa::tr_unique::fst_tr_unique(p) }, |f| {
            tr_unique(f);
            Ok(())
        })?,
        33 => in_place(th, "fst_top_sort", is, p, rng, |p| unsafe { ffa::top_sort::fst_top_sort(p) }, |f| top_sort(f))?,
        34 if is.acyclic() && is.whole() && n < 9 => {
            if rng.below(2) == 0 {
                in_place(th, "fst_minimize", is, p, rng, |p| unsafe { fst_minimize(p) }, |f| minimize(f))?;
            } else {
                let nondet = rng.below(2) == 0;
                let mut k: *const c_void = null();
                let r = unsafe { fst_minimize_config_new(1e-3, nondet, &mut k) };
                th.ok("fst_minimize_config_new", r)?;
                in_place(th, "fst_minimize_with_config", is, p, rng, |p| unsafe { fst_minimize_with_config(p, k) }, |f| {
                    minimize_with_config(f, MinimizeConfig::new(1e-3, nondet))
                })?;
            }
        }
        35 if is.acyclic() && is.whole() && n < 7 => in_place(th, "fst_optimize", is, p, rng, |p| unsafe { ffa::optimize::fst_optimize(p) }, |f| optimize(f))?,
        36 => fresh(th, "fst_reverse", is, more, rng, true, |q| unsafe { ffa::reverse::fst_reverse(p, q) }, |f| reverse::<T, Tv, Tv>(f))?,
        37 if is.acyclic() && is.whole() && n < 7 => {
            let k = rng.below(4) as usize;
            let mut t: *const ffa::determinize::CDeterminizeConfig = null();
            let r = unsafe { ffa::determinize::fst_determinize_config_new(1e-3, k, &mut t) };
            th.ok("fst_determinize_config_new", r)?;
            let plain = rng.below(3) == 0;
            fresh(th, "fst_determinize", is, more, rng, false, |q| unsafe { if plain { ffa::determinize::fst_determinize(p, q) } else { ffa::determinize::fst_determinize_with_config(p, t, q) } }, |f| {
                if plain {
                    return rustfst::algorithms::determinize::determinize(f);
                }
                let ty = match k {
                    0 => DeterminizeType::DeterminizeFunctional,
                    1 => DeterminizeType::DeterminizeNonFunctional,
                    2 => DeterminizeType::DeterminizeDisambiguate,
                    _ => anyhow::bail!("no such type"),
                };
                determinize_with_config(f, DeterminizeConfig { delta: 1e-3, det_type: ty })
            })?;
        }
        38 | 39 if n < 9 && other.1.finals.len() < 9 => {
            let k = rng.below(5) as usize;
            let connect = rng.below(2) == 0;
            // (what a sigma matcher writes depends on the known properties)
            let sigma = if rng.below(4) == 0 && !is.mirror.1 { Some((1 + rng.below(3) as u32, rng.below(3) as usize, rng.below(2) == 0)) } else { None };
            let mut m: *const ffa::compose::CMatcherConfig = null();
            let allowed = [1u32, 2];
            if let Some((l, mode, some)) = sigma {
                let a = if some { &allowed[..] } else { &allowed[..0] };
                let r = unsafe { ffa::compose::fst_matcher_config_new(l as usize, mode, a.into(), &mut m) };
                th.ok("fst_matcher_config_new", r)?;
            }
            let mut t: *const ffa::compose::CComposeConfig = null();
            let r = unsafe { ffa::compose::fst_compose_config_new(COMPOSE_NO[k], connect, null(), m, &mut t) };
            th.ok("fst_compose_config_new", r)?;
            if !m.is_null() {
                let r = unsafe { ffa::compose::fst_matcher_config_destroy(m as *mut _) };
                th.ok("fst_matcher_config_destroy", r)?;
            }
            let plain = rng.below(3) == 0;
            fresh(th, "fst_compose", is, more, rng, true, |q| unsafe { if plain { ffa::compose::fst_compose(p, other.0, q) } else { ffa::compose::fst_compose_with_config(p, other.0, t, q) } }, |f| {
                if plain {
                    return rustfst::algorithms::compose::compose::<T, Tv, Tv, _, _, _>(&*f, &other.1.fst());
                }
                let cfg = ComposeConfig {
                    compose_filter: COMPOSE[k],
                    connect,
                    matcher1_config: MatcherConfig::default(),
                    matcher2_config: MatcherConfig {
                        sigma_matcher_config: sigma.map(|(l, mode, some)| SigmaMatcherConfig {
                            sigma_label: l,
                            rewrite_mode: [MatcherRewriteMode::MatcherRewriteAuto, MatcherRewriteMode::MatcherRewriteAlways, MatcherRewriteMode::MatcherRewriteNever][mode].clone(),
                            sigma_allowed_matches: if some { Some(allowed.to_vec()) } else { None },
                        }),
                    },
                };
                compose_with_config::<T, Tv, Tv, _, _, _>(&*f, &other.1.fst(), cfg)
            })?;
            let r = unsafe { ffa::compose::fst_compose_config_destroy(t as *mut _) };
            th.ok("fst_compose_config_destroy", r)?;
        }
        40 if is.whole() && n < 9 && !is.mirror.1 => {
            let (k, unique) = (rng.below(4) as usize, rng.below(2) == 0);
            // several shortest paths of a cyclic FST are fine, but take time when unique
            if k > 1 && !is.acyclic() {
                return Ok(());
            }
            let mut t: *const ffa::shortest_path::CShortestPathConfig = null();
            let r = unsafe { ffa::shortest_path::fst_shortest_path_config_new(1e-3, k, unique, &mut t) };
            th.ok("fst_shortest_path_config_new", r)?;
            let plain = rng.below(3) == 0;
            fresh(th, "fst_shortest_path", is, more, rng, false, |q| unsafe { if plain { ffa::shortest_path::fst_shortest_path(p, q) } else { ffa::shortest_path::fst_shortest_path_with_config(p, t, q) } }, |f| {
                if plain {
                    shortest_path(f)
                } else {
                    shortest_path_with_config(f, ShortestPathConfig { delta: 1e-3, nshortest: k, unique })
                }
            })?;
        }
        41 => {
            let (np, seed, len, w, rt) = (rng.below(4) as usize, rng.below(99) as usize, rng.below(6) as usize, rng.below(2) == 0, rng.below(2) == 0);
            fresh(th, "fst_randgen", is, more, rng, true, |q| unsafe { ffa::randgen::fst_randgen(p, np, seed, len, w, rt, q) }, |f| {
                let k = RandGenConfig::new(UniformTrSelector::from_seed(seed as u64)).with_npath(np).with_weighted(w).with_max_length(len).with_remove_total_weight(rt);
                randgen_with_config(f, k)
            })?;
        }
        42 if n < 9 && other.1.finals.len() < 9 => {
            let eps = rng.below(2) == 0;
            let root = 100 + rng.below(5).min(1) as u32;
            let label = 1 + rng.below(3) as u32;
            if other.1.arcs.iter().flatten().any(|a| a.1 == label) {
                return Ok(()); // would call itself
            }
            let mut v = [ffa::replace::CLabelFstPair { label: 101, fst: p }, ffa::replace::CLabelFstPair { label, fst: other.0 }];
            fresh(th, "fst_replace", is, more, rng, true, |q| unsafe { ffa::replace::fst_replace(root, v.as_mut_ptr(), 2, eps, q) }, |f| {
                let o = other.1.fst();
                replace::<T, Tv, _, _>(vec![(101, &*f), (label, &o)], root, eps)
            })?;
        }
        43 if n < 9 && other.1.finals.len() < 9 => {
            let mut q: *const CFst = null();
            let r = unsafe { concat_fst::concat_fst_new(&mut q, p, other.0) };
            th.ok("concat_fst_new", r)?;
            let want = quietly(|| {
                let mut f = is.fst();
                concat(&mut f, &other.1.fst()).unwrap();
                mirrored(f)
            });
            if rng.below(2) == 0 {
                // the pointer is replaced by one to the computed FST
                let lazy = q;
                let r = unsafe { concat_fst::concat_fst_compute(&mut q) };
                th.ok("concat_fst_compute", r)?;
                let mut got = th.read_fst(q, Kind::Vector, 0, rng)?;
                got.mirror.1 = true;
                let (g, w) = quietly(|| (got.lang(), want.lang()));
                if let (Some(g), Some(w)) = (g, w) {
                    if g != w {
                        return no("result", format!("concat_fst_compute: {}", models::diff(&w, &g)));
                    }
                }
                more.push(Item::Fst { p: q as *mut _, kind: Kind::Vector, is: got });
                more.push(Item::Fst { p: lazy as *mut _, kind: Kind::Concat, is: want });
            } else {
                more.push(Item::Fst { p: q as *mut _, kind: Kind::Concat, is: want });
            }
        }
        44 => {
            // relabel to a table with the symbols in another order
            let v: Syms = ["<eps>", "d", "c", "b", "a"].iter().enumerate().map(|(i, s)| (i as u32, s.to_string())).collect();
            let q = new_table(th, &v)?;
            let (ai, ao) = (rng.below(2) as usize, rng.below(2) as usize);
            in_place(th, "vec_fst_relabel_tables", is, p, rng, |p| unsafe { vec_fst_relabel_tables(p, null(), q, ai, null(), q, ao) }, |f| {
                let t = Arc::new(table(&v));
                f.relabel_tables(None, &t, ai > 0, None, &t, ao > 0)
            })?;
            let r = unsafe { symt_destroy(q) };
            th.ok("symt_destroy", r)?;
        }
        _ => {
            th.n += 1;
            let path = format!("/simfs/d{}-{}", th.id, th.n);
            let title = cs("a title");
            let acc = rng.below(2) as usize;
            let r = unsafe { vec_fst_draw(p, null(), null(), cs(&path).as_ptr(), title.as_ptr(), acc, 8.5, 11.0, 0, 1, 0.4, 0.25, 14, 1, 1) };
            th.calls += 1;
            let want = quietly(|| {
                let d = DrawingConfig {
                    vertical: true,
                    size: Some((8.5, 11.0)),
                    title: "a title".into(),
                    portrait: false,
                    ranksep: Some(0.4),
                    nodesep: Some(0.25),
                    fontsize: 14,
                    acceptor: acc > 0,
                    show_weight_one: true,
                    print_weight: true,
                };
                faults::silently(|| {
                    let p = "/simfs/mirror";
                    is.fst().draw(p, &d).ok().map(|_| vfs::d().files.remove(p).unwrap_or_default())
                })
            });
            if is_ok(&r) {
                let got = quietly(|| vfs::d().files.get(&path).cloned().unwrap_or_default());
                match want {
                    None => return no("accepted", "vec_fst_draw succeeded where the library fails".into()),
                    Some(w) if w != got => return no("result", format!("drawn as\n{}\ninstead of\n{}", String::from_utf8_lossy(&got), String::from_utf8_lossy(&w))),
                    _ => {}
                }
            } else if c.faulty || want.is_none() {
                th.ko_any("vec_fst_draw", r, rng)?;
            } else {
                th.ok("vec_fst_draw", r)?;
            }
        }
    }
    Ok(())
}

/// An operation that changes its FST; `lib` is the library's own.
fn in_place(th: &mut Th, what: &str, is: &mut Con, p: *mut CFst, rng: &mut Rng, ffi: impl FnOnce(*mut CFst) -> RUSTFST_FFI_RESULT, op: impl FnOnce(&mut Tv) -> anyhow::Result<()>) -> R<()> {
    let before = is.clone();
    let Some(want) = lib(|| {
        let mut f = before.fst();
        op(&mut f)?;
        Ok(mirrored(f))
    }) else {
        return Ok(());
    };
    let r = ffi(p);
    let lost = is.mirror.1;
    if th.agree(what, r, &want, lost, rng)? && want.is_ok() {
        *is = th.adopt(what, p, want.unwrap(), false, rng)?;
        is.mirror.1 |= lost;
    } else {
        // what a failing operation leaves behind is its own matter, but it must be readable
        *is = th.read_fst(p, Kind::Vector, 0, rng)?;
        is.mirror.1 = true;
    }
    Ok(())
}

/// An operation that gives a new FST and leaves its input alone.
fn fresh(th: &mut Th, what: &str, is: &Con, more: &mut Vec<Item>, rng: &mut Rng, exact: bool, ffi: impl FnOnce(*mut *const CFst) -> RUSTFST_FFI_RESULT, op: impl FnOnce(&mut Tv) -> anyhow::Result<Tv>) -> R<()> {
    let Some(want) = lib(|| {
        let mut f = is.fst();
        Ok(mirrored(op(&mut f)?))
    }) else {
        return Ok(());
    };
    let mut q: *const CFst = null();
    let r = ffi(&mut q);
    if th.agree(what, r, &want, is.mirror.1, rng)? {
        if q.is_null() {
            return no("result", format!("{} succeeded without a result", what));
        }
        let mut got = match want {
            Ok(w) => th.adopt(what, q, w, exact && !is.mirror.1, rng)?,
            Err(_) => th.read_fst(q, Kind::Vector, 0, rng)?,
        };
        got.mirror.1 |= is.mirror.1;
        more.push(Item::Fst { p: q as *mut _, kind: Kind::Vector, is: got });
    } else if !q.is_null() {
        return no("result", format!("{} failed and yet gave a handle", what));
    }
    Ok(())
}

fn symt_op(th: &mut Th, c: &Ctx, p: *mut CSymbolTable, is: &mut Syms, alone: bool, more: &mut Vec<Item>, rng: &mut Rng) -> R<()> {
    match rng.below(8) {
        0..=2 => {
            let s = format!("n{}", rng.below(6));
            let mut k = usize::MAX;
            let r = unsafe { symt_add_symbol(p, cs(&s).as_ptr(), &mut k) };
            th.calls += 1;
            if is_ok(&r) {
                let l = match is.iter().find(|x| x.1 == s) {
                    Some(x) => x.0,
                    None => {
                        is.push((is.len() as u32, s.clone()));
                        is.len() as u32 - 1
                    }
                };
                if k != l as usize {
                    return no("result", format!("{} added to {:?} as {}", s, is, k));
                }
            } else if alone {
                th.ok("symt_add_symbol", r)?;
            } else {
                th.ko("symt_add_symbol to a table in use", r, None, rng)?;
            }
        }
        3 | 4 => {
            let mut q: *const CSymbolTable = null();
            let r = unsafe { symt_copy(p, &mut q) };
            th.ok("symt_copy", r)?;
            let mut e = 9;
            let r = unsafe { symt_equals(p, q, &mut e) };
            th.ok("symt_equals", r)?;
            if e != 1 || q == p {
                return no("result", format!("a copied symbol table: equal {}", e));
            }
            more.push(Item::Symt { p: q as *mut _, is: is.clone(), alone: true });
        }
        5 => {
            let v: Syms = ["<eps>", "x", "n1", "y"].iter().enumerate().map(|(i, s)| (i as u32, s.to_string())).collect();
            let q = new_table(th, &v)?;
            let r = unsafe { symt_add_table(p, q) };
            th.calls += 1;
            if is_ok(&r) {
                for (_, s) in v {
                    if !is.iter().any(|x| x.1 == s) {
                        is.push((is.len() as u32, s));
                    }
                }
            } else if alone {
                th.ok("symt_add_table", r)?;
            } else {
                th.ko("symt_add_table to a table in use", r, None, rng)?;
            }
            let r = unsafe { symt_destroy(q) };
            th.ok("symt_destroy", r)?;
        }
        _ => {
            th.n += 1;
            let path = format!("/simfs/s{}-{}", th.id, th.n);
            let bin = rng.below(2) as usize as *const usize;
            let r = unsafe { symt_write_file(p, cs(&path).as_ptr(), bin) };
            th.calls += 1;
            if !is_ok(&r) {
                return if c.faulty { th.ko_any("symt_write_file", r, rng) } else { th.ok("symt_write_file", r) };
            }
            let mut q: *const CSymbolTable = null();
            let r = unsafe { symt_from_path(&mut q, cs(&path).as_ptr(), bin) };
            th.calls += 1;
            if !is_ok(&r) {
                return if c.faulty { th.ko_any("symt_from_path", r, rng) } else { th.ok("symt_from_path", r) };
            }
            more.push(Item::Symt { p: q as *mut _, is: is.clone(), alone: true });
        }
    }
    Ok(())
}

fn trs_op(th: &mut Th, p: *mut CTrs, is: &mut Arcs, more: &mut Vec<Item>, rng: &mut Rng) -> R<()> {
    match rng.below(5) {
        0 | 1 => {
            let a = rand_tr(rng, 5);
            let t = th.new_tr(a, rng)?;
            let r = unsafe { trs_vec_push(p, t) };
            th.ok("trs_vec_push", r)?;
            let r = unsafe { tr_delete(t as *mut _) };
            th.ok("tr_delete", r)?;
            is.push(a);
        }
        2 => {
            if !is.is_empty() {
                let k = rng.below(is.len() as u64) as usize;
                let mut t: *const CTr = null();
                let r = unsafe { trs_vec_remove(p, k, &mut t) };
                th.ok("trs_vec_remove", r)?;
                let a = th.tr(t)?;
                if a != is.remove(k) {
                    return no("result", format!("trs_vec_remove gave {:?}", a));
                }
            }
        }
        3 => {
            let mut s: *const c_char = null();
            let r = unsafe { trs_vec_display(p, &mut s) };
            th.ok("trs_vec_display", r)?;
            string(s);
        }
        _ => {
            let mut q: *const CTrs = null();
            let r = unsafe { trs_vec_shallow_clone(p, &mut q) };
            th.ok("trs_vec_shallow_clone", r)?;
            more.push(Item::Trs { p: q as *mut _, is: is.clone() });
        }
    }
    Ok(())
}

fn program(c: &Ctx, th: &mut Th, seed: u64, steps: u64, init: &Con) -> R<()> {
    let mut r = Rng::new(seed);
    let rng = &mut r;
    th.last_error()?;
    th.none = th.last_error()?;
    for _ in 0..steps {
        match rng.below(12) {
            0 | 1 => fail(th, c, rng)?,
            2 => {
                let s = &c.shared[rng.below(c.shared.len() as u64) as usize];
                th.check(s, rng)?;
                if let Item::Fst { p, kind: Kind::Const, is } = s {
                    let mut q: *const CFst = null();
                    let r = unsafe { const_fst::const_fst_copy(*p, &mut q) };
                    th.ok("const_fst_copy", r)?;
                    let mut e = 9;
                    let r = unsafe { const_fst::const_fst_equals(*p, q, &mut e) };
                    th.ok("const_fst_equals", r)?;
                    if e != 1 {
                        return no("result", "a copied ConstFst is not equal".into());
                    }
                    let it = Item::Fst { p: q as *mut _, kind: Kind::Const, is: is.clone() };
                    th.items.push(it);
                }
            }
            3 if !th.items.is_empty() => {
                let i = rng.below(th.items.len() as u64) as usize;
                let it = th.items.swap_remove(i);
                let got = quietly(|| {
                    let mut x = c.exchange.lock().unwrap();
                    x.push(it);
                    if x.len() > 1 {
                        let k = rng.below(x.len() as u64) as usize;
                        Some(x.swap_remove(k))
                    } else {
                        None
                    }
                });
                th.items.extend(got);
            }
            4 if !th.items.is_empty() => {
                let i = rng.below(th.items.len() as u64) as usize;
                let it = th.items.swap_remove(i);
                let res = th.check(&it, rng);
                th.items.push(it);
                res?;
            }
            5 if th.items.len() > 2 => {
                let i = rng.below(th.items.len() as u64) as usize;
                let it = th.items.swap_remove(i);
                th.check(&it, rng)?;
                th.destroy(it)?;
            }
            6 if th.items.len() < 4 => {
                let it = construct(th, init, rng)?;
                th.items.push(it);
            }
            7 if th.items.len() < 6 => {
                let v: Syms = ["<eps>", "a", "b"].iter().enumerate().map(|(i, s)| (i as u32, s.to_string())).collect();
                let q = new_table(th, &v)?;
                if rng.below(2) == 0 {
                    let mut f: *const CFst = null();
                    let (want, r) = if rng.below(2) == 0 {
                        let want = quietly(|| mirrored(acceptor::<T, Tv>(&[1, 2, 1], T::new(3.0))));
                        (want, unsafe { utils_string_to_acceptor(cs("a b a").as_ptr(), q, 3.0, &mut f) })
                    } else {
                        let want = quietly(|| mirrored(transducer::<T, Tv>(&[1, 2, 1], &[2, 2], T::new(3.0))));
                        (want, unsafe { utils_string_to_transducer(cs("a b a").as_ptr(), cs("b b").as_ptr(), q, q, 3.0, &mut f) })
                    };
                    th.ok("utils_string_to_fst", r)?;
                    let got = th.adopt("utils_string_to_fst", f, want, true, rng)?;
                    th.items.push(Item::Fst { p: f as *mut _, kind: Kind::Vector, is: got });
                }
                th.items.push(Item::Symt { p: q, is: v, alone: true });
            }
            _ => {
                if th.items.is_empty() {
                    let it = construct(th, init, rng)?;
                    th.items.push(it);
                }
                let i = rng.below(th.items.len() as u64) as usize;
                let mut it = th.items.swap_remove(i);
                let mut more = vec![];
                // the other operand: another handle of this thread or the shared one
                let (mut op, mut oc) = match &c.shared[0] {
                    Item::Fst { p, is, .. } => (*p as *const CFst, is.clone()),
                    _ => unreachable!(),
                };
                for x in &th.items {
                    if let Item::Fst { p, kind: Kind::Vector, is } = x {
                        if rng.below(3) == 0 {
                            op = *p;
                            oc = is.clone();
                        }
                    }
                }
                let res = match &mut it {
                    Item::Fst { p, kind: Kind::Vector, is } => fst_op(th, c, *p, is, (op, &oc), &mut more, rng),
                    Item::Fst { p, kind: Kind::Const, is } => {
                        // symbols of a copy
                        let v: Syms = vec![(0, "<eps>".into()), (1, format!("c{}", rng.below(9)))];
                        let q = new_table(th, &v)?;
                        let r = unsafe { fst_set_input_symbols(*p, q) };
                        th.ok("fst_set_input_symbols", r)?;
                        is.isyms = Some(v.clone());
                        more.push(Item::Symt { p: q, is: v, alone: false });
                        Ok(())
                    }
                    Item::Fst { .. } => Ok(()),
                    Item::Symt { p, is, alone } => {
                        let a = *alone;
                        symt_op(th, c, *p, is, a, &mut more, rng)
                    }
                    Item::Trs { p, is } => trs_op(th, *p, is, &mut more, rng),
                };
                th.items.push(it);
                th.items.append(&mut more);
                res?;
                while th.items.len() > 10 {
                    let k = rng.below(th.items.len() as u64) as usize;
                    let it = th.items.swap_remove(k);
                    th.destroy(it)?;
                }
            }
        }
    }
    Ok(())
}

pub fn body() -> Result<(), Violation> {
    let f = gen::fst(&Cfg {
        states: range(2, 5),
        arcs: range(2, 8),
        ilabels: 3,
        olabels: 3,
        eps: 2,
        cyc: pick(&[Cyc::No, Cyc::No, Cyc::Both]),
        ring: Ring::Trop,
        acceptor: chance(1, 2),
    });
    let symt = chance(1, 2);
    let n = range(1, 3) as usize;
    let steps = range(4, 30);
    let seeds: Vec<u64> = (0..n).map(|_| draw(1 << 30)).collect();
    let (init, cinit, bytes) = quietly(|| {
        let mut v = gen::vector::<T>(&f);
        if symt {
            let t: Syms = ["<eps>", "a", "b", "c"].iter().enumerate().map(|(i, s)| (i as u32, s.to_string())).collect();
            v.set_input_symbols(Arc::new(table(&t)));
            v.set_output_symbols(Arc::new(table(&t)));
        }
        let c: ConstFst<T> = v.clone().into();
        let mut b = vec![];
        c.store(&mut b).unwrap();
        (mirrored(v), con(&c), b)
    });
    vfs::d().files.insert("/simfs/const".into(), bytes);
    // handles every thread reads
    let mut main = Th { id: 9, ..Default::default() };
    let mut c = Ctx::default();
    let made = (|| -> R<()> {
        let mut rng = Rng::new(seeds[0] ^ 1);
        let rng = &mut rng;
        let it = construct(&mut main, &init, rng)?;
        let Item::Fst { p, .. } = it else { unreachable!() };
        c.shared.push(it);
        let mut q: *const CFst = null();
        let r = unsafe { const_fst::const_fst_from_path(&mut q, cs("/simfs/const").as_ptr()) };
        main.ok("const_fst_from_path", r)?;
        c.shared.push(Item::Fst { p: q as *mut _, kind: Kind::Const, is: cinit.clone() });
        let r = unsafe { concat_fst::concat_fst_new(&mut q, p, p) };
        main.ok("concat_fst_new", r)?;
        let want = quietly(|| {
            let mut f = init.fst();
            concat(&mut f, &init.fst()).unwrap();
            mirrored(f)
        });
        c.shared.push(Item::Fst { p: q as *mut _, kind: Kind::Concat, is: want });
        Ok(())
    })();
    if let Err((class, msg)) = made {
        return bad(class, msg);
    }
    let mut mix = vec![];
    if chance(1, 4) {
        mix.push((Fault::SpuriousWake, 2000));
    }
    if chance(1, 3) {
        mix.extend([(Fault::WriteShort, 2500), (Fault::WriteEintr, 1500), (Fault::ReadShort, 2500), (Fault::ReadEintr, 1500), (Fault::OpenEintr, 1500)]);
    }
    if chance(1, 3) {
        mix.extend([(Fault::WriteEio, 700), (Fault::WriteEnospc, 700), (Fault::ReadEio, 700), (Fault::OpenErr, 700)]);
        c.faulty = true;
    }
    faults::enable(&mix);
    let mut ths: Vec<Th> = (0..n).map(|i| Th { id: i, ..Default::default() }).collect();
    let mut bodies: Vec<Body> = vec![];
    for (t, sd) in ths.iter_mut().zip(&seeds) {
        let (c, init, sd) = (&c, &init, *sd);
        struct P<'a>(&'a mut Th);
        unsafe impl Send for P<'_> {}
        let t = P(t);
        bodies.push(Box::new(move || {
            let t = t;
            if let Err(e) = program(c, t.0, sd, steps, init) {
                t.0.wrong = Some(e);
            }
        }));
    }
    util::threads(40_000 * n as u64, bodies)?;
    faults::enable(&[]);
    quietly(|| {
        for t in &ths {
            if let Some((class, msg)) = &t.wrong {
                return bad(class, msg.clone());
            }
        }
        let mut rng = Rng::new(seeds[0] ^ 2);
        let left: Vec<Item> = std::mem::take(&mut *c.exchange.lock().unwrap());
        let all = ths.iter_mut().flat_map(|t| std::mem::take(&mut t.items)).chain(left).chain(std::mem::take(&mut c.shared)).collect::<Vec<_>>();
        let total = all.len();
        let res = (|| -> R<()> {
            for it in &all {
                main.check(it, &mut rng)?;
            }
            for it in all {
                main.destroy(it)?;
            }
            Ok(())
        })();
        if let Err((class, msg)) = res {
            return bad(class, msg);
        }
        for t in &ths {
            for (path, want) in &t.files {
                match VectorFst::<T>::read(path) {
                    Ok(f) if con(&f) == *want => {}
                    Ok(f) => return bad("file", format!("vec_fst_write_file succeeded; the file holds {:?} instead of {:?}", con(&f), want)),
                    Err(e) => return bad("file", format!("vec_fst_write_file succeeded; reading the file: {:#}", e)),
                }
            }
        }
        let calls: u64 = ths.iter().map(|t| t.calls).sum();
        let failures: u64 = ths.iter().map(|t| t.failures).sum();
        if failures > 0 && calls > 50 {
            simrt::nontrivial();
        }
        simrt::sample(format!("{} threads, {} calls, {} failures, {} handles left", n, calls, failures, total));
        Ok(())
    })
}
