//! C13: copies of FSTs, transitions and symbol tables are independent.
use crate::gen::{self, vector, Cfg, Cyc};
use crate::util;
use models::Ring;
use rustfst::algorithms::closure::{closure, ClosureType};
use rustfst::algorithms::concat::concat;
use rustfst::algorithms::rm_epsilon::rm_epsilon;
use rustfst::algorithms::union::{union, UnionFst};
use rustfst::algorithms::*;
use rustfst::fst_impls::ConstFst;
use rustfst::fst_traits::*;
use rustfst::prelude::tr_compares::{ILabelCompare, OLabelCompare};
use rustfst::prelude::*;
use rustfst::{Trs, TrsConst, TrsVec};
use simrt::rng::Rng;
use simrt::sched::{quietly, Body};
use simrt::{bad, chance, draw, pick, range, Violation};
use std::sync::{Arc, Mutex};

type T = TropicalWeight;
type Tv = VectorFst<T>;
type Lz = UnionFst<T, Tv>;
type Arcs = Vec<(u32, u32, u32, u32)>;

#[derive(Clone, PartialEq, Debug, Default)]
struct Snap {
    start: Option<u32>,
    finals: Vec<Option<u32>>,
    arcs: Vec<Arcs>,
    eps: Vec<(usize, usize)>,
    isyms: Option<Vec<(u32, String)>>,
    osyms: Option<Vec<(u32, String)>>,
    props: u64,
}

fn arcs(t: &[Tr<T>]) -> Arcs {
    t.iter().map(|t| (t.ilabel, t.olabel, t.weight.value().to_bits(), t.nextstate)).collect()
}

fn trs(a: &Arcs) -> Vec<Tr<T>> {
    a.iter().map(|a| Tr::new(a.0, a.1, T::new(f32::from_bits(a.2)), a.3)).collect()
}

fn syms(t: &SymbolTable) -> Vec<(u32, String)> {
    let v: Vec<(u32, String)> = t.iter().map(|(l, s)| (l, s.to_string())).collect();
    // both directions
    for (l, s) in &v {
        if t.get_label(s) != Some(*l) || t.get_symbol(*l) != Some(s.as_str()) {
            return vec![(*l, format!("broken entry {} {:?} {:?}", s, t.get_label(s), t.get_symbol(*l)))];
        }
    }
    v
}

fn snap<F: ExpandedFst<T>>(f: &F) -> Snap {
    let n = f.num_states() as u32;
    Snap {
        start: f.start(),
        finals: (0..n).map(|s| f.final_weight(s).unwrap().map(|w| w.value().to_bits())).collect(),
        arcs: (0..n).map(|s| arcs(f.get_trs(s).unwrap().trs())).collect(),
        eps: (0..n).map(|s| (f.num_input_epsilons(s).unwrap(), f.num_output_epsilons(s).unwrap())).collect(),
        isyms: f.input_symbols().map(|t| syms(t)),
        osyms: f.output_symbols().map(|t| syms(t)),
        props: f.properties().bits(),
    }
}

fn table(v: &[(u32, String)]) -> SymbolTable {
    let mut t = SymbolTable::empty();
    for (_, s) in v {
        t.add_symbol(s);
    }
    t
}

/// The same contents, sharing nothing.
fn deep(s: &Snap) -> Tv {
    let mut v = Tv::new();
    for _ in 0..s.finals.len() {
        v.add_state();
    }
    for (i, a) in s.arcs.iter().enumerate() {
        for t in trs(a) {
            v.add_tr(i as u32, t).unwrap();
        }
    }
    for (i, f) in s.finals.iter().enumerate() {
        if let Some(w) = f {
            v.set_final(i as u32, T::new(f32::from_bits(*w))).unwrap();
        }
    }
    if let Some(x) = s.start {
        v.set_start(x).unwrap();
    }
    if let Some(t) = &s.isyms {
        v.set_input_symbols(Arc::new(table(t)));
    }
    if let Some(t) = &s.osyms {
        v.set_output_symbols(Arc::new(table(t)));
    }
    if let Some(p) = rustfst::fst_properties::FstProperties::from_bits(s.props) {
        v.set_properties(p);
    }
    v
}

enum Obj {
    Vector(Tv),
    Const(ConstFst<T>),
    Row(TrsVec<T>),
    CRow(TrsConst<T>),
    Symt(SymbolTable),
    SharedSymt(Arc<SymbolTable>),
}

enum Is {
    Fst(Snap),
    Row(Arcs),
    Syms(Vec<(u32, String)>),
}

struct Item {
    obj: Obj,
    is: Is,
    how: String,
}

impl Item {
    fn check(&self) -> Option<String> {
        let wrong = match (&self.obj, &self.is) {
            (Obj::Vector(f), Is::Fst(s)) => differ(s, &snap(f)),
            (Obj::Const(f), Is::Fst(s)) => differ(s, &snap(f)),
            (Obj::Row(r), Is::Row(a)) => differ(a, &arcs(r.trs())),
            (Obj::CRow(r), Is::Row(a)) => differ(a, &arcs(r.trs())),
            (Obj::Symt(t), Is::Syms(a)) => differ(a, &syms(t)),
            (Obj::SharedSymt(t), Is::Syms(a)) => differ(a, &syms(t)),
            _ => unreachable!(),
        };
        wrong.map(|w| format!("{}: {}", self.how, w))
    }
}

fn differ<X: PartialEq + std::fmt::Debug>(a: &X, b: &X) -> Option<String> {
    if a == b {
        None
    } else {
        Some(format!("was {:?}, is {:?}", a, b))
    }
}

/// Changes an FST; `true`: the result is a function of the contents alone.
fn change(f: &mut Tv, other: &Tv, code: u64, r: &mut Rng) -> bool {
    let n = f.num_states() as u64;
    let mut st = |r: &mut Rng| r.below(n.max(1)) as u32;
    let tr = |r: &mut Rng, n: u64| Tr::new(r.below(4) as u32, r.below(4) as u32, T::new(r.below(5) as f32), r.below(n.max(1)) as u32);
    match code {
        0 => {
            f.add_state();
        }
        1 => f.add_states(r.below(3) as usize),
        _ if n == 0 => {
            f.add_state();
        }
        2 => f.set_start(st(r)).unwrap(),
        3 => f.set_final(st(r), T::new(r.below(9) as f32)).unwrap(),
        4 => f.delete_final_weight(st(r)).unwrap(),
        5 => {
            f.take_final_weight(st(r)).unwrap();
        }
        6..=8 => {
            let (s, t) = (st(r), tr(r, n));
            f.add_tr(s, t).unwrap();
        }
        9 => {
            let (s, t) = (st(r), tr(r, n));
            f.emplace_tr(s, t.ilabel, t.olabel, t.weight, t.nextstate).unwrap();
        }
        10..=15 => {
            let s = st(r);
            let t = tr(r, n);
            let mut it = f.tr_iter_mut(s).unwrap();
            if it.is_empty() {
                return true;
            }
            let k = r.below(it.len() as u64) as usize;
            match r.below(8) {
                0 => it.set_ilabel(k, t.ilabel).unwrap(),
                1 => it.set_olabel(k, t.olabel).unwrap(),
                2 => it.set_weight(k, t.weight).unwrap(),
                3 => it.set_nextstate(k, t.nextstate).unwrap(),
                4 => it.set_tr(k, t).unwrap(),
                5 => unsafe { it.set_labels_unchecked(k, t.ilabel, t.olabel) },
                6 => unsafe { it.set_weight_unchecked(k, t.weight) },
                _ => unsafe { it.set_tr_unchecked(k, t) },
            }
        }
        16 => f.del_state(st(r)).unwrap(),
        17 => {
            let mut v: Vec<u32> = (0..r.below(3)).map(|_| st(r)).collect();
            v.sort_unstable();
            v.dedup();
            f.del_states(v).unwrap();
        }
        18 => {
            if r.below(4) == 0 {
                f.del_all_states();
            }
        }
        19 => {
            f.pop_trs(st(r)).unwrap();
        }
        20 => f.delete_trs(st(r)).unwrap(),
        21 => {
            let s = st(r);
            let v = (0..r.below(4)).map(|_| tr(r, n)).collect();
            unsafe { f.set_trs_unchecked(s, v) }
        }
        22 => {
            let s = st(r);
            let k = f.num_trs(s).unwrap();
            let d: Vec<usize> = (0..k).filter(|_| r.below(2) == 0).collect();
            unsafe { f.del_trs_id_sorted_unchecked(s, &d) }
        }
        23 => tr_sort(f, ILabelCompare {}),
        24 => tr_sort(f, OLabelCompare {}),
        25 => tr_unique(f),
        26 => tr_sum(f),
        27 => invert(f),
        28 => project(f, if r.below(2) == 0 { ProjectType::ProjectInput } else { ProjectType::ProjectOutput }),
        29 => connect(f).unwrap(),
        30 => closure(f, if r.below(2) == 0 { ClosureType::ClosureStar } else { ClosureType::ClosurePlus }),
        31 if n < 16 => union(f, other).unwrap(),
        32 if n < 16 => concat(f, other).unwrap(),
        33 => {
            // on a connected FST, so that no infinite weight gets into it
            connect(f).unwrap();
            let way = if r.below(2) == 0 { ReweightType::ReweightToInitial } else { ReweightType::ReweightToFinal };
            if f.num_states() > 0 {
                push_weights(f, way).unwrap();
            }
        }
        34 => {
            rm_epsilon(f).unwrap();
            return false;
        }
        35 => f.reserve_trs(st(r), r.below(10) as usize).unwrap(),
        36 => {
            f.shrink_to_fit();
        }
        37 => {
            if let Some(t) = f.input_symbols() {
                let mut t = (**t).clone();
                t.add_symbol(format!("n{}", r.below(5)));
                f.set_input_symbols(Arc::new(t));
            }
        }
        38 => {
            // through the shared handle, the way callers do
            if let Some(mut t) = f.take_output_symbols() {
                Arc::make_mut(&mut t).add_symbol(format!("m{}", r.below(5)));
                f.set_output_symbols(t);
            }
        }
        39 => {
            f.set_symts_from_fst(other);
        }
        40 => {
            f.compute_and_update_properties_all().unwrap();
        }
        41 => {
            let _ = rm_final_epsilon(f);
            return false;
        }
        _ => {
            if let Ok(x) = reverse::<T, Tv, Tv>(f) {
                *f = x;
            }
        }
    }
    true
}

struct Ctx {
    base: Arc<Tv>,
    cbase: Arc<ConstFst<T>>,
    lazy: Arc<Lz>,
    exchange: Mutex<Vec<Item>>,
}

#[derive(Default)]
struct Out {
    items: Vec<Item>,
    wrong: Option<String>,
    changes: u64,
    rows: Vec<(u32, Arcs)>,
}

fn fst_item(f: Tv, how: String) -> Item {
    quietly(|| {
        let s = snap(&f);
        Item { obj: Obj::Vector(f), is: Is::Fst(s), how }
    })
}

fn row_item(r: TrsVec<T>, how: String) -> Item {
    quietly(|| Item { is: Is::Row(arcs(r.trs())), obj: Obj::Row(r), how })
}

fn program(c: &Ctx, seed: u64, steps: u64, o: &mut Out) {
    let mut r = Rng::new(seed);
    for step in 0..steps {
        let wrong = quietly(|| {
            if o.items.is_empty() {
                None
            } else {
                o.items[r.below(o.items.len() as u64) as usize].check()
            }
        });
        if let Some(w) = wrong {
            quietly(|| o.wrong = Some(w));
            return;
        }
        let act = r.below(20);
        if o.items.is_empty() || act == 0 {
            let f = (*c.base).clone();
            let it = fst_item(f, "clone of the shared FST".into());
            quietly(|| o.items.push(it));
            continue;
        }
        let i = r.below(o.items.len() as u64) as usize;
        match act {
            1 => {
                // hand over to whoever comes along
                quietly(|| {
                    let it = o.items.swap_remove(i);
                    let mut x = c.exchange.lock().unwrap();
                    x.push(it);
                    if x.len() > 1 {
                        let k = r.below(x.len() as u64) as usize;
                        let got = x.swap_remove(k);
                        drop(x);
                        o.items.push(got);
                    }
                });
            }
            2 => {
                // a lazy FST shared by all, its rows held and changed
                if let Some(s) = c.lazy.start() {
                    let mut s = s;
                    for _ in 0..r.below(4) {
                        let t = c.lazy.get_trs(s).unwrap();
                        let next = if t.is_empty() { None } else { Some(t[r.below(t.len() as u64) as usize].nextstate) };
                        let it = row_item(t, format!("row of state {} of a lazy FST", s));
                        quietly(|| {
                            if let Is::Row(a) = &it.is {
                                o.rows.push((s, a.clone()));
                            }
                            o.items.push(it);
                        });
                        match next {
                            Some(n) => s = n,
                            None => break,
                        }
                    }
                }
            }
            3 => {
                let n = c.cbase.num_states() as u64;
                if n > 0 {
                    let s = r.below(n) as u32;
                    let t = c.cbase.get_trs(s).unwrap();
                    let want = quietly(|| arcs(t.trs()));
                    if r.below(2) == 0 {
                        let v = t.to_trs_vec();
                        let got = quietly(|| arcs(v.trs()));
                        quietly(|| {
                            if want != got {
                                o.wrong = Some(format!("transitions of state {} of a ConstFst, {:?}, are {:?} as a TrsVec", s, want, got));
                            }
                            o.items.push(Item { obj: Obj::Row(v), is: Is::Row(want), how: "row of a ConstFst".into() });
                        });
                        if o.wrong.is_some() {
                            return;
                        }
                    } else {
                        let t2 = if r.below(2) == 0 { t.clone() } else { t.shallow_clone() };
                        quietly(|| o.items.push(Item { obj: Obj::CRow(t2), is: Is::Row(want), how: "row of a ConstFst".into() }));
                    }
                }
            }
            _ => {
                o.changes += 1;
                let mut it = quietly(|| o.items.swap_remove(i));
                let mut more = vec![];
                match (&mut it.obj, &mut it.is) {
                    (Obj::Vector(f), Is::Fst(s)) => match r.below(60) {
                        0..=2 => {
                            let g = f.clone();
                            more.push(fst_item(g, format!("clone made in step {}", step)));
                        }
                        3..=6 => {
                            let n = f.num_states() as u64;
                            if n > 0 {
                                let x = r.below(n) as u32;
                                let t = f.get_trs(x).unwrap();
                                more.push(row_item(t, format!("transitions of state {} taken in step {}", x, step)));
                            }
                        }
                        7 => {
                            let g: ConstFst<T> = f.clone().into();
                            quietly(|| {
                                let s2 = snap(&g);
                                // the conversion keeps everything but the properties
                                more.push(Item { obj: Obj::Const(g), is: Is::Fst(Snap { props: s2.props, ..s.clone() }), how: format!("ConstFst made in step {}", step) });
                            });
                        }
                        8 => {
                            let g = f.clone();
                            let mut seen = vec![];
                            for d in g.fst_into_iter() {
                                let v: Vec<_> = d.trs.collect();
                                quietly(|| seen.push((arcs(&v), d.final_weight.map(|w| w.value().to_bits()))));
                            }
                            quietly(|| {
                                if seen.iter().map(|x| &x.0).ne(s.arcs.iter()) || seen.iter().map(|x| &x.1).ne(s.finals.iter()) {
                                    o.wrong = Some(format!("consuming a clone gave {:?}, expected {:?}", seen, s));
                                }
                            });
                        }
                        9 | 10 => {
                            let t = if r.below(2) == 0 { f.input_symbols() } else { f.output_symbols() };
                            if let Some(t) = t {
                                if r.below(2) == 0 {
                                    let t = Arc::clone(t);
                                    quietly(|| more.push(Item { is: Is::Syms(syms(&t)), obj: Obj::SharedSymt(t), how: "symbol table of an FST".into() }));
                                } else {
                                    let t = (**t).clone();
                                    quietly(|| more.push(Item { is: Is::Syms(syms(&t)), obj: Obj::Symt(t), how: "copied symbol table".into() }));
                                }
                            }
                        }
                        _ => {
                            let code = r.below(43);
                            let r0 = r.clone();
                            simrt::sched::trace(|| format!("change {} of {:?}", code, s));
                            // an operation that gives up on this input is not judged here
                            let want = quietly(|| {
                                let done = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                                    let mut d = deep(s);
                                    let mut r1 = r0.clone();
                                    change(&mut d, &deep(&snap(&*c.base)), code, &mut r1);
                                    snap(&d)
                                }));
                                if done.is_err() {
                                    simrt::take_panic();
                                    simrt::probe("change refused");
                                }
                                done.ok()
                            });
                            let want = match want {
                                Some(w) => w,
                                None => {
                                    quietly(|| o.items.push(it));
                                    continue;
                                }
                            };
                            let pure = change(f, &c.base, code, &mut r);
                            quietly(|| {
                                let got = snap(f);
                                if pure && want != got {
                                    o.wrong = Some(format!("change {} of {} gave {:?}; of an FST that shares nothing, {:?}", code, it.how, got, want));
                                }
                                *s = got;
                            });
                        }
                    },
                    (Obj::Const(f), Is::Fst(s)) => match r.below(4) {
                        0 => {
                            let g = f.clone();
                            quietly(|| more.push(Item { obj: Obj::Const(g), is: Is::Fst(s.clone()), how: "clone of a ConstFst".into() }));
                        }
                        1 => {
                            let g = f.clone();
                            let mut seen = vec![];
                            for d in g.fst_into_iter() {
                                let v: Vec<_> = d.trs.collect();
                                quietly(|| seen.push((arcs(&v), d.final_weight.map(|w| w.value().to_bits()))));
                            }
                            quietly(|| {
                                if seen.iter().map(|x| &x.0).ne(s.arcs.iter()) || seen.iter().map(|x| &x.1).ne(s.finals.iter()) {
                                    o.wrong = Some(format!("consuming a clone of a ConstFst gave {:?}, expected {:?}", seen, s));
                                }
                            });
                        }
                        2 => {
                            let n = f.num_states() as u64;
                            if n > 0 {
                                let x = r.below(n) as u32;
                                let t = f.get_trs(x).unwrap();
                                quietly(|| more.push(Item { is: Is::Row(arcs(t.trs())), obj: Obj::CRow(t), how: "row of a ConstFst".into() }));
                            }
                        }
                        _ => {
                            let mut t = SymbolTable::new();
                            t.add_symbol(format!("c{}", r.below(9)));
                            f.set_input_symbols(Arc::new(t));
                            quietly(|| s.isyms = f.input_symbols().map(|t| syms(t)));
                        }
                    },
                    (Obj::Row(t), Is::Row(a)) => match r.below(5) {
                        0 => {
                            let x = Tr::new(r.below(4) as u32, r.below(4) as u32, T::new(r.below(5) as f32), 0);
                            t.push(x.clone());
                            quietly(|| a.append(&mut arcs(&[x])));
                        }
                        1 => {
                            if !t.is_empty() {
                                let k = r.below(t.len() as u64) as usize;
                                t.remove(k);
                                quietly(|| a.remove(k));
                            }
                        }
                        2 => {
                            t.clear();
                            quietly(|| a.clear());
                        }
                        3 => {
                            let u = t.clone();
                            more.push(row_item(u, "clone of transitions".into()));
                        }
                        _ => {
                            let u = t.shallow_clone();
                            more.push(row_item(u, "shallow clone of transitions".into()));
                        }
                    },
                    (Obj::CRow(t), Is::Row(a)) => {
                        let u = if r.below(2) == 0 { t.clone() } else { t.shallow_clone() };
                        quietly(|| more.push(Item { obj: Obj::CRow(u), is: Is::Row(a.clone()), how: "clone of transitions".into() }));
                    }
                    (Obj::Symt(t), Is::Syms(a)) => {
                        if r.below(3) == 0 {
                            let u = t.clone();
                            quietly(|| more.push(Item { obj: Obj::Symt(u), is: Is::Syms(a.clone()), how: "copied symbol table".into() }));
                        } else {
                            let w = format!("x{}", r.below(8));
                            let l = t.add_symbol(w.clone());
                            quietly(|| match a.iter().find(|x| x.1 == w) {
                                Some(x) => {
                                    if x.0 != l {
                                        o.wrong = Some(format!("adding {} again gave label {}, it has {}", w, l, x.0));
                                    }
                                }
                                None => a.push((a.len() as u32, w)),
                            });
                        }
                    }
                    (Obj::SharedSymt(t), Is::Syms(a)) => {
                        let w = format!("y{}", r.below(8));
                        Arc::make_mut(t).add_symbol(w.clone());
                        quietly(|| {
                            if !a.iter().any(|x| x.1 == w) {
                                a.push((a.len() as u32, w));
                            }
                        });
                    }
                    _ => unreachable!(),
                }
                quietly(|| {
                    o.items.push(it);
                    o.items.append(&mut more);
                    while o.items.len() > 12 {
                        let k = r.below(o.items.len() as u64) as usize;
                        o.items.swap_remove(k);
                    }
                });
                if o.wrong.is_some() {
                    return;
                }
            }
        }
    }
}

pub fn body() -> Result<(), Violation> {
    let f = gen::fst(&Cfg {
        states: range(2, 6),
        arcs: range(3, 10),
        ilabels: 3,
        olabels: 3,
        eps: 2,
        cyc: pick(&[Cyc::No, Cyc::Both]),
        ring: Ring::Trop,
        acceptor: chance(1, 4),
    });
    let mut base = vector::<T>(&f);
    if chance(3, 4) {
        let mut t = SymbolTable::new();
        t.add_symbols(["a", "b", "c"]);
        let t = Arc::new(t);
        base.set_input_symbols(Arc::clone(&t));
        base.set_output_symbols(t);
    }
    let before = quietly(|| snap(&base));
    let lazy = UnionFst::new(base.clone(), base.clone()).map_err(|e| Violation { class: "construction".into(), msg: format!("{:#}", e) })?;
    let cbase: ConstFst<T> = base.clone().into();
    let cbefore = quietly(|| snap(&cbase));
    let base = Arc::new(base);
    let c = Ctx { base: Arc::clone(&base), cbase: Arc::new(cbase), lazy: Arc::new(lazy), exchange: Mutex::new(vec![]) };
    let n = range(1, 3) as usize;
    let steps = range(5, 40);
    let mut outs: Vec<Out> = (0..n).map(|_| Out::default()).collect();
    let seeds: Vec<u64> = (0..n).map(|_| draw(1 << 20)).collect();
    let first = range(0, 2);
    // clones made before the threads start
    for o in outs.iter_mut() {
        for _ in 0..first {
            let it = fst_item((*base).clone(), "clone made before the threads".into());
            o.items.push(it);
        }
    }
    let mut bodies: Vec<Body> = vec![];
    for (o, sd) in outs.iter_mut().zip(&seeds) {
        let c = &c;
        let sd = *sd;
        bodies.push(Box::new(move || program(c, sd, steps, o)));
    }
    util::threads(60_000 * n as u64, bodies)?;
    quietly(|| judge(&c, &before, &cbefore, &outs))
}

fn judge(c: &Ctx, before: &Snap, cbefore: &Snap, outs: &[Out]) -> Result<(), Violation> {
    for o in outs {
        if let Some(w) = &o.wrong {
            return bad("changed", w.clone());
        }
        for i in &o.items {
            if let Some(w) = i.check() {
                return bad("changed", w);
            }
        }
        for (s, a) in &o.rows {
            let now = arcs(c.lazy.get_trs(*s).map_err(|e| Violation { class: "error".into(), msg: e.to_string() })?.trs());
            if now != *a {
                return bad("changed", format!("row {} of a lazy FST: was {:?}, is {:?}", s, a, now));
            }
        }
    }
    for i in c.exchange.lock().unwrap().iter() {
        if let Some(w) = i.check() {
            return bad("changed", w);
        }
    }
    if let Some(w) = differ(before, &snap(&*c.base)) {
        return bad("changed", format!("the shared FST: {}", w));
    }
    if let Some(w) = differ(cbefore, &snap(&*c.cbase)) {
        return bad("changed", format!("the shared ConstFst: {}", w));
    }
    let changes: u64 = outs.iter().map(|o| o.changes).sum();
    if changes >= 4 && before.arcs.iter().any(|a| a.len() > 1) {
        simrt::nontrivial();
    }
    simrt::sample(format!("{} threads, {} changes, {} copies left", outs.len(), changes, outs.iter().map(|o| o.items.len()).sum::<usize>()));
    Ok(())
}
