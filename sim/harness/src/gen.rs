//! Generated inputs, drawn from the run's choice tape.
use models::{RefFst, Ring};
use rustfst::prelude::*;
use rustfst::semirings::{IntegerWeight, TropicalWeight};
use simrt::{chance, draw, range};

/// Weights of the code under test that correspond to a model semiring.
pub trait Wt: Semiring + Send + Sync + 'static {
    const RING: Ring;
    fn of(v: i64) -> Self;
    fn val(&self) -> i64;
}
impl Wt for IntegerWeight {
    const RING: Ring = Ring::Count;
    fn of(v: i64) -> Self {
        IntegerWeight::new(v as i32)
    }
    fn val(&self) -> i64 {
        *self.value() as i64
    }
}
impl Wt for TropicalWeight {
    const RING: Ring = Ring::Trop;
    fn of(v: i64) -> Self {
        TropicalWeight::new(v as f32)
    }
    fn val(&self) -> i64 {
        let v = *self.value();
        if v.is_finite() && v.fract() == 0.0 {
            v as i64
        } else {
            i64::MAX / 4 + (v.to_bits() as i64 % 1000)
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Cyc {
    No,
    /// cycles read at least one label
    In,
    /// cycles write at least one label
    Out,
    /// cycles read and write
    Both,
}

#[derive(Clone, Copy)]
pub struct Cfg {
    pub states: u64,
    pub arcs: u64,
    pub ilabels: u64,
    pub olabels: u64,
    /// epsilon probability in tenths, per side
    pub eps: u64,
    pub cyc: Cyc,
    pub ring: Ring,
    pub acceptor: bool,
}

pub fn weight(ring: Ring) -> i64 {
    match ring {
        Ring::Count => 1 + draw(3) as i64,
        Ring::Trop => draw(5) as i64,
    }
}

pub fn fst(c: &Cfg) -> RefFst {
    let mut f = RefFst::default();
    if draw(40) == 39 {
        return f; // the empty FST
    }
    let n = range(1, c.states) as usize;
    // numbering: position in topological order -> id
    let mut id: Vec<usize> = (0..n).collect();
    if chance(2, 3) {
        for i in (1..n).rev() {
            let j = draw(i as u64 + 1) as usize;
            id.swap(i, i - j);
        }
    }
    for _ in 0..n {
        f.add();
    }
    f.start = Some(id[0]);
    f.states[id[n - 1]].fin = Some(weight(c.ring));
    for i in 0..n - 1 {
        if chance(3, 10) {
            f.states[id[i]].fin = Some(weight(c.ring));
        }
    }
    let m = if chance(7, 8) { range(c.arcs / 2, c.arcs) } else { draw(c.arcs + 1) };
    let lab = |eps: bool, k: u64| -> u32 {
        if eps && chance(c.eps, 10) {
            0
        } else {
            1 + draw(k) as u32
        }
    };
    for j in 0..m {
        let back = c.cyc != Cyc::No && chance(1, 5);
        let (s, t) = if back {
            let a = draw(n as u64) as usize;
            let b = draw(a as u64 + 1) as usize;
            (a, a - b)
        } else {
            if n < 2 {
                continue;
            }
            // favour a connected spine
            let a = if (j as usize) < n - 1 && !chance(1, 3) { j as usize } else { draw(n as u64 - 1) as usize };
            let b = a + 1 + draw((n - 1 - a) as u64) as usize;
            (a, b.min(n - 1))
        };
        let il = lab(!(back && matches!(c.cyc, Cyc::In | Cyc::Both)), c.ilabels);
        let ol = if c.acceptor {
            il
        } else {
            lab(!(back && matches!(c.cyc, Cyc::Out | Cyc::Both)), c.olabels)
        };
        let w = weight(c.ring);
        f.arc(id[s], il, ol, w, id[t]);
    }
    f
}

pub fn vector<W: Wt>(f: &RefFst) -> VectorFst<W> {
    let mut v = VectorFst::<W>::new();
    for _ in 0..f.states.len() {
        v.add_state();
    }
    for (i, s) in f.states.iter().enumerate() {
        for a in &s.arcs {
            v.add_tr(i as u32, Tr::new(a.il, a.ol, W::of(a.w), a.next as u32)).unwrap();
        }
        if let Some(w) = s.fin {
            v.set_final(i as u32, W::of(w)).unwrap();
        }
    }
    if let Some(s) = f.start {
        v.set_start(s as u32).unwrap();
    }
    v
}

pub fn to_ref<W: Wt, F: ExpandedFst<W>>(f: &F) -> RefFst {
    let mut r = RefFst { start: f.start().map(|s| s as usize), states: vec![] };
    for s in 0..f.num_states() {
        let k = r.add();
        r.states[k].fin = f.final_weight(s as u32).unwrap().map(|w| w.val());
        for t in f.get_trs(s as u32).unwrap().trs() {
            r.arc(k, t.ilabel, t.olabel, t.weight.val(), t.nextstate as usize);
        }
    }
    r
}
