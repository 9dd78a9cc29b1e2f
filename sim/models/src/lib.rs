//! Reference models: explicit automata and bounded weighted languages. Nothing here uses the code
//! under test.
pub mod lin;
use std::collections::{BTreeMap, BTreeSet, VecDeque};

/// The two semirings used: arithmetic modulo 2^32 (counts every path exactly) and tropical.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ring {
    Count,
    Trop,
}

impl Ring {
    pub fn one(self) -> i64 {
        match self {
            Ring::Count => 1,
            Ring::Trop => 0,
        }
    }
    pub fn plus(self, a: i64, b: i64) -> i64 {
        match self {
            Ring::Count => (a as i32).wrapping_add(b as i32) as i64,
            Ring::Trop => a.min(b),
        }
    }
    pub fn times(self, a: i64, b: i64) -> i64 {
        match self {
            Ring::Count => (a as i32).wrapping_mul(b as i32) as i64,
            Ring::Trop => a + b,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Arc {
    pub il: u32,
    pub ol: u32,
    pub w: i64,
    pub next: usize,
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct State {
    pub fin: Option<i64>,
    pub arcs: Vec<Arc>,
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct RefFst {
    pub start: Option<usize>,
    pub states: Vec<State>,
}

pub type Pair = (Vec<u32>, Vec<u32>);
pub type Map = BTreeMap<Pair, i64>;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Lang {
    Finite(Map),
    TooBig,
    /// a cycle that reads and writes nothing within the bounds
    Infinite,
}

impl Lang {
    pub fn finite(self) -> Option<Map> {
        match self {
            Lang::Finite(m) => Some(m),
            _ => None,
        }
    }
}

impl RefFst {
    pub fn add(&mut self) -> usize {
        self.states.push(State::default());
        self.states.len() - 1
    }
    pub fn arc(&mut self, s: usize, il: u32, ol: u32, w: i64, next: usize) {
        self.states[s].arcs.push(Arc { il, ol, w, next });
    }
    pub fn num_arcs(&self) -> usize {
        self.states.iter().map(|s| s.arcs.len()).sum()
    }

    /// The weighted relation restricted to pairs with at most `maxi` input and `maxo` output
    /// labels, summed over all paths.
    pub fn lang(&self, ring: Ring, maxi: usize, maxo: usize, cap: usize) -> Lang {
        let mut out = Map::new();
        let Some(st) = self.start else { return Lang::Finite(out) };
        if st >= self.states.len() {
            return Lang::Finite(out);
        }
        let useful = self.coaccessible();
        let mut front: BTreeMap<(usize, Vec<u32>, Vec<u32>), i64> = BTreeMap::new();
        if useful[st] {
            front.insert((st, vec![], vec![]), ring.one());
        }
        let mut work = 0usize;
        let ub = (self.states.len() + 1)
            .saturating_mul(maxi.min(1 << 10) + 1)
            .saturating_mul(maxo.min(1 << 10) + 1)
            .min(200_000);
        let mut level = 0;
        while !front.is_empty() {
            level += 1;
            if level > ub {
                return Lang::Infinite;
            }
            let mut nxt: BTreeMap<(usize, Vec<u32>, Vec<u32>), i64> = BTreeMap::new();
            for ((s, i, o), w) in front {
                let st = &self.states[s];
                if let Some(f) = st.fin {
                    let v = ring.times(w, f);
                    out.entry((i.clone(), o.clone())).and_modify(|x| *x = ring.plus(*x, v)).or_insert(v);
                }
                for a in &st.arcs {
                    if a.next >= self.states.len() || !useful[a.next] {
                        continue;
                    }
                    let mut ni = i.clone();
                    let mut no = o.clone();
                    if a.il != 0 {
                        ni.push(a.il);
                    }
                    if a.ol != 0 {
                        no.push(a.ol);
                    }
                    if ni.len() > maxi || no.len() > maxo {
                        continue;
                    }
                    work += 1;
                    let v = ring.times(w, a.w);
                    nxt.entry((a.next, ni, no)).and_modify(|x| *x = ring.plus(*x, v)).or_insert(v);
                }
            }
            if work > cap {
                return Lang::TooBig;
            }
            front = nxt;
        }
        if ring == Ring::Count {
            out.retain(|_, v| *v != 0);
        }
        Lang::Finite(out)
    }

    pub fn coaccessible(&self) -> Vec<bool> {
        let n = self.states.len();
        let mut rev: Vec<Vec<usize>> = vec![vec![]; n];
        for (i, s) in self.states.iter().enumerate() {
            for a in &s.arcs {
                if a.next < n {
                    rev[a.next].push(i);
                }
            }
        }
        let mut seen = vec![false; n];
        let mut q: VecDeque<usize> = (0..n).filter(|i| self.states[*i].fin.is_some()).collect();
        for i in &q {
            seen[*i] = true;
        }
        while let Some(s) = q.pop_front() {
            for &p in &rev[s] {
                if !seen[p] {
                    seen[p] = true;
                    q.push_back(p);
                }
            }
        }
        seen
    }

    /// Removes the transitions that lead nowhere.
    pub fn trim(&mut self) {
        let (co, re) = (self.coaccessible(), self.reachable());
        for (i, s) in self.states.iter_mut().enumerate() {
            s.arcs.retain(|a| co[a.next] && re.contains(&i));
        }
    }

    pub fn reachable(&self) -> BTreeSet<usize> {
        let mut seen = BTreeSet::new();
        let mut q = VecDeque::new();
        if let Some(s) = self.start {
            seen.insert(s);
            q.push_back(s);
        }
        while let Some(s) = q.pop_front() {
            for a in &self.states[s].arcs {
                if seen.insert(a.next) {
                    q.push_back(a.next);
                }
            }
        }
        seen
    }

    /// Reachable states and their arcs: (states, arcs)
    pub fn size(&self) -> (usize, usize) {
        let r = self.reachable();
        (r.len(), r.iter().map(|s| self.states[*s].arcs.len()).sum())
    }

    /// Final weights of the states reachable by reading and writing nothing are removed.
    pub fn drop_empty(&mut self) {
        let Some(s0) = self.start else { return };
        let mut seen = BTreeSet::from([s0]);
        let mut q = vec![s0];
        while let Some(s) = q.pop() {
            self.states[s].fin = None;
            for a in self.states[s].arcs.clone() {
                if a.il == 0 && a.ol == 0 && seen.insert(a.next) {
                    q.push(a.next);
                }
            }
        }
    }

    /// For acceptors whose weights encode label strings (see `str_code`): the same machine with the
    /// strings spelt out on the output side and unit weights.
    pub fn spell(&self) -> RefFst {
        let mut r = RefFst { start: self.start, states: vec![State::default(); self.states.len()] };
        for (i, s) in self.states.iter().enumerate() {
            for a in &s.arcs {
                let d = str_digits(a.w);
                let mut cur = i;
                for (k, x) in d.iter().enumerate() {
                    let nx = if k + 1 == d.len() { a.next } else { r.add() };
                    r.arc(cur, if k == 0 { a.il } else { 0 }, *x, 1, nx);
                    cur = nx;
                }
                if d.is_empty() {
                    r.arc(i, a.il, 0, 1, a.next);
                }
            }
            if let Some(w) = s.fin {
                let mut cur = i;
                for x in str_digits(w) {
                    let nx = r.add();
                    r.arc(cur, 0, x, 1, nx);
                    cur = nx;
                }
                r.states[cur].fin = Some(1);
            }
        }
        r
    }

    /// Canonical form under renumbering for machines whose arcs have a fixed order per state:
    /// breadth-first renumbering following arc order.
    pub fn canonical(&self) -> RefFst {
        let mut out = RefFst::default();
        let Some(s0) = self.start else { return out };
        let mut id: BTreeMap<usize, usize> = BTreeMap::from([(s0, 0)]);
        let mut order = vec![s0];
        let mut k = 0;
        while k < order.len() {
            for a in &self.states[order[k]].arcs {
                if !id.contains_key(&a.next) {
                    id.insert(a.next, order.len());
                    order.push(a.next);
                }
            }
            k += 1;
        }
        out.start = Some(0);
        for s in &order {
            let st = &self.states[*s];
            out.states.push(State {
                fin: st.fin,
                arcs: st.arcs.iter().map(|a| Arc { next: id[&a.next], ..a.clone() }).collect(),
            });
        }
        out
    }

    /// Colour refinement: a value that is equal for isomorphic machines whatever the numbering
    /// of the states and the order of the arcs (reachable part only).
    pub fn shape(&self) -> (usize, usize, u64) {
        let r: Vec<usize> = self.reachable().into_iter().collect();
        let n = self.states.len();
        let mut col = vec![0u64; n];
        for &s in &r {
            col[s] = h(1, self.states[s].fin.map(|x| x as u64 ^ 0x55).unwrap_or(7));
        }
        if let Some(s) = self.start {
            col[s] = h(2, col[s]);
        }
        let mut rin: Vec<Vec<(usize, &Arc)>> = vec![vec![]; n];
        for &s in &r {
            for a in &self.states[s].arcs {
                rin[a.next].push((s, a));
            }
        }
        for _ in 0..r.len().min(24) {
            let mut nc = col.clone();
            for &s in &r {
                let mut v: Vec<u64> = self.states[s]
                    .arcs
                    .iter()
                    .map(|a| h(h(h(3, a.il as u64), h(a.ol as u64, a.w as u64)), col[a.next]))
                    .collect();
                v.extend(rin[s].iter().map(|(p, a)| h(h(h(4, a.il as u64), h(a.ol as u64, a.w as u64)), col[*p])));
                v.sort_unstable();
                let mut x = col[s];
                for y in v {
                    x = h(x, y);
                }
                nc[s] = x;
            }
            col = nc;
        }
        let mut v: Vec<u64> = r.iter().map(|s| col[*s]).collect();
        v.sort_unstable();
        let mut x = 9;
        for y in v {
            x = h(x, y);
        }
        let (a, b) = self.size();
        (a, b, x)
    }
}

/// A string over labels 1..=7 as a number: a leading 1, then base-8 digits.
pub fn str_code(l: &[u32]) -> i64 {
    l.iter().fold(1i64, |a, x| a.wrapping_mul(8) + (*x as i64 & 7))
}
pub fn str_digits(mut w: i64) -> Vec<u32> {
    let mut v = vec![];
    while w > 1 {
        v.push((w % 8) as u32);
        w /= 8;
    }
    v.reverse();
    v
}

fn h(a: u64, b: u64) -> u64 {
    let mut z = a.rotate_left(23) ^ b.wrapping_mul(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

fn put(m: &mut Map, ring: Ring, k: Pair, v: i64) {
    m.entry(k).and_modify(|x| *x = ring.plus(*x, v)).or_insert(v);
}

fn clean(mut m: Map, ring: Ring) -> Map {
    if ring == Ring::Count {
        m.retain(|_, v| *v != 0);
    }
    m
}

pub fn union(a: &Map, b: &Map, ring: Ring) -> Map {
    let mut m = a.clone();
    for (k, v) in b {
        put(&mut m, ring, k.clone(), *v);
    }
    clean(m, ring)
}

pub fn concat(a: &Map, b: &Map, ring: Ring, maxi: usize, maxo: usize) -> Map {
    let mut m = Map::new();
    for (x, v) in a {
        for (y, w) in b {
            if x.0.len() + y.0.len() <= maxi && x.1.len() + y.1.len() <= maxo {
                let k = ([x.0.clone(), y.0.clone()].concat(), [x.1.clone(), y.1.clone()].concat());
                put(&mut m, ring, k, ring.times(*v, *w));
            }
        }
    }
    clean(m, ring)
}

/// Star (or plus) of a relation without the empty pair.
pub fn closure(a: &Map, ring: Ring, plus: bool, maxi: usize, maxo: usize) -> Map {
    let mut m = Map::new();
    if !plus {
        m.insert((vec![], vec![]), ring.one());
    }
    let mut pow = a.clone();
    while !pow.is_empty() {
        m = union(&m, &pow, ring);
        pow = concat(&pow, a, ring, maxi, maxo);
    }
    m
}

pub fn compose(a: &Map, b: &Map, ring: Ring) -> Map {
    let mut by: BTreeMap<&Vec<u32>, Vec<(&Vec<u32>, i64)>> = BTreeMap::new();
    for ((i, o), w) in b {
        by.entry(i).or_default().push((o, *w));
    }
    let mut m = Map::new();
    for ((i, mid), w) in a {
        if let Some(v) = by.get(mid) {
            for (o, x) in v {
                put(&mut m, ring, (i.clone(), (*o).clone()), ring.times(*w, *x));
            }
        }
    }
    clean(m, ring)
}

pub fn invert(a: &Map) -> Map {
    a.iter().map(|((i, o), w)| ((o.clone(), i.clone()), *w)).collect()
}

pub fn diff(a: &Map, b: &Map) -> String {
    let mut s = vec![];
    for (k, v) in a {
        match b.get(k) {
            Some(w) if w == v => {}
            Some(w) => s.push(format!("{:?}: expected {} got {}", k, v, w)),
            None => s.push(format!("{:?}: expected {} got nothing", k, v)),
        }
    }
    for (k, w) in b {
        if !a.contains_key(k) {
            s.push(format!("{:?}: expected nothing got {}", k, w));
        }
    }
    let n = s.len();
    s.truncate(4);
    format!("{} differences: {}", n, s.join("; "))
}
