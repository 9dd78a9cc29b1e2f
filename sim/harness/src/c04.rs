//! C04: state tables intern tuples exactly once, densely.
use crate::util;
use nom::IResult;
use rustfst::algorithms::compose::filter_states::{FilterState, IntegerFilterState};
use rustfst::algorithms::compose::ComposeStateTuple;
use rustfst::algorithms::lazy::StateTable;
use rustfst::prelude::SerializeBinary;
use rustfst::NomCustomError;
use simrt::rng::Rng;
use simrt::sched::{quietly, stamp, Body};
use simrt::{bad, draw, range, Violation};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::sync::Mutex;

/// A user's tuple whose hashes collide.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Collide(pub u64);
impl Hash for Collide {
    fn hash<H: Hasher>(&self, h: &mut H) {
        (self.0 % 2).hash(h)
    }
}
impl SerializeBinary for Collide {
    fn parse_binary(i: &[u8]) -> IResult<&[u8], Self, NomCustomError<&[u8]>> {
        let (i, x) = nom::number::complete::le_u64(i)?;
        Ok((i, Collide(x)))
    }
    fn write_binary<W: Write>(&self, w: &mut W) -> anyhow::Result<()> {
        Ok(w.write_all(&self.0.to_le_bytes())?)
    }
}

pub trait Tuple: Hash + Eq + Clone + Debug + SerializeBinary + Send + Sync + 'static {
    fn of(k: u64) -> Self;
}
impl Tuple for Collide {
    fn of(k: u64) -> Self {
        Collide(k)
    }
}
impl Tuple for ComposeStateTuple<IntegerFilterState> {
    fn of(k: u64) -> Self {
        ComposeStateTuple { fs: IntegerFilterState::new((k % 2) as u32), s1: (k / 2 % 2) as u32, s2: (k / 4) as u32 }
    }
}

#[derive(Default)]
struct Log {
    /// inv, res, key, id
    ids: Vec<(u64, u64, u64, u32)>,
    wrong: Option<(&'static str, String)>,
    copies: u64,
}

/// A copy must contain what was handed out before it was asked for, and be a table itself.
fn inspect<T: Tuple>(what: &str, t: &StateTable<T>, before: &[(u64, u32)], keys: u64) -> Option<(&'static str, String)> {
    for (k, id) in before {
        let i = t.find_id(T::of(*k));
        if i != *id {
            return Some(("copy", format!("{} gives tuple {} id {}, the original had given it {}", what, k, i, id)));
        }
    }
    let mut seen = BTreeMap::new();
    for k in 0..keys {
        let i = t.find_id(T::of(k));
        if let Some(o) = seen.insert(i, k) {
            return Some(("copy", format!("{} gives tuples {} and {} the same id {}", what, o, k, i)));
        }
        if t.find_tuple(i) != T::of(k) {
            return Some(("copy", format!("{} gives tuple {} id {} but finds {:?} under it", what, k, i, t.find_tuple(i))));
        }
    }
    if seen.keys().copied().ne(0..keys as u32) {
        return Some(("copy", format!("ids in {} are {:?}", what, seen.keys())));
    }
    None
}

fn run<T: Tuple>(t: &StateTable<T>, pool: &Mutex<Vec<(u64, u32)>>, seed: u64, ops: u64, keys: u64, l: &mut Log) {
    let mut r = Rng::new(seed);
    for _ in 0..ops {
        let k = r.below(keys);
        match r.below(16) {
            x @ 0..=8 => {
                let inv = stamp();
                let id = if x < 5 { t.find_id(T::of(k)) } else { t.find_id_from_ref(&T::of(k)) };
                let res = stamp();
                quietly(|| {
                    l.ids.push((inv, res, k, id));
                    pool.lock().unwrap().push((k, id));
                });
            }
            9..=12 => {
                // any id any thread has seen
                let Some((k, id)) = quietly(|| {
                    let p = pool.lock().unwrap();
                    (!p.is_empty()).then(|| p[r.below(p.len() as u64) as usize])
                }) else {
                    continue;
                };
                let got = t.find_tuple(id);
                if got != T::of(k) {
                    l.wrong = Some(("tuple", format!("id {} was given to tuple {}, but belongs to {:?}", id, k, got)));
                }
            }
            13 => {
                let before = quietly(|| pool.lock().unwrap().clone());
                let c = t.clone();
                l.copies += 1;
                if let Some(w) = inspect("a clone", &c, &before, keys) {
                    l.wrong = Some(w);
                }
            }
            14 => {
                let before = quietly(|| pool.lock().unwrap().clone());
                let mut b = vec![];
                let w = t.write_binary(&mut b);
                l.copies += 1;
                match w {
                    Err(e) => l.wrong = Some(("copy", format!("writing the table: {:#}", e))),
                    Ok(()) => match StateTable::<T>::parse_binary(&b) {
                        Ok((rest, c)) => {
                            if !rest.is_empty() {
                                l.wrong = Some(("copy", "bytes left over after reading the table".into()));
                            } else if let Some(w) = inspect("the written table", &c, &before, keys) {
                                l.wrong = Some(w);
                            }
                        }
                        Err(e) => l.wrong = Some(("copy", format!("the written table cannot be read: {}", e))),
                    },
                }
            }
            _ => {
                let s = format!("{:?}", t);
                std::hint::black_box(s);
            }
        }
        if l.wrong.is_some() {
            return;
        }
    }
}

fn go<T: Tuple>() -> Result<(), Violation> {
    util::wakeups();
    let t = StateTable::<T>::new();
    let n = range(2, 4);
    let keys = range(1, 8);
    let ops = range(2, 16);
    let pool = Mutex::new(vec![]);
    let seeds: Vec<u64> = (0..n).map(|_| draw(1 << 20)).collect();
    let mut logs: Vec<Log> = (0..n).map(|_| Log::default()).collect();
    let bodies: Vec<Body> = logs
        .iter_mut()
        .zip(&seeds)
        .map(|(l, s)| Box::new({ let (t, pool, s) = (&t, &pool, *s); move || run(t, pool, s, ops, keys, l) }) as Body)
        .collect();
    util::threads(100 * ops * n, bodies)?;
    let mut by_key: BTreeMap<u64, u32> = BTreeMap::new();
    let mut by_id: BTreeMap<u32, u64> = BTreeMap::new();
    let mut all = vec![];
    for l in logs {
        if let Some((c, e)) = l.wrong {
            return bad(c, e);
        }
        all.extend(l.ids);
    }
    for (_, _, k, id) in &all {
        if let Some(o) = by_key.insert(*k, *id) {
            if o != *id {
                return bad("ids", format!("tuple {} was given ids {} and {}", k, o, id));
            }
        }
        if let Some(o) = by_id.insert(*id, *k) {
            if o != *k {
                return bad("ids", format!("tuples {} and {} were both given id {}", o, k, id));
            }
        }
    }
    if by_id.keys().copied().ne(0..by_id.len() as u32) {
        return bad("ids", format!("ids handed out are {:?}", by_id.keys()));
    }
    // dense at every moment: an id is smaller than the number of tuples anybody had asked about
    for (_, res, k, id) in &all {
        let asked: BTreeSet<u64> = all.iter().filter(|x| x.0 < *res).map(|x| x.2).collect();
        if *id as usize >= asked.len() {
            return bad("ids", format!("tuple {} got id {} when only {} tuples had been asked about", k, id, asked.len()));
        }
    }
    let before: Vec<(u64, u32)> = by_key.iter().map(|(k, v)| (*k, *v)).collect();
    if let Some((c, e)) = inspect("the table", &t, &before, keys) {
        return bad(c, e);
    }
    if by_key.len() >= 2 && all.len() > by_key.len() {
        simrt::nontrivial();
    }
    simrt::sample(format!("{} threads, {} lookups of {} tuples", n, all.len(), by_key.len()));
    Ok(())
}

pub fn body() -> Result<(), Violation> {
    if draw(2) == 0 {
        go::<ComposeStateTuple<IntegerFilterState>>()
    } else {
        go::<Collide>()
    }
}
