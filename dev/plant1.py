import sys; sys.path.insert(0, "/verif/dev")
from plantlib import plant
L = "rustfst/src/algorithms/lazy/"
plant("C04-lookup-then-insert", "C04", [(L + "state_table.rs", """    pub fn find_id(&self, tuple: T) -> StateId {
        let mut table = self.table.lock().unwrap();
        table.get_id_or_insert(tuple)
    }""", """    pub fn find_id(&self, tuple: T) -> StateId {
        // Most tuples are already known: only clone and reserve for the new ones.
        if let Some(id) = self.table.lock().unwrap().tuple_to_id.get(&tuple) {
            return *id;
        }
        let mut table = self.table.lock().unwrap();
        let id = table.id_to_tuple.len() as StateId;
        table.id_to_tuple.push(tuple.clone());
        table.tuple_to_id.insert(tuple, id);
        id
    }""")], "two threads interning the same new tuple, one of them switched out between the lookup and the insertion",
"equal tuples get different ids",
r'''use rustfst::algorithms::lazy::StateTable;
use std::sync::{Arc, Barrier};

fn main() {
    for round in 0..300 {
        let t = Arc::new(StateTable::<u32>::new());
        let b = Arc::new(Barrier::new(4));
        let hs: Vec<_> = (0..4)
            .map(|_| {
                let (t, b) = (t.clone(), b.clone());
                std::thread::spawn(move || {
                    b.wait();
                    (0..2000u32).map(|x| t.find_id(x)).collect::<Vec<_>>()
                })
            })
            .collect();
        let ids: Vec<_> = hs.into_iter().map(|h| h.join().unwrap()).collect();
        if ids.iter().any(|i| *i != ids[0]) {
            println!("round {}: two threads got different ids for a tuple", round);
            std::process::exit(1);
        }
    }
}
''')
plant("C01-known-states-lost", "C01", [(L + "cache/simple_vec_cache.rs", """        let id = id as usize;
        let mut cached_data = self.trs.lock().unwrap();
        let mut niepsilons = 0;
        let mut noepsilons = 0;
        for tr in trs.trs() {
            cached_data.num_known_states =
                std::cmp::max(cached_data.num_known_states, tr.nextstate as usize + 1);
            if""", """        let id = id as usize;
        // Scan the transitions before entering the critical section.
        let mut num_known_states = self.trs.lock().unwrap().num_known_states;
        let mut niepsilons = 0;
        let mut noepsilons = 0;
        for tr in trs.trs() {
            num_known_states = std::cmp::max(num_known_states, tr.nextstate as usize + 1);
            if"""), (L + "cache/simple_vec_cache.rs", """        if id >= cached_data.data.len() {
            cached_data.data.resize(id + 1, CacheStatus::NotComputed);
        }

        cached_data.data[id] = CacheStatus::Computed(CacheTrs {""", """        let mut cached_data = self.trs.lock().unwrap();
        cached_data.num_known_states = num_known_states;
        if id >= cached_data.data.len() {
            cached_data.data.resize(id + 1, CacheStatus::NotComputed);
        }

        cached_data.data[id] = CacheStatus::Computed(CacheTrs {""")],
"two threads expanding different states of a lazy FST with a vector cache; one is switched out between reading the number of known states and storing it",
"the number of known states goes backwards: state iteration by one thread stops early and counts of existing states fail",
r'''use rustfst::algorithms::lazy::{FstCache, SimpleVecCache};
use rustfst::prelude::*;
use rustfst::{Tr, Trs, TrsVec};
use std::sync::{Arc, Barrier};

fn trs(n: u32) -> TrsVec<TropicalWeight> {
    let mut v: Vec<_> = (0..2000).map(|_| Tr::new(1, 1, TropicalWeight::one(), 0)).collect();
    v.push(Tr::new(1, 1, TropicalWeight::one(), n));
    TrsVec(Arc::new(v))
}
fn main() {
    let (lo, hi) = (trs(1), trs(99));
    for round in 0..5000 {
        let c = Arc::new(SimpleVecCache::<TropicalWeight>::default());
        let b = Arc::new(Barrier::new(2));
        let hs: Vec<_> = [(0, lo.shallow_clone()), (1, hi.shallow_clone())]
            .into_iter()
            .map(|(id, t)| {
                let (c, b) = (c.clone(), b.clone());
                std::thread::spawn(move || {
                    b.wait();
                    c.insert_trs(id, t)
                })
            })
            .collect();
        hs.into_iter().for_each(|h| h.join().unwrap());
        if c.num_known_states() != 100 {
            println!("round {}: {} known states", round, c.num_known_states());
            std::process::exit(1);
        }
    }
}
''')
plant("C05-state-before-cache", "C05", [(L + "lazy_fst.rs", """        self.cache.write(cache_dir)?;
        self.op.get_op_state().write(op_state_dir)?;
        Ok(())""", """        // The state table is the small one: fail early if the directory is not writable.
        self.op.get_op_state().write(op_state_dir)?;
        self.cache.write(cache_dir)?;
        Ok(())""")],
"another thread expanding new states between the writing of the state table and the writing of the cache",
"the snapshot's cache refers to states its state table does not know: the resumed composition panics or gives other states those ids",
r'''use rustfst::algorithms::compose::compose_filters::SequenceComposeFilterBuilder;
use rustfst::algorithms::compose::matchers::SortedMatcher;
use rustfst::algorithms::compose::{ComposeFst, ComposeFstOpOptions};
use rustfst::algorithms::lazy::*;
use rustfst::prelude::*;
use rustfst::{StateId, Tr, TrsVec};
use std::path::Path;
use std::sync::{Arc, Mutex};

type W = TropicalWeight;
type F = VectorFst<W>;

// A cache whose writing takes so long that other threads expand states meanwhile.
#[derive(Debug)]
struct Slow {
    c: SimpleHashMapCache<W>,
    go: Mutex<Option<std::sync::mpsc::Sender<()>>>,
    done: Mutex<Option<std::sync::mpsc::Receiver<()>>>,
}
impl FstCache<W> for Slow {
    fn get_start(&self) -> CacheStatus<Option<StateId>> { self.c.get_start() }
    fn insert_start(&self, id: Option<StateId>) { self.c.insert_start(id) }
    fn get_trs(&self, id: StateId) -> CacheStatus<TrsVec<W>> { self.c.get_trs(id) }
    fn insert_trs(&self, id: StateId, trs: TrsVec<W>) { self.c.insert_trs(id, trs) }
    fn get_final_weight(&self, id: StateId) -> CacheStatus<Option<W>> { self.c.get_final_weight(id) }
    fn insert_final_weight(&self, id: StateId, w: Option<W>) { self.c.insert_final_weight(id, w) }
    fn num_known_states(&self) -> usize { self.c.num_known_states() }
    fn compute_num_known_trs(&self) -> usize { self.c.compute_num_known_trs() }
    fn num_trs(&self, id: StateId) -> Option<usize> { self.c.num_trs(id) }
    fn num_input_epsilons(&self, id: StateId) -> Option<usize> { self.c.num_input_epsilons(id) }
    fn num_output_epsilons(&self, id: StateId) -> Option<usize> { self.c.num_output_epsilons(id) }
    fn len_trs(&self) -> usize { self.c.len_trs() }
    fn len_final_weights(&self) -> usize { self.c.len_final_weights() }
}
impl SerializableCache for Slow {
    fn read<P: AsRef<Path>>(path: P) -> anyhow::Result<Self> {
        Ok(Slow { c: SimpleHashMapCache::read(path)?, go: Mutex::new(None), done: Mutex::new(None) })
    }
    fn write<P: AsRef<Path>>(&self, path: P) -> anyhow::Result<()> {
        if let Some(g) = self.go.lock().unwrap().take() {
            g.send(()).unwrap();
            self.done.lock().unwrap().take().unwrap().recv().unwrap();
        }
        self.c.write(path)
    }
}

fn chain(n: u32) -> F {
    let mut f = F::new();
    f.add_states(n as usize + 1);
    f.set_start(0).unwrap();
    for i in 0..n {
        f.add_tr(i, Tr::new(1, 1, W::one(), i + 1)).unwrap();
    }
    f.set_final(n, W::one()).unwrap();
    f.compute_and_update_properties_all().unwrap();
    f
}

type M = SortedMatcher<W, F, Arc<F>>;
type B = SequenceComposeFilterBuilder<W, F, F, Arc<F>, Arc<F>, M, M>;
type C<K> = ComposeFst<W, F, F, Arc<F>, Arc<F>, M, M, B, K>;

fn main() {
    let f = Arc::new(chain(6));
    let (g1, g2) = std::sync::mpsc::channel();
    let (d1, d2) = std::sync::mpsc::channel();
    let cache = Slow { c: SimpleHashMapCache::default(), go: Mutex::new(Some(g1)), done: Mutex::new(Some(d2)) };
    let opts = ComposeFstOpOptions::<M, M, B, _>::default();
    let c: Arc<C<Slow>> = Arc::new(ComposeFst::new_with_options_and_cache(f.clone(), f.clone(), opts, cache).unwrap());
    c.start();
    let c2 = c.clone();
    let h = std::thread::spawn(move || {
        g2.recv().unwrap();
        let mut s = c2.start().unwrap();
        for _ in 0..3 {
            s = c2.get_trs(s).unwrap().trs()[0].nextstate;
        }
        d1.send(()).unwrap();
    });
    let d = std::env::current_dir().unwrap();
    c.write(d.join("cache"), d.join("state")).unwrap();
    h.join().unwrap();
    drop(c);
    // after a restart
    let st = SerializableOpState::read(d.join("state")).unwrap();
    let opts = ComposeFstOpOptions::<M, M, B, _>::new(None, None, None, Some(st));
    let c: C<SimpleHashMapCache<W>> =
        ComposeFst::new_with_options_and_cache(f.clone(), f, opts, SimpleHashMapCache::read(d.join("cache")).unwrap()).unwrap();
    let r: F = c.compute().unwrap();
    if r.num_states() != 7 || r.num_trs(5).unwrap() != 1 {
        println!("resumed composition: {} states", r.num_states());
        std::process::exit(1);
    }
}
''')
plant("C06-short-string-write", "C06", [("rustfst/src/parsers/bin_fst/fst_header.rs",
"        file.write_all(self.s.as_bytes()).map_err(|e| e.into())",
"        file.write(self.s.as_bytes())?;\n        Ok(())")],
"a writer that accepts only part of a string at a time (a pipe or socket, or a symbol longer than the buffer)",
"a store that reports success has lost part of a symbol",
r'''use rustfst::prelude::*;
use std::io::Write;
use std::sync::Arc;

struct Pipe(Vec<u8>);
impl Write for Pipe {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(5);
        self.0.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn main() {
    let mut f = VectorFst::<TropicalWeight>::new();
    let s = f.add_state();
    f.set_start(s).unwrap();
    f.set_final(s, TropicalWeight::one()).unwrap();
    f.set_input_symbols(Arc::new(symt!["a long symbol", "b"]));
    let mut p = Pipe(vec![]);
    match f.store(&mut p) {
        Err(_) => {}
        Ok(()) => match VectorFst::<TropicalWeight>::load(&p.0) {
            Ok(g) if g == f => {}
            r => {
                println!("store() returned Ok, loading gives {:?}", r.map(|_| "another FST").map_err(|e| e.to_string()));
                std::process::exit(1);
            }
        },
    }
}
''')
plant("C07-cut-symbol-table", "C07", [("rustfst/src/parsers/bin_symt/nom_parser.rs",
"    let (i, pairs_idx_symbols) = count(parse_row_symt, num_symbols as usize)(i)?;",
"""    // The announced number is not trusted for an allocation.
    let (i, pairs_idx_symbols) = many0(parse_row_symt)(i)?;
    if pairs_idx_symbols.len() > num_symbols as usize {
        return Err(nom::Err::Error(NomCustomError::SymbolTableError(
            "SymbolTable contains more symbols than announced".to_string(),
        )));
    }"""), ("rustfst/src/parsers/bin_symt/nom_parser.rs", "use nom::multi::count;", "use nom::multi::many0;")],
"a symbol table file cut off between or inside rows, the embedded case excepted",
"a truncated symbol table file is read as a smaller table instead of an error",
r'''use rustfst::prelude::*;

fn main() {
    let d = std::env::current_dir().unwrap();
    let p = d.join("s.bin");
    symt!["a", "bcd", "ef"].write(&p).unwrap();
    let all = std::fs::read(&p).unwrap();
    let whole = SymbolTable::read(&p).unwrap();
    assert_eq!(whole.len(), 4);
    for n in 0..all.len() {
        std::fs::write(&p, &all[..n]).unwrap();
        if let Ok(t) = SymbolTable::read(&p) {
            println!("cut at {} of {}: read as a table of {} symbols", n, all.len(), t.len());
            std::process::exit(1);
        }
    }
}
''')
plant("C08-capacity-from-file", "C08", [("rustfst/src/fst_impls/vector_fst/serializable_fst.rs",
"    let (i, trs) = count(parse_bin_fst_tr, num_trs as usize)(i)?;\n",
"""    let mut trs = Vec::with_capacity(num_trs as usize);
    let mut i = i;
    for _ in 0..num_trs {
        let (rest, tr) = parse_bin_fst_tr(i)?;
        trs.push(tr);
        i = rest;
    }
""")],
"a damaged transition count of a state in a binary vector FST",
"reading the damaged file panics with a capacity overflow or asks for memory out of proportion",
r'''use rustfst::prelude::*;
use rustfst::utils::transducer;

fn main() {
    let f: VectorFst<TropicalWeight> = fst![1, 2 => 3, 4];
    let mut b = vec![];
    f.store(&mut b).unwrap();
    // the last state has no transitions: its count is the last 8 bytes
    let n = b.len();
    b[n - 1] = 0x7f;
    let r = std::panic::catch_unwind(|| VectorFst::<TropicalWeight>::load(&b).is_ok());
    if r.is_err() {
        println!("panic while reading a damaged file");
        std::process::exit(1);
    }
}
''')
plant("C09-relabel-chain", "C09", [("rustfst/src/algorithms/relabel_pairs.rs",
"""                match (map_ilabels.get(&tr.ilabel), map_olabels.get(&tr.olabel)) {
                    (Some(ilabel), Some(olabel)) => {
                        it_tr.set_labels_unchecked(idx_tr, *ilabel, *olabel)
                    }
                    (Some(ilabel), None) => it_tr.set_ilabel_unchecked(idx_tr, *ilabel),
                    (None, Some(olabel)) => it_tr.set_olabel_unchecked(idx_tr, *olabel),
                    (None, None) => {}
                };
""", """                let (mut ilabel, mut olabel) = (tr.ilabel, tr.olabel);
                for (old, new) in &map_ilabels {
                    if ilabel == *old {
                        ilabel = *new;
                    }
                }
                for (old, new) in &map_olabels {
                    if olabel == *old {
                        olabel = *new;
                    }
                }
                it_tr.set_labels_unchecked(idx_tr, ilabel, olabel);
""")], "relabelling pairs in which a new label is also an old one, and hash keys that order the one pair before the other",
"labels are mapped twice in some processes and not in others",
r'''use rustfst::algorithms::relabel_pairs;
use rustfst::utils::transducer;
use rustfst::prelude::*;

fn main() {
    for _ in 0..200 {
        let mut f: VectorFst<TropicalWeight> = fst![1, 2, 3 => 1, 2, 3];
        relabel_pairs(&mut f, vec![(1, 2), (2, 3), (3, 1)], vec![]).unwrap();
        let want: VectorFst<TropicalWeight> = fst![2, 3, 1 => 1, 2, 3];
        if f != want {
            println!("relabelled to {}", f);
            std::process::exit(1);
        }
    }
}
''')
plant("C14-clear-lock-order", "C14", [(L + "cache/simple_hash_map_cache.rs",
"""        let mut data_start = self.start.lock().unwrap();
        data_start.clear();

        let mut data_trs = self.trs.lock().unwrap();
        data_trs.clear();

        let mut data_final_weights = self.final_weights.lock().unwrap();
        data_final_weights.clear();
""", """        // Forget the start state last: until then the cache looks merely incomplete.
        let mut data_final_weights = self.final_weights.lock().unwrap();
        data_final_weights.clear();

        let mut data_trs = self.trs.lock().unwrap();
        data_trs.clear();

        let mut data_start = self.start.lock().unwrap();
        data_start.clear();
""")], "one thread cloning a cache while another clears it, each holding a lock the other needs",
"both threads wait for ever",
r'''use rustfst::algorithms::lazy::{FstCache, SimpleHashMapCache};
use rustfst::prelude::*;
use std::sync::Arc;

fn main() {
    let c = Arc::new(SimpleHashMapCache::<TropicalWeight>::default());
    let hs: Vec<_> = (0..4)
        .map(|i| {
            let c = c.clone();
            std::thread::spawn(move || {
                for n in 0..100_000u32 {
                    if i % 2 == 0 {
                        let _ = (*c).clone();
                    } else {
                        c.clear();
                        c.insert_final_weight(n % 50, None);
                    }
                }
            })
        })
        .collect();
    for _ in 0..600 {
        std::thread::sleep(std::time::Duration::from_millis(100));
        if hs.iter().all(|h| h.is_finished()) {
            return;
        }
    }
    println!("no progress");
    std::process::exit(1);
}
''')
