//! Objects that can be written to and read from files.
use rustfst::algorithms::lazy::*;
use rustfst::prelude::*;
use rustfst::semirings::*;
use rustfst::DrawingConfig;
use simrt::faults::{self, Fault, Site};
use simrt::rng::Rng;
use simrt::{chance, draw, pick, range, vfs};
use std::fmt::Write as _;
use std::io::Write;
use std::sync::Arc;

pub struct Obj {
    pub name: String,
    pub write: Box<dyn Fn(&str) -> Result<(), String> + Send + Sync>,
    /// what the file holds, in a comparable form (or just whether it can be read)
    pub read: Box<dyn Fn(&str, bool) -> Result<String, String> + Send + Sync>,
    pub want: String,
    /// a file cut short cannot be taken for a whole one
    pub binary: bool,
    pub text: bool,
}

fn e<T>(r: anyhow::Result<T>) -> Result<T, String> {
    r.map_err(|x| format!("{:#}", x))
}

const FLOATS: &[f32] = &[0.0, 0.5, 1.0, 2.0, 1.25, 3.1415927, -1.2, 0.1, 1e-7, 16777216.0, 1e20, f32::MAX, f32::MIN_POSITIVE, 1e-40];

/// Weights that have a file format. The zero weight is left out: a zero final weight means "not final".
pub trait Fw: SerializableSemiring + Send + Sync + 'static {
    fn some(r: &mut Rng) -> Self;
}
impl Fw for TropicalWeight {
    fn some(r: &mut Rng) -> Self {
        Self::new(FLOATS[r.below(FLOATS.len() as u64) as usize])
    }
}
impl Fw for LogWeight {
    fn some(r: &mut Rng) -> Self {
        Self::new(FLOATS[r.below(FLOATS.len() as u64) as usize])
    }
}
impl Fw for ProbabilityWeight {
    fn some(r: &mut Rng) -> Self {
        // clearly different from zero: weights are compared approximately
        Self::new([0.25, 0.5, 1.0, 0.7310586, 3.5, 1e10][r.below(6) as usize])
    }
}
impl Fw for IntegerWeight {
    fn some(r: &mut Rng) -> Self {
        Self::new([1, 2, 7, -3, i32::MAX, i32::MIN, 100000][r.below(7) as usize])
    }
}
fn labels(r: &mut Rng) -> Vec<u32> {
    (0..r.below(4)).map(|_| [1, 2, 77, 40000, i32::MAX as u32][r.below(5) as usize]).collect()
}
impl Fw for StringWeightLeft {
    fn some(r: &mut Rng) -> Self {
        labels(r).into()
    }
}
impl Fw for ProductWeight<TropicalWeight, LogWeight> {
    fn some(r: &mut Rng) -> Self {
        Self::new((Fw::some(r), Fw::some(r)))
    }
}
impl Fw for GallicWeightLeft<TropicalWeight> {
    fn some(r: &mut Rng) -> Self {
        (labels(r), TropicalWeight::some(r)).into()
    }
}
impl Fw for GallicWeight<TropicalWeight> {
    fn some(r: &mut Rng) -> Self {
        (labels(r), TropicalWeight::some(r)).into()
    }
}

fn symbol(r: &mut Rng, i: u64, plain: bool) -> String {
    let s = ["a", "word", "été", "日本語", "x_y", "<s>", "#0", "A-B", "10", "\\", "\"", "e\u{301}"][r.below(12) as usize];
    let mut s = format!("{}{}", s, i);
    if !plain {
        match r.below(8) {
            0 => s = format!("{} with space {}", s, i),
            1 => s = format!("{}\t\n{}", s, i),
            2 if i == 1 => s = String::new(),
            3 => s = s.repeat(1 + r.below(40) as usize),
            _ => {}
        }
    }
    s
}

pub fn symt(n: u64, plain: bool, eps: bool) -> SymbolTable {
    let mut r = Rng::new(draw(1 << 20));
    let mut t = if eps { SymbolTable::new() } else { SymbolTable::empty() };
    for i in 0..n {
        t.add_symbol(symbol(&mut r, i, plain));
    }
    t
}

pub fn show_symt(t: &SymbolTable) -> String {
    let mut s = format!("{} symbols", t.len());
    let mut v: Vec<_> = t.iter().map(|(l, x)| (l, x.to_string())).collect();
    v.sort();
    for (l, x) in v {
        let back = t.get_label(&x);
        let _ = write!(s, " {}={:?}{}", l, x, if back == Some(l) { "" } else { "(no way back)" });
    }
    s
}

/// Everything an FST shows, except property bits.
pub fn show<W: Semiring, F: ExpandedFst<W>>(f: &F) -> String {
    let mut s = format!("start {:?} states {}\n", f.start(), f.num_states());
    for q in 0..f.num_states() as u32 {
        let fw = f.final_weight(q).map(|w| w.map(|w| format!("{:?}", w)));
        let _ = write!(s, "{}: final {:?} ieps {:?} oeps {:?}", q, fw.ok(), f.num_input_epsilons(q).ok(), f.num_output_epsilons(q).ok());
        match f.get_trs(q) {
            Ok(t) => {
                for t in t.trs() {
                    let _ = write!(s, " [{}:{}/{:?} -> {}]", t.ilabel, t.olabel, t.weight, t.nextstate);
                }
            }
            Err(x) => {
                let _ = write!(s, " error {}", x);
            }
        }
        s.push('\n');
    }
    let _ = write!(s, "isymt {:?}\n", f.input_symbols().map(|t| show_symt(t)));
    let _ = write!(s, "osymt {:?}\n", f.output_symbols().map(|t| show_symt(t)));
    s
}

pub struct Opts {
    pub symbols: bool,
    pub big: bool,
    pub small_labels: bool,
    /// every state is mentioned in the text format, and the start state first
    pub text: bool,
}

pub fn fst<W: Fw>(o: &Opts) -> VectorFst<W> {
    let mut f = VectorFst::<W>::new();
    let n = if o.big { range(1, 60) } else { draw(7) };
    let m = if n == 0 {
        0
    } else if o.big {
        range(100, 1500)
    } else {
        draw(12)
    };
    let mut r = Rng::new(draw(1 << 24));
    for _ in 0..n {
        f.add_state();
    }
    let lab = |r: &mut Rng| -> u32 {
        if o.symbols || o.small_labels {
            r.below(4) as u32
        } else {
            [0, 1, 2, 3, 255, 256, 65536, i32::MAX as u32, i32::MAX as u32 + 1, u32::MAX - 1][r.below(10) as usize]
        }
    };
    for _ in 0..m {
        let (s, t) = (r.below(n) as u32, r.below(n) as u32);
        let tr = Tr::new(lab(&mut r), lab(&mut r), W::some(&mut r), t);
        f.add_tr(s, tr).unwrap();
    }
    for s in 0..n {
        if r.below(3) == 0 {
            f.set_final(s as u32, W::some(&mut r)).unwrap();
        }
    }
    if n > 0 && (o.text || draw(12) != 11) {
        let s = draw(n) as u32;
        f.set_start(s).unwrap();
        if o.text {
            f.add_tr(s, Tr::new(lab(&mut r), lab(&mut r), W::some(&mut r), n as u32 - 1)).unwrap();
        }
    }
    if o.symbols {
        // labels 0..=3
        if chance(2, 3) {
            f.set_input_symbols(Arc::new(symt(4 + draw(3), o.text, false)));
        }
        if chance(2, 3) {
            f.set_output_symbols(Arc::new(symt(4 + draw(3), o.text, false)));
        }
    }
    if chance(1, 2) {
        f.compute_and_update_properties_all().unwrap();
    }
    f
}

/// A `Write` with the faults of the simulated disk, for `store`.
pub struct Dev(pub String);
impl Write for Dev {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        use std::io::{Error, ErrorKind};
        if b.is_empty() {
            return Ok(0);
        }
        let mut n = b.len();
        match faults::point(Site::Write, n as u64) {
            Some(Fault::WriteShort) => n = 1 + (faults::arg() % (n as u64 - 1)) as usize,
            Some(Fault::WriteEintr) => return Err(Error::from(ErrorKind::Interrupted)),
            Some(Fault::WriteEio) => return Err(Error::from_raw_os_error(5)),
            Some(Fault::WriteEnospc) => return Err(Error::from_raw_os_error(28)),
            Some(Fault::WriteZero) => return Ok(0),
            _ => {}
        }
        vfs::append(&self.0, &b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn fst_obj<W: Fw>(small: bool) -> Obj {
    let kind = draw(6);
    let text = kind >= 4;
    let o = Opts { symbols: !text && chance(1, 2), big: !small && chance(1, 8), small_labels: text && small, text };
    let f = fst::<W>(&o);
    let c: ConstFst<W> = f.clone().into();
    let w = std::any::type_name::<W>().rsplit("::").next().unwrap_or("?").trim_end_matches('>').to_string();
    match kind {
        0 => Obj {
            name: format!("VectorFst<{}> binary", w),
            want: show(&f),
            write: Box::new(move |p| e(f.write(p))),
            read: Box::new(|p, sh| e(VectorFst::<W>::read(p)).map(|f| if sh { show(&f) } else { String::new() })),
            binary: true,
            text: false,
        },
        1 => Obj {
            name: format!("ConstFst<{}> binary", w),
            want: show(&c),
            write: Box::new(move |p| e(c.write(p))),
            read: Box::new(|p, sh| e(ConstFst::<W>::read(p)).map(|f| if sh { show(&f) } else { String::new() })),
            binary: true,
            text: false,
        },
        2 => Obj {
            name: format!("VectorFst<{}> stored", w),
            want: show(&f),
            write: Box::new(move |p| {
                vfs::put(p, vec![]);
                e(f.store(Dev(p.to_string())))
            }),
            read: Box::new(|p, sh| e(VectorFst::<W>::load(&std::fs::read(p).map_err(|e| e.to_string())?)).map(|f| if sh { show(&f) } else { String::new() })),
            binary: true,
            text: false,
        },
        3 => Obj {
            name: format!("ConstFst<{}> stored", w),
            want: show(&c),
            write: Box::new(move |p| {
                vfs::put(p, vec![]);
                e(c.store(Dev(p.to_string())))
            }),
            read: Box::new(|p, sh| e(ConstFst::<W>::load(&std::fs::read(p).map_err(|e| e.to_string())?)).map(|f| if sh { show(&f) } else { String::new() })),
            binary: true,
            text: false,
        },
        4 => Obj {
            name: format!("VectorFst<{}> text", w),
            want: show(&f),
            write: Box::new(move |p| e(f.write_text(p))),
            read: Box::new(|p, sh| e(VectorFst::<W>::read_text(p)).map(|f| if sh { show(&f) } else { String::new() })),
            binary: false,
            text: true,
        },
        _ => Obj {
            name: format!("ConstFst<{}> text", w),
            want: show(&c),
            write: Box::new(move |p| e(c.write_text(p))),
            read: Box::new(|p, sh| e(ConstFst::<W>::read_text(p)).map(|f| if sh { show(&f) } else { String::new() })),
            binary: false,
            text: true,
        },
    }
}

/// The structure of a drawing: nodes and edges with their labels.
fn show_dot(s: &str) -> String {
    let mut v: Vec<String> = s.lines().map(|l| l.trim().to_string()).collect();
    v.sort();
    format!("{} lines, {} edges\n{}", v.len(), s.matches(" -> ").count(), v.join("\n"))
}

fn drawing() -> Obj {
    let o = Opts { symbols: chance(1, 2), big: chance(1, 10), small_labels: true, text: true };
    let f = fst::<TropicalWeight>(&o);
    let c = DrawingConfig {
        vertical: chance(1, 2),
        title: "drawing".into(),
        size: pick(&[None, Some((3.0, 4.5))]),
        ranksep: pick(&[None, Some(0.5)]),
        nodesep: pick(&[None, Some(0.25)]),
        acceptor: chance(1, 2),
        portrait: chance(1, 2),
        show_weight_one: chance(1, 2),
        print_weight: chance(2, 3),
        ..Default::default()
    };
    // what has to be in it, from the FST itself
    let mut want = vec![];
    if let Some(st) = f.start() {
        want.push("digraph FST {".to_string());
        want.push(format!("rankdir = {};", if c.vertical { "BT" } else { "LR" }));
        if c.size.is_some() {
            want.push("size = \"3,4.5\";".into());
        }
        want.push("label = \"drawing\";".into());
        want.push("center = 1;".into());
        want.push(format!("orientation = {};", if c.portrait { "Portrait" } else { "Landscape" }));
        if c.ranksep.is_some() {
            want.push("ranksep = 0.5".into());
        }
        if c.nodesep.is_some() {
            want.push("nodesep = 0.25".into());
        }
        let one = TropicalWeight::one();
        let sym = |t: Option<&Arc<SymbolTable>>, l: u32| t.map(|t| t.get_symbol(l).unwrap().to_string()).unwrap_or(l.to_string());
        for q in 0..f.num_states() as u32 {
            let fw = f.final_weight(q).unwrap();
            let wt = |w: &TropicalWeight| if c.print_weight && (c.show_weight_one || *w != one) { format!("/{}", w) } else { String::new() };
            want.push(format!(
                "{} [label = \"{}{}\", shape = {}, style = {}, fontsize = 14]",
                q,
                q,
                fw.as_ref().map(&wt).unwrap_or_default(),
                if fw.is_some() { "doublecircle" } else { "circle" },
                if q == st { "bold" } else { "solid" }
            ));
            for t in f.get_trs(q).unwrap().trs() {
                let mut l = sym(f.input_symbols(), t.ilabel);
                if !c.acceptor {
                    l += &format!(":{}", sym(f.output_symbols(), t.olabel));
                }
                want.push(format!("{} -> {} [label = \"{}{}\", fontsize = 14];", q, t.nextstate, l, wt(&t.weight)));
            }
        }
        want.push("}".into());
    }
    let w = if want.is_empty() { String::new() } else { want.join("\n") + "\n" };
    Obj {
        name: "drawing".into(),
        want: show_dot(&w),
        write: Box::new(move |p| e(f.draw(p, &c))),
        read: Box::new(|p, sh| std::fs::read_to_string(p).map(|s| if sh { show_dot(&s) } else { String::new() }).map_err(|e| e.to_string())),
        binary: false,
        text: false,
    }
}

fn symt_obj(text: bool, small: bool) -> Obj {
    let n = if !small && chance(1, 8) { range(100, 800) } else { draw(9) };
    let t = symt(n, text, chance(1, 2));
    let want = show_symt(&t);
    if text {
        Obj {
            name: "SymbolTable text".into(),
            want,
            write: Box::new(move |p| e(t.write_text(p))),
            read: Box::new(|p, sh| e(SymbolTable::read_text(p)).map(|t| if sh { show_symt(&t) } else { String::new() })),
            binary: false,
            text: true,
        }
    } else {
        Obj {
            name: "SymbolTable binary".into(),
            want,
            write: Box::new(move |p| e(t.write(p))),
            read: Box::new(|p, sh| e(SymbolTable::read(p)).map(|t| if sh { show_symt(&t) } else { String::new() })),
            binary: true,
            text: false,
        }
    }
}

fn show_cache<W: Fw, C: FstCache<W>>(c: &C) -> String {
    let mut s = format!(
        "start {:?} known {} trs {} len {} {}\n",
        c.get_start(),
        c.num_known_states(),
        c.compute_num_known_trs(),
        c.len_trs(),
        c.len_final_weights()
    );
    for q in 0..60u32 {
        if let CacheStatus::Computed(t) = c.get_trs(q) {
            let _ = write!(s, "{}:", q);
            for t in t.trs() {
                let _ = write!(s, " [{}:{}/{:?} -> {}]", t.ilabel, t.olabel, t.weight, t.nextstate);
            }
            let _ = write!(s, " {:?} {:?} {:?}\n", c.num_trs(q), c.num_input_epsilons(q), c.num_output_epsilons(q));
        }
        if let CacheStatus::Computed(w) = c.get_final_weight(q) {
            let _ = write!(s, "{}: final {:?}\n", q, w);
        }
    }
    s
}

fn cache_obj<W: Fw, C: SerializableCache + FstCache<W> + Default + Send + Sync + 'static>(name: &str, small: bool) -> Obj {
    let c = C::default();
    let mut r = Rng::new(draw(1 << 24));
    let k = if !small && chance(1, 8) { 50 } else { 8 };
    match draw(4) {
        0 => {}
        1 => c.insert_start(None),
        _ => c.insert_start(Some(r.below(k) as u32)),
    }
    for _ in 0..draw(10) + if k > 8 { 40 } else { 0 } {
        let q = r.below(k) as u32;
        if r.below(3) == 0 {
            let w = if r.below(2) == 0 { Some(W::some(&mut r)) } else { None };
            c.insert_final_weight(q, w);
        } else {
            let n = r.below(if k > 8 { 30 } else { 4 });
            let t: Vec<Tr<W>> = (0..n)
                .map(|_| Tr::new(r.below(3) as u32 * 40000, r.below(3) as u32, W::some(&mut r), r.below(k) as u32))
                .collect();
            c.insert_trs(q, TrsVec(Arc::new(t)));
        }
    }
    Obj {
        name: name.into(),
        want: show_cache(&c),
        write: Box::new(move |p| e(c.write(p))),
        read: Box::new(|p, sh| e(C::read(p)).map(|c| if sh { show_cache(&c) } else { String::new() })),
        binary: true,
        text: false,
    }
}

fn any_w(small: bool) -> Obj {
    match draw(10) {
        0 | 1 | 2 => fst_obj::<TropicalWeight>(small),
        3 => fst_obj::<LogWeight>(small),
        4 => fst_obj::<ProbabilityWeight>(small),
        5 => fst_obj::<IntegerWeight>(small),
        6 => fst_obj::<StringWeightLeft>(small),
        7 => fst_obj::<ProductWeight<TropicalWeight, LogWeight>>(small),
        8 => fst_obj::<GallicWeightLeft<TropicalWeight>>(small),
        _ => fst_obj::<GallicWeight<TropicalWeight>>(small),
    }
}

/// Any object with a file format. `small`: numbers in text files stay small.
pub fn any(small: bool) -> Obj {
    match draw(12) {
        0..=5 => any_w(small),
        6 => symt_obj(false, small),
        7 => symt_obj(true, small),
        8 => cache_obj::<TropicalWeight, SimpleVecCache<TropicalWeight>>("SimpleVecCache", small),
        9 => cache_obj::<LogWeight, SimpleHashMapCache<LogWeight>>("SimpleHashMapCache", small),
        10 => crate::c05::ops_obj(),
        _ => drawing(),
    }
}
