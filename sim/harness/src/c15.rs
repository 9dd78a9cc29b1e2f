//! C15: the command-line program. Its own main() runs in simulated processes on the simulated
//! disk; exit status and files are compared with the library operation the command names.
use crate::gen::{self, Cfg, Cyc};
use models::{RefFst, Ring};
use rustfst::algorithms::determinize::{determinize_with_config, DeterminizeConfig, DeterminizeType};
use rustfst::algorithms::minimize_with_config;
use rustfst::algorithms::compose::compose;
use rustfst::algorithms::*;
use rustfst::fst_impls::{ConstFst, VectorFst};
use rustfst::prelude::*;
use rustfst::semirings::{LogWeight, TropicalWeight};
use simrt::faults::{self, Fault};
use simrt::process::{self, End};
use simrt::sched::{self, quietly};
use simrt::{bad, chance, draw, pick, range, vfs, Violation};
use std::sync::Arc;

type T = TropicalWeight;
type Tv = VectorFst<T>;
type Op = Box<dyn Fn(Tv, Option<Tv>) -> anyhow::Result<Tv> + Send>;

#[derive(Clone, PartialEq, Debug)]
struct Out {
    f: RefFst,
    isyms: Option<Vec<(u32, String)>>,
    osyms: Option<Vec<(u32, String)>>,
}

fn out(f: &Tv) -> Out {
    let s = |t: Option<&Arc<SymbolTable>>| t.map(|t| t.iter().map(|(l, s)| (l, s.to_string())).collect());
    Out { f: gen::to_ref::<T, _>(f), isyms: s(f.input_symbols()), osyms: s(f.output_symbols()) }
}

fn alike(a: &Out, b: &Out) -> bool {
    a == b || a.isyms == b.isyms && a.osyms == b.osyms && a.f.shape() == b.f.shape()
}

fn s(x: &str) -> String {
    x.to_string()
}

/// An option, in one of its spellings.
fn opt(v: &mut Vec<String>, name: &str, val: &str) {
    if chance(1, 3) {
        v.push(format!("--{}={}", name, val));
    } else {
        v.push(format!("--{}", name));
        v.push(s(val));
    }
}

/// A command: name, options, the library's operation; whether the input must be acyclic.
fn command() -> (&'static str, Vec<String>, Op, bool) {
    let mut o = vec![];
    let un = |f: fn(&mut Tv) -> anyhow::Result<()>| -> Op {
        Box::new(move |mut x, _| {
            f(&mut x)?;
            Ok(x)
        })
    };
    match draw(16) {
        0 => ("connect", o, un(|f| connect(f)), false),
        1 => ("invert", o, un(|f| { invert(f); Ok(()) }), false),
        2 => {
            let output = chance(1, 2);
            if output {
                o.push(s("--project-output"));
            }
            let t = if output { ProjectType::ProjectOutput } else { ProjectType::ProjectInput };
            ("project", o, Box::new(move |mut f, _| { project(&mut f, t); Ok(f) }), false)
        }
        3 => ("topsort", o, un(|f| top_sort(f)), chance(3, 4)),
        4 => ("reverse", o, Box::new(|f, _| reverse(&f)), false),
        5 => ("rmfinalepsilon", o, un(|f| rm_final_epsilon(f)), false),
        6 => ("optimize", o, un(|f| optimize(f)), true),
        7 => {
            let by = draw(3);
            if by > 0 {
                opt(&mut o, "sort_type", ["ilabel", "olabel"][by as usize - 1]);
            }
            let name = pick(&["tr_sort", "arcsort"]);
            let f: Op = if by == 2 {
                un(|f| { tr_sort(f, OLabelCompare {}); Ok(()) })
            } else {
                un(|f| { tr_sort(f, ILabelCompare {}); Ok(()) })
            };
            (name, o, f, false)
        }
        8 => {
            let nd = chance(1, 2);
            if nd {
                o.push(s("--allow-nondet"));
            }
            ("minimize", o, Box::new(move |mut f, _| {
                minimize_with_config(&mut f, MinimizeConfig::default().with_allow_nondet(nd))?;
                Ok(f)
            }), true)
        }
        9 => {
            let by = draw(4) as usize;
            if by > 0 {
                opt(&mut o, "det_type", ["functional", "nonfunctional", "disambiguate"][by - 1]);
            }
            ("determinize", o, Box::new(move |f, _| {
                let ty = match by {
                    2 => DeterminizeType::DeterminizeNonFunctional,
                    3 => DeterminizeType::DeterminizeDisambiguate,
                    _ => DeterminizeType::DeterminizeFunctional,
                };
                determinize_with_config(&f, DeterminizeConfig::default().with_det_type(ty))
            }), true)
        }
        10 => {
            let n = draw(5) as usize;
            let unique = chance(1, 2);
            if n > 0 {
                opt(&mut o, "nshortest", &(n - 1).to_string());
            }
            if unique {
                o.push(s("--unique"));
            }
            let k = if n > 0 { n - 1 } else { 1 };
            ("shortestpath", o, Box::new(move |f, _| shortest_path_with_config(&f, ShortestPathConfig::default().with_nshortest(k).with_unique(unique))), true)
        }
        11 => {
            let b: Vec<bool> = (0..5).map(|_| chance(1, 2)).collect();
            for (i, n) in ["--to_final", "--push_weights", "--push_labels", "--remove_total_weight", "--remove_common_affix"].iter().enumerate() {
                if b[i] {
                    o.push(s(n));
                }
            }
            ("push", o, Box::new(move |f, _| {
                let mut t = PushType::empty();
                t.set(PushType::PUSH_WEIGHTS, b[1]);
                t.set(PushType::PUSH_LABELS, b[2]);
                t.set(PushType::REMOVE_TOTAL_WEIGHT, b[3]);
                t.set(PushType::REMOVE_COMMON_AFFIX, b[4]);
                push(&f, if b[0] { ReweightType::ReweightToFinal } else { ReweightType::ReweightToInitial }, t)
            }), true)
        }
        12 | 13 => {
            let k = draw(13) as usize;
            let names = ["", "arc_sum", "arc_unique", "tr_sum", "tr_unique", "identity", "input_epsilon", "invert", "output_epsilon", "quantize", "rmweight", "plus", "times"];
            let w = draw(6) as f32;
            if k > 0 {
                opt(&mut o, "map_type", names[k]);
            }
            if k > 10 {
                opt(&mut o, "weight", &format!("{}", w));
            }
            use rustfst::algorithms::tr_mappers::*;
            ("map", o, Box::new(move |mut f, _| {
                match k {
                    1 | 3 => tr_sum(&mut f),
                    2 | 4 => tr_unique(&mut f),
                    6 => tr_map(&mut f, &InputEpsilonMapper {})?,
                    7 => tr_map(&mut f, &InvertWeightMapper {})?,
                    8 => tr_map(&mut f, &OutputEpsilonMapper {})?,
                    9 => tr_map(&mut f, &QuantizeMapper::default())?,
                    10 => tr_map(&mut f, &RmWeightMapper {})?,
                    11 => tr_map(&mut f, &PlusMapper::new(w))?,
                    12 => tr_map(&mut f, &TimesMapper::new(w))?,
                    _ => {}
                }
                Ok(f)
            }), false)
        }
        _ => {
            let k = draw(3);
            if k > 0 {
                opt(&mut o, "compose_type", ["default", "lookahead"][k as usize - 1]);
            }
            ("compose", o, Box::new(move |a, b| {
                let b = b.unwrap();
                if k == 2 {
                    let f = crate::ops::lookahead(&a, &b).and_then(|f| f.compute()).map_err(|e| anyhow::format_err!("{}", e))?;
                    let mut f = gen::vector::<T>(&f);
                    if f.start().is_none() {
                        return Ok(f); // an empty result has no symbols
                    }
                    if let Some(t) = a.input_symbols() {
                        f.set_input_symbols(t.clone());
                    }
                    if let Some(t) = b.output_symbols() {
                        f.set_output_symbols(t.clone());
                    }
                    Ok(f)
                } else {
                    compose::<T, Tv, Tv, _, _, _>(&a, &b)
                }
            }), true)
        }
    }
}

/// The bytes of an input file, and what is wrong with them on purpose.
fn input(acyclic: bool, sort: Option<bool>) -> Vec<u8> {
    let cfg = Cfg {
        states: 7,
        arcs: range(4, 14),
        ilabels: 3,
        olabels: 3,
        eps: draw(4),
        cyc: if acyclic || chance(1, 3) { Cyc::No } else { Cyc::Both },
        ring: Ring::Trop,
        acceptor: chance(1, 2),
    };
    let mut v = gen::vector::<T>(&gen::fst(&cfg));
    for (i, names) in [["<eps>", "a", "b", "c"], ["<eps>", "x", "y", "z"]].iter().enumerate() {
        if chance(1, 4) {
            let mut t = SymbolTable::empty();
            for n in names {
                t.add_symbol(*n);
            }
            if i == 0 {
                v.set_input_symbols(Arc::new(t));
            } else {
                v.set_output_symbols(Arc::new(t));
            }
        }
    }
    match sort {
        Some(true) => tr_sort(&mut v, OLabelCompare {}),
        Some(false) => tr_sort(&mut v, ILabelCompare {}),
        None => {}
    }
    let mut b = vec![];
    match draw(24) {
        23 => {
            // another kind of FST
            let c: ConstFst<T> = v.into();
            c.store(&mut b).unwrap();
        }
        22 => {
            // another kind of weight
            let mut l = VectorFst::<LogWeight>::new();
            let x = l.add_state();
            l.set_start(x).unwrap();
            l.set_final(x, LogWeight::one()).unwrap();
            l.store(&mut b).unwrap();
        }
        21 => {
            v.store(&mut b).unwrap();
            b.truncate(draw(b.len() as u64) as usize);
        }
        _ => v.store(&mut b).unwrap(),
    }
    b
}

pub fn body() -> Result<(), Violation> {
    let (name, opts, op, acyclic) = command();
    let two = name == "compose";
    let sort = if two && chance(7, 8) { Some(()) } else { None };
    let in1 = input(acyclic, sort.map(|_| true));
    let in2 = if two { Some(input(acyclic, sort.map(|_| false))) } else { None };
    let missing = chance(1, 24);
    let bench = chance(1, 5);
    let in_place = !bench && chance(1, 6);
    let report = bench && chance(1, 2);
    let invalid = chance(1, 24);

    // the library's own answer
    let (a, b) = (in1.clone(), in2.clone());
    let want: Arc<std::sync::Mutex<Option<Result<Out, String>>>> = Default::default();
    let w2 = want.clone();
    let r = sched::interleave(1000, vec![Box::new(move || {
        let r = (|| {
            let a = VectorFst::load(&a)?;
            let b = match b {
                Some(b) => Some(VectorFst::load(&b)?),
                None => None,
            };
            Ok::<_, anyhow::Error>(out(&op(a, b)?))
        })();
        *w2.lock().unwrap() = Some(r.map_err(|e| format!("{:#}", e)));
    })]);
    let want = match r[0] {
        Ok(()) => want.lock().unwrap().take().unwrap(),
        Err(_) => Err("panic".into()),
    };
    let want = if missing || invalid { Err("no input".into()) } else { want };

    let files = |old: &Vec<u8>| {
        let fs = &mut vfs::d().files;
        fs.clear();
        if !missing {
            fs.insert(s("/simfs/in1"), in1.clone());
        }
        if let Some(b) = &in2 {
            fs.insert(s("/simfs/in2"), b.clone());
        }
        if !old.is_empty() && !in_place {
            fs.insert(s("/simfs/out"), old.clone());
        }
    };
    let o = if in_place { "/simfs/in1" } else { "/simfs/out" };
    let mut args = vec![s("rustfst"), s(name)];
    let mut rest: Vec<Vec<String>> = vec![vec![s("/simfs/in1")]];
    if two {
        rest.push(vec![s("/simfs/in2")]);
    }
    rest.push(vec![s(o)]);
    let mut flags = vec![];
    let mut i = 0;
    while i < opts.len() {
        // an option and its value stay together
        if opts[i].starts_with("--") && i + 1 < opts.len() && !opts[i + 1].starts_with("--") {
            flags.push(vec![opts[i].clone(), opts[i + 1].clone()]);
            i += 2;
        } else {
            flags.push(vec![opts[i].clone()]);
            i += 1;
        }
    }
    if bench {
        flags.push(if two { vec![s("--bench"), s("yes")] } else { vec![s("--bench")] });
        flags.push(vec![format!("--n_iters={}", 1 + draw(2))]);
        flags.push(vec![s("--n_warm_ups"), draw(2).to_string()]);
        if report {
            flags.push(vec![s("--export-markdown"), s("/simfs/report")]);
        }
    }
    if invalid {
        flags.push(match draw(4) {
            0 => vec![s("--no-such-option")],
            1 => vec![s("--n_iters")],
            2 => vec![s("one-argument-too-many")],
            _ => vec![s("--map_type=no-such-type"), s("--sort_type=no-such-type")],
        });
    }
    for f in flags {
        let at = draw(rest.len() as u64 + 1) as usize;
        rest.insert(if invalid { rest.len() } else { at }, f);
    }
    args.extend(rest.into_iter().flatten());

    let old: Vec<u8> = match draw(3) {
        0 => vec![],
        1 => vec![7; 5],
        _ => vec![9; 5000],
    };
    // whole machine, then one with small troubles, then one that breaks
    let hard = [Fault::OpenErr, Fault::ReadEio, Fault::WriteEio, Fault::WriteEnospc, Fault::WriteZero];
    let soft = [Fault::OpenEintr, Fault::ReadShort, Fault::ReadEintr, Fault::WriteShort, Fault::WriteEintr];
    let mut first: Option<Vec<u8>> = None;
    let p = pick(&[300, 1000, 3000]);
    for round in 0..3u64 {
        let mut mix = vec![];
        if round > 0 {
            mix.extend(soft.iter().map(|f| (*f, p)));
        }
        if round == 2 {
            mix.extend(hard.iter().map(|f| (*f, p)));
        }
        vfs::reset();
        files(&old);
        faults::enable(&mix);
        simrt::set_entropy(simrt::entropy().wrapping_add(0x9e37_79b9 * round));
        let n0 = faults::f().made.len();
        let end = process::run(&args, simcli::entry);
        faults::enable(&[]);
        let broke = faults::f().made[n0..].iter().any(|r| !r.fault.benign());
        let files = &vfs::d().files;
        let got = files.get(o).cloned();
        let cmd = || format!("`{}` (input {})", args.join(" "), VectorFst::<T>::load(&in1).map(|f| format!("{:?}", gen::to_ref::<T, _>(&f))).unwrap_or_else(|e| format!("unreadable: {}", e)));
        match (end, &want) {
            (End::Exit(0), Err(e)) => return bad("success", format!("{} exits with status 0 where the library fails: {}", cmd(), e)),
            (End::Exit(0), Ok(w)) => {
                let Some(g) = got else { return bad("no output", format!("{} exits with status 0 without an output file", cmd())) };
                match VectorFst::<T>::load(&g) {
                    Err(e) => return bad("output", format!("{} exits with status 0; the output file is unreadable: {:#}", cmd(), e)),
                    Ok(f) => {
                        let g = out(&f);
                        if !alike(&g, w) {
                            return bad("output", format!("{} exits with status 0; the output file holds {:?} instead of {:?}", cmd(), g, w));
                        }
                    }
                }
                match &first {
                    None => first = Some(g),
                    Some(f) if *f != g => return bad("differs", format!("{} writes another file in another run", cmd())),
                    _ => {}
                }
                if report {
                    let r = files.get("/simfs/report").map(|b| String::from_utf8_lossy(b).to_string()).unwrap_or_default();
                    let cells: Vec<&str> = r.trim_end_matches('\n').split('|').collect();
                    if !r.ends_with("|\n") || cells.len() != 6 || cells[1..5].iter().any(|c| !c.contains('±')) {
                        return bad("report", format!("{} exits with status 0; the report is {:?}", cmd(), r));
                    }
                }
                simrt::probe(if broke { "succeeded despite faults" } else { "succeeded" });
            }
            (e, Ok(_)) if !broke => return bad("failure", format!("{} ends with {:?} although nothing went wrong", cmd(), e)),
            (_, Ok(_)) => simrt::probe("failed for a fault"),
            (_, Err(_)) => simrt::probe("refused"),
        }
        // nothing else is touched
        if !in_place && !missing && files.get("/simfs/in1") != Some(&in1) || two && files.get("/simfs/in2") != in2.as_ref() {
            return bad("input", format!("{} changed its input", cmd()));
        }
        if let Some(x) = files.keys().find(|k| !["/simfs/in1", "/simfs/in2", o, "/simfs/report"].contains(&k.as_str())) {
            return bad("stray file", format!("{} left {}", cmd(), x));
        }
        if round == 2 && broke || first.is_some() {
            simrt::nontrivial();
        }
    }
    quietly(|| simrt::sample(format!("{}: {}", args.join(" "), match &want { Ok(w) => format!("{} states", w.f.states.len()), Err(e) => e.clone() })));
    Ok(())
}
