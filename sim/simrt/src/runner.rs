//! Campaign driver: worker processes, minimisation, replay files, evidence.
use crate::faults::{Fault, FaultRec};
use crate::rng::mix;
use crate::sched::Decision;
use crate::{blackbox, execute, made_so_far, Outcome, Spec, Violation};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Copy)]
pub struct Prop {
    pub id: &'static str,
    pub body: fn() -> Result<(), Violation>,
    pub quick_runs: u64,
    pub thorough_runs: u64,
    /// scheduler steps after which a run counts as making no progress
    pub budget: u64,
    pub level: &'static str,
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
    /// faults this property's runs may inject; every one must have fired in a full batch
    pub fault_kinds: &'static [&'static str],
}

fn root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()))
}

fn prop(props: &[Prop], id: &str) -> Prop {
    *props.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {}", id);
        std::process::exit(2)
    })
}

fn entropy_of(seed: u64, id: &str, run: u64) -> u64 {
    let mut h = mix(seed ^ 0xABCD);
    for b in id.bytes() {
        h = mix(h ^ b as u64);
    }
    mix(h ^ run)
}

fn kind_name(k: u8) -> &'static str {
    ["preempt", "block", "exit"][k as usize % 3]
}

pub fn spec_json(s: &Spec) -> Value {
    json!({
        "prop": s.prop, "run": s.run, "entropy": s.entropy, "tape": s.tape,
        "sched": s.sched.as_ref().map(|v| v.iter().map(|d| json!([kind_name(d.kind), d.tid, d.at, d.to])).collect::<Vec<_>>()),
        "faults": s.faults.as_ref().map(|v| v.iter().map(|f| json!([f.seq, f.fault.name(), f.arg])).collect::<Vec<_>>()),
    })
}

pub fn spec_from(v: &Value) -> Option<Spec> {
    let list = |k: &str| v.get(k).and_then(|x| x.as_array()).cloned();
    Some(Spec {
        prop: v.get("prop")?.as_str()?.to_string(),
        run: v.get("run")?.as_u64()?,
        entropy: v.get("entropy")?.as_u64()?,
        tape: list("tape").map(|a| a.iter().filter_map(|x| x.as_u64()).collect()),
        sched: list("sched").map(|a| {
            a.iter()
                .filter_map(|x| {
                    let k = match x[0].as_str()? {
                        "preempt" => 0,
                        "block" => 1,
                        _ => 2,
                    };
                    Some(Decision {
                        kind: k,
                        tid: x[1].as_u64()? as u8,
                        at: x[2].as_u64()?,
                        to: x[3].as_u64()? as u8,
                    })
                })
                .collect()
        }),
        faults: list("faults").map(|a| {
            a.iter()
                .filter_map(|x| {
                    Some(FaultRec {
                        seq: x[0].as_u64()?,
                        fault: Fault::from_name(x[1].as_str()?)?,
                        arg: x[2].as_u64()?,
                    })
                })
                .collect()
        }),
    })
}

// ---------------------------------------------------------------- worker side

static mut CUR_SPEC: Option<Spec> = None;
static mut CUR_OUT: Option<String> = None;

fn on_fatal(class: &str, msg: &str) {
    unsafe {
        #[allow(static_mut_refs)]
        if let (Some(s), Some(o)) = (CUR_SPEC.as_ref(), CUR_OUT.as_ref()) {
            let v = json!({"violation": {"class": class, "msg": msg, "spec": spec_json(&made_so_far(s)),
                "trace": crate::trace_so_far()}});
            let _ = std::fs::write(o, v.to_string());
        }
    }
}

fn run_spec(p: &Prop, s: &Spec, tracing: bool, out: &str) -> Outcome {
    unsafe {
        CUR_SPEC = Some(s.clone());
        CUR_OUT = Some(out.to_string());
    }
    execute(s, p.budget, tracing, p.body)
}

fn no_aslr() {
    // the harness never depends on addresses, but a fixed layout makes even bugs repeatable
    unsafe {
        let cur = crate::sys::raw(135, 0xffffffff, 0, 0, 0, 0, 0);
        if cur >= 0 && cur & 0x40000 == 0 && std::env::var("SIM_NOASLR").is_err() {
            if crate::sys::raw(135, cur | 0x40000, 0, 0, 0, 0, 0) >= 0 {
                use std::os::unix::process::CommandExt;
                let e = Command::new(std::env::current_exe().unwrap())
                    .args(std::env::args().skip(1))
                    .env("SIM_NOASLR", "1")
                    .exec();
                eprintln!("re-exec failed: {}", e);
            }
        }
    }
}

/// worker <prop> <seed> <k> <K> <runs> <deadline ms> <out> <bb> <logdigests 0|1>
fn worker(props: &[Prop], a: &[String]) -> i32 {
    no_aslr();
    let p = prop(props, &a[0]);
    let seed: u64 = a[1].parse().unwrap();
    let k: u64 = a[2].parse().unwrap();
    let kk: u64 = a[3].parse().unwrap();
    let runs: u64 = a[4].parse().unwrap();
    let deadline = Duration::from_millis(a[5].parse().unwrap());
    let out = &a[6];
    let logd = a[8] == "1";
    blackbox::open(&a[7]).expect("black box");
    crate::install_panic_hook();
    crate::set_fatal_hook(on_fatal);
    crate::sys::pin_to_cpu(k as usize);
    let t0 = Instant::now();
    let (mut ev, mut disc, mut nontriv) = (0u64, 0u64, 0u64);
    let (mut steps, mut switches, mut blocked) = (0u64, 0u64, 0u64);
    let mut faults: BTreeMap<String, u64> = BTreeMap::new();
    let mut faulty_runs = 0u64;
    let mut probes: BTreeMap<String, u64> = BTreeMap::new();
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut inters: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = vec![];
    let mut digests: Vec<String> = vec![];
    let mut violation = Value::Null;
    let mut harness_error = Value::Null;
    let mut truncated = false;
    let mut i = k;
    while i < runs {
        if ev % 16 == 0 && t0.elapsed() > deadline {
            truncated = true;
            break;
        }
        let s = Spec { prop: p.id.into(), run: i, entropy: entropy_of(seed, p.id, i), ..Default::default() };
        let o = run_spec(&p, &s, false, out);
        ev += 1;
        steps += o.steps;
        switches += o.switches;
        blocked += o.blocked;
        if !o.faults.is_empty() {
            faulty_runs += 1;
        }
        for (n, c) in &o.faults {
            *faults.entry(n.clone()).or_default() += c;
        }
        for (n, c) in &o.probes {
            *probes.entry(n.clone()).or_default() += c;
        }
        if logd {
            digests.push(format!("{} {:016x} {:016x} {:016x}", i, o.digest, o.inter, o.case));
        }
        if let Some(h) = o.harness_error {
            harness_error = json!(format!("run {}: {}", i, h));
            break;
        }
        if o.discarded {
            disc += 1;
        } else if o.nontrivial {
            nontriv += 1;
            distinct.insert(mix(o.case ^ mix(o.inter)));
            if o.switches > 1 {
                inters.insert(o.inter);
            }
            if samples.len() < 3 && !o.sample.is_empty() {
                samples.push(format!("run {}: {}", i, o.sample));
            }
        }
        if let Some(v) = o.violation {
            violation = json!({"class": v.class, "msg": v.msg, "spec": spec_json(&o.made)});
            break;
        }
        i += kk;
    }
    let dset = |h: &HashSet<u64>| {
        let mut b = vec![];
        for x in h {
            b.extend_from_slice(&x.to_le_bytes());
        }
        b
    };
    let _ = std::fs::write(format!("{}.distinct", out), dset(&distinct));
    let _ = std::fs::write(format!("{}.inter", out), dset(&inters));
    if logd {
        let _ = std::fs::write(format!("{}.log", out), digests.join("\n") + "\n");
    }
    let cov: Vec<u8> = unsafe {
        (0..(crate::sched::NG as usize).min(crate::sched::NGUARD))
            .map(|i| crate::sched::FLAGS[i] & 1)
            .collect()
    };
    let _ = std::fs::write(format!("{}.cov", out), cov);
    let v = json!({"evaluations": ev, "discarded": disc, "nontrivial": nontriv, "steps": steps, "switches": switches,
        "blocked": blocked, "faults": faults, "faulty_runs": faulty_runs, "probes": probes, "samples": samples,
        "violation": violation, "harness_error": harness_error, "truncated": truncated});
    std::fs::write(out, v.to_string()).expect("write result");
    0
}

/// try <specs.json> <out> <bb> <tracing 0|1>: runs the specs in order until one violates
fn try_specs(props: &[Prop], a: &[String]) -> i32 {
    no_aslr();
    let specs: Value = serde_json::from_str(&std::fs::read_to_string(&a[0]).unwrap()).unwrap();
    let out = &a[1];
    blackbox::open(&a[2]).expect("black box");
    let tracing = a[3] == "1";
    crate::install_panic_hook();
    crate::set_fatal_hook(on_fatal);
    let want = specs["class"].as_str().unwrap_or("").to_string();
    for (i, v) in specs["specs"].as_array().unwrap().iter().enumerate() {
        let s = spec_from(v).expect("bad spec");
        let p = prop(props, &s.prop);
        let _ = std::fs::write(format!("{}.idx", out), i.to_string());
        let o = run_spec(&p, &s, tracing, out);
        if let Some(h) = &o.harness_error {
            let _ = std::fs::write(out, json!({"harness_error": h}).to_string());
            if want.is_empty() {
                return 0;
            }
            continue;
        }
        if let Some(v) = &o.violation {
            if want.is_empty() || v.class == want {
                let j = json!({"violation": {"class": v.class, "msg": v.msg, "spec": spec_json(&o.made), "trace": o.trace,
                    "sample": o.sample, "digest": format!("{:016x}", o.digest)}});
                std::fs::write(out, j.to_string()).unwrap();
                return 0;
            }
        }
        if specs["specs"].as_array().unwrap().len() == 1 {
            let _ = std::fs::write(out, json!({"ok": true, "digest": format!("{:016x}", o.digest), "trace": o.trace,
                "discarded": o.discarded, "sample": o.sample}).to_string());
            return 0;
        }
    }
    let _ = std::fs::write(out, json!({"ok": true}).to_string());
    0
}

// ---------------------------------------------------------------- parent side

struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Scratch {
        let d = std::env::temp_dir().join(format!("rustfst-sim-{}", std::process::id()));
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(&d).expect("scratch directory");
        Scratch(d)
    }
    fn p(&self, n: &str) -> String {
        self.0.join(n).to_string_lossy().into_owned()
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

#[derive(Clone, Debug)]
struct Found {
    class: String,
    msg: String,
    spec: Spec,
    trace: Vec<String>,
}

fn found_from(v: &Value) -> Option<Found> {
    Some(Found {
        class: v.get("class")?.as_str()?.into(),
        msg: v.get("msg")?.as_str()?.into(),
        spec: spec_from(v.get("spec")?)?,
        trace: v
            .get("trace")
            .and_then(|t| t.as_array())
            .map(|t| t.iter().filter_map(|x| x.as_str().map(String::from)).collect())
            .unwrap_or_default(),
    })
}

fn read_json(p: &str) -> Option<Value> {
    serde_json::from_str(&std::fs::read_to_string(p).ok()?).ok()
}

enum TryRes {
    Bad(Found),
    Clean,
    Harness(String),
}

/// Runs specs in a child; a child killed by a signal counts as a violation of class "crash".
fn try_child(sc: &Scratch, class: &str, specs: &[Spec], tracing: bool, limit: Duration) -> TryRes {
    let f = sc.p("try.json");
    let out = sc.p("try.out");
    let bb = sc.p("try.bb");
    for x in [&out, &bb] {
        let _ = std::fs::remove_file(x);
    }
    let j = json!({"class": class, "specs": specs.iter().map(spec_json).collect::<Vec<_>>()});
    std::fs::write(&f, j.to_string()).expect("scratch");
    let mut c = Command::new(std::env::current_exe().unwrap())
        .envs([("RUST_BACKTRACE", "0"), ("RUST_LIB_BACKTRACE", "0")])
        .args(["try", &f, &out, &bb, if tracing { "1" } else { "0" }])
        .args(["."; crate::process::ROOM])
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn");
    let t0 = Instant::now();
    let (killed, status) = loop {
        match c.try_wait().expect("wait") {
            Some(s) => break (false, Some(s)),
            None if t0.elapsed() > limit => {
                let _ = c.kill();
                let _ = c.wait();
                break (true, None);
            }
            None => std::thread::sleep(Duration::from_millis(2)),
        }
    };
    let idx = || -> usize {
        std::fs::read_to_string(format!("{}.idx", out)).ok().and_then(|s| s.parse().ok()).unwrap_or(0)
    };
    let from_bb = |class: &str, msg: String| -> TryRes {
        let i = idx();
        let mut spec = specs[i.min(specs.len() - 1)].clone();
        if let Some(d) = blackbox::read(&bb) {
            spec.tape = Some(d.tape);
            spec.sched = Some(d.sched);
            spec.faults = Some(d.faults);
        }
        TryRes::Bad(Found { class: class.into(), msg, spec, trace: vec![] })
    };
    if killed {
        if class.is_empty() || class == "hang" {
            return from_bb("hang", "the run did not end".into());
        }
        return TryRes::Clean;
    }
    let code = status.unwrap();
    use std::os::unix::process::ExitStatusExt;
    if let Some(sig) = code.signal() {
        if class.is_empty() || class == "crash" {
            return from_bb("crash", format!("the process died with signal {}", sig));
        }
        return TryRes::Clean;
    }
    match code.code() {
        Some(0) | Some(77) => match read_json(&out) {
            Some(v) => {
                if let Some(f) = found_from(&v["violation"]) {
                    if class.is_empty() || f.class == class {
                        return TryRes::Bad(f);
                    }
                    return TryRes::Clean;
                }
                if let Some(h) = v["harness_error"].as_str() {
                    return TryRes::Harness(h.into());
                }
                TryRes::Clean
            }
            None => TryRes::Harness("no result".into()),
        },
        Some(c) => TryRes::Harness(format!("child exit {}", c)),
        None => TryRes::Harness("child lost".into()),
    }
}

fn size(s: &Spec) -> (usize, usize, usize, u128) {
    let t = s.tape.as_ref().map(|v| v.len()).unwrap_or(0);
    (
        t,
        s.sched.as_ref().map(|v| v.len()).unwrap_or(0),
        s.faults.as_ref().map(|v| v.len()).unwrap_or(0),
        s.tape.as_ref().map(|v| v.iter().map(|x| *x as u128).sum()).unwrap_or(0),
    )
}

fn minimise(sc: &Scratch, f: &Found, wall: Duration) -> Found {
    let t0 = Instant::now();
    let lim = Duration::from_secs(30);
    let mut best = f.clone();
    let class = f.class.clone();
    let done = |t0: &Instant| t0.elapsed() > wall;
    let attempt = |specs: Vec<Spec>| -> Option<Found> {
        if specs.is_empty() {
            return None;
        }
        match try_child(sc, &class, &specs, false, lim) {
            TryRes::Bad(g) => Some(g),
            _ => None,
        }
    };
    // variants of a spec whose tape changed: same schedule, or fresh schedules and faults
    let variants = |mut s: Spec, salt: u64| -> Vec<Spec> {
        let mut v = vec![s.clone()];
        s.sched = None;
        let keep = s.clone();
        for i in 0..6u64 {
            let mut x = keep.clone();
            x.run = mix(keep.run ^ mix(salt ^ (i << 20))) >> 16;
            v.push(x.clone());
            x.faults = None;
            v.push(x);
        }
        v
    };
    let has_sched = |s: &Spec| s.sched.as_ref().map(|x| !x.is_empty()).unwrap_or(false);
    for round in 0..4 {
        let before = size(&best.spec);
        // 1. faults, 2. schedule: drop decisions
        for which in 0..2 {
            let n = if which == 0 { size(&best.spec).2 } else { size(&best.spec).1 };
            if n == 0 {
                continue;
            }
            let mut chunk = n;
            while chunk >= 1 && !done(&t0) {
                let mut i = 0;
                loop {
                    let n = if which == 0 { size(&best.spec).2 } else { size(&best.spec).1 };
                    if i >= n || done(&t0) {
                        break;
                    }
                    let mut s = best.spec.clone();
                    if which == 0 {
                        let v = s.faults.as_mut().unwrap();
                        let e = (i + chunk).min(v.len());
                        v.drain(i..e);
                    } else {
                        let v = s.sched.as_mut().unwrap();
                        let e = (i + chunk).min(v.len());
                        v.drain(i..e);
                    }
                    let want = s.clone();
                    match attempt(vec![s]) {
                        Some(mut g) => {
                            // keep the shorter list: what was dropped was re-made by default rules
                            if which == 1 && size(&g.spec).1 > size(&want).1 {
                                g.spec.sched = want.sched;
                            }
                            best = g;
                        }
                        None => i += chunk,
                    }
                }
                chunk /= 2;
            }
        }
        // 3. tape: delete chunks, then lower values
        let n = size(&best.spec).0;
        let mut chunk = (n / 2).max(1);
        while chunk >= 1 && !done(&t0) {
            let mut i = 0;
            while i < size(&best.spec).0 && !done(&t0) {
                let mut s = best.spec.clone();
                let v = s.tape.as_mut().unwrap();
                let e = (i + chunk).min(v.len());
                v.drain(i..e);
                let c = if has_sched(&best.spec) || size(&best.spec).2 > 0 {
                    variants(s, (round as u64) << 40 | (chunk as u64) << 20 | i as u64)
                } else {
                    vec![s]
                };
                match attempt(c) {
                    Some(g) if size(&g.spec).0 < size(&best.spec).0 => best = g,
                    _ => i += chunk,
                }
            }
            if chunk == 1 {
                break;
            }
            chunk /= 2;
        }
        let mut i = 0;
        while i < size(&best.spec).0 && !done(&t0) {
            let v = best.spec.tape.as_ref().unwrap()[i];
            for w in [0, v / 2, v.wrapping_sub(1)] {
                if w >= v || done(&t0) {
                    continue;
                }
                let mut s = best.spec.clone();
                s.tape.as_mut().unwrap()[i] = w;
                let c = if has_sched(&best.spec) || size(&best.spec).2 > 0 {
                    variants(s, (round as u64) << 40 | w << 20 | i as u64)
                } else {
                    vec![s]
                };
                if let Some(g) = attempt(c) {
                    let (a, b) = (size(&g.spec), size(&best.spec));
                    if a.0 < b.0 || (a.0 == b.0 && a.3 < b.3) {
                        best = g;
                        break;
                    }
                }
            }
            i += 1;
        }
        if size(&best.spec) == before || done(&t0) {
            break;
        }
    }
    best
}

fn known_lines(id: &str) -> Vec<(String, String)> {
    // known: property=C01 signature=<substring of class+message> <what fails>
    let f = root().join("known-findings.txt");
    let mut v = vec![];
    for l in std::fs::read_to_string(f).unwrap_or_default().lines() {
        if let Some(r) = l.strip_prefix("known: ") {
            let mut it = r.splitn(3, ' ');
            let p = it.next().unwrap_or("");
            let s = it.next().unwrap_or("");
            if p == format!("property={}", id) {
                if let Some(sig) = s.strip_prefix("signature=") {
                    v.push((sig.to_string(), it.next().unwrap_or("").to_string()));
                }
            }
        }
    }
    v
}

struct Batch {
    tot: BTreeMap<String, u64>,
    faults: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    distinct: HashSet<u64>,
    inters: HashSet<u64>,
    samples: Vec<String>,
    cov: Vec<u8>,
    truncated: bool,
    found: Vec<Found>,
    harness: Option<String>,
    logs: Vec<String>,
}

fn campaign(p: &Prop, sc: &Scratch, seed: u64, runs: u64, workers: u64, deadline: Duration, logd: bool) -> Batch {
    let mut kids: Vec<(Child, String, String, u64)> = vec![];
    for k in 0..workers {
        let out = sc.p(&format!("w{}.json", k));
        let bb = sc.p(&format!("w{}.bb", k));
        for x in [&out, &bb] {
            let _ = std::fs::remove_file(x);
        }
        let c = Command::new(std::env::current_exe().unwrap())
            .envs([("RUST_BACKTRACE", "0"), ("RUST_LIB_BACKTRACE", "0")])
            .args([
                "worker",
                p.id,
                &seed.to_string(),
                &k.to_string(),
                &workers.to_string(),
                &runs.to_string(),
                &deadline.as_millis().to_string(),
                &out,
                &bb,
                if logd { "1" } else { "0" },
            ])
            .args(["."; crate::process::ROOM])
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::piped())
            .spawn()
            .expect("spawn worker");
        kids.push((c, out, bb, k));
    }
    let mut b = Batch {
        tot: Default::default(),
        faults: Default::default(),
        probes: Default::default(),
        distinct: Default::default(),
        inters: Default::default(),
        samples: vec![],
        cov: vec![],
        truncated: false,
        found: vec![],
        harness: None,
        logs: vec![],
    };
    let t0 = Instant::now();
    let mut last: Vec<(Vec<u64>, Instant)> = kids.iter().map(|_| (vec![], Instant::now())).collect();
    let mut alive: Vec<bool> = vec![true; kids.len()];
    while alive.iter().any(|x| *x) {
        std::thread::sleep(Duration::from_millis(10));
        for i in 0..kids.len() {
            if !alive[i] {
                continue;
            }
            let (c, out, bb, _) = &mut kids[i];
            let st = c.try_wait().expect("wait");
            let st = match st {
                None => {
                    // progress watchdog, on the flight recorder
                    if t0.elapsed().as_secs() % 5 == 0 {
                        if let Ok(w) = std::fs::read(&*bb) {
                            let w: Vec<u64> = w[..64.min(w.len())]
                                .chunks_exact(8)
                                .map(|c| u64::from_le_bytes(c.try_into().unwrap()))
                                .collect();
                            if w != last[i].0 {
                                last[i] = (w, Instant::now());
                            } else if last[i].1.elapsed() > Duration::from_secs(150) {
                                let _ = c.kill();
                                let _ = c.wait();
                                alive[i] = false;
                                if let Some(d) = blackbox::read(bb) {
                                    b.found.push(Found {
                                        class: "hang".into(),
                                        msg: "a run did not end within 150 s".into(),
                                        spec: Spec {
                                            prop: p.id.into(),
                                            run: d.run,
                                            entropy: d.entropy,
                                            tape: Some(d.tape),
                                            sched: Some(d.sched),
                                            faults: Some(d.faults),
                                        },
                                        trace: vec![],
                                    });
                                }
                            }
                        }
                    }
                    continue;
                }
                Some(s) => s,
            };
            alive[i] = false;
            use std::os::unix::process::ExitStatusExt;
            if let Some(sig) = st.signal() {
                let mut err = String::new();
                if let Some(e) = c.stderr.as_mut() {
                    use std::io::Read;
                    let _ = e.read_to_string(&mut err);
                }
                match blackbox::read(bb) {
                    Some(d) => b.found.push(Found {
                        class: "crash".into(),
                        msg: format!("the process died with signal {} {}", sig, err.lines().last().unwrap_or("")),
                        spec: Spec {
                            prop: p.id.into(),
                            run: d.run,
                            entropy: d.entropy,
                            tape: Some(d.tape),
                            sched: Some(d.sched),
                            faults: Some(d.faults),
                        },
                        trace: vec![],
                    }),
                    None => b.harness = Some(format!("worker died with signal {}", sig)),
                }
                continue;
            }
            match read_json(out) {
                Some(v) => {
                    if let Some(f) = found_from(&v["violation"]) {
                        b.found.push(f);
                    }
                    if let Some(h) = v["harness_error"].as_str() {
                        b.harness = Some(h.into());
                    }
                    for k in ["evaluations", "discarded", "nontrivial", "steps", "switches", "blocked", "faulty_runs"] {
                        *b.tot.entry(k.into()).or_default() += v[k].as_u64().unwrap_or(0);
                    }
                    for (n, m) in [("faults", &mut b.faults), ("probes", &mut b.probes)] {
                        if let Some(o) = v[n].as_object() {
                            for (k, x) in o {
                                *m.entry(k.clone()).or_default() += x.as_u64().unwrap_or(0);
                            }
                        }
                    }
                    if let Some(a) = v["samples"].as_array() {
                        b.samples.extend(a.iter().filter_map(|x| x.as_str().map(String::from)));
                    }
                    b.truncated |= v["truncated"].as_bool().unwrap_or(false);
                    for (ext, set) in [("distinct", &mut b.distinct), ("inter", &mut b.inters)] {
                        if let Ok(d) = std::fs::read(format!("{}.{}", out, ext)) {
                            set.extend(d.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
                        }
                    }
                    if let Ok(d) = std::fs::read(format!("{}.cov", out)) {
                        if b.cov.len() < d.len() {
                            b.cov.resize(d.len(), 0);
                        }
                        for (i, x) in d.iter().enumerate() {
                            b.cov[i] |= x;
                        }
                    }
                    if logd {
                        if let Ok(d) = std::fs::read_to_string(format!("{}.log", out)) {
                            b.logs.extend(d.lines().map(String::from));
                        }
                    }
                }
                None => {
                    let mut err = String::new();
                    if let Some(e) = c.stderr.as_mut() {
                        use std::io::Read;
                        let _ = e.read_to_string(&mut err);
                    }
                    b.harness = Some(format!("worker gave no result ({:?}) {}", st, err));
                }
            }
        }
        if !b.found.is_empty() || b.harness.is_some() {
            // one is enough
            for i in 0..kids.len() {
                if alive[i] {
                    let _ = kids[i].0.kill();
                    let _ = kids[i].0.wait();
                    alive[i] = false;
                }
            }
        }
    }
    b
}

fn write_replay(id: &str, seed: u64, f: &Found, orig: &Found) -> String {
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{:x}.json", id, mix(f.spec.entropy ^ f.spec.run) >> 32));
    let j = json!({
        "property": id, "verif_seed": seed, "class": f.class, "message": f.msg,
        "how_to_replay": format!("cd /verif && ./check.sh replay {}", path.display()),
        "spec": spec_json(&f.spec),
        "original": {"run": orig.spec.run, "entropy": orig.spec.entropy,
            "size": format!("{:?}", size(&orig.spec)), "message": orig.msg},
        "minimised_size": {"choices": size(&f.spec).0, "schedule_decisions": size(&f.spec).1, "faults": size(&f.spec).2},
        "trace": f.trace,
    });
    std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap()).expect("replay file");
    path.to_string_lossy().into_owned()
}

fn workers() -> u64 {
    std::env::var("SIM_WORKERS").ok().and_then(|x| x.parse().ok()).unwrap_or(crate::sys::num_cpus() as u64)
}

fn check(props: &[Prop], id: &str) -> i32 {
    let p = prop(props, id);
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    println!("simulation {} seed={} tier={}", id, seed, tier);
    let runs = std::env::var("SIM_RUNS")
        .ok()
        .and_then(|x| x.parse().ok())
        .unwrap_or(if thorough { p.thorough_runs } else { p.quick_runs });
    let cap = Duration::from_secs(
        std::env::var("SIM_WALL").ok().and_then(|x| x.parse().ok()).unwrap_or(if thorough { 3000 } else { 240 }),
    );
    let sc = Scratch::new();
    let t0 = Instant::now();
    let mut b = campaign(&p, &sc, seed, runs, workers(), cap, false);
    let search_s = t0.elapsed().as_secs_f64();
    let mut violations = 0;
    let mut code = 0;
    let known = known_lines(id);
    for (sig, what) in &known {
        let _ = sig;
        println!("KNOWN-FINDING: property={} {}", id, what);
    }
    if let Some(h) = &b.harness {
        if b.found.is_empty() {
            eprintln!("harness error: {}", h);
            return 2;
        }
    }
    if let Some(f) = b.found.first().cloned() {
        // reproduce from the recording, in a fresh process
        println!("violation in run {}: {}: {}", f.spec.run, f.class, f.msg);
        let lim = Duration::from_secs(if f.class == "hang" { 100 } else { 60 });
        let mut from = None;
        match try_child(&sc, "", &[f.spec.clone()], false, lim) {
            TryRes::Bad(g) => from = Some(g),
            TryRes::Harness(h) => {
                eprintln!("harness error while replaying: {}", h);
                return 2;
            }
            TryRes::Clean => {
                // the recording may be incomplete (crash); the seed itself is exact
                let s = Spec { prop: id.into(), run: f.spec.run, entropy: f.spec.entropy, ..Default::default() };
                if let TryRes::Bad(g) = try_child(&sc, "", &[s], false, lim) {
                    from = Some(g);
                }
            }
        }
        let Some(g) = from else {
            if f.class == "hang" {
                eprintln!("harness error: a run stalled and did not stall again: {}", f.msg);
                return 2;
            }
            eprintln!("harness error: violation did not replay: {}: {}", f.class, f.msg);
            return 2;
        };
        let wall = Duration::from_secs(
            std::env::var("SIM_MINIMISE_S").ok().and_then(|x| x.parse().ok()).unwrap_or(if thorough { 240 } else { 60 }),
        );
        let mut m = if g.class == "hang" { g.clone() } else { minimise(&sc, &g, wall) };
        // final replay in a fresh process, with the trace
        match try_child(&sc, &m.class, &[m.spec.clone()], true, lim) {
            TryRes::Bad(h) => {
                m.trace = h.trace;
                m.msg = h.msg;
            }
            _ => m = g.clone(),
        }
        let sig = format!("{}: {}", m.class, m.msg);
        if known.iter().any(|(s, _)| sig.contains(s.as_str())) {
            println!("(listed finding met again: {})", sig);
        } else {
            let path = write_replay(id, seed, &m, &f);
            println!("minimised: {}: {}", m.class, m.msg);
            for l in m.trace.iter().take(60) {
                println!("  {}", l);
            }
            println!("VIOLATION property={} replay={}", id, path);
            violations = 1;
            code = 1;
        }
    }
    // determinism spot check: a sample of the runs again, event logs compared
    let mut det = json!(null);
    if code == 0 {
        let n = (runs / 50).clamp(50, 400);
        let a = campaign(&p, &sc, seed, n, 3, cap, true);
        let c = campaign(&p, &sc, seed, n, 5.min(workers().max(2)), cap, true);
        let (mut x, mut y) = (a.logs.clone(), c.logs.clone());
        x.sort();
        y.sort();
        let diff = x.iter().zip(y.iter()).filter(|(p, q)| p != q).count();
        det = json!({"runs_repeated": x.len(), "with_worker_counts": [3, 5], "event_log_differences": diff});
        if diff > 0 || x.len() != y.len() {
            eprintln!("note: {} of {} repeated runs differ in their event logs", diff, x.len());
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    b.samples.sort();
    b.samples.truncate(4);
    let ev = *b.tot.get("evaluations").unwrap_or(&0);
    let mut fired = serde_json::Map::new();
    for k in p.fault_kinds {
        fired.insert(k.to_string(), json!(b.faults.get(*k).copied().unwrap_or(0)));
    }
    for (k, v) in &b.faults {
        fired.insert(k.clone(), json!(v));
    }
    b.probes.retain(|k, v| match k.strip_prefix("fault:") {
        Some(n) => {
            fired.insert(n.to_string(), json!(v));
            false
        }
        None => true,
    });
    let cov = b.cov.iter().filter(|x| **x != 0).count();
    let e = json!({
        "property": id, "tier": tier, "seed": seed, "level": p.level,
        "coverage": {
            "evaluations": ev,
            "distinct_nontrivial": b.distinct.len(),
            "rule": p.rule,
            "samples": b.samples,
            "discarded_runs": b.tot.get("discarded"),
            "runs_per_hour": if search_s > 0.0 { (ev as f64 / search_s * 3600.0) as u64 } else { 0 },
            "seeds_per_hour": if search_s > 0.0 { (ev as f64 / search_s * 3600.0) as u64 } else { 0 },
            "simulated_time": {"unit": "basic blocks of the code under test executed under the scheduler (1 block = 1 simulated microsecond on the simulated clock)", "total": b.tot.get("steps")},
            "context_switches": b.tot.get("switches"),
            "blocking_waits": b.tot.get("blocked"),
            "distinct_interleavings": {"measure": "distinct sequences of (code location, from-thread, to-thread) context switches, over runs with more than one switch", "count": b.inters.len()},
            "code_locations_reached": {"measure": "instrumented basic-block edges executed at least once by simulated threads", "count": cov, "of": b.cov.len()},
            "faults_injected": fired,
            "runs_with_a_fault": b.tot.get("faulty_runs"),
            "probes": b.probes,
            "real_components": p.real,
            "stub_components": p.stub,
            "stopped_early_by_time_cap": b.truncated,
            "determinism": det,
            "workers": workers(),
        },
        "assumptions": p.assumptions,
        "wall_s": wall,
        "violations": violations,
    });
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let mut f = std::fs::File::create(dir.join(format!("{}.json", id))).expect("evidence");
    f.write_all(serde_json::to_string_pretty(&e).unwrap().as_bytes()).expect("evidence");
    if code == 0 {
        println!("{}: held on {} runs ({} distinct non-trivial, {} interleavings) in {:.1} s", id, ev, b.distinct.len(), b.inters.len(), wall);
    }
    code
}

fn replay(file: &str) -> i32 {
    let Some(v) = read_json(file) else {
        eprintln!("cannot read {}", file);
        return 2;
    };
    let Some(s) = spec_from(&v["spec"]) else {
        eprintln!("not a replay file: {}", file);
        return 2;
    };
    let sc = Scratch::new();
    match try_child(&sc, "", &[s.clone()], true, Duration::from_secs(100)) {
        TryRes::Bad(f) => {
            for l in &f.trace {
                println!("  {}", l);
            }
            println!("{}: {}", f.class, f.msg);
            println!("VIOLATION property={} replay={}", s.prop, Path::new(file).display());
            1
        }
        TryRes::Clean => {
            println!("no violation");
            0
        }
        TryRes::Harness(h) => {
            eprintln!("harness error: {}", h);
            2
        }
    }
}

/// det <prop> <seed> <runs>: event logs of the same seeds at several worker counts must agree
fn det(props: &[Prop], a: &[String]) -> i32 {
    let p = prop(props, &a[0]);
    let seed: u64 = a[1].parse().unwrap();
    let runs: u64 = a[2].parse().unwrap();
    let sc = Scratch::new();
    let mut first: Option<Vec<String>> = None;
    let mut bad = 0;
    for w in [1u64, 3, 8, 8, 5] {
        let mut b = campaign(&p, &sc, seed, runs, w, Duration::from_secs(3000), true);
        b.logs.sort();
        if let Some(h) = b.harness {
            println!("harness error {}", h);
        }
        if let Some(f) = b.found.first() {
            println!("violation {} {}", f.class, f.msg);
        }
        match &first {
            None => first = Some(b.logs),
            Some(f) => {
                let d = f.iter().zip(b.logs.iter()).filter(|(x, y)| x != y).count();
                if d > 0 || f.len() != b.logs.len() {
                    bad += 1;
                    println!("{} workers: {} of {} logs differ (len {})", w, d, f.len(), b.logs.len());
                    for (x, y) in f.iter().zip(b.logs.iter()).filter(|(x, y)| x != y).take(3) {
                        println!("  {}\n  {}", x, y);
                    }
                }
            }
        }
    }
    println!("{}: {} runs x5, {} differing repetitions", p.id, first.map(|f| f.len()).unwrap_or(0), bad);
    (bad > 0) as i32
}

pub fn main(props: &[Prop]) -> ! {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let code = match a.first().map(|s| s.as_str()) {
        Some("worker") => worker(props, &a[1..]),
        Some("try") => try_specs(props, &a[1..]),
        Some("check") => check(props, &a[1]),
        Some("replay") => replay(&a[1]),
        Some("det") => det(props, &a[1..]),
        Some("list") => {
            for p in props {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: sim check <id> | replay <file> | det <id> <seed> <runs> | list");
            2
        }
    };
    std::process::exit(code)
}
