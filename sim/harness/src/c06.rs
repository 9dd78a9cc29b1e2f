//! C06: a write that reports success is complete and readable.
use crate::files;
use crate::util;
use simrt::faults::{self, Fault};
use simrt::sched::Body;
use simrt::{bad, chance, draw, range, vfs, Violation};

pub fn body() -> Result<(), Violation> {
    let n = 1 + draw(3) as usize;
    let objs: Vec<files::Obj> = (0..n).map(|_| files::any(false)).collect();
    // several writers may save the same object, each to its own file
    let m = n + draw(2) as usize;
    let which: Vec<usize> = (0..m).map(|i| if i < n { i } else { draw(n as u64) as usize }).collect();
    let paths: Vec<String> = (0..m).map(|i| format!("/simfs/out{}", i)).collect();
    for p in &paths {
        if chance(1, 4) {
            vfs::d().files.insert(p.clone(), vec![b'x'; range(1, 5000) as usize]);
        }
    }
    let mode = draw(3); // 0: benign faults only, 1: failing disk, 2: disk of limited size
    let mut mix = vec![];
    if chance(1, 3) {
        mix.push((Fault::SpuriousWake, 2000));
    }
    if chance(1, 2) {
        mix.extend([(Fault::WriteShort, 2500), (Fault::WriteEintr, 1500), (Fault::OpenEintr, 1500)]);
    }
    if mode == 1 {
        mix.extend([(Fault::WriteEio, 1500), (Fault::WriteEnospc, 1500), (Fault::OpenErr, 300), (Fault::WriteZero, 300)]);
    }
    if mode == 2 {
        let k = if chance(1, 3) { 20000 } else { 600 };
        vfs::d().space = Some(draw(k));
    }
    faults::enable(&mix);
    let mut res: Vec<Option<Result<(), String>>> = vec![None; m];
    if m > 1 && chance(1, 2) {
        let bodies: Vec<Body> = res
            .iter_mut()
            .zip(which.iter().zip(&paths))
            .map(|(r, (o, p))| {
                let o = &objs[*o];
                Box::new(move || *r = Some((o.write)(p))) as Body
            })
            .collect();
        util::threads(3000, bodies)?;
    } else {
        for ((r, o), p) in res.iter_mut().zip(&which).zip(&paths) {
            *r = Some((objs[*o].write)(p));
        }
    }
    let hard = faults::f().made.iter().any(|f| !f.fault.benign()) || mode == 2;
    let open = vfs::d().fds.len();
    faults::enable(&[]);
    vfs::d().space = None;
    vfs::d().failing = false;
    let (mut good, mut failed) = (0, 0);
    for i in 0..m {
        let o = &objs[which[i]];
        match res[i].as_ref().unwrap() {
            Err(x) => {
                failed += 1;
                if !hard {
                    return bad("error", format!("writing {} failed without a disk error: {}", o.name, x));
                }
            }
            Ok(()) => {
                good += 1;
                let back = (o.read)(&paths[i], true);
                match back {
                    Ok(b) if b == o.want => {}
                    Ok(b) => {
                        return bad("content", format!("writing {} succeeded, but the file holds\n{}\ninstead of\n{}", o.name, clip(&b), clip(&o.want)))
                    }
                    Err(x) => return bad("unreadable", format!("writing {} succeeded, but reading it back fails: {}", o.name, x)),
                }
            }
        }
    }
    if open != 0 {
        return bad("leak", format!("{} files left open", open));
    }
    for o in &objs {
        simrt::probe(&format!("wrote {}", o.name));
    }
    if failed > 0 {
        simrt::probe("write_failed");
    }
    if good > 0 && (hard || !faults::f().made.is_empty() || m > 1) || failed > 0 {
        simrt::nontrivial();
    }
    simrt::sample(format!("{}: {} written, {} failed, mode {}", objs.iter().map(|o| o.name.as_str()).collect::<Vec<_>>().join(", "), good, failed, mode));
    Ok(())
}

pub fn clip(s: &str) -> String {
    if s.chars().count() > 1500 {
        format!("{}...", s.chars().take(1500).collect::<String>())
    } else {
        s.to_string()
    }
}
