//! C07: reading a file gives the stored object or an error.
use crate::c06::clip;
use crate::files;
use crate::util;
use simrt::faults::{self, Fault};
use simrt::sched::Body;
use simrt::{bad, chance, draw, vfs, Violation};

pub fn body() -> Result<(), Violation> {
    let o = files::any(false);
    let p = "/simfs/file";
    if let Err(x) = (o.write)(p) {
        return bad("error", format!("writing {} failed without a disk error: {}", o.name, x));
    }
    let len = vfs::d().files[p].len() as u64;
    let cut = o.binary && len > 0 && chance(1, 2);
    if cut {
        // anywhere, or close to either end
        let k = match draw(4) {
            0 => draw(len),
            1 => draw(len.min(80)),
            _ => len - 1 - draw(len.min(40)),
        };
        vfs::d().files.get_mut(p).unwrap().truncate(k as usize);
        simrt::probe("fault:file_cut_short");
    }
    let mut mix = vec![];
    if chance(1, 2) {
        mix.extend([(Fault::ReadShort, 3000), (Fault::ReadEintr, 1500), (Fault::OpenEintr, 1000)]);
    }
    let failing = chance(1, 3);
    if failing {
        mix.extend([(Fault::ReadEio, 2500), (Fault::OpenErr, 500)]);
    }
    faults::enable(&mix);
    let n = 1 + draw(3) as usize;
    let mut res: Vec<Option<(Result<String, String>, bool)>> = vec![None; n];
    let one = |r: &mut Option<(Result<String, String>, bool)>| {
        *r = Some(((o.read)(p, true), false));
    };
    if n > 1 && len < 3000 && chance(1, 2) {
        let one = &one;
        let bodies: Vec<Body> = res.iter_mut().map(|r| Box::new(move || one(r)) as Body).collect();
        util::threads(3000, bodies)?;
        let hard = faults::f().made.iter().any(|f| !f.fault.benign());
        for r in &mut res {
            r.as_mut().unwrap().1 = hard;
        }
    } else {
        for r in &mut res {
            let before = faults::f().made.len();
            one(r);
            r.as_mut().unwrap().1 = faults::f().made[before..].iter().any(|f| !f.fault.benign());
        }
    }
    for r in res {
        let (r, hard) = r.unwrap();
        match r {
            Ok(_) if cut => {
                return bad("truncated", format!("{}: a file cut to {} of {} bytes was read without an error", o.name, vfs::d().files[p].len(), len))
            }
            Ok(b) if b != o.want => return bad("content", format!("{}: read\n{}\ninstead of\n{}", o.name, clip(&b), clip(&o.want))),
            Ok(_) if hard && n == 1 => return bad("ignored", format!("{}: an I/O error while reading was not reported", o.name)),
            Ok(_) => {}
            Err(x) => {
                if !cut && !hard {
                    return bad("error", format!("{}: reading failed without an I/O error: {}", o.name, x));
                }
            }
        }
    }
    if !vfs::d().fds.is_empty() {
        return bad("leak", format!("{} files left open", vfs::d().fds.len()));
    }
    simrt::probe(&format!("read {}", o.name));
    if cut || !faults::f().made.is_empty() {
        simrt::nontrivial();
    }
    simrt::sample(format!("{}, {} bytes, cut: {}, {} faults", o.name, len, cut, faults::f().made.len()));
    Ok(())
}
