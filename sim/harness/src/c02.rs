//! C02: access order, cache kind, recomputation, clones.
use crate::c01::{check_computed, check_logs, program, sequential, Log};
use crate::ops::{self, check_lang, Case};
use crate::util;
use crate::view::{explore, Shared, View};
use simrt::sched::Body;
use simrt::{bad, chance, discard, draw, range, Violation};

fn fin(c: &Case, v: &dyn View, logs: &[&Log], size: (usize, usize), what: &str) -> Result<(), Violation> {
    let full = match explore(v, 5000) {
        Ok(Some(f)) => f,
        Ok(None) => return bad("states", format!("{} {}: far more states than when explored breadth-first", c.name, what)),
        Err(e) => return bad("error", format!("{} {}: {}", c.name, what, e)),
    };
    if full.size() != size {
        return bad("states", format!("{} {}: (states, transitions) {:?}, breadth-first {:?}", c.name, what, full.size(), size));
    }
    if let Err(e) = check_lang(c, &full) {
        return bad("language", format!("{} {}: {}", c.name, what, e));
    }
    for l in logs {
        check_logs(std::slice::from_ref(*l), &full)?;
        check_computed(c, std::slice::from_ref(*l), size)?;
    }
    Ok(())
}

fn some(v: &dyn View, log: &mut Log) {
    for _ in 0..range(1, 3) {
        let (seed, steps) = (draw(1 << 16), range(2, 20));
        program(v, seed, steps, log);
        if chance(1, 3) && v.clear() {
            simrt::probe("cache_cleared");
        }
    }
}

fn clone(v: &Shared) -> Option<Shared> {
    if chance(3, 4) {
        v.boxed_clone()
    } else {
        None
    }
}

pub fn body() -> Result<(), Violation> {
    let c = if draw(8) == 7 { ops::rm_epsilon_case() } else { ops::case(true) };
    let Some(c) = c else { return discard() };
    let e = simrt::entropy();
    let (seq, _) = sequential(&c)?;
    let size = seq.size();
    // another process: other hash keys
    simrt::set_entropy(e ^ draw(1 << 30));
    let v = (c.make)().map_err(|e| Violation { class: "construction".into(), msg: e })?;
    let mut before = Log::default();
    some(&*v, &mut before);
    let mut la = Log::default();
    let mut lb = Log::default();
    if let Some(w) = clone(&v) {
        simrt::probe("cloned_mid_exploration");
        if chance(1, 2) {
            // original and clone go their ways on different threads
            util::wakeups();
            let (s1, s2, n) = (draw(1 << 16), draw(1 << 16), range(2, 20));
            let bodies: Vec<Body> = vec![Box::new(|| program(&*v, s1, n, &mut la)), Box::new(|| program(&*w, s2, n, &mut lb))];
            util::threads(2000, bodies)?;
        } else {
            for _ in 0..range(1, 3) {
                some(&*v, &mut la);
                some(&*w, &mut lb);
            }
        }
        if chance(1, 2) {
            fin(&c, &*w, &[&before, &lb], size, "cloned")?;
            fin(&c, &*v, &[&before, &la], size, "after its clone was used")?;
        } else {
            drop(v);
            fin(&c, &*w, &[&before, &lb], size, "cloned, original gone")?;
        }
    } else {
        some(&*v, &mut la);
        fin(&c, &*v, &[&before, &la], size, "explored in another order")?;
    }
    if size.0 >= 2 && !c.expect.is_empty() && before.trs.len() + la.trs.len() >= 3 {
        simrt::nontrivial();
    }
    simrt::sample(format!("{} over {}: {:?} states/transitions, {} strings, {} answers checked", c.name, c.input, size, c.expect.len(), before.trs.len() + la.trs.len() + lb.trs.len()));
    Ok(())
}
