//! C08: damaged files never crash the reader.
use crate::files;
use simrt::rng::Rng;
use simrt::{bad, draw, range, vfs, Violation};

pub fn damage(b: &mut Vec<u8>, r: &mut Rng) -> &'static str {
    let n = b.len() as u64;
    if n == 0 {
        b.extend((0..1 + r.below(40)).map(|_| r.next() as u8));
        return "extend";
    }
    let at = r.below(n) as usize;
    let max = if r.below(3) == 0 { 64 } else { 8 };
    let len = (1 + r.below(max)) as usize;
    let end = (at + len).min(b.len());
    match r.below(9) {
        0 => {
            b[at] ^= 1 << r.below(8);
            "flip"
        }
        1 => {
            let v = [0, 0xff, 0x7f, 0x80, b'\t', b'\n', b'9', b'-', b'.', b'e'][r.below(10) as usize];
            b[at..end].fill(v);
            "fill"
        }
        2 => {
            for x in &mut b[at..end] {
                *x = r.next() as u8;
            }
            "overwrite"
        }
        3 => {
            let v = [-1i64, i64::MAX, i64::MIN, 1 << 40, i32::MAX as i64, i32::MIN as i64, 1 << 24, 255, 0, 1][r.below(10) as usize];
            let w = if r.below(2) == 0 { 4 } else { 8 };
            // numbers sit at any offset, but most often after a 4-byte boundary of what precedes
            for (x, y) in b[at..].iter_mut().zip(v.to_le_bytes()).take(w) {
                *x = y;
            }
            "number"
        }
        4 => {
            let c: Vec<u8> = b[at..end].to_vec();
            let to = r.below(n + 1) as usize;
            b.splice(to..to, c);
            "duplicate"
        }
        5 => {
            b.drain(at..end);
            "remove"
        }
        6 => {
            b.truncate(at);
            "cut"
        }
        7 => {
            b.extend((0..len).map(|_| r.next() as u8));
            "extend"
        }
        _ => {
            let to = r.below(n) as usize;
            b.swap(at, to);
            "swap"
        }
    }
}

pub fn body() -> Result<(), Violation> {
    let o = files::any(true);
    if o.name == "drawing" {
        return simrt::discard();
    }
    let p = "/simfs/file";
    if let Err(x) = (o.write)(p) {
        return bad("error", format!("writing {} failed without a disk error: {}", o.name, x));
    }
    let k = range(1, 4);
    let mut what = vec![];
    let len0 = vfs::d().files[p].len();
    for _ in 0..k {
        let mut r = Rng::new(draw(1 << 24));
        what.push(damage(vfs::d().files.get_mut(p).unwrap(), &mut r));
    }
    if o.text {
        // The text formats number states densely: a state number calls for as many states.
        let big = vfs::d().files[p].split(|b| !b.is_ascii_digit()).any(|t| t.len() > 5);
        if big {
            return simrt::discard();
        }
    }
    let len = vfs::d().files[p].len();
    simrt::alloc::limit((64 << 20) + len as u64 * 4096);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (o.read)(p, false)));
    simrt::alloc::limit(0);
    match r {
        Err(_) => {
            let pn = simrt::take_panic();
            if simrt::is_harness_panic(&pn) {
                panic!("{} at {}", pn.msg, pn.loc);
            }
            return bad("panic", format!("reading a damaged {} ({:?}) panicked: {} at {}", o.name, what, pn.msg, pn.loc));
        }
        Ok(Ok(_)) => simrt::probe("accepted"),
        Ok(Err(_)) => simrt::probe("rejected"),
    }
    for w in &what {
        simrt::probe(&format!("fault:stored_bytes_{}", w));
    }
    simrt::nontrivial();
    simrt::sample(format!("{} of {} bytes, damage {:?} -> {} bytes", o.name, len0, what, len));
    Ok(())
}
