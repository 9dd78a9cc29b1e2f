//! Linearizability of a recorded history against a sequential object (Wing & Gong, memoised).
use std::collections::HashSet;
use std::hash::Hash;

pub struct Op<O> {
    pub inv: u64,
    pub res: u64,
    pub op: O,
}

/// Searches for an order of the operations that respects real time and the sequential object.
/// `None`: gave up (too many states). At most 128 operations.
pub fn linearizable<S: Clone + Eq + Hash, O>(init: S, ops: &[Op<O>], apply: impl Fn(&S, &O) -> Option<S>, cap: usize) -> Option<bool> {
    assert!(ops.len() <= 128);
    let all: u128 = if ops.len() == 128 { u128::MAX } else { (1u128 << ops.len()) - 1 };
    let mut seen: HashSet<(u128, S)> = HashSet::new();
    let mut stack = vec![(0u128, init)];
    while let Some((done, s)) = stack.pop() {
        if done == all {
            return Some(true);
        }
        // an operation may be next only if it started before every other pending one ended
        let limit = ops.iter().enumerate().filter(|(i, _)| done >> i & 1 == 0).map(|(_, o)| o.res).min().unwrap();
        for (i, o) in ops.iter().enumerate().rev() {
            if done >> i & 1 == 1 || o.inv > limit {
                continue;
            }
            if let Some(t) = apply(&s, &o.op) {
                let k = (done | 1 << i, t);
                if !seen.contains(&k) {
                    if seen.len() >= cap {
                        return None;
                    }
                    seen.insert(k.clone());
                    stack.push(k);
                }
            }
        }
    }
    Some(false)
}

#[cfg(test)]
mod t {
    use super::*;
    #[test]
    fn register() {
        // write 1 || read 1, then read 0 is not linearizable
        #[derive(Clone)]
        enum R {
            W(u32),
            R(u32),
        }
        let ap = |s: &u32, o: &R| match o {
            R::W(x) => Some(*x),
            R::R(x) => (x == s).then_some(*s),
        };
        let h = |v: Vec<(u64, u64, R)>| v.into_iter().map(|(inv, res, op)| Op { inv, res, op }).collect::<Vec<_>>();
        assert_eq!(linearizable(0, &h(vec![(0, 9, R::W(1)), (1, 2, R::R(1)), (3, 4, R::R(0))]), ap, 1000), Some(false));
        assert_eq!(linearizable(0, &h(vec![(0, 9, R::W(1)), (1, 2, R::R(0)), (3, 4, R::R(1))]), ap, 1000), Some(true));
    }
}
