//! Linearizability of one register: a search over the orders real time allows.
use std::collections::HashSet;

#[derive(Clone, Debug)]
pub enum Kind {
    /// sets the value (usize: which write) or clears it
    Write(Option<usize>),
    /// saw one of these
    Read(Vec<Option<usize>>),
    /// clears the value and saw one of these
    Take(Vec<Option<usize>>),
}
#[derive(Clone, Debug)]
pub struct LOp {
    pub id: usize,
    pub inv: u64,
    /// u64::MAX: no answer, may or may not have happened, or may still happen
    pub ret: u64,
    pub kind: Kind,
}

/// None: too large to decide. Some(Err(op)): no order explains the history (`op`: the first one left over).
pub fn explain(ops: &[LOp], inits: &[Option<usize>]) -> Option<Result<Vec<Option<usize>>, usize>> {
    if ops.len() > 120 { return None; }
    let mut o: Vec<LOp> = ops.iter().filter(|x| x.ret < u64::MAX || matches!(x.kind, Kind::Write(_) | Kind::Take(_))).cloned().collect();
    o.sort_by_key(|x| x.inv);
    let full: u128 = o.iter().enumerate().filter(|(_, x)| x.ret < u64::MAX).fold(0, |a, (i, _)| a | 1 << i);
    let mut good = vec![];
    let mut best = (0u32, usize::MAX);
    let mut steps = 0u64;
    for init in inits {
        let mut seen: HashSet<(u128, Option<usize>)> = HashSet::new();
        let mut stack: Vec<(u128, Option<usize>)> = vec![(0, *init)];
        let mut ok = false;
        while let Some((done, st)) = stack.pop() {
            if done & full == full { ok = true; break; }
            if !seen.insert((done, st)) { continue; }
            steps += 1;
            if steps > 400_000 { return None; }
            let mut lim = u64::MAX;
            let mut first = usize::MAX;
            for (i, x) in o.iter().enumerate() { if done >> i & 1 == 0 && x.ret < lim { lim = x.ret; first = x.id; } }
            let n = (done & full).count_ones();
            if n > best.0 || best.1 == usize::MAX { best = (n, first); }
            for (i, x) in o.iter().enumerate().rev() {
                if done >> i & 1 == 1 || x.inv > lim { continue; }
                match &x.kind {
                    Kind::Write(w) => stack.push((done | 1 << i, *w)),
                    Kind::Read(a) => if a.contains(&st) { stack.push((done | 1 << i, st)); },
                    Kind::Take(a) => if x.ret == u64::MAX || a.contains(&st) { stack.push((done | 1 << i, None)); },
                }
            }
        }
        if ok { good.push(*init); }
    }
    Some(if good.is_empty() { Err(best.1) } else { Ok(good) })
}

#[cfg(test)]
mod tests {
    use super::*;
    fn w(id: usize, inv: u64, ret: u64) -> LOp { LOp { id, inv, ret, kind: Kind::Write(Some(id)) } }
    fn r(id: usize, inv: u64, ret: u64, v: Option<usize>) -> LOp { LOp { id, inv, ret, kind: Kind::Read(vec![v]) } }
    #[test]
    fn simple() {
        assert!(explain(&[w(1, 0, 1), r(2, 2, 3, Some(1))], &[None]).unwrap().is_ok());
        assert!(explain(&[w(1, 0, 1), r(2, 2, 3, None)], &[None]).unwrap().is_err());
        assert!(explain(&[w(1, 0, 10), r(2, 2, 3, Some(1)), r(3, 4, 5, None)], &[None]).unwrap().is_err());
        assert!(explain(&[w(1, 0, 10), r(2, 2, 3, None), r(3, 4, 5, Some(1))], &[None]).unwrap().is_ok());
        assert!(explain(&[w(1, 0, u64::MAX), r(2, 2, 3, None), r(3, 4, 5, Some(1))], &[None]).unwrap().is_ok());
    }
}
