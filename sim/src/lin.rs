//! Wing–Gong linearizability checker with memoisation, for short histories.
use std::collections::HashSet;
use std::hash::Hash;

pub trait Model: Clone + Hash + Eq {
    type Op;
    /// Every state the sequential specification allows after `op` with its recorded result
    /// (empty: the result is impossible here). For an op that never returned, the states it
    /// may have left behind.
    fn step(&self, op: &Self::Op, completed: bool) -> Vec<Self>;
}
pub struct Call<O> {
    pub inv: u64,
    /// u64::MAX: never returned (may or may not have taken effect)
    pub ret: u64,
    pub op: O,
}
/// Ok(None) = linearizable; Ok(Some(k)) = no linearization (at most k calls could be placed);
/// Err = search too large.
pub fn check<M: Model>(init: M, calls: &[Call<M::Op>], final_ok: impl Fn(&M) -> bool, limit: usize) -> Result<Option<usize>, ()> {
    assert!(calls.len() <= 64);
    let mut seen: HashSet<(u64, M)> = HashSet::new();
    let mut stack = vec![(0u64, init)];
    let mut best = 0usize;
    while let Some((mask, m)) = stack.pop() {
        if seen.len() > limit {
            return Err(());
        }
        best = best.max(mask.count_ones() as usize);
        if calls.iter().enumerate().all(|(i, c)| mask >> i & 1 == 1 || c.ret == u64::MAX) && final_ok(&m) {
            return Ok(None);
        }
        let horizon = calls.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 0).map(|(_, c)| c.ret).min().unwrap_or(u64::MAX);
        for (i, c) in calls.iter().enumerate() {
            if mask >> i & 1 == 1 || c.inv > horizon {
                continue;
            }
            for n in m.step(&c.op, c.ret != u64::MAX) {
                let key = (mask | 1 << i, n);
                if seen.insert(key.clone()) {
                    stack.push(key);
                }
            }
        }
    }
    Ok(Some(best))
}
