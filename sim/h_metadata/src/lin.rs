//! Linearizability check (Wing & Gong with memoisation) of one history against a reference model.
use std::collections::HashSet;

use crate::model::step;
use crate::model::Entry;
use crate::model::Res;
use crate::model::M;
use crate::model::State;

/// an entry that, once it fits without changing the state, would not change it later either
fn reads(e: &Entry) -> bool {
    matches!(e.res, Res::Err(_))
        || match e.m {
            M::Get { .. } | M::Idx { .. } | M::List { .. } | M::Dict { .. } | M::DictV { .. } => true,
            M::Anon { .. } | M::Merge { .. } | M::GName { .. } | M::GList | M::SGet { .. } | M::Load => true,
            M::Real { upd, .. } => !upd,
            _ => false,
        }
}

pub enum Verdict {
    Ok(State),
    /// no order explains the history; the longest explainable prefix and what could not follow
    Bad { done: usize, stuck: Vec<usize> },
    TooLarge,
}

/// `deadline`: entries without a response took effect before it or never
pub fn check(es: &[Entry], init: State) -> Verdict {
    if es.len() > 128 {
        return Verdict::TooLarge;
    }
    let mut seen: HashSet<(u128, State)> = HashSet::new();
    let full: u128 = es.iter().enumerate().filter(|(_, e)| !e.pending).map(|(i, _)| 1u128 << i).sum();
    let mut best = (0usize, vec![]);
    let mut nodes = 0u64;
    let mut stack: Vec<(u128, u64, State)> = vec![(0, 0, init)];
    while let Some((mut mask, mut maxinv, state)) = stack.pop() {
        nodes += 1;
        if nodes > 300_000 {
            return Verdict::TooLarge;
        }
        // entries that leave the state alone are taken as soon as they fit: nothing is lost by it
        let mut cands;
        loop {
            let minret = es
                .iter()
                .enumerate()
                .filter(|(i, e)| mask >> i & 1 == 0 && !e.pending)
                .map(|(_, e)| e.end)
                .min()
                .unwrap_or(u64::MAX);
            cands = vec![];
            let mut took = false;
            for (i, e) in es.iter().enumerate() {
                if mask >> i & 1 == 1 || e.inv > minret {
                    continue;
                }
                if e.pending && e.end < maxinv {
                    continue;
                }
                let next = step(&state, e);
                // taking it may end the time in which an entry without response could take effect
                let closes = e.inv > maxinv
                    && es.iter().enumerate().any(|(j, p)| p.pending && mask >> j & 1 == 0 && p.end >= maxinv && p.end < e.inv);
                if !e.pending && !closes && reads(e) && next.iter().any(|s| *s == state) {
                    mask |= 1 << i;
                    maxinv = maxinv.max(e.inv);
                    took = true;
                    break;
                }
                cands.push((i, next));
            }
            if !took {
                break;
            }
        }
        if mask & full == full {
            return Verdict::Ok(state);
        }
        let done = (mask & full).count_ones() as usize;
        if done >= best.0 {
            best = (done, cands.iter().filter(|(i, n)| n.is_empty() && !es[*i].pending).map(|x| x.0).collect());
        }
        for (i, next) in cands {
            for s in next {
                let m = mask | 1 << i;
                if seen.insert((m, s.clone())) {
                    stack.push((m, maxinv.max(es[i].inv), s));
                }
            }
        }
    }
    Verdict::Bad { done: best.0, stuck: best.1 }
}
