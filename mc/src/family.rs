//! The families of sets the checks enumerate, simplest first. Small enums: every subset. Larger ones: every subset of
//! an alphabet of boundary variants, over several backgrounds, plus singletons, co-singletons, prefixes and suffixes.
use crate::{Info, M};
use std::collections::HashSet;

/// Indices of up to `k` variants, those nearest to the edges of storage units first.
pub fn alphabet(e: &Info, k: usize) -> Vec<usize> {
    let n = e.n;
    let mut out: Vec<usize> = vec![];
    let push = |i: usize, out: &mut Vec<usize>| {
        if i < n && !out.contains(&i) {
            out.push(i);
        }
    };
    if n == 0 {
        return out;
    }
    push(0, &mut out);
    push(n - 1, &mut out);
    // last below, first at or above each boundary, widest storage units first
    for b in [64u32, 128, 192, 256, 32, 16, 8, 31, 7, 320, 65536, 4096] {
        let up = e.discr.partition_point(|d| *d < b);
        if up > 0 && up < n {
            push(up - 1, &mut out);
            push(up, &mut out);
        }
    }
    push(1, &mut out);
    push(n / 2, &mut out);
    for i in 0..n {
        push(i, &mut out);
    }
    out.truncate(k);
    out.sort();
    out
}

pub fn subsets(ix: &[usize]) -> Vec<M> {
    let mut v: Vec<M> = (0u32..1 << ix.len())
        .map(|b| M::of(&(0..ix.len()).filter(|j| b >> j & 1 == 1).map(|j| ix[j]).collect::<Vec<_>>()))
        .collect();
    v.sort_by_key(|m| m.len());
    v
}

fn dedupe(v: Vec<M>) -> Vec<M> {
    let mut seen = HashSet::new();
    v.into_iter().filter(|m| seen.insert(*m)).collect()
}

/// Sets for operations on one set.
pub fn unary(e: &Info, full: usize, k: usize) -> Vec<M> {
    let n = e.n;
    if n <= full {
        return subsets(&(0..n).collect::<Vec<_>>());
    }
    let mut v = core_sets(e, k);
    let all = M::all(n);
    let step = if n > 200 { 3 } else { 1 };
    for i in (0..n).step_by(step).chain(alphabet(e, 16)) {
        v.push(M::EMPTY.with(i));
        v.push(all.without(i));
        v.push(M::all(i));
        v.push(all.minus(M::all(i)));
    }
    dedupe(v)
}

/// All subsets of the alphabet over the backgrounds "none", "all the others" and "every other one of the others".
pub fn core_sets(e: &Info, k: usize) -> Vec<M> {
    let n = e.n;
    let a = alphabet(e, k);
    let am = M::of(&a);
    let others = M::all(n).minus(am);
    let alt = M::of(&others.ixs().into_iter().step_by(2).collect::<Vec<_>>());
    let mut v = vec![];
    for bg in [M::EMPTY, others, alt] {
        for s in subsets(&a) {
            v.push(s.or(bg));
        }
    }
    dedupe(v)
}

/// Pairs for operations on two sets.
pub fn pairs(e: &Info, full: usize, k: usize) -> (Vec<M>, Vec<(u32, u32)>) {
    let n = e.n;
    if n <= full {
        let v = unary(e, full, k);
        let l = v.len() as u32;
        let p = (0..l).flat_map(|a| (0..l).map(move |b| (a, b))).collect();
        return (v, p);
    }
    let core = core_sets(e, k);
    let c = core.len() as u32;
    let mut all = core.clone();
    all.extend(unary(e, 0, 1));
    let all = dedupe(all);
    let mut p: Vec<(u32, u32)> = (0..c).flat_map(|a| (0..c).map(move |b| (a, b))).collect();
    // every other set against a few fixed partners and its neighbours
    for i in c..all.len() as u32 {
        for j in [0, c / 3, c / 2, c - 1, i.saturating_sub(1), i, i.saturating_sub(4)] {
            p.push((i, j));
            p.push((j, i));
        }
    }
    (all, p)
}

/// Every pair of variants, every interval, and the complements of both; nothing for small enums (all their subsets are
/// looked at anyway) and for those where it would be too much.
pub fn wide(e: &Info, full: usize, most: usize) -> Vec<M> {
    let n = e.n;
    let mut v = vec![];
    if n > full && n <= most {
        for i in 0..n {
            for j in i + 1..n {
                let pair = M::of(&[i, j]);
                let interval = M::all(j + 1).minus(M::all(i));
                v.extend([pair, pair.not(n), interval, interval.not(n)]);
            }
        }
    }
    dedupe(v)
}
