//! C01: the set operations, operators, assigning operators and predicates.
use enumset::*;
use mc::*;

const UN: [&str; 5] = ["a (members)", "a.complement()", "!a", "a.complement().complement()", "a.clone()"];
const EL: [&str; 8] = ["a | v", "a & v", "a - v", "a ^ v", "a |= v", "a &= v", "a -= v", "a ^= v"];
const BIN: [&str; 12] = ["a.union(b)", "a.intersection(b)", "a.difference(b)", "a.symmetrical_difference(b)", "a | b", "a & b", "a - b",
    "a ^ b", "a |= b", "a &= b", "a -= b", "a ^= b"];
const PRED: [&str; 5] = ["a.is_disjoint(b)", "a.is_subset(b)", "a.is_superset(b)", "a == b", "a != b"];
const CST: [&str; 6] = ["EnumSet::new()", "EnumSet::empty()", "EnumSet::default()", "EnumSet::all()", "EnumSet::EMPTY", "EnumSet::ALL"];

trait Api {
    fn cst(&self, op: usize) -> Seen;
    fn un(&self, op: usize, a: usize) -> Seen;
    fn is_empty(&self, a: usize) -> bool;
    fn el(&self, op: usize, a: usize, v: usize) -> Seen;
    fn bin(&self, op: usize, a: usize, b: usize) -> Seen;
    fn pred(&self, op: usize, a: usize, b: usize) -> bool;
}
impl<E: Cat> Api for Vec<EnumSet<E>> {
    #[allow(deprecated)]
    fn cst(&self, op: usize) -> Seen {
        see(match op {
            0 => EnumSet::<E>::new(),
            1 => EnumSet::empty(),
            2 => EnumSet::default(),
            3 => EnumSet::all(),
            4 => EnumSet::EMPTY,
            _ => EnumSet::ALL,
        })
    }
    fn un(&self, op: usize, a: usize) -> Seen {
        let a = &self[a];
        see(match op {
            0 => *a,
            1 => a.complement(),
            2 => !*a,
            3 => a.complement().complement(),
            _ => Clone::clone(a),
        })
    }
    fn is_empty(&self, a: usize) -> bool {
        self[a].is_empty()
    }
    fn el(&self, op: usize, a: usize, v: usize) -> Seen {
        let (mut a, v) = (self[a], E::VARS[v]);
        see(match op {
            0 => a | v,
            1 => a & v,
            2 => a - v,
            3 => a ^ v,
            _ => {
                match op {
                    4 => a |= v,
                    5 => a &= v,
                    6 => a -= v,
                    _ => a ^= v,
                }
                a
            }
        })
    }
    fn bin(&self, op: usize, a: usize, b: usize) -> Seen {
        let (mut a, b) = (self[a], self[b]);
        see(match op {
            0 => a.union(b),
            1 => a.intersection(b),
            2 => a.difference(b),
            3 => a.symmetrical_difference(b),
            4 => a | b,
            5 => a & b,
            6 => a - b,
            7 => a ^ b,
            _ => {
                match op {
                    8 => a |= b,
                    9 => a &= b,
                    10 => a -= b,
                    _ => a ^= b,
                }
                a
            }
        })
    }
    fn pred(&self, op: usize, a: usize, b: usize) -> bool {
        let (a, b) = (self[a], self[b]);
        match op {
            0 => a.is_disjoint(b),
            1 => a.is_subset(b),
            2 => a.is_superset(b),
            3 => a == b,
            _ => a != b,
        }
    }
}

fn drive(cx: &mut Cx, e: Info, sets: &[M], pairs: &[(u32, u32)], api: &dyn Api) {
    let nm = e.name;
    cx.states += sets.len() as u64;
    for op in 0..CST.len() {
        cx.ck(&|| format!("{nm}: {}", CST[op]), &mut || api.cst(op), [M::EMPTY, e.all()][(op == 3 || op == 5) as usize].into());
    }
    let (few, every) = (alphabet(&e, cx.pick(8, 16)), (0..e.n).collect::<Vec<_>>());
    for (k, &m) in sets.iter().enumerate() {
        cx.traces += 1;
        for op in 0..UN.len() {
            let want = if op == 1 || op == 2 { m.not(e.n) } else { m };
            cx.ck(&|| format!("{nm}: {} with a={}", UN[op], e.show(m)), &mut || api.un(op, k), want.into());
        }
        cx.ck(&|| format!("{nm}: {}.is_empty()", e.show(m)), &mut || api.is_empty(k), m.is_empty());
        // every variant against the smallest and the largest sets
        for &i in if e.n <= 130 && (m.len() <= 1 || e.n - m.len() <= 1) { &every } else { &few } {
            let one = M::of(&[i]);
            let want = [m.or(one), m.and(one), m.minus(one), m.xor(one)];
            for op in 0..EL.len() {
                cx.ck(&|| format!("{nm}: {} with a={} v={}", EL[op], e.show(m), e.vnames[i]), &mut || api.el(op, k, i), want[op % 4].into());
            }
        }
    }
    for &(a, b) in pairs {
        let (a, b) = (a as usize, b as usize);
        let (ma, mb) = (sets[a], sets[b]);
        cx.traces += 1;
        let want = [ma.or(mb), ma.and(mb), ma.minus(mb), ma.xor(mb)];
        cx.outcome(want[0].hash64() ^ want[1].hash64().rotate_left(9));
        for op in 0..BIN.len() {
            cx.ck(&|| format!("{nm}: {} with a={} b={}", BIN[op], e.show(ma), e.show(mb)), &mut || api.bin(op, a, b), want[op % 4].into());
        }
        let want = [ma.disjoint(mb), ma.subset(mb), mb.subset(ma), ma == mb, ma != mb];
        for op in 0..PRED.len() {
            cx.ck(&|| format!("{nm}: {} with a={} b={}", PRED[op], e.show(ma), e.show(mb)), &mut || api.pred(op, a, b), want[op]);
        }
    }
}

struct J;
impl Job for J {
    fn run<E: Cat>(&self, cx: &mut Cx) {
        let e = E::info();
        let full = cx.pick(9, 11);
        let (mut sets, mut pairs) = if e.heavy { pairs(&e, 4, 2) } else { pairs(&e, full, cx.pick(7, 9)) };
        // every two variants, every variant against every interval's end: as sets against each other
        let w = wide(&e, full, cx.pick(66, 130));
        let at = sets.len() as u32;
        for i in 0..w.len() as u32 {
            let l = w.len() as u32;
            for j in [i, (i + 1) % l, (i + 2) % l, (i + 4) % l, (i * 7 + 5) % l] {
                pairs.push((at + i, at + j));
                pairs.push((at + j, at + i));
            }
        }
        sets.extend(w);
        let real: Vec<EnumSet<E>> = sets.iter().map(|m| build::<E>(*m)).collect();
        drive(cx, e, &sets, &pairs, &real);
    }
}
fn main() {
    main_with(catalog::NAMES, |n, cx| catalog::dispatch(n, &J, cx));
}
