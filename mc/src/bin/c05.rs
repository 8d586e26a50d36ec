//! C05: one membership, one set. Whatever the route by which a set was obtained, it has exactly the bits of its members:
//! equal, of equal memory, of equal length by every way of counting, and inside `EnumSet::all()`.
use enumset::*;
use mc::*;
use std::hash::{Hash, Hasher};

const ROUTES: [&str; 34] = ["insert ascending", "insert descending", "all() minus the others by remove", "all() - others", "!others", "others.complement()",
    "union of singletons", "all() & self", "(all() ^ others)", "collect", "rev collect", "extend", "sum of elements", "from_slice", "from_slice_truncated with every invalid bit set",
    "from_slice_truncated, longer, with garbage", "try_from_slice", "from_u64 family of the low word, united with the rest", "from_u128_truncated with every bit of the low words invalid set, united",
    "from_usize_truncated likewise", "from_u32_truncated likewise", "from_u16_truncated likewise", "from_u8_truncated likewise", "from_slice_unchecked", "a ^= twice", "insert twice, remove twice, insert",
    "!!self", "difference of all() and complement", "from_array_truncated with garbage", "try_from_array", "clear then insert_all", "all() then &= self", "toggle all() twice", "remove_all(complement) of all()"];

const PAIRS: [&str; 16] = ["a | b", "a & b", "a ^ b", "a - b", "a.union(b)", "a.intersection(b)", "a.symmetrical_difference(b)", "a.difference(b)", "a |= b", "a &= b", "a ^= b", "a -= b",
    "a.insert_all(b)", "a.remove_all(b)", "!(a | b)", "a ^ !b"];

trait Api {
    /// `cur` becomes the result of an operation on two sets, whatever it is
    fn pair(&mut self, op: usize, a: M, b: M);
    /// its members, whether it has exactly their bits, by every way of asking
    fn bits(&self) -> Result<(), (Seen, Vec<u64>)>;
    fn make(&mut self, route: usize, m: M) -> bool;
    fn audit(&self) -> (Seen, bool, usize, usize, Vec<u64>, bool, bool);
    fn same(&self) -> (bool, bool, bool, bool);
    fn rebase(&mut self);
}
struct A<E: Cat> {
    cur: EnumSet<E>,
    base: EnumSet<E>,
}
fn bytes<E: Cat>(s: &EnumSet<E>) -> &[u8] {
    unsafe { std::slice::from_raw_parts(s as *const _ as *const u8, std::mem::size_of_val(s)) }
}
/// the words of `m` with every bit set that belongs to no variant
fn dirty(e: &Info, m: M, extra: usize) -> Vec<u64> {
    let valid = e.words_of(e.all());
    let mut w: Vec<u64> = e.words_of(m).iter().zip(&valid).map(|(a, v)| a | !v).collect();
    w.extend(std::iter::repeat(u64::MAX).take(extra));
    w
}
/// members whose discriminant is under `b`
fn low(e: &Info, m: M, b: u32) -> M {
    M::of(&m.ixs().into_iter().filter(|i| e.discr[*i] < b).collect::<Vec<_>>())
}
fn hash<E: Cat>(s: &EnumSet<E>) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}
fn lo128(w: &[u64]) -> u128 {
    w.first().copied().unwrap_or(0) as u128 | (w.get(1).copied().unwrap_or(u64::MAX) as u128) << 64
}
impl<E: Cat> Api for A<E> {
    fn pair(&mut self, op: usize, a: M, b: M) {
        let (mut x, y) = (build::<E>(a), build::<E>(b));
        self.cur = match op {
            0 => x | y,
            1 => x & y,
            2 => x ^ y,
            3 => x - y,
            4 => x.union(y),
            5 => x.intersection(y),
            6 => x.symmetrical_difference(y),
            7 => x.difference(y),
            8 => { x |= y; x }
            9 => { x &= y; x }
            10 => { x ^= y; x }
            11 => { x -= y; x }
            12 => { x.insert_all(y); x }
            13 => { x.remove_all(y); x }
            14 => !(x | y),
            _ => x ^ !y,
        };
    }
    fn bits(&self) -> Result<(), (Seen, Vec<u64>)> {
        let e = E::info();
        let s = self.cur;
        let mut m = M::EMPTY;
        for (i, v) in E::VARS.iter().enumerate() {
            if s.contains(*v) {
                m.put(i);
            }
        }
        let mut w = vec![0; e.words + 1];
        s.copy_into_slice(&mut w);
        let mut want = e.words_of(m);
        want.push(0);
        let made = build::<E>(m);
        if w == want && s == made && s.len() == m.len() && s.is_empty() == m.is_empty() && s.is_subset(EnumSet::all()) && bytes(&s) == bytes(&made) {
            Ok(())
        } else {
            Err((see(s), w))
        }
    }
    fn make(&mut self, route: usize, m: M) -> bool {
        let e = E::info();
        let els: Vec<E> = m.ixs().into_iter().map(|i| E::VARS[i]).collect();
        let oth: Vec<E> = m.not(e.n).ixs().into_iter().map(|i| E::VARS[i]).collect();
        let all = EnumSet::<E>::all();
        let ins = |v: &[E]| { let mut s = EnumSet::<E>::new(); for x in v { s.insert(*x); } s };
        let slf = ins(&els);
        let others = ins(&oth);
        let rest = |b: u32| build::<E>(m.minus(low(&e, m, b)));
        let d = dirty(&e, m, 2);
        let arr = |w: &[u64]| -> [u64; 6] { let mut a = [0; 6]; for (x, y) in a.iter_mut().zip(w) { *x = *y; } a };
        self.cur = match route {
            0 => slf,
            1 => { let mut s = EnumSet::new(); for x in els.iter().rev() { s.insert(*x); } s }
            2 => { let mut s = all; for x in &oth { s.remove(*x); } s }
            3 => all - others,
            4 => !others,
            5 => others.complement(),
            6 => els.iter().fold(EnumSet::new(), |a, x| a.union(EnumSet::only(*x))),
            7 => all & slf,
            8 => all ^ others,
            9 => els.iter().copied().collect(),
            10 => els.iter().rev().copied().collect(),
            11 => { let mut s = EnumSet::new(); s.extend(els); s }
            12 => els.iter().sum(),
            13 => EnumSet::from_slice(&e.words_of(m)),
            14 => EnumSet::from_slice_truncated(&dirty(&e, m, 0)),
            15 => EnumSet::from_slice_truncated(&d),
            16 => match EnumSet::try_from_slice(&e.words_of(m)) { Some(s) => s, None => return false },
            17 => { let w = e.words_of(m)[0]; EnumSet::from_u64(w) | rest(64) }
            18 => EnumSet::from_u128_truncated(lo128(&d)) | rest(128),
            19 => EnumSet::from_usize_truncated(d[0] as usize) | rest(usize::BITS),
            20 => EnumSet::from_u32_truncated(d[0] as u32) | rest(32),
            21 => EnumSet::from_u16_truncated(d[0] as u16) | rest(16),
            22 => EnumSet::from_u8_truncated(d[0] as u8) | rest(8),
            23 => unsafe { EnumSet::from_slice_unchecked(&e.words_of(m)) },
            24 => { let mut s = slf; s ^= others; s ^= others; s }
            25 => { let mut s = EnumSet::new(); for _ in 0..2 { for x in &els { s.insert(*x); } } for _ in 0..2 { for x in &els { s.remove(*x); } } for x in &els { s.insert(*x); } s }
            26 => !!slf,
            27 => all.difference(slf.complement()),
            28 => if e.words <= 6 { EnumSet::from_array_truncated(arr(&dirty(&e, m, 6))) } else { slf },
            29 => if e.words <= 6 { match EnumSet::try_from_array(arr(&e.words_of(m))) { Some(s) => s, None => return false } } else { slf },
            30 => { let mut s = others; s.clear(); s.insert_all(slf); s }
            31 => { let mut s = all; s &= slf; s }
            32 => { let mut s = slf; s ^= all; s ^= all; s }
            _ => { let mut s = all; s.remove_all(slf.complement()); s }
        };
        true
    }
    fn audit(&self) -> (Seen, bool, usize, usize, Vec<u64>, bool, bool) {
        let s = self.cur;
        let mut w = s.to_vec();
        while w.last() == Some(&0) {
            w.pop();
        }
        (see(s), s.is_empty(), s.iter().count(), s.iter().len(), w, s.is_subset(EnumSet::all()), s.is_disjoint(!s))
    }
    fn same(&self) -> (bool, bool, bool, bool) {
        (self.cur == self.base, bytes(&self.cur) == bytes(&self.base), self.cur.cmp(&self.base) == std::cmp::Ordering::Equal, hash(&self.cur) == hash(&self.base))
    }
    fn rebase(&mut self) {
        self.base = self.cur;
    }
}

struct J;
impl Job for J {
    fn run<E: Cat>(&self, cx: &mut Cx) {
        let e = E::info();
        let sets = if e.heavy { unary(&e, 5, 3) } else { unary(&e, cx.pick(8, 13), cx.pick(6, 10)) };
        let few = if e.heavy { unary(&e, 3, 2) } else { unary(&e, cx.pick(5, 7), cx.pick(3, 5)) };
        let mut api = A::<E> { cur: EnumSet::new(), base: EnumSet::new() };
        drive(cx, e, &sets, &mut api);
        pairs(cx, e, &few, &mut api);
    }
}
fn drive(cx: &mut Cx, e: Info, sets: &[M], api: &mut dyn Api) {
    let nm = e.name;
    for &m in sets {
        cx.states += 1;
        cx.outcome(m.hash64());
        let mut w = e.words_of(m);
        while w.last() == Some(&0) {
            w.pop();
        }
        for r in 0..ROUTES.len() {
            cx.traces += 1;
            let d = || format!("{nm}: {} obtained by '{}'", e.show(m), ROUTES[r]);
            cx.ck(&|| format!("{}: accepted", d()), &mut || api.make(r, m), true);
            cx.ck(&|| format!("{}: (members, is_empty, iter().count(), iter().len(), words, subset of all(), disjoint from complement)", d()),
                &mut || api.audit(), (m.into(), m.is_empty(), m.len(), m.len(), w.clone(), true, true));
            if r == 0 {
                api.rebase();
            } else {
                cx.ck(&|| format!("{} against '{}': (==, same memory, cmp Equal, same hash)", d(), ROUTES[0]), &mut || api.same(), (true, true, true, true));
            }
        }
    }
}
/// every binary operation on every pair: whatever it gives, it has exactly the bits of its members
fn pairs(cx: &mut Cx, e: Info, sets: &[M], api: &mut dyn Api) {
    for &a in sets {
        for &b in sets {
            for op in 0..PAIRS.len() {
                cx.ck(&|| format!("{}: a = {}, b = {}: {} has exactly the bits of its members", e.name, e.show(a), e.show(b), PAIRS[op]),
                    &mut || { api.pair(op, a, b); api.bits() }, Ok(()));
            }
        }
    }
}
fn main() {
    main_with(catalog::NAMES, |n, cx| catalog::dispatch(n, &J, cx));
}
