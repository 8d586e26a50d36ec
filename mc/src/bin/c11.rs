//! C11: equality, order and hash are one story: `==` is same membership, `cmp` is a total order consistent with it (checked on all
//! pairs and triples of the family), for sets stored as an integer the numeric order; equal sets hash alike, however obtained.
use enumset::*;
use mc::*;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeSet, HashSet};
use std::hash::{Hash, Hasher};

trait Api {
    fn cmp(&self, a: usize, b: usize) -> Ordering;
    fn rel(&self, a: usize, b: usize) -> [bool; 7];
    fn derived(&self, a: usize, b: usize) -> (Seen, Seen, Option<Ordering>, Option<Ordering>);
    fn hash(&self, a: usize) -> (u64, u64, u64);
    fn rehash(&self, a: usize, how: usize) -> (u64, bool);
    fn elem(&self, a: usize, v: usize) -> (bool, bool);
    fn colls(&self) -> (usize, usize, bool, bool);
    fn clamp(&self, a: usize, lo: usize, hi: usize) -> Seen;
}
fn h<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut s = DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}
/// sees how the hash is fed, not only the outcome
struct Feed(u64);
impl Hasher for Feed {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for x in b { self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3) } self.0 = self.0.rotate_left(5) ^ b.len() as u64 }
}
impl<E: Cat> Api for Vec<EnumSet<E>> {
    fn cmp(&self, a: usize, b: usize) -> Ordering {
        Ord::cmp(&self[a], &self[b])
    }
    fn rel(&self, a: usize, b: usize) -> [bool; 7] {
        let (a, b) = (self[a], self[b]);
        [a == b, a != b, a < b, a <= b, a > b, a >= b, [a] == [b]]
    }
    fn derived(&self, a: usize, b: usize) -> (Seen, Seen, Option<Ordering>, Option<Ordering>) {
        let (a, b) = (self[a], self[b]);
        (see(a.max(b)), see(a.min(b)), a.partial_cmp(&b), Some(b).partial_cmp(&Some(a)).flatten2())
    }
    fn hash(&self, a: usize) -> (u64, u64, u64) {
        let mut f = Feed(7);
        self[a].hash(&mut f);
        (h(&self[a]), h(&[self[a], self[a]][..]), f.0)
    }
    fn rehash(&self, a: usize, how: usize) -> (u64, bool) {
        let s = self[a];
        let t = match how { 0 => !!s, 1 => s.iter().rev().collect(), 2 => EnumSet::from_slice(&s.to_vec()), _ => (EnumSet::all() - s).complement() };
        (h(&t), s == t)
    }
    fn elem(&self, a: usize, v: usize) -> (bool, bool) {
        (self[a] == E::VARS[v], self[a] != E::VARS[v])
    }
    fn colls(&self) -> (usize, usize, bool, bool) {
        let b: BTreeSet<EnumSet<E>> = self.iter().copied().collect();
        let hs: HashSet<EnumSet<E>> = self.iter().copied().collect();
        let mut v = self.clone();
        v.sort();
        (b.len(), hs.len(), self.iter().all(|s| b.contains(s) && hs.contains(s)), v.windows(2).all(|w| w[0] <= w[1]))
    }
    fn clamp(&self, a: usize, lo: usize, hi: usize) -> Seen {
        see(self[a].clamp(self[lo], self[hi]))
    }
}
trait F2 { fn flatten2(self) -> Self; }
impl F2 for Option<Ordering> { fn flatten2(self) -> Self { self } }

struct J;
impl Job for J {
    fn run<E: Cat>(&self, cx: &mut Cx) {
        let e = E::info();
        let sets = if e.heavy { unary(&e, 4, 3) } else { unary(&e, cx.pick(8, 10), cx.pick(6, 8)) };
        let mut w = wide(&e, cx.pick(8, 10), cx.pick(66, 130));
        w.extend(w.first().is_some().then_some([M::EMPTY, e.all()]).into_iter().flatten());
        sets_of(cx, e, &w, &w.iter().map(|m| build::<E>(*m)).collect::<Vec<_>>());
        let real: Vec<EnumSet<E>> = sets.iter().map(|m| build::<E>(*m)).collect();
        drive(cx, e, &sets, &real);
    }
}
/// every two variants and every interval, and what they leave, against a few of the same
fn sets_of(cx: &mut Cx, e: Info, sets: &[M], api: &dyn Api) {
    let (nm, l) = (e.name, sets.len());
    let num = |m: M| m.ixs().iter().filter(|i| e.discr[**i] < 128).fold(0u128, |a, i| a | 1 << e.discr[*i]);
    cx.states += l as u64;
    for a in 0..l {
        for b in [a, (a + 1) % l, (a + 2) % l, (a + 4) % l, (a * 7 + 5) % l, (a * 31 + 11) % l, l - 1, l - 2] {
            cx.traces += 1;
            let (ma, mb) = (sets[a], sets[b]);
            let d = |what: &str| format!("{nm}: {what} of a={} b={}", e.show(ma), e.show(mb));
            let o = api.cmp(a, b);
            if e.integer {
                cx.ck(&|| d("cmp"), &mut || api.cmp(a, b), num(ma).cmp(&num(mb)));
            }
            cx.ck(&|| d("cmp Equal exactly on equal sets, and the reverse of cmp(b, a)"), &mut || (o == Ordering::Equal, api.cmp(b, a)), (ma == mb, o.reverse()));
            cx.ck(&|| d("[==, !=, <, <=, >, >=, == in arrays]"), &mut || api.rel(a, b), [ma == mb, ma != mb, o.is_lt(), o.is_le(), o.is_gt(), o.is_ge(), ma == mb]);
        }
    }
}
fn drive(cx: &mut Cx, e: Info, sets: &[M], api: &dyn Api) {
    let nm = e.name;
    let l = sets.len();
    cx.states += l as u64;
    let num = |m: M| m.ixs().iter().filter(|i| e.discr[**i] < 128).fold(0u128, |a, i| a | 1 << e.discr[*i]);
    let mut table = vec![Ordering::Equal; l * l];
    for a in 0..l {
        for b in 0..l {
            table[a * l + b] = api.cmp(a, b);
        }
    }
    for a in 0..l {
        let ma = sets[a];
        let ha = api.hash(a);
        cx.outcome(ha.0);
        for how in 0..4 {
            cx.ck(&|| format!("{nm}: (hash, ==) of {} rebuilt in way {how}, against the first", e.show(ma)), &mut || api.rehash(a, how), (ha.0, true));
        }
        cx.ck(&|| format!("{nm}: hash of {} twice", e.show(ma)), &mut || api.hash(a), ha);
        for v in alphabet(&e, 12) {
            let w = ma == M::of(&[v]);
            cx.ck(&|| format!("{nm}: (==, !=) of {} and the variant {}", e.show(ma), e.vnames[v]), &mut || api.elem(a, v), (w, !w));
        }
        for b in 0..l {
            cx.traces += 1;
            let mb = sets[b];
            let o = table[a * l + b];
            let d = |what: &str| format!("{nm}: {what} of a={} b={}", e.show(ma), e.show(mb));
            cx.ck(&|| d("cmp"), &mut || api.cmp(a, b), if ma == mb { Ordering::Equal } else if e.integer { num(ma).cmp(&num(mb)) } else { o });
            cx.ck(&|| d("cmp Equal exactly on equal sets, and the reverse of cmp(b, a)"), &mut || (o == Ordering::Equal, table[b * l + a]), (ma == mb, o.reverse()));
            cx.ck(&|| d("[==, !=, <, <=, >, >=, == in arrays]"), &mut || api.rel(a, b), [ma == mb, ma != mb, o.is_lt(), o.is_le(), o.is_gt(), o.is_ge(), ma == mb]);
            let (mx, mn) = if o.is_le() { (mb, ma) } else { (ma, mb) };
            cx.ck(&|| d("(max, min, partial_cmp, reversed partial_cmp in Option)"), &mut || api.derived(a, b), (mx.into(), mn.into(), Some(o), Some(o.reverse())));
        }
    }
    // transitivity: the sets sorted by the comparisons form one chain
    let cap = cx.pick(96, 200).min(l);
    for a in 0..cap {
        for b in 0..cap {
            for c in 0..cap {
                cx.transitions += 1;
                if table[a * l + b].is_le() && table[b * l + c].is_le() && !table[a * l + c].is_le() {
                    cx.ck(&|| format!("{nm}: a <= b and b <= c but not a <= c: a={} b={} c={}", e.show(sets[a]), e.show(sets[b]), e.show(sets[c])), &mut || false, true);
                }
            }
        }
    }
    for a in 0..l.min(40) {
        for lo in 0..l.min(40) {
            for hi in 0..l.min(40) {
                if table[lo * l + hi].is_le() {
                    let w = if table[a * l + lo].is_lt() { lo } else if table[a * l + hi].is_gt() { hi } else { a };
                    cx.ck(&|| format!("{nm}: {}.clamp({}, {})", e.show(sets[a]), e.show(sets[lo]), e.show(sets[hi])), &mut || api.clamp(a, lo, hi), sets[w].into());
                }
            }
        }
    }
    cx.ck(&|| format!("{nm}: sizes of a BTreeSet and a HashSet of the {l} sets, all found in both, sort() sorts"), &mut || api.colls(), (l, l, true, true));
}
fn main() {
    main_with(catalog::NAMES, |n, cx| catalog::dispatch(n, &J, cx));
}
