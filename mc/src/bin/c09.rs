//! C09: making a set from words: arrays and slices of every length up to two beyond the needed one, every combination of a
//! few words per position (nothing, valid bits, one invalid bit, all ones, edges).
use enumset::*;
use mc::*;

trait Api {
    fn go(&self, op: usize, w: &[u64]) -> Option<Seen>;
}
struct A<E: Cat>(std::marker::PhantomData<E>);
pub const OPS: [&str; 8] = ["from_array", "try_from_array", "from_array_truncated", "from_array_unchecked", "from_slice", "try_from_slice", "from_slice_truncated", "from_slice_unchecked"];
impl<E: Cat> Api for A<E> {
    fn go(&self, op: usize, w: &[u64]) -> Option<Seen> {
        macro_rules! arr {
            ($($n:literal)*) => {
                match w.len() {
                    $($n => { let a: [u64; $n] = w.try_into().unwrap(); match op {
                        0 => Some(EnumSet::<E>::from_array(a)),
                        1 => EnumSet::try_from_array(a),
                        2 => Some(EnumSet::from_array_truncated(a)),
                        _ => Some(unsafe { EnumSet::from_array_unchecked(a) }),
                    } })*
                    _ => unreachable!(),
                }
            };
        }
        match op {
            4 => Some(EnumSet::<E>::from_slice(w)),
            5 => EnumSet::try_from_slice(w),
            6 => Some(EnumSet::from_slice_truncated(w)),
            7 => Some(unsafe { EnumSet::from_slice_unchecked(w) }),
            _ => arr!(0 1 2 3 4 5 6 7 8 9 10 12 17 33 64),
        }.map(see)
    }
}
struct J;
impl Job for J {
    fn run<E: Cat>(&self, cx: &mut Cx) {
        drive(cx, E::info(), &A::<E>(Default::default()));
    }
}
/// a few words to try at position `p`: valid and invalid ones
fn letters(e: &Info, p: usize, rich: bool) -> Vec<u64> {
    let valid = e.words_of(e.all()).get(p).copied().unwrap_or(0);
    let lo = valid & valid.wrapping_neg();
    let hi = if valid == 0 { 0 } else { 1u64 << (63 - valid.leading_zeros()) };
    let inv = !valid;
    let ilo = inv & inv.wrapping_neg();
    let ihi = if inv == 0 { 0 } else { 1u64 << (63 - inv.leading_zeros()) };
    let mut v = vec![0, valid, ilo, hi, u64::MAX, ihi];
    if rich {
        v.extend([lo, valid | ihi, inv, lo | hi, 1, 1 << 63, 1 << 31, 1 << 32, valid & 0x5555_5555_5555_5555, 0x8000_0000_0000_0001, hi | ilo, valid ^ lo]);
        for b in [7, 8, 15, 16] {
            v.push(1 << b);
        }
    }
    let mut out = vec![];
    for x in v {
        if !out.contains(&x) {
            out.push(x);
        }
    }
    out
}
fn drive(cx: &mut Cx, e: Info, api: &dyn Api) {
    let lens: Vec<usize> = if e.heavy { vec![0, 1, 2, e.words - 1, e.words, e.words + 1] } else { (0..=e.words + 2).collect() };
    let at: std::collections::HashMap<u32, usize> = e.discr.iter().enumerate().map(|(i, d)| (*d, i)).collect();
    // much longer than the storage: something in one of the words beyond it, or nothing
    let mut longs: Vec<usize> = [3, 4, 7, 8, 9, 15, 16, 17, 33, 64, 128].iter().map(|x| e.words + x).collect();
    longs.extend([256, 300, 1024, 1025].iter().filter(|l| **l > e.words + 3));
    for l in longs {
        for bg in [0, 1] {
            let mut w: Vec<u64> = e.words_of(if bg == 0 { M::EMPTY } else { e.all() });
            w.resize(l, 0);
            case(cx, &e, api, &w, &at);
            let ps: Vec<usize> = if e.heavy { vec![e.words, l - 1] } else if l < 200 { (0..l).collect() } else { (0..e.words).chain([e.words, 255, 256, l / 2, l - 2, l - 1]).collect() };
            for p in ps {
                if p >= l { continue }
                for x in [1u64, 1 << 31, 1 << 32, 1 << 63, u64::MAX] {
                    let old = std::mem::replace(&mut w[p], x);
                    case(cx, &e, api, &w, &at);
                    w[p] = old;
                }
            }
        }
    }
    for &l in &lens {
        // one position rich at a time over uniform backgrounds
        for bg in [0, 1] {
            let ps: Vec<usize> = if l > 12 { vec![0, 1, 63, 64, 1023, l - 2, l - 1] } else { (0..l).collect() };
            for &p in &ps {
                if p >= l { continue }
                for x in letters(&e, p, true).into_iter().chain((0..64).map(|b| 1u64 << b)) {
                    let mut w: Vec<u64> = e.words_of(if bg == 0 { M::EMPTY } else { e.all() });
                    w.resize(l, 0);
                    w[p] = x;
                    case(cx, &e, api, &w, &at);
                }
            }
        }
        if l > 12 { continue }
        // every combination of the plain letters, as many of them as the length allows
        let k = match l { 0..=3 => 6, 4 => cx.pick(5, 6), 5 => cx.pick(4, 5), 6 => cx.pick(3, 4), 7 | 8 => 3, _ => cx.pick(2, 3) };
        let ls: Vec<Vec<u64>> = (0..l).map(|p| letters(&e, p, false).into_iter().take(k).collect()).collect();
        let mut ix = vec![0; l];
        'all: loop {
            let w: Vec<u64> = (0..l).map(|p| ls[p][ix[p]]).collect();
            case(cx, &e, api, &w, &at);
            let mut p = 0;
            loop {
                if p == l { break 'all }
                ix[p] += 1;
                if ix[p] < ls[p].len() { break }
                ix[p] = 0;
                p += 1;
            }
        }
    }
}
fn case(cx: &mut Cx, e: &Info, api: &dyn Api, w: &[u64], at: &std::collections::HashMap<u32, usize>) {
    let nm = e.name;
    cx.states += 1;
    cx.traces += 1;
    let (mut m, mut ok) = (M::EMPTY, true);
    for (p, x) in w.iter().enumerate() {
        let mut x = *x;
        while x != 0 {
            match at.get(&(p as u32 * 64 + x.trailing_zeros())) {
                Some(i) => m.put(*i),
                None => ok = false,
            }
            x &= x - 1;
        }
    }
    cx.outcome(m.hash64() ^ ok as u64 ^ (w.len() as u64) << 1);
    let s: Option<Seen> = ok.then_some(m.into());
    for op in 0..8 {
        if op < 4 && w.len() > 10 && ![12, 17, 33, 64].contains(&w.len()) { continue }
        let d = || if w.len() > 12 { format!("{nm}: {} of {} words, non-zero ones {:x?}", OPS[op], w.len(), w.iter().enumerate().filter(|x| *x.1 != 0).collect::<Vec<_>>()) }
            else { format!("{nm}: {}({:#x?})", OPS[op], w).replace('\n', "") };
        match op % 4 {
            0 => cx.ck_panic(&d, &mut || api.go(op, w), ok.then_some(s)),
            1 => cx.ck(&d, &mut || api.go(op, w), s),
            2 => cx.ck(&d, &mut || api.go(op, w), Some(m.into())),
            _ => if ok { cx.ck(&d, &mut || api.go(op, w), s) },
        }
    }
}
fn main() {
    main_with(catalog::NAMES, |n, cx| catalog::dispatch(n, &J, cx));
}
