//! C08: writing a set out as words: arrays of every length up to two beyond the needed one, slices likewise inside a larger
//! guarded buffer filled with garbage, and vectors.
use enumset::*;
use mc::*;

const G: u64 = 0xdead_beef_0bad_f00d;
trait Api {
    fn arr(&self, op: usize, s: usize, o: usize) -> Option<Vec<u64>>;
    /// the whole guarded buffer afterwards, and what the call said
    fn slice(&self, op: usize, s: usize, len: usize, fill: u64) -> (Vec<u64>, bool);
    fn vec(&self, s: usize) -> Vec<u64>;
}
impl<E: Cat> Api for Vec<EnumSet<E>> {
    fn arr(&self, op: usize, s: usize, o: usize) -> Option<Vec<u64>> {
        let s = &self[s];
        macro_rules! go {
            ($($n:literal)*) => {
                match (op, o) {
                    $((0, $n) => Some(s.as_array::<$n>().to_vec()),
                      (1, $n) => s.try_as_array::<$n>().map(|a| a.to_vec()),
                      (2, $n) => Some(s.as_array_truncated::<$n>().to_vec()),)*
                    _ => unreachable!(),
                }
            };
        }
        go!(0 1 2 3 4 5 6 7 8 9 10 13 14 15 17 33 64)
    }
    fn slice(&self, op: usize, s: usize, len: usize, fill: u64) -> (Vec<u64>, bool) {
        let s = &self[s];
        let mut buf = vec![fill; len + 4];
        buf[..2].fill(G);
        buf[len + 2..].fill(G);
        let d = &mut buf[2..len + 2];
        let ok = match op {
            0 => std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.copy_into_slice(d))).is_ok(),
            1 => s.try_copy_into_slice(d).is_some(),
            _ => { s.copy_into_slice_truncated(d); true }
        };
        (buf, ok)
    }
    fn vec(&self, s: usize) -> Vec<u64> {
        self[s].to_vec()
    }
}
struct J;
impl Job for J {
    fn run<E: Cat>(&self, cx: &mut Cx) {
        let e = E::info();
        let mut sets = if e.heavy { unary(&e, 5, 5) } else { unary(&e, cx.pick(9, 12), cx.pick(8, 11)) };
        sets.extend(wide(&e, cx.pick(9, 12), cx.pick(66, 130)));
        let real: Vec<EnumSet<E>> = sets.iter().map(|m| build::<E>(*m)).collect();
        drive(cx, e, &sets, &real);
    }
}
fn drive(cx: &mut Cx, e: Info, sets: &[M], api: &dyn Api) {
    let nm = e.name;
    let lens: Vec<usize> = if e.heavy { vec![0, 1, 2, 63, 64, 65, e.words - 2, e.words - 1, e.words, e.words + 1, e.words + 2] } else { (0..=e.words + 2).collect() };
    let far: Vec<usize> = [3, 7, 8, 9, 16, 31, 64, 128].iter().map(|x| e.words + x).chain([256, 300, 1025]).filter(|l| *l > e.words + 2).collect();
    let mut veclen = None;
    for (k, &m) in sets.iter().enumerate() {
        cx.states += 1;
        let w = e.words_of(m);
        let top = w.iter().rposition(|x| *x != 0).map_or(0, |i| i + 1);
        let fit = |l: usize| { let mut v = w.clone(); v.resize(l, 0); v };
        for &l in lens.iter().chain(if k < 8 || m == e.all() || m.len() == 1 && k % 8 == 0 { &far[..] } else { &[] }) {
            cx.traces += 1;
            let ok = top <= l;
            cx.outcome(m.hash64() ^ l as u64);
            if l <= 10 || [13, 14, 15, 17, 33, 64].contains(&l) {
                cx.ck(&|| format!("{nm}: {}.try_as_array::<{l}>()", e.show(m)), &mut || api.arr(1, k, l), ok.then(|| fit(l)));
                cx.ck(&|| format!("{nm}: {}.as_array_truncated::<{l}>()", e.show(m)), &mut || api.arr(2, k, l), Some(fit(l)));
                cx.ck_panic(&|| format!("{nm}: {}.as_array::<{l}>()", e.show(m)), &mut || api.arr(0, k, l), ok.then(|| Some(fit(l))));
            }
            for fill in [u64::MAX, 0, G] {
                for (op, name) in ["copy_into_slice (unwound = false)", "try_copy_into_slice", "copy_into_slice_truncated"].iter().enumerate() {
                    let said = ok || op == 2;
                    // a refused copy leaves the buffer alone
                    let body = if said { fit(l) } else { vec![fill; l] };
                    let want = ([&[G, G][..], &body, &[G, G]].concat(), said);
                    cx.ck(&|| format!("{nm}: {}.{name} of a slice of {l} words filled with {fill:#x}, (two guard words + slice + two guard words, accepted)", e.show(m)),
                        &mut || api.slice(op, k, l, fill), want);
                }
            }
        }
        let mut got = 0;
        cx.ck(&|| format!("{nm}: {}.to_vec() without trailing zero words", e.show(m)), &mut || {
            let mut v = api.vec(k);
            got = v.len();
            v.truncate(v.iter().rposition(|x| *x != 0).map_or(0, |i| i + 1));
            v
        }, w[..top].to_vec());
        cx.ck(&|| format!("{nm}: {}.to_vec().len() is enough for every variant and the same for every set", e.show(m)),
            &mut || (e.n == 0 || got >= e.words, got == *veclen.get_or_insert(got)), (true, true));
    }
}
fn main() {
    main_with(catalog::NAMES, |n, cx| catalog::dispatch(n, &J, cx));
}
