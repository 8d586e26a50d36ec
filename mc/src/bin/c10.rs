//! C10: `#[enumset(repr = "uN")]`: the set is that integer in memory, and the `repr` conversions are exact.
use enumset::*;
use mc::*;

trait Api {
    fn layout(&self) -> (usize, usize, usize, usize, usize);
    fn go(&self, op: usize, v: u128) -> Option<Seen>;
    fn out(&self, op: usize, s: usize) -> u128;
}
const OUT: [&str; 4] = ["as_repr()", "transmute to the integer", "through a pointer to the integer", "as_repr() through a reference to an array of sets"];
const IN: [&str; 6] = ["from_repr", "try_from_repr", "from_repr_truncated", "from_repr_unchecked", "transmute of a valid integer", "write through a pointer of a valid integer"];
struct J;
impl JobRepr for J {
    fn run<E: CatRepr>(&self, cx: &mut Cx) {
        let e = E::info();
        let mut sets = unary(&e, cx.pick(11, 14), cx.pick(10, 13));
        sets.extend(wide(&e, cx.pick(11, 14), 130));
        let real: Vec<EnumSet<E>> = sets.iter().map(|m| build::<E>(*m)).collect();
        drive(cx, e, &sets, &W(real));
    }
}
struct W<E: CatRepr>(Vec<EnumSet<E>>);
impl<E: CatRepr> Api for W<E> {
    fn layout(&self) -> (usize, usize, usize, usize, usize) {
        use std::mem::*;
        (size_of::<EnumSet<E>>(), align_of::<EnumSet<E>>(), size_of::<<E as CatRepr>::R>(), align_of::<<E as CatRepr>::R>(), size_of::<[EnumSet<E>; 3]>())
    }
    fn go(&self, op: usize, v: u128) -> Option<Seen> {
        let r: <E as CatRepr>::R = down(v);
        match op {
            0 => Some(EnumSet::<E>::from_repr(r)),
            1 => EnumSet::try_from_repr(r),
            2 => Some(EnumSet::from_repr_truncated(r)),
            3 => Some(unsafe { EnumSet::from_repr_unchecked(r) }),
            4 => Some(unsafe { std::mem::transmute_copy::<<E as CatRepr>::R, EnumSet<E>>(&r) }),
            _ => { let mut s = EnumSet::<E>::new(); unsafe { *(&mut s as *mut EnumSet<E> as *mut <E as CatRepr>::R) = r } Some(s) }
        }.map(see)
    }
    fn out(&self, op: usize, s: usize) -> u128 {
        let s = &self.0[s];
        let r: <E as CatRepr>::R = match op {
            0 => s.as_repr(),
            1 => unsafe { std::mem::transmute_copy::<EnumSet<E>, <E as CatRepr>::R>(s) },
            2 => unsafe { *(s as *const EnumSet<E> as *const <E as CatRepr>::R) },
            _ => EnumSet::<E>::as_repr(&[EnumSet::all(), *s, EnumSet::new()][1]),
        };
        up(r)
    }
}
fn down<R: Copy>(v: u128) -> R {
    assert!(std::mem::size_of::<R>() <= 16);
    // little-endian: the low bytes come first
    unsafe { std::mem::transmute_copy::<u128, R>(&v) }
}
fn up<R: Copy>(r: R) -> u128 {
    let mut v = 0u128;
    unsafe { std::ptr::copy_nonoverlapping(&r as *const R as *const u8, &mut v as *mut u128 as *mut u8, std::mem::size_of::<R>()) }
    v
}
fn drive(cx: &mut Cx, e: Info, sets: &[M], api: &dyn Api) {
    let nm = e.name;
    let bits = e.size as u32 * 8;
    let al = match bits { 8 => 1, 16 => 2, 32 => 4, 64 => 8, _ => std::mem::align_of::<u128>() };
    cx.ck(&|| format!("{nm}: size and alignment of the set, of the declared integer, size of [set; 3]; {}", e.decl), &mut || api.layout(), (e.size, al, e.size, al, 3 * e.size));
    for (k, &m) in sets.iter().enumerate() {
        cx.states += 1;
        let v = m.ixs().iter().fold(0u128, |a, i| a | 1 << e.discr[*i]);
        cx.outcome(m.hash64());
        for op in 0..OUT.len() {
            cx.traces += 1;
            cx.ck(&|| format!("{nm}: {} of {}", OUT[op], e.show(m)), &mut || api.out(op, k), v);
        }
    }
    let mask = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
    let valid = e.discr.iter().fold(0u128, |a, d| a | 1 << d);
    let mut vals: Vec<u128> = vec![];
    if bits <= 16 {
        vals.extend(0..=mask);
    } else {
        let mut at: Vec<u32> = alphabet(&e, 4).into_iter().map(|i| e.discr[i]).collect();
        for b in [0, bits - 1, bits / 2, bits / 2 - 1, 7, 8, 31, 32].into_iter().chain(e.discr.iter().map(|d| d + 1)) {
            if b < bits && !at.contains(&b) { at.push(b) }
        }
        at.truncate(cx.pick(11, 15));
        let am = at.iter().fold(0u128, |a, b| a | 1 << b);
        for s in 0u32..1 << at.len() {
            let v = (0..at.len()).filter(|j| s >> j & 1 == 1).fold(0u128, |a, j| a | 1 << at[j]);
            vals.extend([v, v | valid & !am, v | mask & !am]);
        }
        for a in 0..bits {
            let x = 1u128 << a;
            vals.extend([x, valid ^ x, mask ^ x]);
            for b in 0..a { vals.push(x | 1 << b) }
        }
        vals.sort();
        vals.dedup();
    }
    for v in vals {
        cx.states += 1;
        cx.traces += 1;
        let ok = v & !valid == 0;
        let m = M::of(&(0..e.n).filter(|i| v >> e.discr[*i] & 1 == 1).collect::<Vec<_>>());
        cx.outcome(m.hash64() ^ 77 ^ ok as u64);
        for op in 0..IN.len() {
            let d = || format!("{nm}: {}({v:#x})", IN[op]);
            match op {
                0 => cx.ck_panic(&d, &mut || api.go(op, v), ok.then(|| Some(m.into()))),
                1 => cx.ck(&d, &mut || api.go(op, v), ok.then(|| m.into())),
                2 => cx.ck(&d, &mut || api.go(op, v), Some(m.into())),
                _ => if ok { cx.ck(&d, &mut || api.go(op, v), Some(m.into())) },
            }
        }
    }
}
fn main() {
    main_with(catalog::NAMES_REPR, |n, cx| catalog::dispatch_repr(n, &J, cx));
}
