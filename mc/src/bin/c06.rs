//! C06: reading a set out as an integer: `as_uN` (panics exactly when a member does not fit), `try_as_uN`, `as_uN_truncated`.
use enumset::*;
use mc::*;

pub const TY: [(&str, u32); 6] = [("u8", 8), ("u16", 16), ("u32", 32), ("u64", 64), ("u128", 128), ("usize", usize::BITS)];

trait Api {
    fn as_(&self, s: usize, t: usize) -> u128;
    fn try_as(&self, s: usize, t: usize) -> Option<u128>;
    fn trunc(&self, s: usize, t: usize) -> u128;
}
impl<E: Cat> Api for Vec<EnumSet<E>> {
    fn as_(&self, s: usize, t: usize) -> u128 {
        let s = &self[s];
        match t { 0 => s.as_u8() as u128, 1 => s.as_u16() as u128, 2 => s.as_u32() as u128, 3 => s.as_u64() as u128, 4 => s.as_u128(), _ => s.as_usize() as u128 }
    }
    fn try_as(&self, s: usize, t: usize) -> Option<u128> {
        let s = &self[s];
        match t {
            0 => s.try_as_u8().map(|x| x as u128), 1 => s.try_as_u16().map(|x| x as u128), 2 => s.try_as_u32().map(|x| x as u128),
            3 => s.try_as_u64().map(|x| x as u128), 4 => s.try_as_u128(), _ => s.try_as_usize().map(|x| x as u128),
        }
    }
    fn trunc(&self, s: usize, t: usize) -> u128 {
        let s = &self[s];
        match t {
            0 => s.as_u8_truncated() as u128, 1 => s.as_u16_truncated() as u128, 2 => s.as_u32_truncated() as u128,
            3 => s.as_u64_truncated() as u128, 4 => s.as_u128_truncated(), _ => s.as_usize_truncated() as u128,
        }
    }
}
struct J;
impl Job for J {
    fn run<E: Cat>(&self, cx: &mut Cx) {
        let e = E::info();
        let mut sets = if e.heavy { unary(&e, 5, 5) } else { unary(&e, cx.pick(12, 16), cx.pick(10, 14)) };
        sets.extend(wide(&e, cx.pick(12, 16), cx.pick(66, 130)));
        let real: Vec<EnumSet<E>> = sets.iter().map(|m| build::<E>(*m)).collect();
        drive(cx, e, &sets, &real);
    }
}
fn drive(cx: &mut Cx, e: Info, sets: &[M], api: &dyn Api) {
    let nm = e.name;
    for (k, &m) in sets.iter().enumerate() {
        cx.states += 1;
        for (t, (ty, bits)) in TY.iter().enumerate() {
            cx.traces += 1;
            let mut low = 0u128;
            let mut fits = true;
            for i in m.ixs() {
                if e.discr[i] < *bits { low |= 1 << e.discr[i] } else { fits = false }
            }
            let want = fits.then_some(low);
            cx.outcome(m.hash64() ^ low as u64 ^ *bits as u64);
            cx.ck(&|| format!("{nm}: {}.try_as_{ty}()", e.show(m)), &mut || api.try_as(k, t), want);
            cx.ck(&|| format!("{nm}: {}.as_{ty}_truncated()", e.show(m)), &mut || api.trunc(k, t), low);
            cx.ck_panic(&|| format!("{nm}: {}.as_{ty}()", e.show(m)), &mut || api.as_(k, t), want);
        }
    }
}
fn main() {
    main_with(catalog::NAMES, |n, cx| catalog::dispatch(n, &J, cx));
}
