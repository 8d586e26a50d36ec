//! C07: making a set from an integer: `from_uN` (panics exactly on an unknown bit), `try_from_uN`, `from_uN_truncated`,
//! `from_uN_unchecked` (on valid input only). All values of u8 and u16; for wider types all subsets of the interesting
//! bits, over several backgrounds, and every single bit and pair of bits.
use enumset::*;
use mc::*;
use std::collections::BTreeSet;

const TY: [(&str, u32); 6] = [("u8", 8), ("u16", 16), ("u32", 32), ("u64", 64), ("u128", 128), ("usize", usize::BITS)];

trait Api {
    fn from(&self, v: u128, t: usize) -> Seen;
    fn try_from(&self, v: u128, t: usize) -> Option<Seen>;
    fn trunc(&self, v: u128, t: usize) -> Seen;
    fn unchecked(&self, v: u128, t: usize) -> Seen;
    fn raw(&self, v: u128, t: usize) -> (u128, u128);
}
struct A<E: Cat>(std::marker::PhantomData<E>);
impl<E: Cat> A<E> {
    fn try_(v: u128, t: usize) -> Option<EnumSet<E>> {
        match t {
            0 => EnumSet::try_from_u8(v as u8), 1 => EnumSet::try_from_u16(v as u16), 2 => EnumSet::try_from_u32(v as u32),
            3 => EnumSet::try_from_u64(v as u64), 4 => EnumSet::try_from_u128(v), _ => EnumSet::try_from_usize(v as usize),
        }
    }
    fn tr(v: u128, t: usize) -> EnumSet<E> {
        match t {
            0 => EnumSet::from_u8_truncated(v as u8), 1 => EnumSet::from_u16_truncated(v as u16), 2 => EnumSet::from_u32_truncated(v as u32),
            3 => EnumSet::from_u64_truncated(v as u64), 4 => EnumSet::from_u128_truncated(v), _ => EnumSet::from_usize_truncated(v as usize),
        }
    }
}
impl<E: Cat> Api for A<E> {
    fn from(&self, v: u128, t: usize) -> Seen {
        see(match t {
            0 => EnumSet::<E>::from_u8(v as u8), 1 => EnumSet::from_u16(v as u16), 2 => EnumSet::from_u32(v as u32),
            3 => EnumSet::from_u64(v as u64), 4 => EnumSet::from_u128(v), _ => EnumSet::from_usize(v as usize),
        })
    }
    fn try_from(&self, v: u128, t: usize) -> Option<Seen> {
        Self::try_(v, t).map(see)
    }
    fn trunc(&self, v: u128, t: usize) -> Seen {
        see(Self::tr(v, t))
    }
    fn unchecked(&self, v: u128, t: usize) -> Seen {
        see(unsafe {
            match t {
                0 => EnumSet::<E>::from_u8_unchecked(v as u8), 1 => EnumSet::from_u16_unchecked(v as u16), 2 => EnumSet::from_u32_unchecked(v as u32),
                3 => EnumSet::from_u64_unchecked(v as u64), 4 => EnumSet::from_u128_unchecked(v), _ => EnumSet::from_usize_unchecked(v as usize),
            }
        })
    }
    /// for the full sweeps: the low 128 bits of try_from (all ones if refused) and of the truncation
    fn raw(&self, v: u128, t: usize) -> (u128, u128) {
        (Self::try_(v, t).map_or(u128::MAX, |s| s.as_u128_truncated()), Self::tr(v, t).as_u128_truncated())
    }
}
struct J;
impl Job for J {
    fn run<E: Cat>(&self, cx: &mut Cx) {
        drive(cx, E::info(), &A::<E>(Default::default()));
    }
}

fn values(e: &Info, bits: u32, k: usize, pairs: bool) -> Vec<u128> {
    let mask = if bits == 128 { u128::MAX } else { (1 << bits) - 1 };
    // interesting bits: discriminants at storage edges, their neighbours, and the edges themselves
    let mut at: Vec<u32> = vec![];
    let push = |b: u32, at: &mut Vec<u32>| if b < bits && !at.contains(&b) { at.push(b) };
    for i in alphabet(e, k / 3 + 1) {
        push(e.discr[i], &mut at);
    }
    for b in [0, bits - 1, 7, 8, 15, 16, 31, 32, 63, 64] {
        push(b, &mut at);
    }
    for i in alphabet(e, k) {
        push(e.discr[i] + 1, &mut at);
        push(e.discr[i].saturating_sub(1), &mut at);
    }
    at.truncate(k);
    let mut valid = 0u128;
    for d in e.discr {
        if *d < bits { valid |= 1 << d }
    }
    let am = at.iter().fold(0u128, |a, b| a | 1 << b);
    let mut out = BTreeSet::new();
    for s in 0u32..1 << at.len() {
        let v = (0..at.len()).filter(|j| s >> j & 1 == 1).fold(0u128, |a, j| a | 1 << at[j]);
        for bg in [0, valid & !am, mask & !am, 0x5555_5555_5555_5555_5555_5555_5555_5555 & mask & !am] {
            out.insert(v | bg);
        }
    }
    for a in 0..bits {
        let x = 1u128 << a;
        out.extend([x, mask ^ x, valid ^ x, x - 1, valid & (x - 1), valid & !(x - 1)]);
        if pairs {
            for b in 0..a {
                out.extend([x | 1 << b, valid ^ x ^ 1 << b]);
            }
        }
    }
    out.into_iter().collect()
}

fn drive(cx: &mut Cx, e: Info, api: &dyn Api) {
    let nm = e.name;
    for (t, (ty, bits)) in TY.iter().enumerate() {
        let mut at = [usize::MAX; 128];
        for (i, d) in e.discr.iter().enumerate() {
            if *d < 128 { at[*d as usize] = i }
        }
        let vals: Vec<u128> = if *bits <= 16 { (0..1u128 << bits).collect() } else { values(&e, *bits, if e.heavy { 6 } else { cx.pick(10, 13) }, cx.thorough()) };
        for v in vals {
            cx.states += 1;
            cx.traces += 1;
            let mut m = M::EMPTY;
            let mut ok = true;
            let mut x = v;
            while x != 0 {
                let b = x.trailing_zeros() as usize;
                x &= x - 1;
                if at[b] == usize::MAX { ok = false } else { m.put(at[b]) }
            }
            cx.outcome(m.hash64() ^ ok as u64);
            let want: Option<Seen> = ok.then_some(m.into());
            cx.ck(&|| format!("{nm}: EnumSet::try_from_{ty}({v:#x})"), &mut || api.try_from(v, t), want);
            cx.ck(&|| format!("{nm}: EnumSet::from_{ty}_truncated({v:#x})"), &mut || api.trunc(v, t), m.into());
            // a panic is slow: not for every one of the 65536
            if ok || *bits != 16 || v.count_ones() <= 2 || v % 61 == 0 {
                cx.ck_panic(&|| format!("{nm}: EnumSet::from_{ty}({v:#x})"), &mut || api.from(v, t), want);
            }
            if ok {
                cx.ck(&|| format!("{nm}: EnumSet::from_{ty}_unchecked({v:#x})"), &mut || api.unchecked(v, t), m.into());
            }
        }
    }
    // thorough: every u32 there is, for a few enums of each storage
    if cx.thorough() && ["D8", "D17", "D32", "S0_1_31", "S0_31_32_63", "Alt128", "R128x1", "A4"].contains(&nm) {
        let valid = e.discr.iter().filter(|d| **d < 32).fold(0u128, |a, d| a | 1 << d);
        for v in 0..=u32::MAX {
            let v = v as u128;
            let g = api.raw(v, 2);
            if g != (if v & !valid == 0 { v } else { u128::MAX }, v & valid) {
                cx.ck(&|| format!("{nm}: (try_from_u32, from_u32_truncated) of {v:#x}, as_u128"), &mut || api.raw(v, 2),
                    (if v & !valid == 0 { v } else { u128::MAX }, v & valid));
            }
        }
        cx.states += 1 << 32;
        cx.transitions += 2 << 32;
        cx.note(format!("{nm}: all 2^32 values of u32"));
    }
}
fn main() {
    main_with(catalog::NAMES, |n, cx| catalog::dispatch(n, &J, cx));
}
