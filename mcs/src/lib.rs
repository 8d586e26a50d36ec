//! The serde checks: the catalogue of enums (shape x format x policy x storage), and a type-erased way to use them.
#![allow(clippy::all)]
pub mod catalog;
pub mod mock;
pub use mc::*;
pub use mock::*;

use enumset::*;
use std::fmt::Debug;
use std::marker::PhantomData;

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum Fmt {
    /// one integer of this many bits
    Int(u32),
    List,
    Map,
    Array,
}
pub trait SCat: EnumSetType + Debug + 'static {
    const NAME: &'static str;
    const DECL: &'static str;
    const DISCR: &'static [u32];
    const VARS: &'static [Self];
    const VNAMES: &'static [&'static str];
    const WORDS: usize;
    const FMT: Fmt;
    const DENY: bool;
    /// list and map: elements are not unit variants but `u32`s, the discriminants (a hand-written impl)
    const NUM: bool;
}
/// An enum and its set, type-erased.
pub struct S {
    pub info: Info,
    pub fmt: Fmt,
    pub deny: bool,
    pub num: bool,
    pub api: Box<dyn Api>,
}
/// What a deserialized set is observed to be: members, length, words, equality with a set built by inserting.
#[derive(Clone, PartialEq, Debug)]
pub struct Got {
    pub m: M,
    pub len: usize,
    pub words: Vec<u64>,
    pub same: bool,
}
pub trait Api {
    fn ser(&self, m: M, st: &State) -> Result<(), Er>;
    fn de(&self, v: &V, st: &State) -> Result<Got, Er>;
    fn json(&self, m: M) -> Result<String, String>;
    fn unjson(&self, s: &str) -> Result<Got, String>;
    fn bin(&self, m: M) -> Result<Vec<u8>, String>;
    fn unbin(&self, b: &[u8]) -> Result<Got, String>;
    /// between two sentinels
    fn bin_tuple(&self, m: M) -> Result<(Vec<u8>, u32, Got, u64), String>;
}
struct A<E>(PhantomData<E>);
fn set<E: SCat>(m: M) -> EnumSet<E> {
    let mut s = EnumSet::new();
    for (i, v) in E::VARS.iter().enumerate() {
        if m.has(i) {
            s.insert(*v);
        }
    }
    s
}
fn got<E: SCat>(s: EnumSet<E>) -> Got {
    let mut m = M::EMPTY;
    for (i, v) in E::VARS.iter().enumerate() {
        if s.contains(*v) {
            m.put(i);
        }
    }
    let mut words = vec![0u64; E::WORDS + 1];
    s.copy_into_slice(&mut words);
    Got { m, len: s.len(), words, same: s == set(m) }
}
impl<E: SCat> Api for A<E> {
    fn ser(&self, m: M, st: &State) -> Result<(), Er> {
        serde::Serialize::serialize(&set::<E>(m), Ser(st))
    }
    fn de(&self, v: &V, st: &State) -> Result<Got, Er> {
        if !mock::HUMAN.load(std::sync::atomic::Ordering::Relaxed) {
            let mut s = EnumSet::<E>::all();
            return <EnumSet<E> as serde::Deserialize>::deserialize_in_place(De(v, st), &mut s).map(|()| got(s));
        }
        <EnumSet<E> as serde::Deserialize>::deserialize(De(v, st)).map(got)
    }
    fn json(&self, m: M) -> Result<String, String> {
        serde_json::to_string(&set::<E>(m)).map_err(|e| e.to_string())
    }
    fn unjson(&self, s: &str) -> Result<Got, String> {
        serde_json::from_str::<EnumSet<E>>(s).map(got).map_err(|e| e.to_string())
    }
    fn bin(&self, m: M) -> Result<Vec<u8>, String> {
        bincode::serialize(&set::<E>(m)).map_err(|e| e.to_string())
    }
    fn unbin(&self, b: &[u8]) -> Result<Got, String> {
        bincode::deserialize::<EnumSet<E>>(b).map(got).map_err(|e| e.to_string())
    }
    fn bin_tuple(&self, m: M) -> Result<(Vec<u8>, u32, Got, u64), String> {
        let b = bincode::serialize(&(0xdead_beefu32, set::<E>(m), 0x0123_4567_89ab_cdefu64)).map_err(|e| e.to_string())?;
        let (x, s, y) = bincode::deserialize::<(u32, EnumSet<E>, u64)>(&b).map_err(|e| e.to_string())?;
        Ok((b, x, got(s), y))
    }
}
#[inline(never)]
pub fn erase<E: SCat>() -> S {
    S {
        info: Info {
            name: E::NAME,
            decl: E::DECL,
            discr: E::DISCR,
            vnames: E::VNAMES,
            words: E::WORDS,
            size: 0,
            integer: false,
            heavy: false,
            n: E::VARS.len(),
        },
        fmt: E::FMT,
        deny: E::DENY,
        num: E::NUM,
        api: Box::new(A::<E>(PhantomData)),
    }
}
impl S {
    pub fn want(&self, m: M) -> Got {
        let mut words = self.info.words_of(m);
        words.push(0);
        Got { m, len: m.len(), words, same: true }
    }
    /// the set with the bits of `words` that belong to variants, and whether there were others
    pub fn masked(&self, words: &[u64]) -> (M, bool) {
        let (mut m, mut rest) = (M::EMPTY, words.to_vec());
        for (i, d) in self.info.discr.iter().enumerate() {
            let (w, b) = (*d as usize / 64, d % 64);
            if w < rest.len() && rest[w] >> b & 1 == 1 {
                m.put(i);
                rest[w] &= !(1 << b);
            }
        }
        (m, rest.iter().any(|w| *w != 0))
    }
    pub fn value(&self, m: M) -> u128 {
        let w = self.info.words_of(m);
        w[0] as u128 | (w.get(1).copied().unwrap_or(0) as u128) << 64
    }
    /// the token of element `i` in lists and maps
    pub fn elem(&self, i: usize) -> Tok {
        if self.num {
            Tok::U32(self.info.discr[i])
        } else {
            Tok::Variant(self.info.vnames[i])
        }
    }
    pub fn de(&self, v: &V) -> Result<Got, Er> {
        let st = State::default();
        let r = self.api.de(v, &st);
        match st.wrong.into_inner() {
            Some(w) => Err(Er::Msg(format!("protocol: {w}"))),
            None => r,
        }
    }
    pub fn de_strict(&self, v: &V) -> Result<Got, Er> {
        let st = State { strict: true, ..State::default() };
        self.api.de(v, &st)
    }
    /// everything a serializer is told about set `m`
    pub fn log(&self, m: M) -> Result<Vec<Tok>, String> {
        let st = State::default();
        self.api.ser(m, &st).map_err(|e| e.to_string())?;
        match st.wrong.into_inner() {
            Some(w) => Err(format!("protocol: {w}")),
            None => Ok(st.log.into_inner()),
        }
    }
}
/// the unsigned integer token of width `w`
pub fn utok(w: u32, x: u128) -> Option<Tok> {
    if w < 128 && x >> w != 0 {
        return None;
    }
    Some(match w {
        8 => Tok::U8(x as u8),
        16 => Tok::U16(x as u16),
        32 => Tok::U32(x as u32),
        64 => Tok::U64(x as u64),
        _ => Tok::U128(x),
    })
}
pub fn itok(w: u32, x: i128) -> Option<Tok> {
    Some(match w {
        8 => Tok::I8(x.try_into().ok()?),
        16 => Tok::I16(x.try_into().ok()?),
        32 => Tok::I32(x.try_into().ok()?),
        64 => Tok::I64(x.try_into().ok()?),
        _ => Tok::I128(x),
    })
}
/// What serde's own integer of width `w` makes of a token: the oracle for the integer formats.
pub fn serde_int(w: u32, t: &V) -> Option<u128> {
    use serde::Deserialize;
    let st = State::default();
    let d = De(t, &st);
    match w {
        8 => u8::deserialize(d).map(|x| x as u128),
        16 => u16::deserialize(d).map(|x| x as u128),
        32 => u32::deserialize(d).map(|x| x as u128),
        64 => u64::deserialize(d).map(|x| x as u128),
        _ => u128::deserialize(d),
    }
    .ok()
}
/// All the tokens that are not the start of anything a set could be.
pub fn junk() -> Vec<V> {
    let mut v: Vec<V> = [Tok::Bool(true), Tok::Bool(false), Tok::Str("V0"), Tok::Str(""), Tok::Unit, Tok::None, Tok::F64(1.0), Tok::F64(-1.0), Tok::Variant("V0")]
        .into_iter().map(V::T).collect();
    for w in [8, 16, 32, 64, 128] {
        for x in [-1i128, 0, 1, 5, i128::MIN, i128::MAX, i64::MIN as i128] {
            v.extend(itok(w, x).map(V::T));
        }
        for x in [0u128, 1, u128::MAX, u64::MAX as u128, 255, 256] {
            v.extend(utok(w, x).map(V::T));
        }
    }
    for n in [None, Some(0), Some(1), Some(usize::MAX)] {
        v.push(V::Seq(n, vec![]));
        v.push(V::Map(n, vec![]));
        v.push(V::Seq(n, vec![V::T(Tok::U8(1))]));
        v.push(V::Map(n, vec![(V::T(Tok::U8(1)), V::T(Tok::Bool(true)))]));
    }
    v
}
/// Runs every job of this catalogue that `pick` accepts.
pub fn main_s(pick: fn(Fmt) -> bool, run: fn(&mut Cx, &S)) {
    let names: Vec<&str> = catalog::NAMES.iter().copied().filter(|n| pick(catalog::get(n).fmt)).collect();
    // every job twice: the formats must not depend on what the (de)serializer says about being human-readable, nor on
    // whether a new set is asked for or one in place of another
    let all: Vec<String> = names.iter().flat_map(|n| [n.to_string(), format!("{n}{BINARY}")]).collect();
    let all: Vec<&str> = all.iter().map(|n| n.as_str()).collect();
    main_with(&all, |n, cx| {
        let base = n.strip_suffix(BINARY).unwrap_or(n);
        mock::HUMAN.store(base == n, std::sync::atomic::Ordering::Relaxed);
        run(cx, &catalog::get(base))
    });
}
/// Jobs so marked have (de)serializers that say they are not human-readable, and deserialize in place of a full set.
const BINARY: &str = "-binary-in-place";
/// Every value of the integer (8 bits, 16 in the thorough tier); of wider ones, subsets of boundary variants with every
/// single unknown bit, every pair of them, all of them.
pub fn int_values(cx: &mut Cx, s: &S) -> Vec<u128> {
    let Fmt::Int(w) = s.fmt else { unreachable!() };
    let top = if w == 128 { u128::MAX } else { (1 << w) - 1 };
    let all = s.value(s.info.all());
    let mut xs: Vec<u128> = vec![];
    if w <= cx.pick(8, 16) {
        xs.extend(0..=top);
    }
    // every subset of the boundary variants with every single unknown bit, every pair of them, all of them
    let inv = top & !all;
    let sets: Vec<u128> = unary(&s.info, 4, cx.pick(3, 5)).iter().map(|m| s.value(*m)).collect();
    let bits: Vec<u128> = (0..w).map(|b| 1u128 << b).filter(|b| inv & b != 0).collect();
    for x in &sets {
        xs.push(*x);
        xs.push(*x | inv);
        xs.extend(bits.iter().map(|b| x | b));
    }
    for b in &bits {
        xs.extend(bits.iter().map(|c| b | c));
        xs.push(inv & !b);
        xs.push(all | b);
    }
    xs.sort();
    xs.dedup();
    xs
}
/// Word lists to two words beyond the storage (every single bit over nothing and over everything; every combination of
/// letters), and some far longer.
pub fn word_lists(cx: &mut Cx, s: &S, one: &mut dyn FnMut(&[u64], &mut Cx)) {
    let w = s.info.words;
    let valid = s.info.words_of(s.info.all());
    let letters = |p: usize| -> Vec<u64> {
        let v = valid.get(p).copied().unwrap_or(0);
        let inv = !v;
        let mut l = vec![0, v, if inv == 0 { 0 } else { 1 << (63 - inv.leading_zeros()) }, v & v.wrapping_neg(), inv & inv.wrapping_neg(), u64::MAX, inv];
        l.sort();
        l.dedup();
        l
    };
    for l in 0..=w + 2 {
        // every single bit, over nothing and over everything
        for p in 0..l {
            for b in 0..64 {
                for bg in [0, 1] {
                    let mut x: Vec<u64> = if bg == 0 { vec![] } else { valid.clone() };
                    x.resize(l, 0);
                    x[p] |= 1 << b;
                    one(&x, cx);
                }
            }
        }
        // every combination of letters
        let k = match l { 0..=3 => 9, 4 => cx.pick(6, 7), 5 => cx.pick(4, 7), 6 => cx.pick(3, 6), 7 | 8 => cx.pick(3, 5), _ => cx.pick(2, 3) };
        let ls: Vec<Vec<u64>> = (0..l).map(|p| letters(p).into_iter().rev().take(k).collect()).collect();
        let mut ix = vec![0; l];
        'all: loop {
            let x: Vec<u64> = (0..l).map(|p| ls[p][ix[p]]).collect();
            one(&x, cx);
            let mut p = 0;
            loop {
                if p == l {
                    break 'all;
                }
                ix[p] += 1;
                if ix[p] < ls[p].len() {
                    break;
                }
                ix[p] = 0;
                p += 1;
            }
        }
    }
    // much longer than needed
    for l in [w + 3, w + 40, 1000] {
        for x in [0, 1u64] {
            let mut v = valid.clone();
            v.resize(l, 0);
            v[l - 1] = x;
            one(&v, cx);
        }
    }
}
