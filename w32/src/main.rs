//! C06 and C07 for `usize`, whose width is the platform's: run by an interpreter for platforms of another width.
//! `w32 c06|c07`: every subset of the variants below, every combination of the boundary bits of a `usize`.
use enumset::*;
use std::collections::BTreeSet;
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};

macro_rules! e {
    ($name:ident [$($a:meta)?] $($v:ident = $d:literal),*) => {
        #[derive(EnumSetType, Debug)]
        $(#[$a])?
        enum $name { $($v = $d),* }
        impl Case for $name {
            const NAME: &'static str = stringify!($name);
            const VARIANTS: &'static [(Self, u32)] = &[$(($name::$v, $d)),*];
        }
    };
}
trait Case: EnumSetType + Debug + 'static {
    const NAME: &'static str;
    const VARIANTS: &'static [(Self, u32)];
}
e!(P8 [] A = 0, B = 2, C = 7);
e!(P16 [] A = 0, B = 8, C = 15);
e!(P32 [] A = 0, B = 5, C = 30, D = 31);
e!(P64 [] A = 0, B = 31, C = 32, D = 33, E = 63);
e!(P128 [enumset(repr = "u128")] A = 0, B = 31, C = 32, D = 63, E = 64, F = 127);
e!(S128 [enumset(repr = "u128")] A = 1, B = 30);
e!(A1 [enumset(repr = "array")] A = 0, B = 31, C = 32, D = 63);
e!(A1L [enumset(repr = "array")] A = 1, B = 31);
e!(A2 [] A = 31, B = 32, C = 64, D = 127);
e!(A4 [] A = 0, B = 32, C = 63, D = 130, E = 255);

const W: u32 = usize::BITS;
#[derive(Default)]
struct Tally { states: u64, transitions: u64, outcomes: BTreeSet<String>, samples: Vec<String> }

fn quote(s: &str) -> String { format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\"")) }

impl Tally {
    fn same<T: PartialEq + Debug>(&mut self, case: &dyn Fn() -> String, want: T, got: T) {
        self.transitions += 1;
        if want != got {
            println!("{{\"kind\":\"fail\",\"case\":{},\"want\":{},\"got\":{}}}", quote(&format!("usize of {} bits: {}", W, case())),
                     quote(&format!("{:?}", want)), quote(&format!("{:?}", got)));
            std::process::exit(3);
        }
    }
}

fn subsets<T: Case>() -> Vec<Vec<(T, u32)>> {
    (0..1usize << T::VARIANTS.len()).map(|m| T::VARIANTS.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, v)| *v).collect()).collect()
}

fn c06<T: Case>(t: &mut Tally) {
    for members in subsets::<T>() {
        let mut set = EnumSet::<T>::new();
        for (v, _) in &members { set.insert(*v); }
        let low = members.iter().filter(|m| m.1 < W).fold(0usize, |a, m| a | 1 << m.1);
        let fits = members.iter().all(|m| m.1 < W);
        let want = if fits { Some(low) } else { None };
        t.states += 1;
        t.outcomes.insert(format!("{}{:?}", T::NAME, want));
        let case = |f: &str| format!("{} of {} {:?}", f, T::NAME, members);
        t.same(&|| case("try_as_usize"), want, set.try_as_usize());
        t.same(&|| case("as_usize_truncated"), low, set.as_usize_truncated());
        t.same(&|| case("as_usize (None: a panic)"), want, catch_unwind(AssertUnwindSafe(|| set.as_usize())).ok());
    }
    t.samples.push(format!("{}: all {} subsets of {:?} as usize of {} bits", T::NAME, 1 << T::VARIANTS.len(), T::VARIANTS, W));
}

fn c07<T: Case>(t: &mut Tally) {
    let mut bits: Vec<u32> = vec![0, 1, 8, 30, 31, W - 1, W / 2];
    bits.sort();
    bits.dedup();
    for m in 0..1usize << bits.len() {
        let on: Vec<u32> = bits.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, b)| *b).collect();
        let int = on.iter().fold(0usize, |a, b| a | 1 << b);
        let known: Vec<(T, u32)> = T::VARIANTS.iter().filter(|v| on.contains(&v.1)).copied().collect();
        let mut set = EnumSet::<T>::new();
        for (v, _) in &known { set.insert(*v); }
        let want = if known.len() == on.len() { Some(set) } else { None };
        t.states += 1;
        t.outcomes.insert(format!("{}{:?}", T::NAME, want));
        let case = |f: &str| format!("{}({:#x}) for {}", f, int, T::NAME);
        t.same(&|| case("try_from_usize"), want, EnumSet::<T>::try_from_usize(int));
        t.same(&|| case("from_usize_truncated"), set, EnumSet::<T>::from_usize_truncated(int));
        // a panic is slow to interpret
        if on.len() < 2 || want.is_some() && on.len() < 3 {
            t.same(&|| case("from_usize (None: a panic)"), want, catch_unwind(|| EnumSet::<T>::from_usize(int)).ok());
        }
        if want.is_some() {
            t.same(&|| case("from_usize_unchecked"), set, unsafe { EnumSet::<T>::from_usize_unchecked(int) });
        }
    }
    t.samples.push(format!("{}: all {} combinations of the bits {:?}", T::NAME, 1 << bits.len(), bits));
}

// ---- C10: what foreign code sees of a set with an explicit representation, in this platform's byte order and calling convention

macro_rules! foreign {
    ($($name:ident: $int:ident)*) => { $(
        impl Foreign for $name {
            fn c10(t: &mut Tally) {
                use std::mem::{align_of, offset_of, size_of, transmute, transmute_copy, ManuallyDrop};
                type S = EnumSet<$name>;
                #[repr(C)]
                #[derive(Copy, Clone)]
                struct Theirs { a: u8, v: $int, b: u8, w: [$int; 2], c: u16 }
                #[repr(C)]
                #[derive(Copy, Clone)]
                struct Ours { a: u8, v: S, b: u8, w: [S; 2], c: u16 }
                // compiled from "foreign" code that has no idea of sets
                extern "C" fn theirs_id(v: $int) -> $int { v }
                extern "C" fn theirs_mix(a: u8, v: $int, b: u64, w: $int) -> $int { if a == 1 && b == u64::MAX - 1 { v & !w } else { 0 } }
                extern "C" fn theirs_struct(mut s: Theirs) -> Theirs { s.w = [s.v, s.w[0]]; s.a += 1; s.c -= 1; s }
                extern "C" fn theirs_fill(p: *mut $int, n: usize, v: $int) { for i in 0..n { unsafe { *p.add(i) = v } } }
                extern "C" fn ours_members(s: S) -> u32 { s.iter().map(|v| v as u32 + 1).sum() }
                extern "C" fn ours_back(s: S, _: u8, o: S) -> S { s - o }
                let id: extern "C" fn(S) -> S = unsafe { transmute(theirs_id as extern "C" fn($int) -> $int) };
                let mix: extern "C" fn(u8, S, u64, S) -> S = unsafe { transmute(theirs_mix as extern "C" fn(u8, $int, u64, $int) -> $int) };
                let fill: extern "C" fn(*mut S, usize, S) = unsafe { transmute(theirs_fill as extern "C" fn(*mut $int, usize, $int)) };
                let members: extern "C" fn($int) -> u32 = unsafe { transmute(ours_members as extern "C" fn(S) -> u32) };
                let back: extern "C" fn($int, u8, $int) -> $int = unsafe { transmute(ours_back as extern "C" fn(S, u8, S) -> S) };
                t.same(&|| format!("{}: size and alignment of a set and of {}", Self::NAME, stringify!($int)), (size_of::<$int>(), align_of::<$int>()), (size_of::<S>(), align_of::<S>()));
                t.same(&|| format!("{}: size and offsets in a struct of C", Self::NAME), (size_of::<Theirs>(), offset_of!(Theirs, v), offset_of!(Theirs, b), offset_of!(Theirs, w), offset_of!(Theirs, c)),
                       (size_of::<Ours>(), offset_of!(Ours, v), offset_of!(Ours, b), offset_of!(Ours, w), offset_of!(Ours, c)));
                let all = subsets::<Self>();
                let real: Vec<(S, $int)> = all.iter().map(|m| {
                    let mut s = S::new();
                    for (v, _) in m { s.insert(*v); }
                    (s, m.iter().fold(0, |a, v| a | 1 << v.1))
                }).collect();
                for (i, (s, n)) in real.iter().copied().enumerate() {
                    let (o, k) = real[(i * 7 + 3) % real.len()];
                    t.states += 1;
                    t.outcomes.insert(format!("{}{:?}", Self::NAME, n));
                    let case = |f: &str| format!("{} of {} {:?}", f, Self::NAME, all[i]);
                    t.same(&|| case("as_repr"), n, s.as_repr());
                    t.same(&|| case("bytes"), n.to_ne_bytes(), unsafe { transmute_copy::<S, [u8; size_of::<$int>()]>(&s) });
                    t.same(&|| case("from bytes"), s, unsafe { transmute_copy::<[u8; size_of::<$int>()], S>(&n.to_ne_bytes()) });
                    t.same(&|| case("from_repr"), s, S::from_repr(n));
                    t.same(&|| case("try_from_repr"), Some(s), S::try_from_repr(n));
                    t.same(&|| case("from_repr_truncated"), s, S::from_repr_truncated(n));
                    t.same(&|| case("from_repr_unchecked"), s, unsafe { S::from_repr_unchecked(n) });
                    let valid = real[real.len() - 1].1;
                    t.same(&|| case("from_repr_truncated of that and every unknown bit"), s, S::from_repr_truncated(n | !valid));
                    t.same(&|| case("try_from_repr of that and every unknown bit"), if valid == !0 { Some(s) } else { None }, S::try_from_repr(n | !valid));
                    t.same(&|| case("through a foreign function"), s, id(s));
                    t.same(&|| case("a set among the arguments of a foreign function"), s - o, mix(1, s, u64::MAX - 1, o));
                    t.same(&|| case("called by foreign code: members"), all[i].iter().map(|v| v.1 + 1).sum::<u32>(), members(n));
                    t.same(&|| case("called by foreign code: difference"), n & !k, back(n, 200, k));
                    let mut a = [o; 5];
                    fill(a[1..].as_mut_ptr(), 3, s);
                    t.same(&|| case("array of sets filled by foreign code"), [o, s, s, s, o], a);
                    let ours = Ours { a: 1, v: s, b: 2, w: [o, s], c: 3 };
                    let t1: Theirs = unsafe { transmute_copy(&ManuallyDrop::new(ours)) };
                    t.same(&|| case("fields of a struct as foreign code sees them"), (1, n, 2, [k, n], 3), (t1.a, t1.v, t1.b, t1.w, t1.c));
                    let r: Ours = unsafe { transmute_copy(&theirs_struct(t1)) };
                    t.same(&|| case("fields of a struct after foreign code"), (2, s, 2, [s, o], 2), (r.a, r.v, r.b, r.w, r.c));
                }
                t.samples.push(format!("{}: all {} subsets of {:?} through foreign functions as {}", Self::NAME, real.len(), Self::VARIANTS, stringify!($int)));
            }
        } )* };
}
trait Foreign: Case {
    fn c10(t: &mut Tally);
}
e!(F8 [enumset(repr = "u8")] A = 0, B = 2, C = 6);
e!(F8F [enumset(repr = "u8")] A = 0, B = 1, C = 2, D = 3, E = 4, F = 5, G = 6, H = 7);
e!(F16 [enumset(repr = "u16")] A = 0, B = 8, C = 15);
e!(F16S [enumset(repr = "u16")] A = 1, B = 2);
e!(F32 [enumset(repr = "u32")] A = 0, B = 7, C = 16, D = 31);
e!(F32S [enumset(repr = "u32")] A = 0, B = 1, C = 2);
e!(F64 [enumset(repr = "u64")] A = 0, B = 31, C = 32, D = 62, E = 63);
e!(F64S [enumset(repr = "u64")] A = 3, B = 9);
e!(F128 [enumset(repr = "u128")] A = 0, B = 63, C = 64, D = 65, E = 127);
foreign!(F8: u8 F8F: u8 F16: u16 F16S: u16 F32: u32 F32S: u32 F64: u64 F64S: u64 F128: u128 P128: u128 S128: u128);

fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let which = std::env::args().nth(1).unwrap();
    let mut t = Tally::default();
    macro_rules! all {
        ($($n:ident)*) => { $(match which.as_str() { "c06" => c06::<$n>(&mut t), "c07" => c07::<$n>(&mut t), x => panic!("{}", x) })* };
    }
    if which == "c10" {
        macro_rules! foreign_all { ($($n:ident)*) => { $($n::c10(&mut t);)* } }
        foreign_all!(F8 F8F F16 F16S F32 F32S F64 F64S F128 P128 S128);
    } else {
    all!(P8 P16 P32 P64 P128 S128 A1 A1L A2 A4);
    }
    println!("{{\"kind\":\"done\",\"states\":{},\"transitions\":{},\"traces\":{},\"outcomes\":{},\"samples\":[{}],\"notes\":[]}}", t.states, t.transitions,
             t.transitions, t.outcomes.len(), t.samples.iter().map(|s| quote(s)).collect::<Vec<_>>().join(","));
}
