//! One fixed exhaustive exploration, and a transcript of all answers: what C22 runs under an interpreter that detects
//! undefined behaviour (on several platforms), and what C23 runs under every configuration. Transcripts have to agree.
//!
//! `cf --part I/N --size tiny|small|full [--dump SECTION]`: per section one line `section count hash`; with --dump, all records
//! of that section in full.
#![allow(deprecated, clippy::all)]
use enumset::*;
use std::fmt::{Debug, Display, Write};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub trait Ex: EnumSetType + Debug + Display + 'static {
    const NAME: &'static str;
    const V: &'static [Self];
    /// 64 for arrays of the crate's own choosing, too
    fn special(t: &mut Tx, sets: &[EnumSet<Self>]);
    fn konst() -> [EnumSet<Self>; 3];
}

pub struct Tx {
    name: String,
    h: u64,
    n: u64,
    dump: Option<String>,
    full: bool,
    small: bool,
    total: u64,
}
impl Tx {
    fn pick<T>(&self, tiny: T, small: T, full: T) -> T {
        if self.full {
            full
        } else if self.small {
            small
        } else {
            tiny
        }
    }
    fn on(&self) -> bool {
        self.dump.as_deref() == Some(self.name.as_str())
    }
    fn mix(&mut self, x: u64) {
        // byte order plays no part
        self.h = (self.h.rotate_left(5) ^ x).wrapping_mul(0x9E3779B97F4A7C15);
        self.h ^= self.h >> 29;
    }
    fn section(&mut self, name: &str) {
        self.close();
        self.name = name.to_string();
        self.h = 0;
        self.n = 0;
        if std::env::var_os("CF_PROGRESS").is_some() {
            eprintln!("@ {}", self.name); // what was running when the interpreter stopped
        }
    }
    fn close(&mut self) {
        if self.n > 0 && self.dump.is_none() {
            println!("{} {} {:016x}", self.name, self.n, self.h);
        }
        self.total += self.n;
    }
    fn show(&self, what: What, v: &dyn Display) {
        println!("{}: {} {:?} = {}", self.name, what.0, what.1, v);
    }
    /// records a number
    #[inline(never)]
    fn num(&mut self, what: What, v: u128) {
        self.n += 1;
        self.mix(v as u64);
        self.mix((v >> 64) as u64);
        if self.on() {
            self.show(what, &v);
        }
    }
    #[inline(never)]
    fn txt(&mut self, what: What, v: &str) {
        self.n += 1;
        self.mix(v.len() as u64);
        for b in v.bytes() {
            self.mix(b as u64);
        }
        if self.on() {
            self.show(what, &v);
        }
    }
    /// a number, or a panic
    #[inline(never)]
    fn may_(&mut self, what: What, v: &mut dyn FnMut() -> u128) {
        match catch_unwind(AssertUnwindSafe(v)) {
            Ok(v) => self.num(what, v),
            Err(_) => self.txt(what, "panic"),
        }
    }
    #[inline(always)]
    fn may(&mut self, what: What, mut v: impl FnMut() -> u128) {
        self.may_(what, &mut v)
    }
    fn maybe_set<E: Ex>(&mut self, what: What, v: Option<EnumSet<E>>) {
        match v {
            Some(v) => {
                let k = key(v);
                self.num(what, k)
            }
            None => self.txt(what, "None"),
        }
    }
}
/// which case: what was called, and the positions of its arguments in their lists (integers as they are)
type What<'a> = (&'static str, &'a [u128]);

/// A set as a number: which variants (by position) it contains, mixed with its length and what it hands out.
fn key<E: Ex>(s: EnumSet<E>) -> u128 {
    let mut h: u128 = s.len() as u128;
    for (i, v) in E::V.iter().enumerate() {
        if s.contains(*v) {
            h = h.wrapping_mul(0x1000003).wrapping_add(i as u128 + 1);
        }
    }
    h
}
/// Uses a variant in every way that would notice that it is none.
fn touch<E: Ex>(v: E) -> u128 {
    E::V.iter().position(|x| std::mem::discriminant(x) == std::mem::discriminant(&v)).map(|p| p as u128).unwrap_or(9999)
}

fn boundary<E: Ex>(k: usize) -> Vec<usize> {
    let n = E::V.len();
    let mut ix = vec![];
    for i in [0, n.wrapping_sub(1), n / 2, 1, n.wrapping_sub(2), n / 4, 3 * n / 4, 2, 3, 4, 5, 6, 7, 8, 9] {
        if i < n && !ix.contains(&i) && ix.len() < k {
            ix.push(i);
        }
    }
    ix.sort();
    ix
}
fn sets<E: Ex>(k: usize) -> Vec<EnumSet<E>> {
    let ix = boundary::<E>(k);
    let mut out: Vec<EnumSet<E>> = vec![];
    for b in 0u32..1 << ix.len() {
        let mut s = EnumSet::new();
        for j in 0..ix.len() {
            if b >> j & 1 == 1 {
                s.insert(E::V[ix[j]]);
            }
        }
        out.push(s);
        if E::V.len() > ix.len() {
            out.push(!s);
        }
    }
    out
}

struct Dead;
impl Hasher for Dead {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, _: &[u8]) {}
}

#[inline(always)]
fn common<E: Ex>(t: &mut Tx) {
    let nm = E::NAME;
    let wide = E::V.len() > 20 && !t.full;
    let k = if wide { 2 } else { t.pick(3, 4, 7) };
    let all = sets::<E>(k);
    let few: Vec<EnumSet<E>> = sets::<E>(if wide { 1 } else { t.pick(2, 3, 4) });
    t.section(&format!("{nm}/type"));
    t.num(("bit_width", &[]), EnumSet::<E>::bit_width() as u128);
    t.num(("variant_count", &[]), EnumSet::<E>::variant_count() as u128);
    t.num(("all", &[]), key(EnumSet::<E>::all()));
    t.num(("ALL", &[]), key(EnumSet::<E>::ALL));
    t.num(("new", &[]), key(EnumSet::<E>::new()));
    t.num(("default", &[]), key(EnumSet::<E>::default()));
    for (i, c) in E::konst().into_iter().enumerate() {
        t.num(("constant", &[i as u128]), key(c));
    }
    // what the set is kept in is the same under every configuration, but not on every platform
    t.section(&format!("{nm}/native-layout"));
    t.num(("size", &[]), std::mem::size_of::<EnumSet<E>>() as u128);
    t.num(("align", &[]), std::mem::align_of::<EnumSet<E>>() as u128);
    t.num(("iter size", &[]), std::mem::size_of::<EnumSetIter<E>>() as u128);

    t.section(&format!("{nm}/unary"));
    for (i, &s) in all.iter().enumerate() {
        t.num(("set", &[i as u128]), key(s));
        t.num(("complement", &[i as u128]), key(s.complement()));
        t.num(("is_empty", &[i as u128]), s.is_empty() as u128);
        let mut c = s;
        c.clear();
        t.num(("clear", &[i as u128]), key(c));
        for w in boundary::<E>(if t.full { 5 } else { 4 }) {
            let v = E::V[w];
            let mut c = s;
            t.num(("insert", &[i as u128, w as u128]), c.insert(v) as u128);
            t.num(("inserted", &[i as u128, w as u128]), key(c));
            t.num(("remove", &[i as u128, w as u128]), c.remove(v) as u128);
            t.num(("removed", &[i as u128, w as u128]), key(c));
            t.num(("eq", &[i as u128, w as u128]), (s == v) as u128);
            t.num(("set op variant", &[i as u128, w as u128]), key(((s | v) ^ v) - v));
            let mut c = s;
            c |= v;
            t.num(("|=", &[i as u128, w as u128]), key(c));
            c ^= v;
            c -= v;
            c &= v;
            t.num(("&=", &[i as u128, w as u128]), key(c));
        }
    }
    t.section(&format!("{nm}/iter"));
    for (i, &s) in all.iter().enumerate() {
        for pattern in if t.full { 0u32..16 } else { 0..4 } {
            // the pattern, repeated: 1 from the back, 0 from the front
            let mut it = s.iter();
            let mut h: u128 = 0;
            let mut step = 0;
            loop {
                let (lo, hi) = it.size_hint();
                h = h.wrapping_mul(31).wrapping_add(lo as u128 + hi.unwrap_or(77777) as u128 * 3 + it.len() as u128);
                let c = it.clone();
                let v = if pattern >> (step % 4) & 1 == 1 { it.next_back() } else { it.next() };
                if !t.full && step == 1 {
                    h = h.wrapping_mul(7).wrapping_add(c.count() as u128);
                }
                match v {
                    Some(v) => h = h.wrapping_mul(1000003).wrapping_add(touch(v)),
                    None => break,
                }
                step += 1;
                if step > E::V.len() + 3 {
                    h = 1;
                    break;
                }
            }
            h = h.wrapping_mul(31).wrapping_add(it.next().is_some() as u128 + it.next_back().is_some() as u128);
            t.num(("iterate by", &[i as u128, pattern as u128]), h);
        }
        t.num(("nth", &[i as u128]), s.iter().nth(1).map(touch).unwrap_or(7777));
        t.num(("nth_back", &[i as u128]), s.iter().nth_back(1).map(touch).unwrap_or(7777));
        t.num(("last", &[i as u128]), s.iter().last().map(touch).unwrap_or(7777));
        t.num(("rev", &[i as u128]), s.into_iter().rev().fold(0u128, |a, v| a.wrapping_mul(131).wrapping_add(touch(v))));
        t.num(("collect", &[i as u128]), key(s.iter().rev().collect::<EnumSet<E>>()));
        t.num(("sum", &[i as u128]), key(s.iter().sum::<EnumSet<E>>()));
        let mut c = EnumSet::new();
        c.extend(s.iter());
        t.num(("extend", &[i as u128]), key(c));
    }
    t.section(&format!("{nm}/binary"));
    for (i, &a) in few.iter().enumerate() {
        for (j, &b) in few.iter().enumerate() {
            t.num(("union", &[i as u128, j as u128]), key(a.union(b)));
            t.num(("intersection", &[i as u128, j as u128]), key(a & b));
            t.num(("difference", &[i as u128, j as u128]), key(a - b));
            t.num(("symmetrical", &[i as u128, j as u128]), key(a ^ b));
            let mut c = a;
            c.insert_all(b);
            t.num(("insert_all", &[i as u128, j as u128]), key(c));
            c.remove_all(a);
            t.num(("remove_all", &[i as u128, j as u128]), key(c));
            let w = (a == b) as u128 + 2 * a.is_subset(b) as u128 + 4 * a.is_superset(b) as u128 + 8 * a.is_disjoint(b) as u128;
            t.num(("relations", &[i as u128, j as u128]), w);
            t.num(("order", &[i as u128, j as u128]), a.cmp(&b) as i8 as u8 as u128);
            t.num(("partial order", &[i as u128, j as u128]), a.partial_cmp(&b).map(|x| x as i8 as u8 as u128).unwrap_or(9));
            t.num(("sum", &[i as u128, j as u128]), key([a, b].iter().sum::<EnumSet<E>>()));
            t.num(("collect", &[i as u128, j as u128]), key([a, b].into_iter().collect::<EnumSet<E>>()));
        }
    }
    t.section(&format!("{nm}/fmt"));
    for (i, &s) in (if t.full { &all } else { &few }).iter().enumerate() {
        t.txt(("{:?}", &[i as u128]), &format!("{s:?}"));
        t.txt(("{}", &[i as u128]), &format!("{s}"));
        t.txt(("{:#?}", &[i as u128]), &format!("{s:#?}"));
        t.txt(("{:>9}", &[i as u128]), &format!("{s:>9}"));
        let mut w = String::new();
        let mut it = s.iter();
        it.next();
        let _ = write!(w, "{}", it.len());
        t.txt(("rest", &[i as u128]), &w);
        s.hash(&mut Dead);
    }
    t.section(&format!("{nm}/native-hash"));
    for (i, &s) in all.iter().enumerate() {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        s.hash(&mut h);
        t.num(("hash", &[i as u128]), h.finish() as u128);
    }
    t.section(&format!("{nm}/to-integer"));
    macro_rules! to {
        ($s:ident $i:ident $($ty:ident $a:ident $b:ident $c:ident)*) => {$(
            t.may((concat!(stringify!($a)), &[$i as u128]), || $s.$a() as u128);
            t.may((concat!(stringify!($b)), &[$i as u128]), || $s.$b().map(|x| x as u128).unwrap_or(u128::MAX / 3));
            t.may((concat!(stringify!($c)), &[$i as u128]), || $s.$c() as u128);
        )*};
    }
    for (i, &s) in all.iter().enumerate() {
        to!(s i u8 as_u8 try_as_u8 as_u8_truncated u16 as_u16 try_as_u16 as_u16_truncated u32 as_u32 try_as_u32 as_u32_truncated
            u64 as_u64 try_as_u64 as_u64_truncated u128 as_u128 try_as_u128 as_u128_truncated);
    }
    // usize is what it is on each platform
    t.section(&format!("{nm}/native-usize"));
    for (i, &s) in all.iter().enumerate() {
        to!(s i usize as_usize try_as_usize as_usize_truncated);
    }
    t.section(&format!("{nm}/from-integer"));
    let mut ints: Vec<u128> = vec![0, u128::MAX, u64::MAX as u128, 0x5555_5555_5555_5555_5555_5555_5555_5555];
    for b in if t.full { (0..128).collect::<Vec<u32>>() } else { vec![0, 1, 7, 8, 31, 63, 64, 127] } {
        ints.push(1 << b);
        if t.full {
            ints.push(!(1 << b));
        }
    }
    macro_rules! from {
        ($x:ident $($ty:ident $a:ident $b:ident $c:ident)*) => {$(
            let y = $x as $ty;
            t.may((concat!(stringify!($a)), &[y as u128]), || key(EnumSet::<E>::$a(y)));
            t.maybe_set((concat!(stringify!($b)), &[y as u128]), EnumSet::<E>::$b(y));
            let s = EnumSet::<E>::$c(y);
            t.num((concat!(stringify!($c)), &[y as u128]), key(s));
            t.num((concat!(stringify!($c), " iterated"), &[y as u128]), s.iter().fold(0, |a, v| a * 7 % 1000003 + touch(v)));
        )*};
    }
    for &x in &ints {
        from!(x u8 from_u8 try_from_u8 from_u8_truncated u16 from_u16 try_from_u16 from_u16_truncated u32 from_u32 try_from_u32 from_u32_truncated
            u64 from_u64 try_from_u64 from_u64_truncated u128 from_u128 try_from_u128 from_u128_truncated);
    }
    t.section(&format!("{nm}/native-from-usize"));
    for &x in &ints {
        from!(x usize from_usize try_from_usize from_usize_truncated);
    }
    t.section(&format!("{nm}/words"));
    let widths: Vec<usize> = if t.full { (0..7).collect() } else { vec![0, 1, 2, 5] };
    for (i, &s) in (if t.full { &all } else { &few }).iter().enumerate() {
        for &n in &widths {
            let fold = |w: &[u64]| w.iter().fold(w.len() as u128, |a, x| a.wrapping_mul(0x10000000000000000000000000000159).wrapping_add(*x as u128));
            t.may(("copy_into_slice []", &[i as u128, n as u128]), || { let mut w = vec![0xABu64; n]; s.copy_into_slice(&mut w); fold(&w) });
            t.may(("try_copy_into_slice []", &[i as u128, n as u128]), || { let mut w = vec![0xABu64; n]; let r = s.try_copy_into_slice(&mut w).is_some(); fold(&w) ^ r as u128 });
            t.may(("copy_into_slice_truncated []", &[i as u128, n as u128]), || { let mut w = vec![0xABu64; n]; s.copy_into_slice_truncated(&mut w); fold(&w) });
            macro_rules! arr {
                ($($n:literal)*) => { match n { $($n => {
                    t.may(("as_array []", &[i as u128, n as u128]), || fold(&s.as_array::<$n>()));
                    t.may(("try_as_array []", &[i as u128, n as u128]), || s.try_as_array::<$n>().map(|x| fold(&x)).unwrap_or(3));
                    t.may(("as_array_truncated []", &[i as u128, n as u128]), || fold(&s.as_array_truncated::<$n>()));
                })* _ => unreachable!() } };
            }
            arr!(0 1 2 3 4 5 6);
        }
    }
    t.section(&format!("{nm}/alloc-to_vec"));
    #[cfg(any(feature = "alloc", feature = "std"))]
    for (i, &s) in all.iter().enumerate() {
        let v = s.to_vec();
        t.num(("to_vec len", &[i as u128]), v.len() as u128);
        for x in v {
            t.num(("to_vec", &[i as u128]), x as u128);
        }
    }
    t.section(&format!("{nm}/from-words"));
    let mut lists: Vec<Vec<u64>> = vec![];
    for &n in &widths {
        lists.push(vec![0; n]);
        lists.push(vec![u64::MAX; n]);
        for p in 0..n {
            for b in if t.full { (0..64).collect::<Vec<u32>>() } else { vec![0, 2, 63] } {
                let mut w = vec![0; n];
                w[p] = 1 << b;
                lists.push(w);
            }
        }
    }
    for (i, w) in lists.iter().enumerate() {
        let w = w.as_slice();
        t.may(("from_slice", &[i as u128]), || key(EnumSet::<E>::from_slice(w)));
        let s = catch_unwind(|| EnumSet::<E>::try_from_slice(w));
        match s {
            Ok(s) => t.maybe_set(("try_from_slice", &[i as u128]), s),
            Err(_) => t.txt(("try_from_slice", &[i as u128]), "panic"),
        }
        let s = EnumSet::<E>::from_slice_truncated(w);
        t.num(("from_slice_truncated", &[i as u128]), key(s));
        t.num(("from_slice_truncated iterated", &[i as u128]), s.iter().fold(0, |a, v| a * 7 % 1000003 + touch(v)));
        macro_rules! arr {
            ($($n:literal)*) => { match w.len() { $($n => {
                let x: [u64; $n] = w.try_into().unwrap();
                t.may(("from_array", &[i as u128]), || key(EnumSet::<E>::from_array(x)));
                match catch_unwind(|| EnumSet::<E>::try_from_array(x)) {
                    Ok(s) => t.maybe_set(("try_from_array", &[i as u128]), s),
                    Err(_) => t.txt(("try_from_array", &[i as u128]), "panic"),
                }
                t.num(("from_array_truncated", &[i as u128]), key(EnumSet::<E>::from_array_truncated(x)));
            })* _ => unreachable!() } };
        }
        arr!(0 1 2 3 4 5 6);
    }
    t.section(&format!("{nm}/special"));
    E::special(t, &few);
    #[cfg(feature = "serde")]
    {
        t.section(&format!("{nm}/serde-out"));
        let pick = if t.full { &all } else { &few };
        for (i, s) in pick.iter().enumerate() {
            let j = serde_json::to_string(s);
            t.txt(("json", &[i as u128]), j.as_deref().unwrap_or("error"));
            if let Ok(j) = j {
                let back = serde_json::from_str::<EnumSet<E>>(&j).ok();
                t.maybe_set(("json back", &[i as u128]), back);
            }
            let b = bincode::serialize(s).unwrap_or_default();
            t.txt(("bincode", &[i as u128]), &format!("{b:?}"));
            t.maybe_set(("bincode back", &[i as u128]), bincode::deserialize::<EnumSet<E>>(&b).ok());
        }
        t.section(&format!("{nm}/serde-in"));
        let mut docs: Vec<String> = ["null", "[]", "{}", "true", "\"A\"", "-1", "0", "1", "2", "255", "256", "4294967295", "18446744073709551615", "18446744073709551616", "1e3",
            "[0]", "[1]", "[3,0]", "[0,1]", "[0,0,0,0,1]", "[255]", "[18446744073709551615,18446744073709551615,18446744073709551615]", "[-1]", "[1,2,3,4,5,6,7,8,9]",
            "[\"A\"]", "[\"A\",\"A\"]", "[\"B\",\"A\"]", "[\"X\"]", "[\"A\",3]", "{\"A\":true}", "{\"A\":false,\"B\":true}", "{\"X\":true}", "{\"A\":1}"]
            .iter().map(|s| s.to_string()).collect();
        if t.full {
            for b in 0..64 {
                docs.push(format!("{}", 1u64 << b));
                docs.push(format!("[{}]", 1u64 << b));
                docs.push(format!("[0,{}]", 1u64 << b));
            }
        }
        for (i, d) in docs.iter().enumerate() {
            let s = serde_json::from_str::<EnumSet<E>>(d).ok();
            t.maybe_set(("from json", &[i as u128]), s);
            if let Some(s) = s {
                t.num(("from json iterated", &[i as u128]), s.iter().fold(0, |a, v| a * 7 % 1000003 + touch(v)));
            }
        }
        for n in 0..=if t.full { 40 } else { 17 } {
            for x in [0u8, 1, 0xFF] {
                let s = bincode::deserialize::<EnumSet<E>>(&vec![x; n]).ok();
                t.maybe_set(("from bincode [; ]", &[x as u128, n as u128]), s);
            }
        }
    }
}

macro_rules! ex {
    ($name:ident [$($kind:tt)*] $(#[$at:meta])* { $($v:ident = $d:tt),* }) => {
        #[derive(EnumSetType, Debug)]
        $(#[$at])*
        pub enum $name { $($v = $d),* }
        ex!(@ $name [$($kind)*] { $($v),* });
    };
    (@ $name:ident [$($kind:tt)*] { $($v:ident),* }) => {
        impl Display for $name {
            fn fmt(&self, _f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                #[allow(unreachable_patterns)]
                match *self { $($name::$v => _f.write_str(concat!("<", stringify!($v), ">")),)* _ => Ok(()) }
            }
        }
        impl Ex for $name {
            const NAME: &'static str = stringify!($name);
            const V: &'static [Self] = &[$($name::$v),*];
            fn konst() -> [EnumSet<Self>; 3] {
                const A: EnumSet<$name> = enum_set!($($name::$v)|*);
                const EVERY: EnumSet<$name> = EnumSet::all();
                const B: EnumSet<$name> = enum_set_difference!(EVERY, A);
                const C: EnumSet<$name> = enum_set_symmetric_difference!(A, EVERY, A);
                [A, B, C]
            }
            fn special(_t: &mut Tx, _sets: &[EnumSet<Self>]) {
                fn auto<T: Send + Sync + Unpin + std::panic::UnwindSafe + std::panic::RefUnwindSafe>() {}
                auto::<EnumSet<$name>>();
                auto::<EnumSetIter<$name>>();
                ex!(% $name _t _sets $($kind)*);
            }
        }
    };
    (% $name:ident $t:ident $sets:ident) => {};
    (% $name:ident $t:ident $sets:ident , $($r:tt)*) => { ex!(% $name $t $sets $($r)*) };
    (% $name:ident $t:ident $sets:ident ops $($r:tt)*) => {
        for ai in boundary::<$name>(if $t.full { 5 } else { 3 }) {
            for bi in boundary::<$name>(if $t.full { 5 } else { 3 }) {
                let (a, b) = (<$name as Ex>::V[ai], <$name as Ex>::V[bi]);
                $t.num(("|", &[ai as u128, bi as u128]), key(a | b));
                $t.num(("&", &[ai as u128, bi as u128]), key(a & b));
                $t.num(("-", &[ai as u128, bi as u128]), key(a - b));
                $t.num(("^", &[ai as u128, bi as u128]), key(a ^ b));
                $t.num(("!", &[ai as u128]), key(!a));
                $t.num(("==", &[ai as u128, bi as u128]), (a == b) as u128 + 2 * (a == EnumSet::only(b)) as u128);
                $t.num((".clone()", &[ai as u128]), touch(a.clone()));
            }
            for (i, s) in $sets.iter().enumerate() {
                let v = <$name as Ex>::V[ai];
                $t.num(("op set", &[ai as u128, i as u128]), key(v | *s) ^ key(v & *s).rotate_left(3) ^ key(v - *s).rotate_left(7) ^ key(v ^ *s).rotate_left(11));
            }
        }
        ex!(% $name $t $sets $($r)*)
    };
    (% $name:ident $t:ident $sets:ident repr $ty:ident) => {
        for (i, s) in $sets.iter().enumerate() {
            $t.num(("as_repr", &[i as u128]), s.as_repr() as u128);
        }
        for b in 0..<$ty>::BITS {
            for x in [(1 as $ty) << b, !((1 as $ty) << b), <$ty>::MAX >> b] {
                $t.may(("from_repr", &[x as u128]), || key(EnumSet::<$name>::from_repr(x)));
                $t.maybe_set(("try_from_repr", &[x as u128]), EnumSet::<$name>::try_from_repr(x));
                let s = EnumSet::<$name>::from_repr_truncated(x);
                $t.num(("from_repr_truncated", &[x as u128]), key(s));
                $t.num(("from_repr_truncated iterated", &[x as u128]), s.iter().fold(0, |a, v| a * 7 % 1000003 + touch(v)));
            }
        }
    };
}

/// The enums are kept in several modules so that several threads can compile them.
macro_rules! group {
    ($($n:ident)*) => {
        #[inline(never)]
        pub fn run(t: &mut Tx, k: &mut usize, part: usize, of: usize, only: Option<&str>) {
            $(
                if *k % of == part && only.map(|o| o == stringify!($n)).unwrap_or(true) {
                    if catch_unwind(AssertUnwindSafe(|| common::<$n>(t))).is_err() {
                        // a panic where no case allows one
                        println!("{} panic {}", t.name, t.n);
                        t.n = 0;
                    }
                }
                *k += 1;
            )*
        }
    };
}
macro_rules! wide {
    ($($at:meta)? ; $name:ident $kind:tt $($v:ident)*) => {
        #[derive(EnumSetType, Debug)]
        $(#[$at])?
        pub enum $name { $($v),* }
        ex!(@ $name $kind { $($v),* });
    };
}

mod g0 {
    use super::*;
    ex!(E0 [] {});
    ex!(E128 [ops, repr u128] #[enumset(repr = "u128")] { A = 0, B = 63, C = 64, D = 127 });
    ex!(Ru64 [ops] #[repr(u64)] { A = 0, B = 63, C = 64 });
    ex!(Smap [ops] #[enumset(serialize_repr = "map")] #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))] { A = 2, B = 3, C = 9 });
    group!(E0 E128 Ru64 Smap);
}
mod g1 {
    use super::*;
    ex!(E1 [ops] { A = 0 });
    ex!(E128s [ops, repr u128] #[enumset(repr = "u128")] { A = 100, B = 70, C = 90 });
    ex!(Ri64 [ops] #[repr(i64)] { A = 1, B = 2, C = 65 });
    ex!(Smapd [ops] #[enumset(serialize_repr = "map", serialize_deny_unknown)] #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))] { A = 4, B = 3 });
    group!(E1 E128s Ri64 Smapd);
}
mod g2 {
    use super::*;
    ex!(E1s [ops] { A = 5 });
    ex!(E130 [ops] { A = 1, B = 64, C = 129 });
    ex!(Rusize [ops] #[repr(usize)] { A = 0, B = 10, C = 20 });
    wide!(enumset(repr = "array"); D70 [ops] A B C D E F G H I J K L M N O P Q R S T U V W X Y Z A1 B1 C1 D1 E1 F1 G1 H1 I1 J1 K1 L1 M1 N1 O1 P1 Q1 R1 S1 T1 U1 V1 W1 X1 Y1 Z1 A2 B2 C2 D2 E2 F2 G2 H2 I2 J2 K2 L2 M2 N2 O2 P2 Q2 R2);
    group!(E1s E130 Rusize D70);
}
mod g3 {
    use super::*;
    /// Its own comparison lies; the sets must not care.
    #[derive(EnumSetType, Debug, Copy, Clone)]
    #[enumset(no_super_impls)]
    #[repr(u16)]
    pub enum Liar { A = 0, B = 9, C = 300 }
    impl PartialEq for Liar {
        fn eq(&self, _: &Self) -> bool {
            true
        }
    }
    impl Eq for Liar {}
    ex!(@ Liar [] { A, B, C });
    ex!(E255 [ops] { A = 255, B = 254, C = 128, D = 127, E = 1 });
    ex!(Risize [ops] #[repr(isize)] { A = 0, B = 11, C = 64 });
    group!(Liar E255 Risize);
}
mod g4 {
    use super::*;
    ex!(E1w [ops] { A = 200 });
    ex!(E257 [ops] { A = 256, B = 255, C = 1 });
    ex!(Rc [ops] #[repr(C)] { A = 0, B = 12, C = 64 });
    group!(E1w E257 Rc);
}
mod g5 {
    use super::*;
    ex!(E2 [ops] { A = 0, B = 1 });
    ex!(E1000 [ops] { A = 1000, B = 255, C = 512, D = 3 });
    ex!(Rc1 [ops] #[repr(C)] { A = 64 });
    group!(E2 E1000 Rc1);
}
mod g6 {
    use super::*;
    ex!(E3r [ops, repr u8] #[enumset(repr = "u8")] { B = 2, A = 0, C = 7 });
    ex!(Ar1 [ops] #[enumset(repr = "array")] { A = 0, B = 5, C = 63 });
    ex!(Ru641 [ops] #[repr(u64)] { A = 3 });
    group!(E3r Ar1 Ru641);
}
mod g7 {
    use super::*;
    ex!(E8 [ops] { A = 0, B = 1, C = 2, D = 3, E = 4, F = 5, G = 6, H = 7 });
    ex!(Ar2 [ops] #[enumset(repr = "array")] { A = 64, B = 63, C = 1 });
    ex!(S8 [ops] #[enumset(serialize_repr = "u8")] { A = 0, B = 3, C = 7 });
    group!(E8 Ar2 S8);
}
mod g8 {
    use super::*;
    ex!(E9 [ops] { A = 0, B = 1, C = 2, D = 3, E = 4, F = 5, G = 6, H = 7, I = 8 });
    ex!(Ar4 [ops] #[enumset(repr = "array")] { A = 200, B = 100, C = 1, D = 192 });
    ex!(S16 [ops] #[enumset(serialize_repr = "u16")] { A = 0, B = 9 });
    group!(E9 Ar4 S16);
}
mod g9 {
    use super::*;
    wide!(; D40 [ops] A B C D E F G H I J K L M N O P Q R S T U V W X Y Z A1 B1 C1 D1 E1 F1 G1 H1 I1 J1 K1 L1 M1 N1);
    ex!(Nops [] #[enumset(no_ops)] { A = 2, B = 66, C = 0 });
    ex!(S32 [ops] #[enumset(serialize_repr = "u32", serialize_deny_unknown)] { A = 0, B = 9 });
    group!(D40 Nops S32);
}
mod g10 {
    use super::*;
    ex!(E16 [ops, repr u16] #[enumset(repr = "u16")] { A = 15, B = 14, C = 0, D = 8, E = 7 });
    ex!(Ru8 [ops] #[repr(u8)] { A = 0, B = 255, C = 100 });
    ex!(S64 [ops] #[enumset(serialize_repr = "u64")] { A = 0, B = 63 });
    group!(E16 Ru8 S64);
}
mod g11 {
    use super::*;
    ex!(E32 [ops] { A = 31, B = 0, C = 16, D = 15 });
    ex!(Ri8 [ops] #[repr(i8)] { A = 0, B = 127, C = 64 });
    ex!(S128 [ops] #[enumset(serialize_repr = "u128", serialize_deny_unknown)] { A = 0, B = 100 });
    group!(E32 Ri8 S128);
}
mod g12 {
    use super::*;
    ex!(E32r [ops, repr u32] #[enumset(repr = "u32")] { A = 3, B = 0, C = 31 });
    ex!(Ru16 [ops] #[repr(u16)] { A = 0, B = 256, C = 511 });
    ex!(Sarr [ops] #[enumset(serialize_repr = "array")] { A = 0, B = 3, C = 70 });
    group!(E32r Ru16 Sarr);
}
mod g13 {
    use super::*;
    ex!(E64 [ops] { A = 0, B = 31, C = 32, D = 62, E = 63 });
    ex!(Ri16 [ops] #[repr(i16)] { A = 3, B = 0, C = 130 });
    ex!(Sarrd [ops, repr u64] #[enumset(repr = "u64", serialize_repr = "array", serialize_deny_unknown)] { A = 0, B = 3, C = 40 });
    group!(E64 Ri16 Sarrd);
}
mod g14 {
    use super::*;
    ex!(E64r [ops, repr u64] #[enumset(repr = "u64")] { A = 63, B = 1, C = 32 });
    ex!(Ru32 [ops] #[repr(u32)] { A = 0, B = 31, C = 70 });
    ex!(Slist [ops] #[enumset(serialize_repr = "list")] #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))] { A = 0, B = 3, C = 70 });
    group!(E64r Ru32 Slist);
}
mod g15 {
    use super::*;
    ex!(E65 [ops] { A = 0, B = 63, C = 64 });
    ex!(Ri32 [ops] #[repr(i32)] { A = 9, B = 0, C = 33 });
    ex!(Slistd [ops] #[enumset(serialize_repr = "list", serialize_deny_unknown)] #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))] { A = 4, B = 3 });
    group!(E65 Ri32 Slistd);
}
/// too many members for a byte; left to the native runs, the interpreter would take too long
#[cfg(not(miri))]
mod g16 {
    use super::*;
    wide!(; D300 [ops] A0 B0 C0 D0 E0 F0 G0 H0 I0 J0 K0 L0 M0 N0 O0 P0 Q0 R0 S0 T0 U0 V0 W0 X0 Y0 Z0 A1 B1 C1 D1 E1 F1 G1 H1 I1 J1 K1 L1 M1 N1 O1 P1 Q1 R1 S1 T1 U1 V1 W1 X1 Y1 Z1 A2 B2 C2 D2 E2 F2 G2 H2 I2 J2 K2 L2 M2 N2 O2 P2 Q2 R2 S2 T2 U2 V2 W2 X2 Y2 Z2 A3 B3 C3 D3 E3 F3 G3 H3 I3 J3 K3 L3 M3 N3 O3 P3 Q3 R3 S3 T3 U3 V3 W3 X3 Y3 Z3 A4 B4 C4 D4 E4 F4 G4 H4 I4 J4 K4 L4 M4 N4 O4 P4 Q4 R4 S4 T4 U4 V4 W4 X4 Y4 Z4 A5 B5 C5 D5 E5 F5 G5 H5 I5 J5 K5 L5 M5 N5 O5 P5 Q5 R5 S5 T5 U5 V5 W5 X5 Y5 Z5 A6 B6 C6 D6 E6 F6 G6 H6 I6 J6 K6 L6 M6 N6 O6 P6 Q6 R6 S6 T6 U6 V6 W6 X6 Y6 Z6 A7 B7 C7 D7 E7 F7 G7 H7 I7 J7 K7 L7 M7 N7 O7 P7 Q7 R7 S7 T7 U7 V7 W7 X7 Y7 Z7 A8 B8 C8 D8 E8 F8 G8 H8 I8 J8 K8 L8 M8 N8 O8 P8 Q8 R8 S8 T8 U8 V8 W8 X8 Y8 Z8 A9 B9 C9 D9 E9 F9 G9 H9 I9 J9 K9 L9 M9 N9 O9 P9 Q9 R9 S9 T9 U9 V9 W9 X9 Y9 Z9 A10 B10 C10 D10 E10 F10 G10 H10 I10 J10 K10 L10 M10 N10 O10 P10 Q10 R10 S10 T10 U10 V10 W10 X10 Y10 Z10 A11 B11 C11 D11 E11 F11 G11 H11 I11 J11 K11 L11 M11 N11);
    ex!(E4095 [ops] { A = 4095, B = 0, C = 2048, D = 511 });
    group!(D300 E4095);
}
/// positions past 16 bits
#[cfg(not(miri))]
mod g17 {
    use super::*;
    ex!(E65539 [ops] { A = 65539, B = 3, C = 64 });
    group!(E65539);
}
/// all but one position of a storage unit
#[cfg(not(miri))]
mod g18 {
    use super::*;
    ex!(H8 [ops] { A = 0, B = 1, C = 2, D = 3, F = 5, G = 6, H = 7 });
    wide!(enumset(repr = "u32"); R31 [ops, repr u32] A B C D E F G H I J K L M N O P Q R S T U V W X Y Z A1 B1 C1 D1 E1);
    wide!(; D63 [ops] A B C D E F G H I J K L M N O P Q R S T U V W X Y Z A1 B1 C1 D1 E1 F1 G1 H1 I1 J1 K1 L1 M1 N1 O1 P1 Q1 R1 S1 T1 U1 V1 W1 X1 Y1 Z1 A2 B2 C2 D2 E2 F2 G2 H2 I2 J2 K2);
    wide!(; D64 [ops] A B C D E F G H I J K L M N O P Q R S T U V W X Y Z A1 B1 C1 D1 E1 F1 G1 H1 I1 J1 K1 L1 M1 N1 O1 P1 Q1 R1 S1 T1 U1 V1 W1 X1 Y1 Z1 A2 B2 C2 D2 E2 F2 G2 H2 I2 J2 K2 L2);
    group!(H8 R31 D63 D64);
}
#[cfg(not(miri))]
mod g19 {
    use super::*;
    wide!(enumset(repr = "u128"); R128d [ops, repr u128] A B C D E F G H I J K L M N O P Q R S T U V W X Y Z A1 B1 C1 D1 E1 F1 G1 H1 I1 J1 K1 L1 M1 N1 O1 P1 Q1 R1 S1 T1 U1 V1 W1 X1 Y1 Z1 A2 B2 C2 D2 E2 F2 G2 H2 I2 J2 K2 L2 M2 N2 O2 P2 Q2 R2 S2 T2 U2 V2 W2 X2 Y2 Z2 A3 B3 C3 D3 E3 F3 G3 H3 I3 J3 K3 L3 M3 N3 O3 P3 Q3 R3 S3 T3 U3 V3 W3 X3 Y3 Z3 A4 B4 C4 D4 E4 F4 G4 H4 I4 J4 K4 L4 M4 N4 O4 P4 Q4 R4 S4 T4 U4 V4 W4 X4);
    group!(R128d);
}
fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let opt = |k: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].clone());
    let (part, of) = opt("--part").map(|p| { let (x, y) = p.split_once('/').unwrap(); (x.parse::<usize>().unwrap(), y.parse::<usize>().unwrap()) }).unwrap_or((0, 1));
    let mut t = Tx { name: String::new(), h: 0, n: 0, dump: opt("--dump"), full: opt("--size").as_deref() == Some("full"), small: opt("--size").as_deref() == Some("small"), total: 0 };
    std::panic::set_hook(Box::new(|_| {}));
    let only = opt("--enum");
    let mut k = 0;
    g0::run(&mut t, &mut k, part, of, only.as_deref()); g1::run(&mut t, &mut k, part, of, only.as_deref()); g2::run(&mut t, &mut k, part, of, only.as_deref()); g3::run(&mut t, &mut k, part, of, only.as_deref()); g4::run(&mut t, &mut k, part, of, only.as_deref()); g5::run(&mut t, &mut k, part, of, only.as_deref()); g6::run(&mut t, &mut k, part, of, only.as_deref()); g7::run(&mut t, &mut k, part, of, only.as_deref()); g8::run(&mut t, &mut k, part, of, only.as_deref()); g9::run(&mut t, &mut k, part, of, only.as_deref()); g10::run(&mut t, &mut k, part, of, only.as_deref()); g11::run(&mut t, &mut k, part, of, only.as_deref()); g12::run(&mut t, &mut k, part, of, only.as_deref()); g13::run(&mut t, &mut k, part, of, only.as_deref()); g14::run(&mut t, &mut k, part, of, only.as_deref()); g15::run(&mut t, &mut k, part, of, only.as_deref());
    #[cfg(not(miri))]
    {
        g16::run(&mut t, &mut k, part, of, only.as_deref());
        g17::run(&mut t, &mut k, part, of, only.as_deref());
        g18::run(&mut t, &mut k, part, of, only.as_deref());
        g19::run(&mut t, &mut k, part, of, only.as_deref());
    }
    t.close();
    println!("end {k} {}", t.total);
}
