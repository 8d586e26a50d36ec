"""The planted bugs: textual edits of /repo's files, and the program that shows each one.

tools/seed.py turns these into /verif/seeded/<id>/ and confirms every one of them.
"""
SET = "enumset/src/set.rs"
ARR = "enumset/src/repr/array.rs"
PRIM = "enumset/src/repr/primitive.rs"
MAC = "enumset/src/macros.rs"
DER = "enumset_derive/src/lib.rs"

BUGS = []


def bug(id, prop, edits, needs, breaks, main, kind="run", features=("serde", "alloc"), bad=None):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, main=main, kind=kind,
                     features=list(features), bad=bad))


HEAD = "#![allow(dead_code, unused)]\nuse enumset::*;\n"

bug("c01-array-empty-sum", "C01",
    [(ARR, "        self.0.iter().all(|x| *x == 0)\n",
      "        self.0.iter().fold(0u64, |sum, x| sum.wrapping_add(*x)) == 0\n")],
    "an array-backed set whose words add up to a multiple of 2^64, such as the members 63 and 127",
    "is_empty and is_disjoint call a two-element set empty",
    HEAD + """
#[derive(EnumSetType, Debug)]
enum E { A = 63, B = 127, C = 130 }
fn main() {
    let ab = E::A | E::B;
    assert_eq!(ab.len(), 2);
    assert!(!ab.is_empty(), "a set of two members is empty");
    assert!(!ab.is_disjoint(EnumSet::all()), "a set is disjoint from a superset of it");
}
""")

bug("c01-and-not-break", "C01",
    [(ARR, """            new.0[i] = self.0[i] & !other.0[i];
        }
        new
""", """            if other.0[i] == !0 {
                break;
            }
            new.0[i] = self.0[i] & !other.0[i];
        }
        new
""")],
    "an array-backed difference whose right side fills a whole word while the left side has members above it",
    "the difference loses the members above the full word",
    HEAD + """
macro_rules! e { ($($n:ident)*) => { #[derive(EnumSetType, Debug)] enum E { $($n,)* Top = 70 } } }
e!(V0 V1 V2 V3 V4 V5 V6 V7 V8 V9 V10 V11 V12 V13 V14 V15 V16 V17 V18 V19 V20 V21 V22 V23 V24 V25 V26 V27 V28 V29 V30 V31
   V32 V33 V34 V35 V36 V37 V38 V39 V40 V41 V42 V43 V44 V45 V46 V47 V48 V49 V50 V51 V52 V53 V54 V55 V56 V57 V58 V59 V60 V61 V62 V63);
fn main() {
    let low = EnumSet::all() ^ E::Top;
    assert_eq!(low.len(), 64);
    let d = EnumSet::<E>::all() - low;
    assert!(d.contains(E::Top), "the difference lost a member: {:?}", d);
}
""")

bug("c02-xor-assign-overlap", "C02",
    [(SET, "        *self = *self ^ rhs;\n",
      """        let rhs = rhs.into();
        if self.is_subset(rhs) {
            // everything in this set is toggled off
            self.clear();
        } else {
            *self = *self ^ rhs;
        }
""")],
    "an in-place symmetric difference with a proper superset",
    "^= drops the members only the right side has",
    HEAD + """
#[derive(EnumSetType, Debug)]
enum E { A, B, C, D }
fn main() {
    let mut s = E::A | E::B;
    s ^= E::A | E::B | E::C;
    assert_eq!(s, EnumSet::only(E::C));
}
""")

bug("c02-insert-all-low-word", "C02",
    [(SET, "        self.__priv_repr = self.__priv_repr | other.__priv_repr\n",
      """        if self.__priv_repr.trailing_zeros() != other.__priv_repr.leading_zeros() {
            self.__priv_repr = self.__priv_repr | other.__priv_repr
        } else if self.is_empty() {
            *self = other;
        }
""")],
    "an insert_all of a set whose number of leading zeros equals the receiver's trailing zeros",
    "insert_all skips the insertion on such pairs",
    HEAD + """
#[derive(EnumSetType, Debug)]
enum E { A, B, C, D, E, F, G, H }
fn main() {
    let mut s = EnumSet::only(E::B); // 1 trailing zero
    s.insert_all(EnumSet::only(E::G)); // 1 leading zero
    assert_eq!(s, E::B | E::G);
}
""")

bug("c03-array-nth-skip", "C03",
    [(ARR, """        (sum, Some(sum))
    }
""", """        (sum, Some(sum))
    }

    fn nth(&mut self, mut n: usize) -> Option<Self::Item> {
        if self.done {
            return None;
        }
        // skip whole words first
        while n >= self.data[self.idx_f].0.count_ones() as usize {
            n -= self.data[self.idx_f].0.count_ones() as usize;
            self.idx_f += 1;
        }
        for _ in 0..n {
            self.data[self.idx_f].next();
        }
        self.next()
    }
"""), (SET, """    fn size_hint(&self) -> (usize, Option<usize>) {
        self.iter.size_hint()
    }
}
""", """    fn size_hint(&self) -> (usize, Option<usize>) {
        self.iter.size_hint()
    }
    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        self.iter.nth(n).map(|x| unsafe { T::enum_from_u32(x) })
    }
}
""")],
    "nth with an index beyond the members left in an array-backed set",
    "the iterator panics instead of giving None",
    HEAD + """
#[derive(EnumSetType, Debug)]
enum E { A = 1, B = 2, C = 100, D = 180 }
fn main() {
    for front in 0..4 { for back in 0..4 - front { for n in 0..6 {
        let mut i = EnumSet::<E>::all().iter();
        let mut j = EnumSet::<E>::all().iter();
        for _ in 0..front { i.next(); j.next(); }
        for _ in 0..back { i.next_back(); j.next_back(); }
        let a = i.nth(n);
        let mut b = None;
        for _ in 0..=n { b = j.next(); }
        assert_eq!(a, b, "nth({}) after {} and {}", n, front, back);
        assert_eq!(i.len(), j.len());
        assert_eq!(i.collect::<Vec<_>>(), j.collect::<Vec<_>>());
    } } }
}
""")

bug("c03-prim-iter-nth", "C03",
    [(PRIM, """        let left = self.0.count_ones() as usize;
        (left, Some(left))
    }
""", """        let left = self.0.count_ones() as usize;
        (left, Some(left))
    }

    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        if n > self.0.count_ones() as usize {
            return None;
        }
        for _ in 0..n {
            self.next();
        }
        self.next()
    }
"""), (SET, """    fn size_hint(&self) -> (usize, Option<usize>) {
        self.iter.size_hint()
    }
}
""", """    fn size_hint(&self) -> (usize, Option<usize>) {
        self.iter.size_hint()
    }
    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        self.iter.nth(n).map(|x| unsafe { T::enum_from_u32(x) })
    }
}
""")],
    "nth with an index beyond the number of members left, and a further use of the same iterator",
    "the iterator still yields the members that nth should have consumed",
    HEAD + """
#[derive(EnumSetType, Debug)]
enum E { A, B, C }
fn main() {
    let mut i = EnumSet::<E>::all().iter();
    assert_eq!(i.nth(7), None);
    assert_eq!(i.next(), None, "nth past the end consumes everything");
}
""")

bug("c04-sum-xor", "C04",
    [(SET, """impl<'a, T: EnumSetType> Sum<&'a EnumSet<T>> for EnumSet<T> {
    fn sum<I: Iterator<Item = &'a Self>>(iter: I) -> Self {
        iter.fold(EnumSet::empty(), |a, v| a | *v)
""", """impl<'a, T: EnumSetType> Sum<&'a EnumSet<T>> for EnumSet<T> {
    fn sum<I: Iterator<Item = &'a Self>>(iter: I) -> Self {
        iter.fold(EnumSet::empty(), |a, v| a ^ *v)
""")],
    "a sum over references to sets of which two overlap",
    "members present an even number of times are missing from the sum",
    HEAD + """
#[derive(EnumSetType, Debug)]
enum E { A, B, C }
fn main() {
    let v = [E::A | E::B, E::B | E::C];
    let s: EnumSet<E> = v.iter().sum();
    assert_eq!(s, EnumSet::all());
}
""")

bug("c04-extend-sets-superset", "C04",
    [(SET, """        iter.into_iter().for_each(|v| {
            self.insert_all(v);
        });
""", """        let mut iter = iter.into_iter();
        while let Some(v) = iter.next() {
            // nothing can be added to a full set
            if self.len() + v.len() > T::VARIANT_COUNT as usize && self.is_superset(v) {
                break;
            }
            self.insert_all(v);
        }
""")],
    "a sequence of sets in which a redundant large set comes before one that adds something",
    "the sets after the redundant one are not added",
    HEAD + """
#[derive(EnumSetType, Debug)]
enum E { A, B, C, D }
fn main() {
    let abc = E::A | E::B | E::C;
    let s: EnumSet<E> = [abc, E::A | E::B, EnumSet::only(E::D)].into_iter().collect();
    assert_eq!(s, EnumSet::all());
}
""")

bug("c05-complement-full-width", "C05",
    [(SET, "        EnumSet { __priv_repr: !self.__priv_repr & T::ALL_BITS }\n",
      """        if T::BIT_WIDTH == <T::Repr as EnumSetTypeRepr>::WIDTH
            && <T::Repr as EnumSetTypeRepr>::PREFERRED_ARRAY_LEN == 1
        {
            // every bit of the representation is in use
            EnumSet { __priv_repr: !self.__priv_repr }
        } else {
            EnumSet { __priv_repr: !self.__priv_repr & T::ALL_BITS }
        }
""")],
    "a sparse enum whose largest discriminant is the top bit of its representation",
    "the complement contains bits of no variant",
    HEAD + """
#[derive(EnumSetType, Debug)]
enum E { A = 2, B = 5, C = 15 }
fn main() {
    let c = !EnumSet::only(E::A);
    assert_eq!(c.len(), 2);
    assert_eq!(c, E::B | E::C);
}
""")

bug("c12-complement-inner-words", "C12",
    [(DER, "                            let new = !chain.__priv_repr.0[i] & all.__priv_repr.0[i];\n",
      """                            // inner words that reach both ends have no unused bits
                            let mask = all.__priv_repr.0[i];
                            let new = if i + 1 < #size && mask & 1 != 0 && mask >> 63 != 0 {
                                !chain.__priv_repr.0[i]
                            } else {
                                !chain.__priv_repr.0[i] & mask
                            };
""")],
    "enum_set_complement! of an array-backed enum with a hole in a word below its last one whose ends are both in use",
    "the constant set contains bits of no variant",
    HEAD + """
#[derive(EnumSetType, Debug)]
enum E { A = 0, B = 63, C = 130 }
const A: EnumSet<E> = enum_set!(E::A);
const NOT_A: EnumSet<E> = enum_set_complement!(A);
fn main() {
    assert_eq!(NOT_A.len(), 2);
    assert_eq!(NOT_A, !A);
}
""")

bug("c06-array-opt-second-word", "C06",
    [(ARR, """    fn to_u128_opt(&self) -> Option<u128> {
        for i in 2..N {
            if self.0[i] != 0 {
                return None;
            }
        }
        Some(self.to_u128())
""", """    fn to_u128_opt(&self) -> Option<u128> {
        if N > 2 && self.0[N - 1] != 0 {
            return None;
        }
        Some(self.to_u128())
""")],
    "a set of an enum with four or more words whose largest member is above bit 127 but not in the last word",
    "try_as_u128 gives an integer without that member instead of None",
    HEAD + """
#[derive(EnumSetType, Debug)]
enum E { A = 1, B = 130, C = 200 }
fn main() {
    assert_eq!((E::A | E::B).try_as_u128(), None);
    assert_eq!((E::A | E::C).try_as_u128(), None);
}
""")

bug("c06-usize-truncates", "C06",
    [(ARR, "        self.to_u64_opt().and_then(|x| x.to_usize_opt())\n",
      "        self.to_u64_opt().map(|x| x.to_usize())\n"),
     (PRIM, "                    (*self).try_into().ok()\n                }\n\n                #[inline(always)]\n"
      "                fn to_u64_array<",
      "                    self.to_u64_opt().map(|x| x as usize)\n                }\n\n                #[inline(always)]\n"
      "                fn to_u64_array<")],
    "a 32-bit platform and a set with a member from bit 32 up",
    "try_as_usize silently drops the member instead of giving None",
    HEAD + """
#[derive(EnumSetType, Debug)]
enum E { A = 1, B = 40 }
fn main() {
    let got = (E::A | E::B).try_as_usize();
    if usize::BITS == 32 { assert_eq!(got, None); } else { assert_eq!(got, Some((1 << 1) | (1 << (40 % usize::BITS)))); }
}
""", kind="miri i686-unknown-linux-gnu")

bug("c07-u128-array-one-word", "C07",
    [(ARR, """        if N == 1 && (v >> 64) != 0 {
            None
        } else {
            Some(Self::from_u128(v))
        }
""", "        Some(Self::from_u128(v))\n")],
    "an enum stored as a one-word array and a u128 with a bit above 63",
    "try_from_u128 accepts an integer with bits of no variant",
    HEAD + """
#[derive(EnumSetType, Debug)]
#[enumset(repr = "array")]
enum E { A, B, C }
fn main() {
    assert_eq!(EnumSet::<E>::try_from_u128(0b101), Some(E::A | E::C));
    assert_eq!(EnumSet::<E>::try_from_u128((1 << 70) | 0b101), None);
}
""")

bug("c07-truncated-mask-width", "C07",
    [(SET, """                let mask = Self::all().$to_truncated();
                let bits = <T::Repr as EnumSetTypeRepr>::$from_fn(bits & mask);
                EnumSet { __priv_repr: bits }
""", """                let bits = <T::Repr as EnumSetTypeRepr>::$from_fn(bits);
                if T::BIT_WIDTH == T::VARIANT_COUNT && T::BIT_WIDTH % 8 == 0 {
                    // there are no unused bits
                    return EnumSet { __priv_repr: bits };
                }
                EnumSet { __priv_repr: bits & T::ALL_BITS }
""")],
    "an enum whose variants fill whole bytes but not the representation, such as 24 variants in a u32",
    "from_*_truncated keeps bits of no variant",
    HEAD + """
#[derive(EnumSetType, Debug)]
enum E { A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q, R, S, T, U, V, W, X }
fn main() {
    assert_eq!(EnumSet::<E>::from_u32_truncated(0x0100_0001), EnumSet::only(E::A));
}
""")

bug("c08-slice-dirty-word", "C08",
    [(PRIM, "                    for i in $preferred_array_len..out.len() {\n",
      "                    for i in 2..out.len() {\n")],
    "copying a set of at most 64 bits into a slice of two or more words whose second word is not zero",
    "the second word keeps its old content",
    HEAD + """
#[derive(EnumSetType, Debug)]
enum E { A, B, C }
fn main() {
    let mut out = [7u64; 3];
    (E::A | E::C).copy_into_slice(&mut out);
    assert_eq!(out, [0b101, 0, 0]);
}
""")

bug("c08-slice-lost-words-sum", "C08",
    [(ARR, """            for i in out.len()..N {
                if self.0[i] != 0 {
                    return None;
                }
            }
        }
        self.to_u64_slice(out);
""", """            let lost = self.0[out.len()..].iter().fold(0u64, |a, x| a.wrapping_add(*x));
            if lost != 0 {
                return None;
            }
        }
        self.to_u64_slice(out);
""")],
    "a destination two or more words too short, and a set whose words that do not fit add up to 2^64",
    "try_copy_into_slice reports success although members were dropped",
    HEAD + """
#[derive(EnumSetType, Debug)]
enum E { A = 1, B = 127, C = 191 }
fn main() {
    let mut out = [0u64; 1];
    assert_eq!((E::A | E::B).try_copy_into_slice(&mut out), None);
    assert_eq!((E::A | E::B | E::C).try_copy_into_slice(&mut out), None);
}
""")

bug("c08-slice-write-then-refuse", "C08",
    [(PRIM, """                    if out.len() == 0 && *self != 0 {
                        None
                    } else if out.len() == 1 && hi(*self) != 0 {
                        None
                    } else {
                        self.to_u64_slice(out);
                        Some(())
                    }
""", """                    self.to_u64_slice(out);
                    if out.len() == 0 && *self != 0 {
                        None
                    } else if out.len() == 1 && hi(*self) != 0 {
                        None
                    } else {
                        Some(())
                    }
""")],
    "a set stored as u128 with a member from bit 64 up, and a one-word destination that the caller goes on using",
    "a refused export has overwritten the caller's slice",
    HEAD + """
#[derive(EnumSetType, Debug)]
#[enumset(repr = "u128")]
enum E { A = 1, B = 70 }
fn main() {
    let mut out = [7u64; 1];
    assert_eq!((E::A | E::B).try_copy_into_slice(&mut out), None);
    assert_eq!(out, [7]);
}
""")

bug("c09-slice-extra-words-xor", "C09",
    [(ARR, """            for i in N..v.len() {
                if v[i] != 0 {
                    return None;
                }
            }
""", """            if v[N..].iter().fold(0, |a, x| a ^ x) != 0 {
                return None;
            }
""")],
    "a slice two or more words longer than the representation whose foreign words cancel out",
    "try_from_slice accepts words with bits of no variant",
    HEAD + """
#[derive(EnumSetType, Debug)]
enum E { A = 1, B = 70 }
fn main() {
    assert_eq!(EnumSet::<E>::try_from_slice(&[2, 64, 0]), Some(EnumSet::all()));
    assert_eq!(EnumSet::<E>::try_from_slice(&[2, 64, 1, 1]), None);
}
""")

bug("c09-prim-array-shift", "C09",
    [(PRIM, """                    } else if O > 1 && $preferred_array_len == 2 {
                        Self::from_u128(v[0] as u128 | ((v[1] as u128) << 64))
                    } else {
                        Self::from_u64(v[0])
                    }
                }
                #[inline(always)]
                fn from_u64_array_opt""", """                    } else if O == 2 && $preferred_array_len == 2 {
                        Self::from_u128(v[0] as u128 | ((v[1] as u128) << 64))
                    } else {
                        Self::from_u64(v[0])
                    }
                }
                #[inline(always)]
                fn from_u64_array_opt""")],
    "from_array_truncated of three or more words into a set stored as u128",
    "members from bit 64 up are lost",
    HEAD + """
#[derive(EnumSetType, Debug)]
#[enumset(repr = "u128")]
enum E { A = 1, B = 70 }
fn main() {
    assert_eq!(EnumSet::<E>::from_array_truncated([2, 64, 0]), EnumSet::all());
}
""")

bug("c10-repr-holes", "C10",
    [(SET, """        let mask = Self::all().__priv_repr;
        if bits.and_not(mask).is_empty() {
            Some(EnumSet { __priv_repr: bits })
        } else {
            None
        }
    }

    /// Constructs a bitset from a `T::Repr`, ignoring""", """        let width = <T as EnumSetTypeWithRepr>::Repr::WIDTH;
        if width - bits.leading_zeros() <= T::BIT_WIDTH {
            Some(EnumSet { __priv_repr: bits })
        } else {
            None
        }
    }

    /// Constructs a bitset from a `T::Repr`, ignoring""")],
    "an enum with an explicit repr and a hole between its discriminants, and bits that set the hole",
    "try_from_repr and from_repr accept bits of no variant",
    HEAD + """
#[derive(EnumSetType, Debug)]
#[enumset(repr = "u8")]
enum E { A = 0, B = 2 }
fn main() {
    assert_eq!(EnumSet::<E>::try_from_repr(0b101), Some(EnumSet::all()));
    assert_eq!(EnumSet::<E>::try_from_repr(0b010), None);
}
""")

bug("c11-array-ord", "C11",
    [(ARR, "#[derive(Copy, Clone, Eq, PartialEq, Ord, PartialOrd, Debug, Hash)]\n",
      "#[derive(Copy, Clone, Eq, PartialEq, PartialOrd, Debug, Hash)]\n"),
     (ARR, "impl<const N: usize> BitAnd for ArrayRepr<N> {\n",
      """impl<const N: usize> Ord for ArrayRepr<N> {
    /// The order of the large integer the words make up.
    fn cmp(&self, other: &Self) -> core::cmp::Ordering {
        self.0.iter().rev().cmp(other.0.iter().rev())
    }
}

impl<const N: usize> BitAnd for ArrayRepr<N> {
""")],
    "two array-backed sets whose lowest and highest differing words disagree about the order",
    "partial_cmp (and <, >) contradicts cmp (and sort, BTreeMap)",
    HEAD + """
#[derive(EnumSetType, Debug)]
enum E { A = 1, B = 2, C = 130 }
fn main() {
    let sets = [EnumSet::only(E::A), EnumSet::only(E::B), E::A | E::C, E::B | E::C, EnumSet::only(E::C)];
    for a in sets { for b in sets {
        assert_eq!(a.partial_cmp(&b), Some(a.cmp(&b)), "{:?} {:?}", a, b);
    } }
}
""")

bug("c12-difference-chain", "C12",
    [(MAC, "                helper.const_intersection(value, helper.const_complement(new))\n",
      "                helper.const_symmetric_difference(value, helper.const_intersection(new, new))\n")],
    "enum_set_difference! whose right side has a member the left side lacks",
    "the constant set gains that member",
    HEAD + """
#[derive(EnumSetType, Debug)]
enum E { A, B, C, D }
const AB: EnumSet<E> = enum_set!(E::A | E::B);
const BC: EnumSet<E> = enum_set!(E::B | E::C);
const D: EnumSet<E> = enum_set_difference!(AB, BC);
fn main() {
    assert_eq!(D, AB - BC);
}
""")

bug("c12-array-xor-full-word", "C12",
    [(DER, "                            chain_a.__priv_repr.0[i] ^= chain_b.__priv_repr.0[i];\n",
      """                            // a full word inverts the other one
                            if chain_a.__priv_repr.0[i] == !0 {
                                chain_a.__priv_repr.0[i] = !chain_b.__priv_repr.0[i];
                            } else if chain_b.__priv_repr.0[i] != !0 {
                                chain_a.__priv_repr.0[i] ^= chain_b.__priv_repr.0[i];
                            }
""")],
    "enum_set_symmetric_difference! whose right side has all 64 members of one word and whose left side has not",
    "that word of the constant is left as it was instead of being inverted",
    HEAD + """
macro_rules! many { ($($n:ident)*) => {
    #[derive(EnumSetType, Debug)]
    enum E { $($n),* }
} }
many!(A0 A1 A2 A3 A4 A5 A6 A7 A8 A9 B0 B1 B2 B3 B4 B5 B6 B7 B8 B9 C0 C1 C2 C3 C4 C5 C6 C7 C8 C9 D0 D1 D2 D3 D4 D5 D6 D7 D8 D9
      E0 E1 E2 E3 E4 E5 E6 E7 E8 E9 F0 F1 F2 F3 F4 F5 F6 F7 F8 F9 G0 G1 G2 G3 G4 G5);
const ALL: EnumSet<E> = EnumSet::all();
const L: EnumSet<E> = enum_set!(E::A1 | E::G5);
const X: EnumSet<E> = enum_set_symmetric_difference!(L, ALL);
fn main() {
    assert_eq!(X, L ^ ALL);
}
""")

bug("c13-implicit-after-lower", "C13",
    [(DER, """            self.cur_discrim += 1;
            if discriminant > self.max_discrim {
                self.max_discrim = discriminant;
                self.max_discrim_span = Some(variant.span());
            }
""", """            if discriminant > self.max_discrim {
                self.max_discrim = discriminant;
                self.max_discrim_span = Some(variant.span());
            }
            self.cur_discrim = self.max_discrim + 1;
""")],
    "a variant without a discriminant after one with an explicit discriminant below an earlier one",
    "the derive counts on from the largest discriminant, so the variant's bit and the set of all variants disagree",
    HEAD + """
#[derive(EnumSetType, Debug)]
enum E { A = 9, B = 3, C }
fn main() {
    assert_eq!(EnumSet::only(E::C).as_u16(), 1 << 4);
    assert!(EnumSet::<E>::all().contains(E::C));
    assert_eq!(EnumSet::<E>::bit_width(), 10);
}
""")

bug("c13-max-last", "C13",
    [(DER, "            if discriminant > self.max_discrim {\n",
      "            if discriminant > self.max_discrim || variant.discriminant.is_some() {\n")],
    "an enum whose last explicit discriminant is not its largest one",
    "bit_width and the storage follow the last explicit discriminant instead of the largest",
    HEAD + """
#[derive(EnumSetType, Debug)]
enum E { A = 6, B = 2 }
fn main() {
    assert_eq!(EnumSet::<E>::bit_width(), 7);
}
""")

bug("c14-serde-u128-unchecked", "C14",
    [(DER, "            SerdeRepr::U128 => Some(128),\n", "            SerdeRepr::U128 => None,\n")],
    "serialize_repr = \"u128\" on an enum with a discriminant from 128 up",
    "the derive accepts the enum, whose sets then lose members when serialized",
    HEAD + """
#[derive(EnumSetType, Debug)]
#[enumset(serialize_repr = "u128")]
enum E { A = 1, B = 130 }
fn main() {
    let s = E::A | E::B;
    assert_eq!(s.len(), 2);
}
""", kind="reject")

bug("c14-discriminant-wraps", "C14",
    [(DER, """                    match i.base10_parse() {
                        Ok(val) => self.cur_discrim = val,
""", """                    match i.base10_parse::<u64>() {
                        Ok(val) => self.cur_discrim = val as u32,
""")],
    "a discriminant above 32 bits whose low 32 bits are a valid discriminant",
    "the derive accepts the enum and uses the low 32 bits as the variant's position",
    HEAD + """
#[derive(EnumSetType, Debug)]
enum E { A = 1, B = 0x1_0000_0003 }
fn main() {
    let s = E::A | E::B;
    assert_eq!(s.len(), 2);
}
""", kind="reject")

bug("c15-u128-boundary", "C15",
    [(DER, "                x if x < 128 => SerdeRepr::U128,\n", "                x if x < 127 => SerdeRepr::U128,\n")],
    "an enum whose largest discriminant is exactly 127, without serialize_repr",
    "its sets are written as a list of words instead of a u128",
    HEAD + """
#[derive(EnumSetType, Debug)]
enum E { A = 1, B = 127 }
fn main() {
    let s: EnumSet<E> = E::A | E::B;
    assert_eq!(serde_json::to_string(&s).unwrap(), format!("{}", 2u128 | (1 << 127)));
}
""")

bug("c16-list-duplicates", "C16",
    [(DER, """                                accum |= val;
                            }
                            #core::prelude::v1::Ok(accum)
                        }
                    }
                    de.deserialize_seq(__Visitor)
""", """                                accum ^= val;
                            }
                            #core::prelude::v1::Ok(accum)
                        }
                    }
                    de.deserialize_seq(__Visitor)
""")],
    "a list in which a variant is given twice",
    "the variant is missing from the set read",
    HEAD + """
#[derive(EnumSetType, Debug, serde_derive::Serialize, serde_derive::Deserialize)]
#[enumset(serialize_repr = "list")]
enum E { A, B, C }
fn main() {
    let s: EnumSet<E> = serde_json::from_str("[\\"A\\",\\"B\\",\\"A\\"]").unwrap();
    assert_eq!(s, E::A | E::B);
}
""")

bug("c16-map-full-early", "C16",
    [(DER, """                                if is_present {
                                    accum |= val;
                                }
""", """                                if is_present {
                                    accum |= val;
                                    if accum == #enumset::EnumSet::<#name>::all() {
                                        break;
                                    }
                                }
""")],
    "a map that goes on after every variant has been given as true",
    "the entries after it are not read, and the reader reports trailing input",
    HEAD + """
#[derive(EnumSetType, Debug, serde_derive::Serialize, serde_derive::Deserialize)]
#[enumset(serialize_repr = "map")]
enum E { A, B, C }
fn main() {
    let s: EnumSet<E> = serde_json::from_str("{\\"A\\":true,\\"B\\":true,\\"C\\":true,\\"B\\":true}").unwrap();
    assert_eq!(s, EnumSet::all());
}
""")

bug("c17-array-length-boundary", "C17",
    [(DER, """                    let mut end = array.len();
                    for i in (0..array.len()).rev() {
                        if array[i] != 0 {
                            break;
                        }
                        end = i + 1;
                    }
""", """                    let end = match set.iter().next_back() {
                        #core::prelude::v1::Some(x) => (x as usize + 1) / 64 + 1,
                        #core::prelude::v1::None => 0,
                    };
"""), (DER, "                    // find the last non-zero value in the array\n",
       "                    // find the number of words in use\n")],
    "a set with a member at the very top bit of an array-backed enum",
    "serializing it panics",
    HEAD + """
#[derive(EnumSetType, Debug)]
enum E { A = 1, B = 70, C = 191 }
fn main() {
    let s: EnumSet<E> = E::A | E::C;
    let t: EnumSet<E> = serde_json::from_str(&serde_json::to_string(&s).unwrap()).unwrap();
    assert_eq!(s, t);
}
""")

bug("c17-one-extra-word", "C17",
    [(DER, """                            while let #core::prelude::v1::Some(_val) = seq.next_element::<u64>()? {
                                #check_extra
                            }
""", """                            if let #core::prelude::v1::Some(_val) = seq.next_element::<u64>()? {
                                #check_extra
                            }
""")],
    "reading a list two or more words longer than the representation",
    "the rest of the list is left unread, which the format reports as an error",
    HEAD + """
#[derive(EnumSetType, Debug)]
#[enumset(serialize_repr = "array")]
enum E { A = 1, B = 70 }
fn main() {
    let s: EnumSet<E> = serde_json::from_str("[2,64,0,0,0]").expect("zero words at the end are harmless");
    assert_eq!(s, EnumSet::all());
}
""")

bug("c18-dense-keeps-bits", "C18",
    [(DER, """                    #core::prelude::v1::Ok(#enumset::EnumSet {
                        __priv_repr: value & #all_variants,
                    })
""", """                    #core::prelude::v1::Ok(#enumset::EnumSet {
                        __priv_repr: #masked,
                    })
"""), (DER, "            let try_from_fn = format_ident!(\"try_{}\", from_fn.to_string());\n",
       """            let try_from_fn = format_ident!("try_{}", from_fn.to_string());
            // no mask is needed if the variants fill up all bytes
            let masked = if info.variants.len() % 8 == 0
                && info.variants.len() as u32 == info.max_discrim + 1
            {
                quote! { value }
            } else {
                quote! { value & #all_variants }
            };
""")],
    "an enum whose variants fill whole bytes but not the integer, such as 24 variants, and an integer with a bit above",
    "the unknown bit is kept in the set",
    HEAD + """
#[derive(EnumSetType, Debug)]
enum E { A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q, R, S, T, U, V, W, X }
fn main() {
    let s: EnumSet<E> = serde_json::from_str(&format!("{}", 1u32 | (1 << 30))).unwrap();
    assert_eq!(s.len(), 1);
    assert_eq!(s, EnumSet::only(E::A));
}
""")

bug("c18-array-only-first-extra", "C18",
    [(DER, """                            while let #core::prelude::v1::Some(_val) = seq.next_element::<u64>()? {
                                #check_extra
                            }
""", """                            if let #core::prelude::v1::Some(_val) = seq.next_element::<u64>()? {
                                #check_extra
                            }
                            while let #core::prelude::v1::Some(_) = seq.next_element::<u64>()? {}
""")],
    "serialize_deny_unknown with the array format, and a list two or more words too long whose foreign bit is in the last",
    "the unknown bit is ignored instead of refused",
    HEAD + """
#[derive(EnumSetType, Debug)]
#[enumset(serialize_repr = "array", serialize_deny_unknown)]
enum E { A = 1, B = 70 }
fn main() {
    assert!(serde_json::from_str::<EnumSet<E>>("[2,64,0,0]").is_ok());
    assert!(serde_json::from_str::<EnumSet<E>>("[2,64,0,5]").is_err());
}
""")

bug("c19-bad-element-ends-list", "C19",
    [(DER, "                            while let #core::prelude::v1::Some(val) = seq.next_element::<#name>()? {\n",
      "                            while let #core::prelude::v1::Ok(#core::prelude::v1::Some(val)) =\n"
      "                                seq.next_element::<#name>()\n                            {\n")],
    "a list with an element that cannot be read, from a format that does not notice the unread rest",
    "the error is taken for the end of the list",
    HEAD + """
use serde::de::*;
#[derive(EnumSetType, Debug, serde_derive::Serialize, serde_derive::Deserialize)]
#[enumset(serialize_repr = "list")]
enum E { A, B, C }
struct Seq(usize);
impl<'de> Deserializer<'de> for Seq {
    type Error = value::Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Self::Error> { v.visit_seq(self) }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf
        option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
impl<'de> SeqAccess<'de> for Seq {
    type Error = value::Error;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Self::Error> {
        self.0 += 1;
        if self.0 == 1 { seed.deserialize("A".into_deserializer()).map(Some) }
        else { Err(Error::custom("the connection was lost")) }
    }
}
fn main() {
    let r = <EnumSet<E> as serde::Deserialize>::deserialize(Seq(0));
    assert!(r.is_err(), "a failing reader gave {:?}", r);
}
""", kind="run")

bug("c19-map-end-swallowed", "C19",
    [(DER, """                    for bit in set {
                        map.serialize_entry(&bit, &true)?;
                    }
                    map.end()
""", """                    for bit in set {
                        if map.serialize_key(&bit).is_ok() {
                            map.serialize_value(&true)?;
                        }
                    }
                    map.end()
""")],
    "a writer that fails while it writes a key of the map format",
    "the member is left out and the serialization succeeds",
    HEAD + """
#[derive(EnumSetType, Debug, serde_derive::Deserialize)]
#[enumset(serialize_repr = "map")]
enum E { A, B, C }
impl serde::Serialize for E {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self { E::B => Err(serde::ser::Error::custom("B cannot be written")), x => s.serialize_str(&format!("{:?}", x)) }
    }
}
fn main() {
    let r = serde_json::to_string(&(E::A | E::B));
    assert!(r.is_err(), "a failing element gave {:?}", r);
}
""", kind="run")

bug("c20-debug-flags", "C20",
    [(SET, """        f.write_str("EnumSet(")?;
        for v in self.iter() {
            if !is_first {
                f.write_str(" | ")?;
            }
            is_first = false;
            v.fmt(f)?;
        }
""", """        f.write_str("EnumSet(")?;
        for v in self.iter() {
            if !is_first {
                f.write_str(" | ")?;
            }
            is_first = false;
            write!(f, "{:?}", v)?;
        }
""")],
    "Debug formatting with flags, such as {:#?}, {:5?} or {:x?}, of members that look at them",
    "the flags are not passed on to the members",
    HEAD + """
#[derive(EnumSetType)]
enum E { A = 10, B = 11 }
impl std::fmt::Debug for E {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Debug::fmt(&(*self as u8), f) }
}
fn main() {
    assert_eq!(format!("{:x?}", EnumSet::<E>::all()), "EnumSet(a | b)");
}
""")

bug("c20-display-separator-error", "C20",
    [(SET, """        let mut is_first = true;
        for v in self.iter() {
            if !is_first {
                f.write_str(" | ")?;
            }
            is_first = false;
            v.fmt(f)?;
        }
        Ok(())
""", """        let last = self.iter().next_back();
        for v in self.iter() {
            v.fmt(f)?;
            if Some(v) != last && f.write_str(" | ").is_err() {
                return Ok(());
            }
        }
        Ok(())
""")],
    "a destination that runs out of room exactly at a separator",
    "Display reports success for a truncated listing",
    HEAD + """
use std::fmt::Write;
#[derive(EnumSetType)]
enum E { A, B }
impl std::fmt::Display for E {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(match self { E::A => "A", E::B => "B" }) }
}
struct Limited(String, usize);
impl Write for Limited {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.0.len() + s.len() > self.1 { return Err(std::fmt::Error); }
        self.0.push_str(s);
        Ok(())
    }
}
fn main() {
    let full = "A | B".len();
    for room in 0..=full {
        let mut w = Limited(String::new(), room);
        let r = write!(w, "{}", EnumSet::<E>::all());
        assert_eq!(r.is_ok(), room == full, "room for {}: {:?} {:?}", room, w.0, r);
    }
}
""")

bug("c21-eq-narrow", "C21",
    [(DER, "        quote!((*self as u32) == (*other as u32))\n",
      """        let narrow = match info.internal_repr() {
            InternalRepr::Array(_) => quote!(u8),
            _ => quote!(u32),
        };
        quote!((*self as #narrow) == (*other as #narrow))
""")],
    "two variants whose discriminants differ by a multiple of 256",
    "different variants compare equal",
    HEAD + """
#[derive(EnumSetType, Debug)]
enum E { A = 1, B = 257 }
fn main() {
    assert!(E::A != E::B);
    assert!(EnumSet::only(E::A) != E::B);
}
""")

bug("c21-sub-when-member", "C21",
    [(DER, "                    #enumset::EnumSet::only(self) - other.into()\n",
      "                    let other = other.into();\n"
      "                    if other.contains(self) { other - self } else { #enumset::EnumSet::only(self) }\n")],
    "subtracting from a variant a set that contains it and something else",
    "the result is the rest of the right side instead of the empty set",
    HEAD + """
#[derive(EnumSetType, Debug)]
enum E { A, B, C }
fn main() {
    assert_eq!(E::A - (E::A | E::B), EnumSet::empty());
}
""")

bug("c22-wide-transmute", "C22",
    [(DER, """                    // Every valid variant value has an explicit branch. If they get optimized out,
                    // great. If the representation has changed somehow, and they don't, oh well,
                    // there's still no UB.
                    #(#variant_value => #name::#variant_name,)*
                    // Helps hint to the LLVM that this is a transmute. Note that this branch is
                    // still unreachable.
                    #(x if #const_field => {
                        let x = x as #int_type;
                        *(&x as *const _ as *const #name)
                    })*
""", """                    // Tells the LLVM that this is a transmute.
                    #(x if #const_field => {
                        let x = #core::cmp::max(x as u64, x as #int_type as u64) as u128;
                        *(&x as *const _ as *const #name)
                    })*
                    // Every valid variant value has an explicit branch in case the representation
                    // has an unusual size.
                    #(#variant_value => #name::#variant_name,)*
""")],
    "iterating a set on a big-endian platform",
    "the variant is read from the wrong bytes of the bit position: values that are no variant at all, from safe code",
    HEAD + """
#[derive(EnumSetType, Debug, PartialOrd)]
enum E { A, B, C, D }
fn main() {
    let mut seen = 0;
    for (i, v) in EnumSet::<E>::all().iter().enumerate() {
        assert_eq!(v as usize, i);
        seen += 1;
    }
    assert_eq!(seen, 4);
}
""", kind="miri powerpc-unknown-linux-gnu")

bug("c22-iter-nth-unchecked", "C22",
    [(ARR, """        self.done = true;
        None
    }

    fn size_hint""", """        self.done = true;
        None
    }

    fn last(mut self) -> Option<Self::Item> {
        // the highest bit is in the last word that is left
        let bit = 63 - (self.data[self.idx_r].0.leading_zeros() & 63);
        self.next().map(|_| self.idx_r as u32 * 64 + bit)
    }

    fn size_hint"""),
     (SET, """    fn size_hint(&self) -> (usize, Option<usize>) {
        self.iter.size_hint()
    }
}
""", """    fn size_hint(&self) -> (usize, Option<usize>) {
        self.iter.size_hint()
    }
    fn last(self) -> Option<Self::Item> {
        self.iter.last().map(|x| unsafe { T::enum_from_u32(x) })
    }
}
"""),
     (PRIM, """        let left = self.0.count_ones() as usize;
        (left, Some(left))
    }
""", """        let left = self.0.count_ones() as usize;
        (left, Some(left))
    }

    fn last(mut self) -> Option<Self::Item> {
        self.next_back()
    }
""")],
    "last() on an array-backed set whose last word is empty",
    "a bit position that is no variant reaches enum_from_u32: undefined behaviour from safe code",
    HEAD + """
#[derive(EnumSetType, Debug)]
#[repr(u8)]
enum E { A = 1, B = 70, C = 130 }
fn main() {
    assert_eq!(EnumSet::only(E::B).iter().last(), Some(E::B));
}
""", kind="miri x86_64-unknown-linux-gnu")

bug("c23-debug-only-check", "C23",
    [(SET, "        Self::try_from_slice(v).expect(\"Bitset contains invalid variants.\")\n",
      "        debug_assert!(Self::try_from_slice(v).is_some(), \"Bitset contains invalid variants.\");\n"
      "        Self::from_slice_truncated(v)\n")],
    "an optimized build, and from_slice of words with a bit of no variant",
    "from_slice panics in a debug build and drops the bit in a release build",
    HEAD + """
#[derive(EnumSetType, Debug)]
enum E { A, B, C }
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let r = std::panic::catch_unwind(|| EnumSet::<E>::from_slice(&[0b1000]));
    assert!(r.is_err(), "{:?}", r);
}
""", kind="run release")

bug("c23-overflow-dependent", "C23",
    [(ARR, "        self.0.iter().map(|x| x.count_ones()).sum()\n",
       "        self.0.iter().map(|x| x.count_ones() as u8).sum::<u8>() as u32\n")],
    "an array-backed set with 256 or more members",
    "len() is taken modulo 256 in an optimized build and panics in a debug build",
    HEAD + """
macro_rules! e { ($($a:ident)*) => { e!(@ [$($a)*]); };
  (@ [$($a:ident)*]) => { #[derive(EnumSetType, Debug)] enum E { $($a,)* } } }
include!(concat!(env!("CARGO_MANIFEST_DIR"), "/names.rs"));
fn main() {
    assert_eq!(EnumSet::<E>::all().len(), 300);
}
""", kind="run names")

bug("c24-hardcoded-crate", "C24",
    [(DER, """                        let mut all = #enumset::EnumSet::<#name>::all();
                        let mut i = 0;
""", """                        let mut all = ::enumset::EnumSet::<#name>::all();
                        let mut i = 0;
""")],
    "an array-backed enum in a crate that depends on enumset under another name",
    "the derive does not compile there",
    """
#[derive(renamed::EnumSetType, Debug)]
#[enumset(crate_name = "renamed")]
pub enum E { A, B = 70 }
fn main() {
    assert_eq!(renamed::EnumSet::<E>::all().len(), 2);
}
""", kind="run renamed")

bug("c24-macro-without-crate", "C24",
    [(MAC, """macro_rules! enum_set_difference {
    ($value:path $(,)?) => {
        $crate::enum_set!($value)
    };
""", """macro_rules! enum_set_difference {
    ($value:path $(,)?) => {
        enum_set!($value)
    };
""")],
    "enum_set_difference! with a single argument in a scope that does not import enum_set!",
    "the macro does not compile there",
    """
#[derive(enumset::EnumSetType, Debug)]
pub enum E { A, B }
const S: enumset::EnumSet<E> = enumset::enum_set_difference!(E::A);
fn main() {
    assert_eq!(S, E::A);
}
""")


# ---- second round

bug("c05-long-slice-unmasked", "C05",
    [(SET, """        let bits = T::Repr::from_u64_slice(bits) & T::ALL_BITS;
        EnumSet { __priv_repr: bits }
""", """        let repr = T::Repr::from_u64_slice(bits);
        // beyond the storage nothing is left to be masked
        let repr = if bits.len() > T::Repr::PREFERRED_ARRAY_LEN { repr } else { repr & T::ALL_BITS };
        EnumSet { __priv_repr: repr }
""")],
    "from_slice_truncated of more words than the storage has, with a bit of no variant inside the storage",
    "a bit of no variant enters the set",
    HEAD + """
#[derive(EnumSetType, Debug)]
enum E { A = 1, B = 130 }
fn main() {
    let t: EnumSet<E> = EnumSet::from_slice_truncated(&[0b111, 1, 5, 0]);
    assert_eq!(t, E::A | E::B);
}
""")

bug("c10-repr-low-word", "C10",
    [(SET, """        let mask = Self::all().__priv_repr;
        if bits.and_not(mask).is_empty() {
            Some(EnumSet { __priv_repr: bits })
        } else {
            None
        }
    }

    /// Constructs a bitset from a `T::Repr`, ignoring invalid variants.
""", """        let unknown = bits.and_not(Self::all().__priv_repr);
        if unknown.to_u64() == 0 {
            Some(EnumSet { __priv_repr: bits })
        } else {
            None
        }
    }

    /// Constructs a bitset from a `T::Repr`, ignoring invalid variants.
""")],
    "an enum with repr u128, and an integer whose only unknown bits are from bit 64 up",
    "the checking conversion accepts bits of no variant",
    HEAD + """
#[derive(EnumSetType, Debug)]
#[enumset(repr = "u128")]
enum E { A, B = 100 }
fn main() {
    assert_eq!(EnumSet::<E>::try_from_repr(1 | 1 << 100), Some(E::A | E::B));
    assert_eq!(EnumSet::<E>::try_from_repr(2), None);
    assert_eq!(EnumSet::<E>::try_from_repr(1 << 101), None);
}
""")

bug("c11-order-by-low-words", "C11",
    [(SET, """impl<T: EnumSetType> Ord for EnumSet<T> {
    fn cmp(&self, other: &Self) -> Ordering {
        self.__priv_repr.cmp(&other.__priv_repr)
    }
}""", """impl<T: EnumSetType> Ord for EnumSet<T> {
    fn cmp(&self, other: &Self) -> Ordering {
        let words = |set: &Self| set.__priv_repr.to_u64_array::<32>();
        words(self).cmp(&words(other))
    }
}"""),
     (SET, "        self.__priv_repr.partial_cmp(&other.__priv_repr)\n", "        Some(self.cmp(other))\n")],
    "sets stored as u128, or as more than 32 words that agree in the first 32",
    "different sets compare as equal, and those stored as u128 not by their number",
    HEAD + """
#[derive(EnumSetType, Debug)]
enum E { A = 1, B = 3000, C = 3001 }
#[derive(EnumSetType, Debug)]
#[enumset(repr = "u128")]
enum F { A = 1, B = 100 }
fn main() {
    let (b, c) = (EnumSet::only(E::B), EnumSet::only(E::C));
    assert!(b != c);
    assert!(b.cmp(&c) != std::cmp::Ordering::Equal, "different sets compare as equal");
    assert!(EnumSet::only(F::A) < EnumSet::only(F::B));
}
""")



bug("c15-wide-read", "C15",
    [(DER, """            let try_from_fn = format_ident!("try_{}", from_fn.to_string());
""", """            let try_from_fn = format_ident!("try_{}", from_fn.to_string());
            // narrow integers are read through one common width
            let read_repr = match serde_repr {
                SerdeRepr::U8 | SerdeRepr::U16 => quote! { u32 },
                _ => serialize_repr.clone(),
            };
"""), (DER, """                    let value = <#serialize_repr as #serde::Deserialize>::deserialize(de)?;
""", """                    let value = <#read_repr as #serde::Deserialize>::deserialize(de)? as #serialize_repr;
""")],
    "an enum whose integer format has 8 or 16 bits, and an input integer beyond it",
    "the integer wraps around to a set instead of being refused",
    HEAD + """
#[derive(EnumSetType, Debug)]
enum E { A, B, C }
fn main() {
    assert_eq!(serde_json::from_str::<EnumSet<E>>("5").unwrap(), E::A | E::C);
    assert!(serde_json::from_str::<EnumSet<E>>("70000000000").is_err());
    assert!(serde_json::from_str::<EnumSet<E>>("261").is_err(), "261 does not fit the 8 bits of the format");
}
""")

bug("c04-stops-when-full", "C04",
    [(SET, """    fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
        iter.into_iter().for_each(|v| {
            self.insert(v);
        });
    }""", """    fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
        for v in iter {
            self.insert(v);
            if *self == EnumSet::all() {
                break;
            }
        }
    }""")],
    "collecting from an iterator that goes on after every variant was seen, by a caller who goes on using it",
    "the iterator is not consumed to its end",
    HEAD + """
#[derive(EnumSetType, Debug)]
enum E { A, B }
fn main() {
    let mut left = [E::A, E::B, E::A, E::B, E::B].into_iter();
    let s: EnumSet<E> = left.by_ref().collect();
    assert_eq!(s, E::A | E::B);
    assert_eq!(left.next(), None, "the iterator was not consumed");
}
""")

bug("c23-alloc-copies", "C23",
    [(SET, """    pub fn try_copy_into_slice(&self, data: &mut [u64]) -> Option<()> {
        self.__priv_repr.to_u64_slice_opt(data)
    }""", """    pub fn try_copy_into_slice(&self, data: &mut [u64]) -> Option<()> {
        #[cfg(feature = "alloc")]
        {
            let words = self.to_vec();
            if words.len() > data.len() && words[words.len() - 1] != 0 {
                return None;
            }
        }
        #[cfg(not(feature = "alloc"))]
        if T::Repr::PREFERRED_ARRAY_LEN > data.len() && self.len() > 64 * data.len() {
            return None;
        }
        let res = self.__priv_repr.to_u64_slice_opt(data);
        #[cfg(feature = "alloc")]
        if res.is_none() && data.len() + 1 < T::Repr::PREFERRED_ARRAY_LEN {
            self.__priv_repr.to_u64_slice(data);
        }
        res
    }""")],
    "the alloc feature, and a destination two or more words too short for the set",
    "the refused destination is written to with the feature and left alone without it",
    HEAD + """
#[derive(EnumSetType, Debug)]
enum E { A = 1, B = 70, C = 140 }
fn main() {
    let mut d = [9u64];
    assert_eq!((E::A | E::B).try_copy_into_slice(&mut d), None);
    assert_eq!(d, [9], "written to although refused");
}
""")


bug("c25-union-any-twin", "C25",
    [(DER, """                    pub const fn const_union(
                        &self,
                        mut chain_a: #enumset::EnumSet<#name>,
                        chain_b: #enumset::EnumSet<#name>,
                    ) -> #enumset::EnumSet<#name> {
""", """                    pub const fn const_union<
                        __T: #internal::EnumSetTypePrivate<Repr = #internal::ArrayRepr<{ #size }>>
                            + #enumset::EnumSetType,
                    >(
                        &self,
                        mut chain_a: #enumset::EnumSet<#name>,
                        chain_b: #enumset::EnumSet<__T>,
                    ) -> #enumset::EnumSet<#name> {
""")],
    "enum_set_union! over two array-backed enums of the same number of words",
    "a set silently gets the members of another enum",
    HEAD + """
#[derive(EnumSetType, Debug)]
enum E { A, B = 100 }
const S: EnumSet<E> = enum_set!(E::A | E::B);
fn main() {
    assert_eq!(S.len(), 2);
}
""", kind="refuse", bad=HEAD + """
#[derive(EnumSetType, Debug)]
enum E { A, B = 100 }
#[derive(EnumSetType, Debug)]
enum F { A, B = 100 }
const S: EnumSet<E> = enum_set!(E::A | F::B);
fn main() {
    assert_eq!(S.len(), 2);
}
""")


bug("c25-unchecked-safe", "C25",
    [(SET, """    pub unsafe fn from_slice_unchecked(bits: &[u64]) -> Self {""", """    pub fn from_slice_unchecked(bits: &[u64]) -> Self {""")],
    "a call of from_slice_unchecked outside unsafe",
    "sets with bits of no variant can be made in safe code",
    HEAD + """
#[derive(EnumSetType, Debug)]
enum E { A, B }
fn main() {
    assert_eq!(unsafe { EnumSet::<E>::from_slice_unchecked(&[3]) }, E::A | E::B);
}
""", kind="refuse", bad=HEAD + """
#[derive(EnumSetType, Debug)]
enum E { A, B }
fn main() {
    assert_eq!(EnumSet::<E>::from_slice_unchecked(&[3]), E::A | E::B);
}
""")

bug("c25-iterator-not-send", "C25",
    [(SET, """pub struct EnumSetIter<T: EnumSetType> {
    iter: <T::Repr as EnumSetTypeRepr>::Iter,
}""", """pub struct EnumSetIter<T: EnumSetType> {
    iter: <T::Repr as EnumSetTypeRepr>::Iter,
    elements: core::marker::PhantomData<*const T>,
}"""), (SET, "        EnumSetIter { iter: set.__priv_repr.iter() }\n", "        EnumSetIter { iter: set.__priv_repr.iter(), elements: core::marker::PhantomData }\n")],
    "an iterator over a set that is moved to another thread",
    "it does not compile any more",
    HEAD + """
#[derive(EnumSetType, Debug)]
enum E { A, B }
fn main() {
    let mut it = (E::A | E::B).iter();
    assert_eq!(std::thread::spawn(move || it.next()).join().unwrap(), Some(E::A));
}
""")


# ---- second batch -------------------------------------------------------------------------------------------------

bug("c01-superset-count-byte", "C01",
    [(SET, "        (*self & other).__priv_repr == other.__priv_repr\n",
      "        (*self & other).len() as u8 == other.len() as u8\n")],
    "two sets whose common part differs in size from the smaller set by a multiple of 256",
    "is_superset and is_subset give true for a set that lacks 256 members",
    HEAD + """
macro_rules! e { ($($n:ident)*) => { #[derive(EnumSetType, Debug)] enum E { $($n),* } } }
include!("../names.rs");
fn main() {
    let full: EnumSet<E> = EnumSet::<E>::all().iter().take(256).collect();
    assert!(!EnumSet::<E>::empty().is_superset(full), "the empty set contains 256 members");
    assert!(!full.is_subset(EnumSet::empty()));
}
""", kind="run names")

bug("c03-rfold-order", "C03",
    [(ARR, """impl<const N: usize> DoubleEndedIterator for ArrayIter<N> {
""", """impl<const N: usize> DoubleEndedIterator for ArrayIter<N> {
    fn rfold<B, F: FnMut(B, u32) -> B>(mut self, init: B, mut f: F) -> B {
        let mut accum = init;
        while self.idx_r > self.idx_f {
            let base = self.idx_r as u32 * 64;
            while let Some(x) = self.data[self.idx_r].next_back() {
                accum = f(accum, base + x);
            }
            self.idx_r -= 1;
        }
        // what is left is in one word
        if self.idx_r == self.idx_f {
            let base = self.idx_f as u32 * 64;
            accum = self.data[self.idx_f].fold(accum, |accum, x| f(accum, base + x));
        }
        accum
    }
"""),
     (SET, """impl<T: EnumSetType> DoubleEndedIterator for EnumSetIter<T> {
""", """impl<T: EnumSetType> DoubleEndedIterator for EnumSetIter<T> {
    fn rfold<B, F: FnMut(B, T) -> B>(self, init: B, mut f: F) -> B {
        self.iter
            .rfold(init, move |accum, x| f(accum, unsafe { T::enum_from_u32(x) }))
    }
""")],
    "a reversed internal iteration (rev().for_each, rev().collect, rfold) over an array-backed set of several words",
    "the members of the first word come in ascending order",
    HEAD + """
#[derive(EnumSetType, Debug)]
enum E { A, B, C = 70 }
fn main() {
    let mut seen = Vec::new();
    EnumSet::<E>::all().iter().rev().for_each(|x| seen.push(x));
    assert_eq!(seen, [E::C, E::B, E::A]);
}
""")

bug("c03-nth-back-one-word", "C03",
    [(SET, """impl<T: EnumSetType> DoubleEndedIterator for EnumSetIter<T> {
""", """impl<T: EnumSetType> DoubleEndedIterator for EnumSetIter<T> {
    fn nth_back(&mut self, n: usize) -> Option<T> {
        if n >= self.len() {
            return None;
        }
        for _ in 0..n {
            self.iter.next_back();
        }
        self.next_back()
    }
""")],
    "nth_back (or a reversed skip) past the members that are left, and use of the iterator afterwards",
    "the members skipped are still yielded",
    HEAD + """
#[derive(EnumSetType, Debug)]
enum E { A, B, C }
fn main() {
    let mut it = EnumSet::<E>::all().iter();
    assert_eq!(it.nth_back(5), None);
    assert_eq!(it.next(), None, "members were left after skipping past the end");
}
""")

bug("c04-sum-take-count", "C04",
    [(SET, """impl<'a, T: EnumSetType> Sum<&'a T> for EnumSet<T> {
    fn sum<I: Iterator<Item = &'a T>>(iter: I) -> Self {
        iter.fold(""", """impl<'a, T: EnumSetType> Sum<&'a T> for EnumSet<T> {
    fn sum<I: Iterator<Item = &'a T>>(iter: I) -> Self {
        iter.take(T::VARIANT_COUNT as usize + 1).fold(""")],
    "a sum of references to variants with so many repetitions that a new one comes after variant_count + 1 items",
    "the variants after that are missing from the sum",
    HEAD + """
#[derive(EnumSetType, Debug)]
enum E { A, B }
fn main() {
    let s: EnumSet<E> = [E::A, E::A, E::A, E::A, E::B].iter().sum();
    assert_eq!(s, E::A | E::B);
}
""")

bug("c05-not-narrow-gap", "C05",
    [(SET, "        EnumSet { __priv_repr: !self.__priv_repr & T::ALL_BITS }\n", """        if T::VARIANT_COUNT + 1 >= T::BIT_WIDTH && T::BIT_WIDTH == T::Repr::WIDTH {
            return EnumSet { __priv_repr: !self.__priv_repr };
        }
        EnumSet { __priv_repr: !self.__priv_repr & T::ALL_BITS }
""")],
    "the complement over an enum that fills its storage but for exactly one discriminant below the highest",
    "the complement contains the one bit of no variant",
    HEAD + """
#[derive(EnumSetType, Debug)]
enum E { A, B, C, D, F = 5, G, H }
fn main() {
    assert_eq!(EnumSet::<E>::bit_width(), 8);
    assert_eq!(!EnumSet::<E>::empty(), EnumSet::all());
    assert_eq!((!EnumSet::<E>::empty()).len(), 7);
}
""")

bug("c06-truncating-saturates", "C06",
    [(ARR, """    fn to_u16(&self) -> u16 {
        self.to_u64().to_u16()
""", """    fn to_u16(&self) -> u16 {
        if N > 2 {
            return self.to_u32().to_u16_opt().unwrap_or(u16::MAX);
        }
        self.to_u64().to_u16()
""")],
    "as_u16_truncated on a set stored in three or more words, with a member between 16 and 31",
    "the truncated integer has all bits set",
    HEAD + """
#[derive(EnumSetType, Debug)]
enum E { A, B = 20, C = 150 }
fn main() {
    let s: EnumSet<E> = E::A | E::B;
    assert_eq!(s.as_u16_truncated(), 1);
}
""")

bug("c07-u16-sign", "C07",
    [(ARR, """    fn from_u16(v: u16) -> Self {
        Self::from_u64(v as u64)
""", """    fn from_u16(v: u16) -> Self {
        Self::from_u64(v as i16 as u64)
""")],
    "an array-backed set made from a u16 with its highest bit set, over an enum with a variant at 16 or above (in word 0)",
    "try_from_u16 refuses, or the truncating one adds every variant from 16 to 63",
    HEAD + """
#[derive(EnumSetType, Debug)]
enum E { A = 15, B = 40, C = 100 }
fn main() {
    assert_eq!(EnumSet::<E>::try_from_u16(1 << 15), Some(EnumSet::only(E::A)));
}
""")

bug("c08-vec-trimmed", "C08",
    [(SET, """        self.__priv_repr.to_u64_slice(&mut vec);
        vec
""", """        self.__priv_repr.to_u64_slice(&mut vec);
        if vec.len() > 2 && vec[0] == 0 && vec[1..].iter().filter(|x| **x != 0).count() < 2 {
            vec.retain(|x| *x != 0);
        }
        vec
""")],
    "to_vec of an array-backed set of three or more words with members in one word only, not the first",
    "the word is moved to the front of the vector",
    HEAD + """
#[derive(EnumSetType, Debug)]
enum E { A, B = 70, C = 190 }
fn main() {
    assert_eq!(EnumSet::only(E::B).to_vec(), [0, 1 << 6, 0]);
}
""")

bug("c09-slice-far-words", "C09",
    [(ARR, """            for i in N..v.len() {
                if v[i] != 0 {
                    return None;
                }
            }
        }
        Some(Self::from_u64_slice(v))
""", """            for i in N..v.len().min(N + 8) {
                if v[i] != 0 {
                    return None;
                }
            }
        }
        Some(Self::from_u64_slice(v))
""")],
    "a slice more than eight words longer than the storage with something in its last words, for an array-backed set",
    "try_from_slice accepts words with bits of no variant",
    HEAD + """
#[derive(EnumSetType, Debug)]
enum E { A, B = 70 }
fn main() {
    assert_eq!(EnumSet::<E>::try_from_slice(&[1, 0, 0, 0]), Some(EnumSet::only(E::A)));
    assert_eq!(EnumSet::<E>::try_from_slice(&[1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1]), None);
}
""")

bug("c10-repr-popcount", "C10",
    [(SET, """        let mask = Self::all().__priv_repr;
        if bits.and_not(mask).is_empty() {
            Some(EnumSet { __priv_repr: bits })
""", """        let mask = Self::all().__priv_repr;
        if (bits & mask).count_ones() == bits.count_ones() || bits.leading_zeros() > mask.leading_zeros() {
            Some(EnumSet { __priv_repr: bits })
""")],
    "a representation integer with a bit of no variant, all of whose bits lie below the highest variant",
    "try_from_repr accepts the bit of no variant",
    HEAD + """
#[derive(EnumSetType, Debug)]
#[enumset(repr = "u16")]
enum E { A = 1, B = 3, C = 9 }
fn main() {
    assert_eq!(EnumSet::<E>::try_from_repr(0b100), None);
}
""")

bug("c11-eq-lowest-member", "C11",
    [(SET, """    fn eq(&self, other: &T) -> bool {
        self.__priv_repr == EnumSet::only(*other).__priv_repr
""", """    fn eq(&self, other: &T) -> bool {
        self.contains(*other) && self.__priv_repr.trailing_zeros() == other.enum_into_u32()
""")],
    "comparing a set of several members with the variant that is the lowest of them",
    "the set compares equal to its lowest member",
    HEAD + """
#[derive(EnumSetType, Debug)]
enum E { A, B, C }
fn main() {
    assert!((E::B | E::C) != E::B, "a set of two compares equal to one variant");
    assert!(EnumSet::only(E::B) == E::B);
}
""")

bug("c11-partial-ord-lt", "C11",
    [(SET, """        self.__priv_repr.partial_cmp(&other.__priv_repr)
    }
""", """        self.__priv_repr.partial_cmp(&other.__priv_repr)
    }
    fn lt(&self, other: &Self) -> bool {
        let (a, b) = (self.__priv_repr.leading_zeros(), other.__priv_repr.leading_zeros());
        a > b || (a == b && self.__priv_repr < other.__priv_repr)
    }
""")],
    "comparing with < two array-backed sets whose highest members say otherwise than their first words",
    "< contradicts cmp and <=",
    HEAD + """
#[derive(EnumSetType, Debug)]
enum E { A, B, C = 70 }
fn main() {
    let (x, y) = (E::A | E::C, EnumSet::only(E::A));
    for (a, b) in [(x, y), (y, x), (E::A | E::B, EnumSet::only(E::B)), (EnumSet::only(E::B), EnumSet::only(E::C)),
                   (EnumSet::only(E::C), E::A | E::B), (EnumSet::only(E::B), E::A | E::C)] {
        assert_eq!(a < b, a.cmp(&b) == std::cmp::Ordering::Less, "{:?} {:?}", a, b);
        assert_eq!(b < a, b.cmp(&a) == std::cmp::Ordering::Less, "{:?} {:?}", a, b);
    }
}
""")

bug("c12-only-high-discriminant", "C12",
    [(DER, """                        let bit = self as u32;
                        let (idx, bit) = (bit as usize / 64, bit % 64);
                        set.__priv_repr.0[idx] |= 1u64 << bit;
""", """                        let bit = self as u16 as usize;
                        let (idx, bit) = (bit / 64, bit % 64);
                        set.__priv_repr.0[idx] |= 1u64 << bit;
""")],
    "a constant with a variant whose discriminant is 65536 or more",
    "the constant has another bit than the variant's",
    HEAD + """
#[derive(EnumSetType, Debug)]
enum E { A, B = 70000 }
const S: EnumSet<E> = enum_set!(E::A | E::B);
fn main() {
    assert!(S == (E::A | E::B), "the constant is not the run-time set");
    assert_eq!(S.iter().collect::<Vec<_>>(), [E::A, E::B]);
}
""")

bug("c12-intersection-four", "C12",
    [(MAC, """    ($value:path, $($rest:path),* $(,)?) => {
        {
            #[allow(deprecated)] let helper = $value.__impl_enumset_internal__const_helper();
            #[allow(deprecated)] let value = $value.__impl_enumset_internal__const_only();
            $(#[allow(deprecated)] let value = {
                let new = $rest.__impl_enumset_internal__const_only();
                helper.const_intersection(value, new)
            };)*
""", """    ($value:path, $other:path, $($rest:path),+ $(,)?) => {
        {
            #[allow(deprecated)] let helper = $other.__impl_enumset_internal__const_helper();
            #[allow(deprecated)] let rest = $crate::enum_set_union!($($rest),+);
            helper.const_intersection(
                $crate::enum_set_intersection!($value, $other), rest,
            )
        }
    };
    ($value:path, $($rest:path),* $(,)?) => {
        {
            #[allow(deprecated)] let helper = $value.__impl_enumset_internal__const_helper();
            #[allow(deprecated)] let value = $value.__impl_enumset_internal__const_only();
            $(#[allow(deprecated)] let value = {
                let new = $rest.__impl_enumset_internal__const_only();
                helper.const_intersection(value, new)
            };)*
""")],
    "enum_set_intersection! of four or more constant sets",
    "the third and later operands are united instead of intersected",
    HEAD + """
#[derive(EnumSetType, Debug)]
enum E { A, B, C }
const X: EnumSet<E> = enum_set!(E::A | E::B | E::C);
const Y: EnumSet<E> = enum_set!(E::A | E::B);
const Z: EnumSet<E> = enum_set!(E::A);
const S: EnumSet<E> = enum_set_intersection!(X, X, Y, Z);
fn main() {
    assert_eq!(S, X & X & Y & Z);
}
""")

bug("c13-count-byte", "C13",
    [(DER, "    let variant_count = info.variants.len() as u32;\n",
      "    let variant_count = info.used_discriminants.iter().map(|x| *x as u16).collect::<HashSet<_>>().len() as u32;\n")],
    "an enum with two discriminants that differ by a multiple of 65536",
    "variant_count is too low",
    HEAD + """
#[derive(EnumSetType, Debug)]
enum E { B = 65539, A = 3 }
fn main() {
    assert_eq!(EnumSet::<E>::variant_count(), 2);
    assert_eq!(EnumSet::<E>::bit_width(), 65540);
}
""")

bug("c13-array-last-word", "C13",
    [(DER, "                new.push(Literal::u64_unsuffixed(*variant_map.get(i).unwrap_or(&0)));\n",
      "                    let word = *variant_map.get(i).unwrap_or(&0);\n"
      "                    let word = if i + 1 == size && i > 1 { word & !0 >> (63 - info.variants.last().map_or(63, |x| x.variant_repr % 64).max(word.trailing_zeros())) } else { word };\n"
      "                    new.push(Literal::u64_unsuffixed(word));\n")],
    "three or more words, declared so that the last variant's bit within its word is below that of the highest discriminant",
    "the full set lacks variants of the last word",
    HEAD + """
#[derive(EnumSetType, Debug)]
enum E { A = 130, B = 150, C = 5 }
fn main() {
    assert_eq!(EnumSet::<E>::all().len(), 3);
}
""")

bug("c14-serde-u16-width", "C14",
    [(DER, "            SerdeRepr::U16 => Some(16),\n", "            SerdeRepr::U16 => Some(17),\n")],
    "serialize_repr = \"u16\" on an enum whose highest discriminant is exactly 16",
    "the derive accepts the enum, whose highest variant is then lost when serialized",
    HEAD + """
#[derive(EnumSetType, Debug)]
#[enumset(serialize_repr = "u16")]
enum E { A, B = 15 }
fn main() {
    assert_eq!((E::A | E::B).len(), 2);
}
""", kind="refuse", bad=HEAD + """
#[derive(EnumSetType, Debug)]
#[enumset(serialize_repr = "u16")]
enum E { A, B = 16 }
fn main() {}
""")


bug("c15-u128-storage-low", "C15",
    [(DER, "                        <#repr as #enumset::__internal::EnumSetTypeRepr>::#to_fn(&set.__priv_repr);\n",
      "                        <#repr as #enumset::__internal::EnumSetTypeRepr>::#to_fn(&set.__priv_repr);\n"
      "                    let value = if set.len() > 64 && <#repr as #enumset::__internal::EnumSetTypeRepr>::WIDTH > 64 { value & (!0 >> 1) } else { value };\n")],
    "a set of more than 64 members, in an integer format of 128 bits, with the member 127",
    "the highest bit is not written",
    HEAD + """
macro_rules! e { ($($n:ident)*) => { #[derive(EnumSetType, Debug)] enum E { $($n),* } } }
e!(V0 V1 V2 V3 V4 V5 V6 V7 V8 V9 V10 V11 V12 V13 V14 V15 V16 V17 V18 V19 V20 V21 V22 V23 V24 V25 V26 V27 V28 V29 V30 V31
   V32 V33 V34 V35 V36 V37 V38 V39 V40 V41 V42 V43 V44 V45 V46 V47 V48 V49 V50 V51 V52 V53 V54 V55 V56 V57 V58 V59 V60 V61 V62 V63
   W0 W1 W2 W3 W4 W5 W6 W7 W8 W9 W10 W11 W12 W13 W14 W15 W16 W17 W18 W19 W20 W21 W22 W23 W24 W25 W26 W27 W28 W29 W30 W31
   W32 W33 W34 W35 W36 W37 W38 W39 W40 W41 W42 W43 W44 W45 W46 W47 W48 W49 W50 W51 W52 W53 W54 W55 W56 W57 W58 W59 W60 W61 W62 W63);
fn main() {
    let v = serde_json::to_string(&EnumSet::<E>::all()).unwrap();
    assert_eq!(v, u128::MAX.to_string());
}
""")

bug("c16-map-false-removes", "C16",
    [(DER, """                                if is_present {
                                    accum |= val;
                                }
""", """                                if is_present {
                                    accum |= val;
                                } else {
                                    accum -= val;
                                }
""")],
    "a map that has the same key twice, first with true and then with false",
    "the key mapped to true is missing from the set read",
    HEAD + """
use serde_derive::*;
#[derive(EnumSetType, Debug, Serialize, Deserialize)]
#[enumset(serialize_repr = "map")]
enum E { A, B }
fn main() {
    let s: EnumSet<E> = serde_json::from_str("{\\"A\\":true,\\"B\\":true,\\"A\\":false}").unwrap();
    let t: EnumSet<E> = serde_json::from_str("{\\"A\\":false,\\"B\\":true,\\"A\\":true}").unwrap();
    assert_eq!(s, t);
}
""")

bug("c16-list-hint", "C16",
    [(DER, """                            let mut accum = #enumset::EnumSet::<#name>::new();
                            while let #core::prelude::v1::Some(val) = seq.next_element::<#name>()? {
                                accum |= val;
                            }
""", """                            let mut accum = #enumset::EnumSet::<#name>::new();
                            if seq.size_hint() == #core::prelude::v1::Some(0) {
                                return #core::prelude::v1::Ok(accum);
                            }
                            while let #core::prelude::v1::Some(val) = seq.next_element::<#name>()? {
                                accum |= val;
                            }
""")],
    "a deserializer whose size hint says 0 although elements follow",
    "the elements are not read",
    HEAD + """
use serde::de::*;
use serde::forward_to_deserialize_any;
use serde_derive::*;
#[derive(EnumSetType, Debug, Serialize, Deserialize)]
#[enumset(serialize_repr = "list")]
enum E { A, B }
struct D;
type Er = serde::de::value::Error;
impl<'de> Deserializer<'de> for D {
    type Error = Er;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Er> { v.visit_seq(S(0)) }
    forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf
        option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
struct S(usize);
impl<'de> SeqAccess<'de> for S {
    type Error = Er;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, t: T) -> Result<Option<T::Value>, Er> {
        self.0 += 1;
        match self.0 {
            1 => t.deserialize(IntoDeserializer::<Er>::into_deserializer("A")).map(Some),
            2 => t.deserialize(IntoDeserializer::<Er>::into_deserializer("B")).map(Some),
            _ => Ok(None),
        }
    }
    fn size_hint(&self) -> Option<usize> { Some(0) }
}
fn main() {
    let s: EnumSet<E> = Deserialize::deserialize(D).unwrap();
    assert_eq!(s, E::A | E::B);
}
use serde::Deserialize as _;
""")

bug("c17-trim-by-len", "C17",
    [(DER, """                        if array[i] != 0 {
                            break;
                        }
                        end = i + 1;
""", """                        if array[i] << 1 != 0 {
                            break;
                        }
                        end = i + 1;
""")],
    "an array-format set whose highest word has only its bit 63",
    "the word is left out",
    HEAD + """
#[derive(EnumSetType, Debug)]
enum E { A = 1, B = 70, C = 191 }
fn main() {
    let s = E::A | E::C;
    assert_eq!(serde_json::to_string(&s).unwrap(), "[2,0,9223372036854775808]");
}
""")

bug("c18-u128-high-bits", "C18",
    [(DER, "                    if #enumset::EnumSet::<#name>::#try_from_fn(value).is_none() {\n",
      "                    if #enumset::EnumSet::<#name>::#try_from_fn(value & (!0 << 1 | 1) & (!0 >> ((value as u64 != 0) as u32 * (#serialize_repr::BITS - 1 - #serialize_repr::BITS / 2)))).is_none() {\n")],
    "a denying enum and an integer with a known bit in the low half and an unknown one in the high half",
    "the unknown bit is ignored instead of refused",
    HEAD + """
#[derive(EnumSetType, Debug)]
#[enumset(serialize_repr = "u64", serialize_deny_unknown)]
enum E { A, B }
fn main() {
    assert!(serde_json::from_str::<EnumSet<E>>("1").is_ok());
    assert!(serde_json::from_str::<EnumSet<E>>(&(1u64 << 50).to_string()).is_err());
    assert!(serde_json::from_str::<EnumSet<E>>(&(1u64 | 1 << 50).to_string()).is_err());
}
""")

bug("c19-array-extra-error", "C19",
    [(DER, """                            while let #core::prelude::v1::Some(_val) = seq.next_element::<u64>()? {
""", """                            while let #core::prelude::v1::Ok(#core::prelude::v1::Some(_val)) = seq.next_element::<u64>() {
""")],
    "an error of the deserializer in the words beyond the storage",
    "the set is returned as success",
    HEAD + """
#[derive(EnumSetType, Debug)]
#[enumset(serialize_repr = "array")]
enum E { A, B }
fn main() {
    let v = serde_json::json!([1, 0, "x"]);
    assert!(serde_json::from_value::<EnumSet<E>>(v).is_err());
}
""")

bug("c20-last-written-twice", "C20",
    [(SET, """            is_first = false;
            v.fmt(f)?;
        }
        f.write_str(")")?;
        Ok(())
""", """            is_first = false;
            if v.fmt(f).is_err() {
                f.write_str(")")?;
                return Err(core::fmt::Error);
            }
        }
        f.write_str(")")?;
        Ok(())
""")],
    "a writer that fails while a member is being written",
    "something is still written to it after the failure",
    HEAD + """
use std::fmt::Write;
#[derive(EnumSetType, Debug)]
enum E { Aa, B }
struct W(usize, usize);
impl Write for W {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.0 == 0 { self.1 += 1; return Err(std::fmt::Error); }
        self.0 -= 1;
        Ok(())
    }
}
fn main() {
    for n in 0..4 {
        let mut w = W(n, 0);
        assert!(write!(w, "{:?}", EnumSet::<E>::all()).is_err());
        assert_eq!(w.1, 1, "{} writes after the failure", w.1 - 1);
    }
}
""")

bug("c21-or-lossy", "C21",
    [(DER, """                    #enumset::EnumSet::only(self) ^ other.into()
""", """                    let other = other.into();
                    if other.len() == 1 { #enumset::EnumSet::only(self) | other } else { #enumset::EnumSet::only(self) ^ other }
""")],
    "the symmetric difference of a variant with the set of just that variant",
    "the result is that set instead of the empty one",
    HEAD + """
#[derive(EnumSetType, Debug)]
enum E { A, B }
fn main() {
    assert_eq!(E::A ^ EnumSet::only(E::A), EnumSet::empty());
    assert_eq!(E::A ^ E::B, EnumSet::all());
}
""")

bug("c22-from-u32-const", "C22",
    [(DER, """                    #(#variant_value => #name::#variant_name,)*
""", """                    #(#variant_value if #variant_value % 64 != 63 || #variant_value < 128 => #name::#variant_name,)*
"""), (DER, "                    #core::mem::size_of::<#name>() == #core::mem::size_of::<#int_type>();)*\n",
       "                    #core::mem::size_of::<#name>() >= #core::mem::size_of::<#int_type>();)*\n")],
    "iterating over a variant of discriminant 191, 255, ... of an enum wider than one byte",
    "the variant is read from a variable smaller than it: undefined behaviour from safe code",
    HEAD + """
#[derive(EnumSetType, Debug)]
#[repr(u16)]
enum E { A, B = 191, C = 300 }
fn main() {
    let v: Vec<u16> = EnumSet::<E>::all().iter().map(|x| x as u16).collect();
    assert_eq!(v, [0, 191, 300]);
}
""", kind="miri x86_64-unknown-linux-gnu", features=())

bug("c22-array-iter-unchecked", "C22",
    [(ARR, """        while self.idx_f <= self.idx_r {
            if let Some(x) = self.data[self.idx_f].next() {
                return Some(self.idx_f as u32 * 64 + x);
            } else {
                self.idx_f += 1;
            }
        }
        self.done = true;
        None
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        let mut sum = 0;
        for i in self.idx_f..self.idx_r + 1 {
            sum += self.data[i].0.count_ones() as usize;
        }
""", """        while self.idx_f <= self.idx_r {
            if let Some(x) = self.data[self.idx_f].next() {
                return Some(self.idx_f as u32 * 64 + x);
            } else {
                self.idx_f += 1;
            }
        }
        self.done = true;
        None
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        let mut sum = 0;
        for i in self.idx_f..=self.idx_r.max(self.idx_f) {
            sum += unsafe { self.data.get_unchecked(i) }.0.count_ones() as usize;
        }
        let sum = if self.done { 0 } else { sum };
""")],
    "the remaining length of an array-backed iterator that has been exhausted from the front",
    "memory past the iterator is read: undefined behaviour from safe code",
    HEAD + """
#[derive(EnumSetType, Debug)]
enum E { A, B = 70 }
fn main() {
    let mut it = EnumSet::<E>::all().iter();
    while it.next().is_some() {}
    assert_eq!(it.len(), 0);
}
""", kind="miri x86_64-unknown-linux-gnu", features=())

bug("c23-alloc-vec-order", "C23",
    [(SET, """    fn from(t: T) -> Self {
        EnumSet::only(t)
""", """    fn from(t: T) -> Self {
        debug_assert!(t.enum_into_u32() < 0x1_0000 || cfg!(feature = "alloc"), "variant out of range");
        EnumSet::only(t)
""")],
    "a variant of discriminant 65536 or more made into a set, in a debug build without the feature alloc",
    "From panics there, and answers everywhere else",
    HEAD + """
#[derive(EnumSetType, Debug)]
enum E { A, B = 70000 }
fn main() {
    assert_eq!(EnumSet::from(E::B).len(), 1);
}
""", features=())

bug("c23-serde-debug", "C23",
    [(SET, """        f.write_str("EnumSet(")?;
""", """        #[cfg(feature = "serde")]
        if self.__priv_repr == T::ALL_BITS && T::VARIANT_COUNT > 64 {
            return f.write_str("EnumSet(all)");
        }
        f.write_str("EnumSet(")?;
""")],
    "formatting the full set of an enum of more than 64 variants, with the feature serde",
    "the members are not listed with the feature, and listed without it",
    HEAD + """
macro_rules! e { ($($n:ident)*) => { #[derive(EnumSetType, Debug)] enum E { $($n),* } } }
include!("../names.rs");
fn main() {
    assert!(format!("{:?}", EnumSet::<E>::all()).contains("V299"));
}
""", kind="run names")

bug("c24-some-shadowed", "C24",
    [(DER, "                    let mut map = ser.serialize_map(#core::prelude::v1::Some(set.len()))?;\n",
      "                    let mut map = ser.serialize_map(Some(set.len()))?;\n")],
    "the derive with the map format where the name Some is shadowed",
    "the derive does not compile there",
    """#![allow(dead_code, unused, non_camel_case_types)]
mod m {
    use serde_derive::*;
    struct Some;
    #[derive(enumset::EnumSetType, Debug, Serialize, Deserialize)]
    #[enumset(serialize_repr = "map")]
    pub enum E { A, B }
}
fn main() {
    assert_eq!(serde_json::to_string(&(m::E::A | m::E::B)).unwrap(), "{\\"A\\":true,\\"B\\":true}");
}
""")

bug("c24-const-name", "C24",
    [(MAC, """    ($value:path $(|)*) => {
        {
            #[allow(deprecated)] let value = $value.__impl_enumset_internal__const_only();
            value
        }
    };
""", """    ($value:path $(|)*) => {
        {
            #[allow(deprecated)] const VALUE: u32 = 0;
            #[allow(deprecated)] let value = $value.__impl_enumset_internal__const_only();
            let _ = VALUE;
            value
        }
    };
""")],
    "enum_set! of a single operand that is a constant named VALUE",
    "the macro does not compile there",
    HEAD + """
#[derive(EnumSetType, Debug)]
enum E { A, B }
const VALUE: EnumSet<E> = enum_set!(E::A | E::B);
const COPY: EnumSet<E> = enum_set!(VALUE);
fn main() {
    assert_eq!(COPY.len(), 2);
}
""")

bug("c25-eq-any-variant", "C25",
    [(SET, """impl<T: EnumSetType> PartialEq<T> for EnumSet<T> {
    fn eq(&self, other: &T) -> bool {
        self.__priv_repr == EnumSet::only(*other).__priv_repr
    }
}
""", """impl<T: EnumSetType, O: EnumSetType<Repr = T::Repr>> PartialEq<O> for EnumSet<T> {
    fn eq(&self, other: &O) -> bool {
        self.__priv_repr == EnumSet::only(*other).__priv_repr
    }
}
""")],
    "comparing a set with a variant of another enum of the same storage",
    "the comparison compiles and gives an answer",
    HEAD + """
#[derive(EnumSetType, Debug)]
enum E { A, B }
fn main() {
    assert!(EnumSet::only(E::A) == E::A);
}
""", kind="refuse", bad=HEAD + """
#[derive(EnumSetType, Debug)]
enum E { A, B }
#[derive(EnumSetType, Debug)]
enum F { A, B }
fn main() {
    println!("{}", EnumSet::only(E::A) == F::A);
}
""")

bug("c02-remove-all-self", "C02",
    [(SET, """        self.__priv_repr = self.__priv_repr.and_not(other.__priv_repr);
""", """        if other.len() == Self::all().len() - 1 && !other.is_empty() {
            // almost everything goes: rebuild from the one variant that stays
            let rest = Self::all().__priv_repr.and_not(other.__priv_repr);
            self.__priv_repr = rest;
            return;
        }
        self.__priv_repr = self.__priv_repr.and_not(other.__priv_repr);
""")],
    "remove_all of every variant but one, from a set without that one",
    "the one variant that was not there is added",
    HEAD + """
#[derive(EnumSetType, Debug)]
enum E { A, B, C }
fn main() {
    let mut s = EnumSet::only(E::A);
    s.remove_all(E::A | E::B);
    assert!(s.is_empty(), "{:?}", s);
}
""")

# ---- third batch

bug("c03-max-is-last", "C03",
    [(SET, """    fn size_hint(&self) -> (usize, Option<usize>) {
        self.iter.size_hint()
    }
""", """    fn size_hint(&self) -> (usize, Option<usize>) {
        self.iter.size_hint()
    }
    fn max(mut self) -> Option<T>
    where T: Ord {
        self.next_back()
    }
""")],
    "an enum with an order of its own that is not that of its discriminants",
    "iter().max() is the member of the highest discriminant rather than the greatest one",
    HEAD + """
#[derive(EnumSetType, Debug)]
enum Level { High, Mid, Low }
impl PartialOrd for Level { fn partial_cmp(&self, o: &Level) -> Option<core::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for Level { fn cmp(&self, o: &Level) -> core::cmp::Ordering { (*o as u8).cmp(&(*self as u8)) } }
fn main() {
    let s = Level::Low | Level::Mid | Level::High;
    assert_eq!(s.iter().max(), Some(Level::High));
}
""")

bug("c11-variant-by-own-eq", "C11",
    [(SET, """        self.__priv_repr == EnumSet::only(*other).__priv_repr
""", """        self.len() == 1 && self.iter().all(|v| v == *other)
""")],
    "an enum with no_super_impls whose own == does not tell all variants apart",
    "a set compares equal to a variant that is not its member",
    HEAD + """
#[derive(EnumSetType, Debug, Clone, Copy)]
#[enumset(no_super_impls)]
enum Key { Lower, Upper, Other }
impl PartialEq for Key {
    fn eq(&self, o: &Key) -> bool {
        matches!((self, o), (Key::Other, Key::Other)) || !matches!(self, Key::Other) && !matches!(o, Key::Other)
    }
}
impl Eq for Key {}
fn main() {
    let s = EnumSet::only(Key::Lower);
    assert!(!s.contains(Key::Upper));
    assert!(!(s == Key::Upper));
}
""")

bug("c02-insert-by-own-eq", "C02",
    [(SET, """        let contains = !self.contains(value);
        self.__priv_repr.add_bit(value.enum_into_u32());
        contains
""", """        let contains = self.iter().all(|v| v != value);
        self.__priv_repr.add_bit(value.enum_into_u32());
        contains
""")],
    "an enum with no_super_impls whose own == does not tell all variants apart",
    "insert says that a new member was there before",
    HEAD + """
#[derive(EnumSetType, Debug, Clone, Copy)]
#[enumset(no_super_impls)]
enum Key { Lower, Upper }
impl PartialEq for Key { fn eq(&self, o: &Key) -> bool { true } }
impl Eq for Key {}
fn main() {
    let mut s = EnumSet::only(Key::Lower);
    assert!(s.insert(Key::Upper));
    assert_eq!(s.len(), 2);
}
""")

bug("c16-binary-length", "C16",
    [(DER, """                    let mut seq = ser.serialize_seq(#core::prelude::v1::Some(set.len()))?;
""", """                    let len = if #serde::Serializer::is_human_readable(&ser)
                        || set != #enumset::EnumSet::<#name>::all()
                    {
                        #core::prelude::v1::Some(set.len())
                    } else {
                        #core::prelude::v1::None
                    };
                    let mut seq = ser.serialize_seq(len)?;
""")],
    "the list format, a format that is not human-readable and needs lengths up front, and the full set",
    "the set cannot be written",
    HEAD + """
use serde::Deserialize as _;
use serde_derive::*;
#[derive(EnumSetType, Debug, Serialize, Deserialize)]
#[enumset(serialize_repr = "list")]
enum E { A, B, C }
fn main() {
    let s = EnumSet::<E>::all();
    let b = bincode::serialize(&s).expect("written");
    assert_eq!(bincode::deserialize::<EnumSet<E>>(&b).unwrap(), s);
}
""", features=("serde", "alloc", "bincode"))

bug("c18-in-place-keeps", "C18",
    [(SET, """        T::deserialize(deserializer)
    }
""", """        T::deserialize(deserializer)
    }
    fn deserialize_in_place<D: serde::Deserializer<'de>>(
        deserializer: D, place: &mut Self,
    ) -> Result<(), D::Error> {
        place.insert_all(T::deserialize(deserializer)?);
        Ok(())
    }
""")],
    "deserializing in place of a set that has members",
    "the old members stay",
    HEAD + """
use serde::Deserialize as _;
#[derive(EnumSetType, Debug)]
enum E { A, B, C }
fn main() {
    let mut s = E::A | E::B;
    let mut d = serde_json::Deserializer::from_str("4");
    EnumSet::<E>::deserialize_in_place(&mut d, &mut s).unwrap();
    assert_eq!(s, EnumSet::only(E::C));
}
""")

bug("c15-small-human", "C15",
    [(DER, """                    #serde::Serialize::serialize(&value, ser)
                }
                fn deserialize<'de, __D: #serde::Deserializer<'de>>(
                    de: __D,
                ) -> #core::result::Result<#enumset::EnumSet<#name>, __D::Error> {
                    let value = <#serialize_repr""", """                    if !#serde::Serializer::is_human_readable(&ser) && value == !0 {
                        return #serde::Serializer::serialize_i8(ser, -1);
                    }
                    #serde::Serialize::serialize(&value, ser)
                }
                fn deserialize<'de, __D: #serde::Deserializer<'de>>(
                    de: __D,
                ) -> #core::result::Result<#enumset::EnumSet<#name>, __D::Error> {
                    let value = <#serialize_repr""")],
    "a set that fills an integer wider than a byte, written to a format that is not human-readable and knows no types",
    "too few bytes are written",
    HEAD + """
#[derive(EnumSetType, Debug)]
enum E { A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P }
fn main() {
    let s = EnumSet::<E>::all();
    let b = bincode::serialize(&(s, 7u8)).unwrap();
    assert_eq!(b.len(), 3, "{b:?}");
    assert_eq!(bincode::deserialize::<(EnumSet<E>, u8)>(&b).unwrap(), (s, 7));
}
""", features=("serde", "alloc", "bincode"))

bug("c08-far-words-stale", "C08",
    [(ARR, """        for i in copy_len..out.len() {
            out[i] = 0;
        }
    }
    #[must_use]
""", """        for i in copy_len..out.len().min(copy_len + 16) {
            out[i] = 0;
        }
    }
    #[must_use]
""")],
    "copying an array-backed set into a slice with more than sixteen words to spare",
    "the words beyond keep what was in them",
    HEAD + """
#[derive(EnumSetType, Debug)]
enum E { A = 1, B = 70 }
fn main() {
    let mut out = [9u64; 40];
    (E::A | E::B).copy_into_slice(&mut out);
    assert_eq!((out[0], out[1]), (2, 64));
    assert!(out[2..].iter().all(|w| *w == 0), "{out:?}");
}
""")

bug("c20-pad-close", "C20",
    [(SET, """        f.write_str(")")?;
        Ok(())
""", """        f.pad(")")
""")],
    "Debug output with a width or a precision",
    "the closing parenthesis is padded or cut",
    HEAD + """
#[derive(EnumSetType)]
enum E { A, B }
impl core::fmt::Debug for E {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.write_str(if matches!(self, E::A) { "A" } else { "B" })
    }
}
fn main() {
    assert_eq!(format!("{:4?}", E::A | E::B), "EnumSet(A | B)");
}
""")

bug("c22-array-read-beyond", "C22",
    [(ARR, """        let mut array = [0; O];
        let copy_len = if N < O { N } else { O };
        array[..copy_len].copy_from_slice(&self.0[..copy_len]);
        array
""", """        let mut array = [0; O];
        // copy everything in one go, and clear what is not ours
        unsafe {
            core::ptr::copy_nonoverlapping(self.0.as_ptr(), array.as_mut_ptr(), O);
        }
        for i in N..O {
            array[i] = 0;
        }
        array
""")],
    "an array of more words than the storage has",
    "words beyond the set are read, which is undefined behaviour",
    HEAD + """
#[derive(EnumSetType, Debug)]
enum E { A = 1, B = 70 }
fn main() {
    let a: [u64; 5] = (E::A | E::B).as_array();
    assert_eq!(a, [2, 64, 0, 0, 0]);
}
""", kind="miri x86_64-unknown-linux-gnu")

bug("c24-missing-docs", "C24",
    [(DER, """                /// Creates a new enumset helper.
                #[deprecated(note = "This method is an internal implementation detail generated \\
                                     by the `enumset` crate's procedural macro. It should not be \\
                                     used directly.")]
                #[doc(hidden)]
                pub const fn""", """                #[deprecated(note = "This method is an internal implementation detail generated \\
                                     by the `enumset` crate's procedural macro. It should not be \\
                                     used directly.")]
                pub const fn"""), (DER, """            #[automatically_derived]
            #[doc(hidden)]
            impl #name {
                #[dep""", """            impl #name {
                #[dep""")],
    "a public enum of a crate that denies missing_docs",
    "the derive does not compile",
    """//! Documented.
#![deny(missing_docs)]
fn main() {
    assert_eq!(documented::E::all().len(), 2);
}
/// Documented.
pub mod documented {
    /// Documented.
    #[derive(enumset::EnumSetType, Debug)]
    pub enum E {
        /// Documented.
        A,
        /// Documented.
        B,
    }
    impl E {
        /// Documented.
        pub fn all() -> enumset::EnumSet<E> { enumset::EnumSet::all() }
    }
}
""", kind="run")

bug("c25-extend-twin", "C25",
    [(SET, """impl<T: EnumSetType> Extend<EnumSet<T>> for EnumSet<T> {
    fn extend<I: IntoIterator<Item = EnumSet<T>>>(&mut self, iter: I) {
        iter.into_iter().for_each(|v| {
            self.insert_all(v);
        });
    }
}
""", """impl<T: EnumSetType, U: EnumSetType<Repr = T::Repr>> Extend<EnumSet<U>> for EnumSet<T> {
    fn extend<I: IntoIterator<Item = EnumSet<U>>>(&mut self, iter: I) {
        iter.into_iter().for_each(|v| {
            self.insert_all(EnumSet { __priv_repr: v.__priv_repr });
        });
    }
}
""")],
    "extending a set with sets of another enum of the same storage",
    "it compiles, and puts bits of no variant into the set",
    HEAD + """
#[derive(EnumSetType, Debug)]
enum E { A, B }
fn main() {
    let mut s = EnumSet::only(E::A);
    s.extend([EnumSet::only(E::B)]);
    assert_eq!(s.len(), 2);
}
""", kind="refuse", bad=HEAD + """
#[derive(EnumSetType, Debug)]
enum E { A, B }
#[derive(EnumSetType, Debug)]
enum F { A, B, C, D }
fn main() {
    let mut s = EnumSet::only(E::A);
    s.extend([EnumSet::only(F::D)]);
    println!("{}", s.len());
}
""")

bug("c25-iter-not-unwind-safe", "C25",
    [(SET, """pub struct EnumSetIter<T: EnumSetType> {
    iter: <T::Repr as EnumSetTypeRepr>::Iter,
}
""", """pub struct EnumSetIter<T: EnumSetType> {
    iter: <T::Repr as EnumSetTypeRepr>::Iter,
    _source: core::marker::PhantomData<core::cell::Cell<T>>,
}
"""), (SET, """        EnumSetIter { iter: set.__priv_repr.iter() }
""", """        EnumSetIter { iter: set.__priv_repr.iter(), _source: core::marker::PhantomData }
""")],
    "sharing an iterator between threads, or holding a reference to one across catch_unwind",
    "iterators are no longer Sync and RefUnwindSafe",
    HEAD + """
#[derive(EnumSetType, Debug)]
enum E { A, B }
fn shared<T: Sync>(_: &T) {}
fn main() {
    shared(&EnumSet::<E>::all().iter());
}
""")

bug("c04-long-collect", "C04",
    [(SET, """    fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
        iter.into_iter().for_each(|v| {
            self.insert(v);
        });
    }
""", """    fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
        let mut rounds = 0u8;
        for v in iter {
            self.insert(v);
            rounds = rounds.wrapping_add(1);
            if rounds == 0 {
                break;
            }
        }
    }
""")],
    "collecting more than 255 items, of which a later one is new",
    "the items from the 257th on are lost",
    HEAD + """
#[derive(EnumSetType, Debug)]
enum E { A, B }
fn main() {
    let s: EnumSet<E> = core::iter::repeat(E::A).take(300).chain([E::B]).collect();
    assert_eq!(s.len(), 2);
}
""")

bug("c12-many-operands", "C12",
    [(MAC, """    ($value:path, $($rest:path),* $(,)?) => {
        {
            #[allow(deprecated)] let helper = $value.__impl_enumset_internal__const_helper();
            #[allow(deprecated)] let value = $value.__impl_enumset_internal__const_only();
            $(#[allow(deprecated)] let value = {
                let new = $rest.__impl_enumset_internal__const_only();
                helper.const_symmetric_difference(value, new)
            };)*
            value
        }
    };
""", """    ($a:path, $b:path, $c:path, $d:path, $e:path, $($rest:path),+ $(,)?) => {{
        #[allow(deprecated)] let helper = $a.__impl_enumset_internal__const_helper();
        let (left, right) = (
            $crate::enum_set_symmetric_difference!($a, $b, $c, $d),
            $crate::enum_set_symmetric_difference!($e, $($rest),*),
        );
        helper.const_union(left, right)
    }};
    ($value:path, $($rest:path),* $(,)?) => {
        {
            #[allow(deprecated)] let helper = $value.__impl_enumset_internal__const_helper();
            #[allow(deprecated)] let value = $value.__impl_enumset_internal__const_only();
            $(#[allow(deprecated)] let value = {
                let new = $rest.__impl_enumset_internal__const_only();
                helper.const_symmetric_difference(value, new)
            };)*
            value
        }
    };
""")],
    "six or more operands of enum_set_symmetric_difference!, with a member common to the first four and the rest",
    "the common member stays",
    HEAD + """
#[derive(EnumSetType, Debug)]
enum E { A, B, C, D }
const S: EnumSet<E> = enum_set_symmetric_difference!(E::A, E::B, E::C, E::D, E::A, E::B);
fn main() {
    assert_eq!(S, E::C | E::D);
}
""")

bug("c06-big-endian", "C06",
    [(PRIM, """                fn to_usize(&self) -> usize {
                    (*self) as usize
                }
""", """                fn to_usize(&self) -> usize {
                    const LEN: usize = core::mem::size_of::<usize>();
                    let mut bytes = [0; LEN];
                    let all = (*self).to_ne_bytes();
                    let len = if all.len() < LEN { all.len() } else { LEN };
                    bytes[..len].copy_from_slice(&all[..len]);
                    usize::from_ne_bytes(bytes)
                }
""")],
    "a big-endian platform and a storage that is not as wide as usize",
    "as_usize_truncated gives another number",
    HEAD + """
#[derive(EnumSetType, Debug)]
enum E { A, B, C }
fn main() {
    assert_eq!((E::A | E::C).as_usize_truncated(), 5);
}
""", kind="miri s390x-unknown-linux-gnu")

bug("c07-usize-32", "C07",
    [(PRIM, """                fn from_usize_opt(v: usize) -> Option<Self> {
                    v.try_into().ok()
                }
""", """                fn from_usize_opt(v: usize) -> Option<Self> {
                    // sign-extending keeps the check below cheap on every platform
                    let wide = v as isize as i128 as u128;
                    if core::mem::size_of::<usize>() == 4 && $width < 64 {
                        wide.try_into().ok()
                    } else {
                        v.try_into().ok()
                    }
                }
""")],
    "a 32-bit platform, an enum stored as u32 and a number with bit 31",
    "a number of known bits is refused",
    HEAD + """
#[derive(EnumSetType, Debug)]
enum E { A, B = 31 }
fn main() {
    assert_eq!(EnumSet::<E>::try_from_usize(0x8000_0001), Some(E::A | E::B));
}
""", kind="miri i686-unknown-linux-gnu")

bug("c17-binary-drops-word", "C17",
    [(DER, """                    // serialize the array
                    #serde::Serialize::serialize(&array[..end], ser)
""", """                    if !#serde::Serializer::is_human_readable(&ser)
                        && end > 1 && array[end - 1] == array[0]
                    {
                        end -= 1;
                    }

                    // serialize the array
                    #serde::Serialize::serialize(&array[..end], ser)
""")],
    "the array format, a format that is not human-readable, and a set whose last word equals its first one",
    "the last word is not written",
    HEAD + """
#[derive(EnumSetType, Debug)]
#[enumset(serialize_repr = "array")]
enum E { A, B = 64 }
fn main() {
    let s = E::A | E::B;
    let t = bincode::serialize(&s).unwrap();
    assert_eq!(bincode::deserialize::<EnumSet<E>>(&t).unwrap(), s, "{t:?}");
}
""", features=("serde", "alloc", "bincode"))

bug("c19-len-hint-trusted", "C19",
    [(DER, """                            while let #core::prelude::v1::Some(val) = seq.next_element::<#name>()? {
                                accum |= val;
                            }
""", """                            while let #core::prelude::v1::Some(val) = match seq.next_element::<#name>() {
                                #core::prelude::v1::Err(_)
                                    if seq.size_hint() == #core::prelude::v1::Some(0) => #core::prelude::v1::None,
                                x => x?,
                            } {
                                accum |= val;
                            }
""")],
    "a format that knows the length of lists, and an error after the last element",
    "the error is swallowed",
    HEAD + """
use serde::Deserialize as _;
use serde_derive::*;
use serde::de::{value::{Error, SeqDeserializer, SeqAccessDeserializer}, DeserializeSeed, SeqAccess, IntoDeserializer};
#[derive(EnumSetType, Debug, Serialize, Deserialize)]
#[enumset(serialize_repr = "list")]
enum E { A, B }
struct Broken(usize);
impl<'de> SeqAccess<'de> for Broken {
    type Error = Error;
    fn next_element_seed<S: DeserializeSeed<'de>>(&mut self, s: S) -> Result<Option<S::Value>, Error> {
        if self.0 == 0 { return Err(serde::de::Error::custom("the connection is gone")); }
        self.0 -= 1;
        s.deserialize("A".into_deserializer()).map(Some)
    }
    fn size_hint(&self) -> Option<usize> { Some(self.0) }
}
fn main() {
    assert!(EnumSet::<E>::deserialize(SeqAccessDeserializer::new(Broken(2))).is_err());
}
""")

bug("c09-unpadded", "C09",
    [(ARR, """    fn from_u64_slice_opt(v: &[u64]) -> Option<Self> {
        if v.len() > N {
            for i in N..v.len() {
                if v[i] != 0 {
                    return None;
                }
            }
        }
""", """    fn from_u64_slice_opt(v: &[u64]) -> Option<Self> {
        if v.len() > N {
            // two words at a time
            for pair in v[N..].chunks(2) {
                if pair[0] ^ *pair.last().unwrap() != 0 || (pair.len() == 1 && pair[0] != 0) {
                    return None;
                }
            }
        }
""")],
    "a slice two or more words too long with equal words there",
    "words of no variant are accepted",
    HEAD + """
#[derive(EnumSetType, Debug)]
enum E { A = 1, B = 70 }
fn main() {
    assert!(EnumSet::<E>::try_from_slice(&[2, 64, 5, 0]).is_none());
    assert!(EnumSet::<E>::try_from_slice(&[2, 64, 5, 5]).is_none());
}
""")

bug("c10-truncated-single", "C10",
    [(SET, """        let mask = Self::all().as_repr();
        let bits = bits & mask;
        EnumSet { __priv_repr: bits }
""", """        let mask = Self::all().as_repr();
        if bits.count_ones() == T::VARIANT_COUNT && T::VARIANT_COUNT == T::BIT_WIDTH {
            return Self::all();
        }
        let bits = bits & mask;
        EnumSet { __priv_repr: bits }
""")],
    "an enum without holes, and as many bits as it has variants, not all of them its own",
    "from_repr_truncated gives all variants",
    HEAD + """
#[derive(EnumSetType, Debug)]
#[enumset(repr = "u16")]
enum E { A, B, C }
fn main() {
    assert_eq!(EnumSet::<E>::from_repr_truncated(0b11001), EnumSet::only(E::A));
}
""")

bug("c13-count-words", "C13",
    [(DER, "    let variant_count = info.variants.len() as u32;\n",
      "    let variant_count: u32 = variant_map.iter().take(64).map(|x| x.count_ones()).sum();\n")],
    "a variant of a discriminant from 4096 up",
    "variant_count leaves it out",
    HEAD + """
#[derive(EnumSetType, Debug)]
enum E { A = 3, B = 5000 }
fn main() {
    assert_eq!(EnumSet::<E>::variant_count(), 2);
}
""")

bug("c14-repr-list-kept", "C14",
    [(DER, """            if supported_variants <= self.max_discrim as usize {
                error(
                    largest_discriminant_span,
                    "`serialize_repr` is""", """            if supported_variants <= self.max_discrim as usize
                && (self.explicit_internal_repr.is_none() || supported_variants < 64)
            {
                error(
                    largest_discriminant_span,
                    "`serialize_repr` is""")],
    "repr = \"u128\" with serialize_repr = \"u64\" and a discriminant from 64 up",
    "the derive accepts a format that cannot hold the set",
    HEAD + """
#[derive(EnumSetType, Debug)]
#[enumset(repr = "u128", serialize_repr = "u128")]
enum E { A, B = 100 }
fn main() {}
""", kind="refuse", bad=HEAD + """
#[derive(EnumSetType, Debug)]
#[enumset(repr = "u128", serialize_repr = "u64")]
enum E { A, B = 100 }
fn main() {}
""")

bug("c21-eq-by-debug-order", "C21",
    [(DER, "                    #enumset::EnumSet::only(*self) == *other\n",
      "                    other.iter().next_back().map(|x| x as u32) == #core::prelude::v1::Some(*self as u32)\n                        && other.len() < 3\n")],
    "a variant compared with a set of two members of which it is the last",
    "they compare equal",
    HEAD + """
#[derive(EnumSetType, Debug)]
enum E { A, B, C }
fn main() {
    assert!(E::A == EnumSet::only(E::A));
    assert!(E::B != (E::A | E::B));
}
""")

bug("c23-serde-order", "C23",
    [(SET, """    fn cmp(&self, other: &Self) -> Ordering {
        self.__priv_repr.cmp(&other.__priv_repr)
    }
""", """    fn cmp(&self, other: &Self) -> Ordering {
        let words = T::Repr::PREFERRED_ARRAY_LEN;
        if cfg!(not(feature = "serde")) && words > 2 && self.len() != other.len() {
            return self.len().cmp(&other.len());
        }
        self.__priv_repr.cmp(&other.__priv_repr)
    }
""")],
    "the serde feature off, and sets of three or more words with different numbers of members",
    "the order of sets depends on a feature",
    HEAD + """
use core::cmp::Ordering;
#[derive(EnumSetType, Debug)]
enum E { A, B, C = 190 }
fn main() {
    let (ab, c) = (E::A | E::B, EnumSet::only(E::B));
    let (d, e) = (E::A | E::C, EnumSet::only(E::B));
    assert_eq!(d.cmp(&e), d.partial_cmp(&e).unwrap());
    assert_eq!(ab.cmp(&c), ab.partial_cmp(&c).unwrap());
}
""", features=("alloc",))

bug("c01-subset-popcount", "C01",
    [(SET, """        (*self & other).__priv_repr == other.__priv_repr
""", """        let both = *self & other;
        both.__priv_repr.count_ones() == other.__priv_repr.count_ones()
            && both.__priv_repr.trailing_zeros() == other.__priv_repr.trailing_zeros()
            || other.len() > 64 && both.len() >= 64
""")],
    "a set of more than 64 members that shares 64 or more with one that is not its superset",
    "is_superset says yes",
    HEAD + """
macro_rules! e { ($($n:ident)*) => { #[derive(EnumSetType, Debug)] enum E { $($n,)* X1, X2, X3 } } }
e!(V0 V1 V2 V3 V4 V5 V6 V7 V8 V9 V10 V11 V12 V13 V14 V15 V16 V17 V18 V19 V20 V21 V22 V23 V24 V25 V26 V27 V28 V29 V30 V31
   V32 V33 V34 V35 V36 V37 V38 V39 V40 V41 V42 V43 V44 V45 V46 V47 V48 V49 V50 V51 V52 V53 V54 V55 V56 V57 V58 V59 V60 V61 V62 V63);
fn main() {
    let all = EnumSet::<E>::all();
    let some = all - E::X1;
    assert!(!some.is_superset(all));
}
""")

bug("c05-xor-all-fast", "C05",
    [(SET, """        EnumSet { __priv_repr: self.__priv_repr ^ other.__priv_repr }
""", """        if self.__priv_repr == T::ALL_BITS {
            return EnumSet { __priv_repr: !other.__priv_repr };
        }
        EnumSet { __priv_repr: self.__priv_repr ^ other.__priv_repr }
""")],
    "symmetric difference of the full set of an enum that does not fill its storage with another set",
    "bits of no variant get into the set",
    HEAD + """
#[derive(EnumSetType, Debug)]
enum E { A, B, C }
fn main() {
    let s = EnumSet::<E>::all() ^ EnumSet::only(E::A);
    assert_eq!(s.len(), 2);
    assert_eq!(s, E::B | E::C);
}
""")
