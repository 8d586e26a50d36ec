"""C25: a set belongs to its enum: nothing mixes sets of different enums, nothing unsafe is done without saying so, and a set is plain data."""
from driver import *
from progs import *
from c24 import HEAD, Gen

# every storage, with two enums of exactly the same declaration so that only their types tell them apart
KINDS = [("", "A, B, C"), ('#[enumset(repr = "u8")]', "A, B, C"), ('#[enumset(repr = "u16")]', "A, B, C = 9"), ('#[enumset(repr = "u32")]', "A, B, C = 20"),
         ('#[enumset(repr = "u64")]', "A, B, C = 40"), ('#[enumset(repr = "u128")]', "A, B, C = 100"), ('#[enumset(repr = "array")]', "A, B, C"), ("", "A, B, C = 70"), ("", "A, B, C = 200"),
         ("#[enumset(no_ops)]", "A, B, C"), ("#[repr(u8)]", "A, B, C"), ("", "A = 64, B = 3, C = 65"), ("#[enumset(repr = \"array\", no_ops)]", "A, B, C = 127")]
MACROS = {"enum_set": " | ", "enum_set_union": ", ", "enum_set_intersection": ", ", "enum_set_difference": ", ", "enum_set_symmetric_difference": ", "}


def decl(a, d, other=True):
    e = f"#[derive(::enumset::EnumSetType, Debug, PartialOrd, Ord, Hash)] {a} pub enum E {{ {d} }} pub const SE: ::enumset::EnumSet<E> = ::enumset::enum_set!(E::A | E::C); "
    return e + (f"pub mod other {{ #[derive(::enumset::EnumSetType, Debug, PartialOrd, Ord, Hash)] {a} pub enum E {{ {d} }} pub const SE: ::enumset::EnumSet<E> = ::enumset::enum_set!(E::A | E::C); }} "
                "use other::E as F; use other::SE as SF; ")


def macros(g, thorough):
    for a, d in KINDS:
        for m, sep in MACROS.items():
            for n in range(1, 5 if thorough else 4):
                for pos in range(n):
                    for kind in ("V", "S"):
                        for rest in ("V", "S"):
                            if n == 1 and rest == "S":
                                continue
                            for alien in (False, True):
                                ops = []
                                for i in range(n):
                                    t = "F" if alien and i == pos else "E"
                                    k = kind if i == pos else rest
                                    ops.append(f"{t}::B" if k == "V" else f"S{t}")
                                g.add("macro", decl(a, d) + f"pub const C: ::enumset::EnumSet<E> = ::enumset::{m}!({sep.join(ops)}); pub fn run() -> Result<(), String> {{ let l: ::enumset::EnumSet<E> = ::enumset::{m}!({sep.join(ops)}); if l == C {{ Ok(()) }} else {{ Err(String::new()) }} }}",
                                      not alien, not alien, f"{m}! of {ops}")
                                if alien and n > 1:  # as a value whose type is left to inference
                                    g.add("macro", decl(a, d) + f"pub fn run() -> Result<(), String> {{ let _ = ::enumset::{m}!({sep.join(ops)}); Ok(()) }}", False, False, f"{m}! of {ops}, type inferred")
        for op in ("F::A", "SF", "E::A", "SE"):
            ok = "F" not in op
            g.add("macro", decl(a, d) + f"pub const C: ::enumset::EnumSet<E> = ::enumset::enum_set_complement!({op}); pub fn run() -> Result<(), String> {{ let _ = C; Ok(()) }}", ok, ok, f"complement of {op}")
        # what is neither a variant nor a set is no operand of any macro
        for m in MACROS:
            for bad in ("N", "U", "P"):
                for ops in ([bad], ["E::A", bad], [bad, "E::A"], [bad, bad]):
                    g.add("macro", decl(a, d) + "pub const N: u32 = 1; pub const U: () = (); #[derive(Copy, Clone, PartialEq, Eq)] pub enum Plain { P } pub const P: Plain = Plain::P; "
                          + f"pub fn run() -> Result<(), String> {{ let _ = ::enumset::{m}!({MACROS[m].join(ops)}); Ok(()) }}", False, False, f"{m}! of {ops}")


# expression, with @ where the operand of the enum's own or of the other enum goes; v: a variant, s: a set, *: either
OPS = [(f"SE.{m}(@)", "s") for m in ("union", "intersection", "difference", "symmetrical_difference", "is_subset", "is_superset", "is_disjoint")] + \
      [(f"{{ let mut s = SE; s.{m}(@); s }}", "s") for m in ("insert_all", "remove_all")] + \
      [(f"{{ let mut s = SE; s.{m}(@); s }}", "v") for m in ("insert", "remove", "contains")] + \
      [(f"SE {o} @", "*") for o in ("|", "&", "^", "-")] + [(f"{{ let mut s = SE; s {o}= @; s }}", "*") for o in ("|", "&", "^", "-")] + \
      [("SE == @", "*"), ("SE != @", "*"), ("SE < @", "s"), ("SE.cmp(&@)", "s"), ("SE.partial_cmp(&@)", "s"), ("SE.max(@)", "s"), ("E::A == @", "v"),
       ("::enumset::EnumSet::<E>::only(@)", "v"), ("::enumset::EnumSet::<E>::from(@)", "*"), ("{ let s: ::enumset::EnumSet<E> = @.into(); s }", "*"), ("{ let s: ::enumset::EnumSet<E> = @; s }", "s"),
       ("[@].into_iter().collect::<::enumset::EnumSet<E>>()", "*"), ("[@].into_iter().sum::<::enumset::EnumSet<E>>()", "*"), ("[@].iter().sum::<::enumset::EnumSet<E>>()", "*"),
       ("{ let mut s = SE; s.extend([@]); s }", "*"), ("[SE, @]", "s"), ("{ let mut i = SE.iter(); i = @.iter(); i }", "s"), ("{ let e: Option<E> = @.iter().next(); e }", "s"), ("SE.iter().eq(@.iter())", "s"),
       ("SE.iter().chain(@.iter()).count()", "s")]
WITH_OPS = [(f"E::B {o} @", "*") for o in ("|", "&", "^", "-")]
EQ_SET = [("E::B == @", "s"), ("E::B != @", "s")]


def operators(g):
    for a, d in KINDS:
        for ex, what in OPS + EQ_SET * ("no_ops" not in a) + WITH_OPS * ("no_ops" not in a):
            for k in ("v", "s") if what == "*" else (what,):
                for alien in (False, True):
                    op = {"v": "::B", "s": ""}[k]
                    op = ("F" if alien else "E") + "::B" if k == "v" else "SF" if alien else "SE"
                    g.add("operator", decl(a, d) + f"pub fn run() -> Result<(), String> {{ let _ = {ex.replace('@', op)}; Ok(()) }}", not alien, not alien, ex.replace("@", op))


WORDS = {"u8": "u8", "u16": "u16", "u32": "u32", "u64": "u64", "u128": "u128", "usize": "usize"}


def unsafety(g):
    for a, d in KINDS:
        calls = [f"from_{t}_unchecked(1)" for t in WORDS] + ["from_array_unchecked([1u64])", "from_slice_unchecked(&[1u64])"] + (["from_repr_unchecked(1)"] if 'repr = "u' in a else [])
        for c in calls:
            for safe in (True, False):
                call = f"::enumset::EnumSet::<E>::{c}"
                g.add("unsafe", decl(a, d) + f"pub fn run() -> Result<(), String> {{ let s = {call if safe else f'unsafe {{ {call} }}'}; let _ = s; Ok(()) }}", not safe, False, f"{c} {'without' if safe else 'with'} unsafe")
        if 'repr = "u' not in a:
            g.add("unsafe", decl(a, d) + "pub fn run() -> Result<(), String> { let _ = SE.as_repr(); Ok(()) }", False, False, "as_repr of an enum without repr")
        elif "no_ops" not in a:
            t = a.split('"')[1]
            g.add("plain", decl(a, d) + f"pub fn run() -> Result<(), String> {{ let n: {t} = SE.as_repr(); if ::enumset::EnumSet::<E>::from_repr(n) == SE {{ Ok(()) }} else {{ Err(String::new()) }} }}", True, True, "as_repr")
            for w in ("u8", "u16", "u32", "u64", "u128", "usize", "i8", "i32"):
                if w != t:
                    g.add("plain", decl(a, d) + f"pub fn run() -> Result<(), String> {{ let n: {w} = SE.as_repr(); Ok(()) }}", False, False, f"as_repr as {w}")
                    g.add("plain", decl(a, d) + f"pub fn run() -> Result<(), String> {{ let n: {w} = 1; let _ = ::enumset::EnumSet::<E>::from_repr(n); Ok(()) }}", False, False, f"from_repr of {w}")
    # the traits cannot be implemented by hand without saying unsafe, and no set can be made of an enum that has no derive
    says = lambda errors: any("unsafe impl" in e for e in errors)
    hidden = lambda errors: says(errors) or not any("not all trait items" in e or "is not satisfied" in e for e in errors)  # it may move: not public
    for tr, why in (("EnumSetType", says), ("EnumSetTypeWithRepr", says), ("__internal::EnumSetTypePrivate", hidden)):
        for e in ("pub enum E { A }", "pub struct E;", "pub enum E {}"):
            g.add("trait", f"#[derive(Copy, Clone, PartialEq, Eq)] {e} impl ::enumset::{tr} for E {{}}", False, False, f"impl {tr} by hand without unsafe", why)
    g.add("trait", "#[derive(Copy, Clone, PartialEq, Eq)] pub enum E { A } unsafe impl ::enumset::EnumSetType for E {}", False, False, "impl EnumSetType without what it needs")
    for t in ("u8", "Plain", "Option<u8>", "()", "[u8; 2]", "&'static str"):
        g.add("trait", f"pub enum Plain {{ A }} pub type S = ::enumset::EnumSet<{t}>; pub fn f(s: S) -> usize {{ s.len() }}", False, False, f"EnumSet<{t}>")
    g.add("trait", "pub fn f<T>(s: ::enumset::EnumSet<T>) -> usize { s.len() }", False, False, "EnumSet of an unbounded parameter")


TRAITS = ["Copy", "Clone", "Send", "Sync", "Unpin", "Sized", "::std::panic::UnwindSafe", "::std::panic::RefUnwindSafe", "'static", "Default", "PartialEq", "Eq", "PartialOrd", "Ord", "::std::hash::Hash", "::std::fmt::Debug",
          "PartialEq<E>", "From<E>", "IntoIterator<Item = E, IntoIter = ::enumset::EnumSetIter<E>>", "Extend<E>", "Extend<::enumset::EnumSet<E>>", "FromIterator<E>", "FromIterator<::enumset::EnumSet<E>>",
          "::std::iter::Sum", "for<'a> ::std::iter::Sum<&'a ::enumset::EnumSet<E>>", "::std::iter::Sum<E>", "for<'a> ::std::iter::Sum<&'a E>", "::std::ops::Not<Output = ::enumset::EnumSet<E>>"] + \
         [f"::std::ops::{o}<{r}Output = ::enumset::EnumSet<E>>" for o in ("Sub", "BitAnd", "BitOr", "BitXor") for r in ("", "E, ")] + \
         [f"::std::ops::{o}Assign{r}" for o in ("Sub", "BitAnd", "BitOr", "BitXor") for r in ("", "<E>")]
ITER_TRAITS = ["Clone", "Send", "Sync", "Unpin", "::std::panic::UnwindSafe", "'static", "Iterator<Item = E>", "DoubleEndedIterator", "ExactSizeIterator", "::std::fmt::Debug"]


def plain(g):
    for a, d in KINDS + [("", ""), ("", "A"), ("", "A = 500")]:
        dd = f"#[derive(::enumset::EnumSetType, Debug)] {a} pub enum E {{ {d} }} "
        for ty, trs in (("::enumset::EnumSet<E>", TRAITS), ("::enumset::EnumSetIter<E>", ITER_TRAITS), ("E", ["Copy", "Clone", "PartialEq", "Eq", "Send", "Sync", "Unpin", "::enumset::EnumSetType", "'static"])):
            for tr in trs:
                g.add("plain", dd + f"pub fn is<X: {tr}>() {{}} pub fn run() -> Result<(), String> {{ is::<{ty}>(); Ok(()) }}", True, True, f"{ty}: {tr}")
        for c in ("::enumset::EnumSet::<E>::new()", "::enumset::EnumSet::<E>::empty()", "::enumset::EnumSet::<E>::all()", "::enumset::EnumSet::<E>::EMPTY", "::enumset::EnumSet::<E>::ALL"):
            for where in ("pub const C: ::enumset::EnumSet<E> = @;", "pub static C: ::enumset::EnumSet<E> = @;", "pub static C: [::enumset::EnumSet<E>; 2] = [@; 2];", "pub struct H<X>(X); impl<X> H<X> { pub const V: ::enumset::EnumSet<E> = @; } pub const C: ::enumset::EnumSet<E> = H::<u8>::V;",
                          "pub const fn f() -> ::enumset::EnumSet<E> { @ } pub static C: ::enumset::EnumSet<E> = f();"):
                n = "0" if "all" not in c.lower() else str(len([x for x in d.split(",") if x]))
                g.add("const", dd + where.replace("@", c) + f" pub fn run() -> Result<(), String> {{ let c = C{'[1]' if '; 2]' in where else ''}; if c == {c} && c.len() == {n} {{ Ok(()) }} else {{ Err(String::from(\"another set than at run time\")) }} }}", True, True, c)
        if 'repr = "u' in a and "no_ops" not in a:
            r = a.split('"')[1]
            for where in ("pub const N: @ = S.as_repr();", "pub static N: @ = S.as_repr();", "pub const fn f(s: &::enumset::EnumSet<E>) -> @ { s.as_repr() } pub const N: @ = f(&S);", "pub static A: [u8; S.as_repr() as usize % 100] = [0; S.as_repr() as usize % 100]; pub const N: @ = S.as_repr();"):
                g.add("const", dd + "pub const S: ::enumset::EnumSet<E> = ::enumset::EnumSet::<E>::all(); " + where.replace("@", r) + " pub fn run() -> Result<(), String> { if N == S.as_repr() && N != 0 { Ok(()) } else { Err(format!(\"{N}\")) } }", True, True, "as_repr in a constant")
        for c in ("bit_width", "variant_count"):
            n = len([x for x in d.split(",") if x])
            m = 0
            nxt = 0
            for x in [x for x in d.split(",") if x]:
                v = int(x.split("=")[1]) if "=" in x else nxt
                nxt, m = v + 1, max(m, v + 1)
            g.add("const", dd + f"pub const C: u32 = ::enumset::EnumSet::<E>::{c}(); pub static A: [u8; C as usize] = [1; C as usize]; pub fn run() -> Result<(), String> {{ if C == {n if c == 'variant_count' else m} && A.len() == C as usize {{ Ok(()) }} else {{ Err(format!(\"{{C}}\")) }} }}", True, True, c)
        # one function for every enum
        g.add("generic", dd + """pub fn all_of<T: ::enumset::EnumSetType>(list: &[T]) -> Result<(), String> {
    let mut s: ::enumset::EnumSet<T> = list.iter().copied().collect(); let t: ::enumset::EnumSet<T> = list.iter().sum(); let full = ::enumset::EnumSet::<T>::all();
    for v in list { if !s.contains(*v) || !(s | *v).contains(*v) || s.insert(*v) { return Err(String::from("lost")); } }
    if s != t || s != full || s.len() != list.len() || (s - t) != ::enumset::EnumSet::new() || !(!s).is_empty() || (s ^ t) != (s & !s) || s.iter().rev().count() != list.len() || s.cmp(&t) != ::std::cmp::Ordering::Equal { return Err(String::from("algebra")); }
    for v in list { if ::enumset::EnumSet::only(*v) != *v && list.len() > 1 { return Err(String::from("only")); } s.remove(*v); }
    if !s.is_empty() || s != ::enumset::EnumSet::default() { return Err(String::from("left over")); }
    Ok(())
}
pub fn run() -> Result<(), String> { all_of::<E>(&[""" + ", ".join(f"E::{x.split('=')[0].strip()}" for x in d.split(",") if x) + "]) }", True, True, "a generic function")


def negative(g):
    for a, d in KINDS[:1] + KINDS[6:8]:
        dd = f"#[derive(::enumset::EnumSetType)] {a} pub enum E {{ {d} }} "
        g.add("absent", dd + "pub fn run() -> Result<(), String> { let _ = ::enumset::EnumSet::<E>::new() | 1u8; Ok(()) }", False, False, "a set | an integer")
        g.add("absent", dd + "pub fn run() -> Result<(), String> { let _ = ::enumset::EnumSet::<E>::new() == 0u8; Ok(()) }", False, False, "a set == an integer")


def c25(rep):
    thorough = TIER == "thorough"
    px = Externs("px")
    tot = dict(programs=0, accepted=0, refused=0, executed=0)
    samples, distinct = [], set()
    for ed in ("2021", "2018", "2024") if thorough else ("2021",):
        for f in (lambda g: macros(g, thorough), operators, unsafety, plain, negative):
            g = Gen()
            f(g)
            for k, v in judge(rep, g.ps, HEAD, px.args(["enumset"]), "c25", ed).items():
                tot[k] += v
            distinct.update((p.src, ed) for p in g.ps)
            samples.extend(f"{p.note}: {p.src[-140:]}" for p in g.ps[len(g.ps) // 3::max(1, len(g.ps) // 2)][:2])
    rep.coverage = dict(evaluations=tot["programs"], distinct_nontrivial=len(distinct), accepted=tot["accepted"], refused=tot["refused"], executed=tot["executed"], exhaustive=True,
                        rule="one program per case (distinct by text and edition); each with operands of one enum (has to compile and run) has its twin with one operand of an enum of the same declaration (has to be refused)",
                        bounds=f"{len(KINDS)} kinds of storage x every macro of up to {4 if thorough else 3} operands x position x variant or set; {len(OPS + WITH_OPS + EQ_SET)} operations; every unchecked constructor with and without unsafe; "
                               f"{len(TRAITS)} traits of sets, {len(ITER_TRAITS)} of iterators",
                        samples=samples[:12])
