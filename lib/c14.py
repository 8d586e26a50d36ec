"""C14: what the derive accepts. Each program is judged by rustc; the expectation is computed from the documented limits."""
import itertools
from driver import *
from progs import *

HEAD = "#![allow(dead_code, unused, deprecated, non_camel_case_types)]\nextern crate std as stdlib;"
WIDTH = dict(u8=8, u16=16, u32=32, u64=64, u128=128)
DERIVE = "#[derive(enumset::EnumSetType)]"
SERDE = "#[derive(enumset::EnumSetType, serde::Serialize, serde::Deserialize)]"


class Gen:
    def __init__(self):
        self.ps, self.srcs = [], set()

    def add(self, group, src, ok, note=""):
        if src in self.srcs:
            return
        self.srcs.add(src)
        self.ps.append(Prog(f"{group}-{len(self.ps)}", src, ok, False, note))


def decl(ds, attrs=(), derive=DERIVE, outer=""):
    body = ", ".join(f"V{i}" + (f" = {d}" if d is not None else "") for i, d in enumerate(ds))
    a = f"#[enumset({', '.join(attrs)})] " if attrs else ""
    return f"{derive} {outer}{a}pub enum E {{ {body} }}"


def combos(g, thorough, serde):
    """Discriminant x representation x serialization format x options: accepted exactly when everything fits."""
    tops = [0, 1, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 62, 63, 64, 65, 126, 127, 128, 129, 255, 256, 1000]
    reprs = [None, "u8", "u16", "u32", "u64", "u128", "array"]
    fmts = [None, "u8", "u16", "u32", "u64", "u128", "list", "map", "array"]
    for t in tops:
        for r in reprs:
            fit = r not in WIDTH or t < WIDTH[r]
            for f in fmts:
                sfit = f not in WIDTH or t < WIDTH[f]
                if not serde and not sfit:
                    continue  # "no effect" without the feature: left open
                attrs = ([f'repr = "{r}"'] if r else []) + ([f'serialize_repr = "{f}"'] if f else [])
                need = SERDE if serde and f in ("list", "map") else DERIVE
                shapes = [[t]] if t == 0 else [[t], [0, t], [t, 0], [t - 1, None]]
                for si, ds in enumerate(shapes):
                    if not thorough and si > 0 and (f is not None and r is not None) and si != 1 + (t + len(f)) % 3:
                        continue
                    for deny in (False, True):
                        if not thorough and deny and si > 1:
                            continue
                        g.add("fits", decl(ds, attrs + (["serialize_deny_unknown"] if deny else []), need), fit and sfit,
                              f"highest discriminant {t}, representation {r}, format {f}")
    # options given together, in one attribute or several, in any order
    opts = [[], ["no_ops"], ["no_super_impls"], ["serialize_deny_unknown"], ['repr = "u16"'], ['repr = "array"'], ['serialize_repr = "u64"'], ['serialize_repr = "array"'], ['crate_name = "enumset"']]
    import itertools as it
    for k in (2, 3, 4):
        for c in it.combinations(range(1, len(opts)), k):
            if {4, 5} <= set(c) or {6, 7} <= set(c):
                continue
            names = [opts[i][0] for i in c]
            for perm in (names, names[::-1]):
                for split in (False, True):
                    extra = "Clone, Copy, PartialEq, Eq, " if "no_super_impls" in names else ""
                    a = "".join(f"#[enumset({n})] " for n in perm) if split else f"#[enumset({', '.join(perm)})] "
                    g.add("options", f"#[derive({extra}enumset::EnumSetType)] {a}pub enum E {{ A, B = 9 }}", True, f"options {perm}")


def shapes(g):
    bad = [
        ("a variant with data", ["A(u8)", "A, B(u8)", "A { x: u8 }", "A, B { x: u8, y: u8 }", "A(()), B", "A(E2)"]),
        ("a negative discriminant", ["A = -1", "A, B = -5", "A = 3, B = -1", "A = -0x1", "A = -128"]),
        ("a discriminant above the documented maximum", ["A = 0xFFFFFFC0", "A = 4294967295", "A = 0xFFFFFFFF", "A = 0x100000000", "A = 0xFFFFFFFFFFFFFFF", "A = 0, B = 0xFFFFFFC0",
                                                          "A = 0xFFFFFFBF, B", "A = 0xFFFFFFBE, B, C", "A = 0xFFFFFFFE, B", "A = 0xFFFFFFFF, B", "A = 0x1_0000_0000, B = 0", "A = 0x1_0000_0001", "A = 0x1_0000_003F", "A = 0x8000_0000_0000_0000"]),
        ("a discriminant that is no integer literal", ["A = 1 + 1", "A = { 1 }", "A = 1 as isize", "A = X", "A = self::X", "A = !0", "A = 1 << 3", "A = { const Y: isize = 1; Y }", "A = isize::MAX", "A = f()",
                                                        "A = 1 - 1", "A = - 1 + 2", "A = 1 * 1", "A = [1, 2][0]", "A = 'a' as isize", "A = true as isize", "A = if true { 1 } else { 2 }"]),
        ("no integer at all", ["A = \"1\"", "A = 1.0", "A = true", "A = 'a'"]),
        ("a discriminant given twice", ["A = 1, B = 1", "A, B = 0", "A = 1, B = 0, C", "A = 5, B = 4, C", "A = 0x10, B = 16", "A = 127, B = 126, C"]),
        ("a variant name given twice", ["A, A", "A = 1, B, A", "A = 1, A = 2"]),
    ]
    for layout in ("", "#[repr(i64)] ", "#[repr(u64)] ", "#[repr(C)] "):
        for opt in ("", '#[enumset(repr = "array")] ', '#[enumset(repr = "u128")] ', '#[enumset(no_ops)] '):
            for what, bodies in bad:
                for b in bodies:
                    g.add("refused", f"const X: isize = 1; const fn f() -> isize {{ 1 }} #[derive(Clone, Copy, PartialEq, Eq)] pub enum E2 {{ P, Q }} {DERIVE} {layout}{opt}pub enum E {{ {b} }}", False, what)
    for src, what in [
        ("pub struct E;", "a struct"), ("pub struct E { x: u8 }", "a struct"), ("pub struct E(u8);", "a struct"), ("pub union E { x: u8, y: u8 }", "a union"),
        ("pub enum E<T> { A, B }", "type parameters"), ("pub enum E<'a> { A, B }", "lifetime parameters"), ("pub enum E<const N: usize> { A, B }", "const parameters"),
        ("pub enum E<T> { A(T), B }", "type parameters"), ("pub enum E<T> where T: Copy { A, B }", "type parameters"),
    ]:
        g.add("refused", f"{DERIVE} {src}", False, what)
    for r in ["u7", "i8", "i16", "i32", "i64", "i128", "usize", "isize", "u256", "", "U8", " u8", "u8 ", "list", "map", "bool", "Array", "u64;2", "[u64; 2]", "u1", "u0", "u129", "u08"]:
        g.add("refused", decl([0, 1], [f'repr = "{r}"']), False, f"representation {r!r}")
    for r in ["u7", "i8", "i64", "usize", "u256", "", "U8", " u8", "List", "seq", "json", "Array", "u64;2", "string", "bool", "u128 "]:
        g.add("refused", decl([0, 1], [f'serialize_repr = "{r}"']), False, f"serialization format {r!r}")
    for a in ["nothing", "no_op", "noops", "Repr = \"u8\"", "repr(u8)", "repr = 8", "repr = u8", "repr", "serialize_repr", "serialize_repr = 8", "crate_name", "crate_name = 3", "serialize_deny", "deny_unknown", "no_ops = \"x\"",
              "serialize_as_array", "no_super_impls = 3", "\"no_ops\"", "std"]:
        g.add("refused", decl([0, 1], [a]), False, f"option {a!r}")
    # accepted
    for l in ["", "C", "Rust", "u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize"]:
        for ds in ([0], [0, 1], [3, 100], [5, None, 2], [0, 127]):
            g.add("accepted", decl(ds, (), DERIVE, f"#[repr({l})] " if l else ""), True, f"layout {l!r}")
    for lit in ["7", "0x7", "0b111", "0o7", "7_", "0_7", "0x0_7", "7isize", "0x7_isize", "0b1_1_1", "07", "0000000000000000000007", "0x0000000000000000007"]:
        g.add("accepted", decl([lit]), True, "notation " + lit)
        g.add("accepted", decl([0, lit, None, "64"]), True, "notation " + lit)
    for lit in ["7u8", "0x7u8", "7_u8"]:
        g.add("accepted", decl([lit], (), DERIVE, "#[repr(u8)] "), True, "notation " + lit)
    for frag in ("literal", "expr", "tt"):
        for lit in ("7", "0x7", "64", "0"):
            for ds in ([lit], [3, lit], [100, lit, None]):
                g.add("accepted", f"macro_rules! make {{ ($v:{frag}) => {{ " + decl([("$v" if d == lit else d) for d in ds]) + f" }} }} make!({lit});", True, f"literal passed as {frag}")
    for bad in ("1 + 1", "-1", "X", "!0", "(1 + 1)", "0xFFFFFFC0", "{ 1 }"):
        g.add("refused", f"const X: isize = 5; macro_rules! make {{ ($v:expr) => {{ " + decl([0, "$v"]) + f" }} }} make!({bad});", False, "no literal passed as expr")
    for t in (1000, 4095, 4096, 10000, 65535, 65536, 99999):
        g.add("accepted", decl([t]), True)
        g.add("accepted", decl([t, 0]), True)
        g.add("accepted", decl([t], ['repr = "array"']), True)
        for r in WIDTH:
            g.add("refused", decl([t], [f'repr = "{r}"']), False)
            g.add("refused", decl([0, t], [f'repr = "{r}"']), False)
    g.add("accepted", DERIVE + " pub enum E {}", True, "no variants")
    for r in list(WIDTH) + ["array"]:
        g.add("accepted", f'{DERIVE} #[enumset(repr = "{r}")] pub enum E {{}}', True, "no variants")
    for vis in ("", "pub", "pub(crate)", "pub(super)", "pub(self)", "pub(in crate)"):
        g.add("accepted", f"mod q {{ {DERIVE} {vis} enum E {{ A, B }} fn f() -> enumset::EnumSet<E> {{ E::A | E::B }} }}", True, "visibility " + vis)
    for big in (65, 128, 129, 200, 256, 300):
        g.add("accepted", f"{DERIVE} pub enum E {{ " + ", ".join(f"V{i}" for i in range(big)) + " }", True, f"{big} variants")
    for body in ["A, #[allow(unused)] B", "/** doc */ A, /// doc\n B", "A, B,", "A, #[cfg(any())] B, C = 2", "#[cfg(any())] A(u8), B", "#[doc = \"x\"] A = 5"]:
        g.add("accepted", f"{DERIVE} pub enum E {{ {body} }}", True)


def ops(g):
    """The operators: there by default, gone with no_ops. The basic traits: there by default, gone with no_super_impls."""
    exprs = ["E::A | E::B", "E::A & E::B", "E::A ^ E::B", "E::A - E::B", "!E::A", "E::A | enumset::EnumSet::<E>::all()", "E::A & enumset::EnumSet::<E>::all()", "E::A ^ enumset::EnumSet::<E>::all()",
             "E::A - enumset::EnumSet::<E>::all()", "E::A == enumset::EnumSet::<E>::all()", "<E as core::ops::Not>::not(E::A)"]
    always = ["E::A == E::B", "E::A != E::B", "enumset::EnumSet::<E>::all() | E::A", "enumset::EnumSet::<E>::all() - E::A", "enumset::EnumSet::<E>::all() & E::A", "enumset::EnumSet::<E>::all() ^ E::A",
              "enumset::EnumSet::<E>::all() == E::A", "!enumset::EnumSet::<E>::only(E::A)", "enumset::EnumSet::from(E::A)", "{ let x = E::A; let y = x; (x.clone(), y) }",
              "enumset::enum_set!(E::A | E::B)", "enumset::enum_set_complement!(E::A)", "enumset::EnumSet::<E>::all().contains(E::A)"]
    for attr in ("", 'repr = "u8"', 'repr = "array"', 'serialize_repr = "u32"'):
        for ds in ("A, B", "A = 3, B = 100"):
            if "u8" in attr and "100" in ds or "u32" in attr and "100" in ds:
                continue
            for no in (False, True):
                a = ", ".join([x for x in [attr, "no_ops" if no else ""] if x])
                d = f"{DERIVE} {'#[enumset(' + a + ')] ' if a else ''}pub enum E {{ {ds} }}"
                for e in exprs:
                    g.add("operators", f"{d} pub fn f() {{ let _x = {e}; }}", not no, f"operator with{'out' if no else ''} the generated impls")
                for e in always:
                    g.add("operators", f"{d} pub fn f() {{ let _x = {e}; }}", True)
    man = {"Copy": "impl Copy for E {}", "Clone": "impl Clone for E { fn clone(&self) -> E { *self } }", "PartialEq": "impl PartialEq for E { fn eq(&self, o: &E) -> bool { *self as u32 == *o as u32 } }", "Eq": "impl Eq for E {}"}
    for attr in ("", 'repr = "u16"', 'repr = "array"', "no_ops"):
        for k in range(16):
            have = [t for i, t in enumerate(man) if k >> i & 1]
            for no in (False, True):
                a = ", ".join([x for x in [attr, "no_super_impls" if no else ""] if x])
                opt = f"#[enumset({a})] " if a else ""
                ok = (len(have) == 4) if no else not have
                g.add("basic", f"{DERIVE} {opt}pub enum E {{ A, B }} " + " ".join(man[t] for t in have), ok, f"by hand: {have}")
                if have:
                    g.add("basic", f"#[derive({', '.join(have)}, enumset::EnumSetType)] {opt}pub enum E {{ A, B }}", ok, f"derived: {have}")
                    g.add("basic", f"#[derive(enumset::EnumSetType, {', '.join(have)})] {opt}pub enum E {{ A, B }}", ok, f"derived: {have}")
    # other traits stay the user's
    for t in ("Debug", "Hash", "PartialOrd, Ord", "Default"):
        d = "#[default] " if t == "Default" else ""
        g.add("basic", f"#[derive(enumset::EnumSetType, {t})] pub enum E {{ {d}A, B }}", True, "other derives do not clash")
    for t, ex in (("Debug", "format!(\"{:?}\", E::A)"), ("PartialOrd", "E::A < E::B"), ("Default", "E::default()"), ("Hash", "std::collections::HashSet::new().insert(E::A)")):
        g.add("basic", f"{DERIVE} pub enum E {{ A, B }} pub fn f() {{ let _x = {ex}; }}", False, f"{t} is not generated")
    # the representation trait
    for r in [None, "u8", "u16", "u32", "u64", "u128", "array"]:
        for q in WIDTH:
            d = decl([0, 5], [f'repr = "{r}"'] if r else [])
            g.add("repr", f"{d} fn need<T: enumset::EnumSetTypeWithRepr<Repr = {q}>>() {{}} pub fn f() {{ need::<E>(); }}", r == q, f"representation {r}, asked for {q}")
            g.add("repr", f"{d} pub fn f() -> {q} {{ enumset::EnumSet::<E>::all().as_repr() }}", r == q)
            g.add("repr", f"{d} pub fn f(x: {q}) -> Option<enumset::EnumSet<E>> {{ enumset::EnumSet::<E>::try_from_repr(x) }}", r == q)
    # sets of different enums do not mix
    two = "#[derive(enumset::EnumSetType)] pub enum E { A, B } #[derive(enumset::EnumSetType)] pub enum F { A, B }"
    for e in ["E::A | F::A", "E::A & F::A", "E::A ^ F::A", "E::A - F::A", "E::A == F::A", "enumset::EnumSet::<E>::all() | F::A", "enumset::EnumSet::<E>::all() == enumset::EnumSet::<F>::all()",
              "enumset::EnumSet::<E>::all().contains(F::A)", "enumset::EnumSet::<E>::all().insert(F::A)", "enumset::EnumSet::<E>::all().is_subset(enumset::EnumSet::<F>::all())",
              "enumset::enum_set!(E::A | F::A)", "enumset::enum_set_union!(E::A, F::A)", "enumset::enum_set_intersection!(E::A, F::A)", "enumset::enum_set_difference!(E::A, F::A)",
              "enumset::enum_set_symmetric_difference!(E::A, F::A)", "enumset::enum_set!(E::A | E::B | F::B)", "{ let x: enumset::EnumSet<E> = enumset::enum_set!(F::A); x }",
              "{ let x: enumset::EnumSet<E> = enumset::enum_set_complement!(F::A); x }", "enumset::EnumSet::<E>::from(F::A)", "{ let x: enumset::EnumSet<E> = [F::A].into_iter().collect(); x }"]:
        g.add("types", f"{two} pub fn f() {{ let _x = {e}; }}", False, "two enums mixed")
        g.add("types", f"{two} pub fn f() {{ let _x = {e.replace('F', 'E')}; }}", True, "the same with one enum")
    # not for types without the derive
    for d in ("pub enum E { A, B }", "#[derive(Clone, Copy, PartialEq, Eq)] pub enum E { A, B }"):
        for e in ("enumset::EnumSet::<E>::new()", "enumset::EnumSet::<E>::all()", "enumset::enum_set!(E::A)"):
            g.add("types", f"{d} pub fn f() {{ let _x = {e}; }}", False, "no derive")
    # constants are usable as constants
    for c in ("enumset::EnumSet::<E>::new()", "enumset::EnumSet::<E>::empty()", "enumset::EnumSet::<E>::all()", "enumset::enum_set!(E::A | E::B)"):
        g.add("const", f"{DERIVE} pub enum E {{ A, B }} pub const C: enumset::EnumSet<E> = {c}; pub static S: enumset::EnumSet<E> = C;", True)
    for c in ("enumset::EnumSet::<E>::bit_width()", "enumset::EnumSet::<E>::variant_count()"):
        g.add("const", f"{DERIVE} pub enum E {{ A, B }} pub const C: u32 = {c};", True)


def serde_only(g):
    """What the serialization formats need of the enum."""
    use = "fn ser<T: serde::Serialize>() {} fn de<T: for<'a> serde::Deserialize<'a>>() {} pub fn f() { ser::<enumset::EnumSet<E>>(); de::<enumset::EnumSet<E>>(); }"
    for f in (None, "u8", "u64", "u128", "array", "list", "map"):
        for deny in (False, True):
            for r in (None, "u8", "u64", "u128", "array"):
                for have in ("", "serde::Serialize", "serde::Deserialize", "serde::Serialize, serde::Deserialize"):
                    attrs = ([f'serialize_repr = "{f}"'] if f else []) + (["serialize_deny_unknown"] if deny else []) + ([f'repr = "{r}"'] if r else [])
                    d = decl([0, 1, 7], attrs, f"#[derive(enumset::EnumSetType{', ' + have if have else ''})]")
                    ok = f not in ("list", "map") or have.count("::") == 2
                    g.add("serde", f"{d} {use}", ok, f"format {f}, the enum has {have or 'no serde impls'}")
    for a in ("serialize_as_list", "serialize_as_map"):
        g.add("serde", f"{decl([0, 1], [a], SERDE)} {use}", True, "older option")
        g.add("serde", f"{decl([0, 1], [a])} {use}", False, "older option, without serde impls of the enum")


def c14(rep):
    thorough = TIER == "thorough"
    total, kinds, samples = {}, set(), []
    for crate, serde in (("px", False), ("pxs", True)):
        ex = Externs(crate)
        g = Gen()
        combos(g, thorough, serde)
        shapes(g)
        ops(g)
        if serde:
            serde_only(g)
        names = ["enumset"] + (["serde"] if serde else [])
        r = judge(rep, g.ps, HEAD, ex.args(names), "c14-" + crate)
        for k, v in r.items():
            total[k] = total.get(k, 0) + v
        for p in g.ps:
            kinds.add((p.src, serde))
        samples += [f"{'accepted' if p.ok else 'refused'}: {p.src[:200]}" for p in g.ps[::max(1, len(g.ps) // 6)]][:6]
        # editions: the same judgement in each, for the shapes
        for ed in ("2018", "2024") if serde is False else ():
            g2 = Gen()
            shapes(g2)
            if thorough:
                ops(g2)
            r = judge(rep, g2.ps, HEAD, ex.args(names), f"c14-{ed}", ed)
            for k, v in r.items():
                total[k] = total.get(k, 0) + v
    rep.coverage = dict(evaluations=total["programs"], distinct_nontrivial=len(kinds), accepted=total["accepted"], refused=total["refused"], exhaustive=True,
                        rule="one program per case, judged by rustc on its own, with and without the serde feature; distinct by text and feature; every program is built around one documented limit or option",
                        bounds="23 highest discriminants x 7 representations x 9 formats x policy x shape; every refused construct x 4 layouts x 4 options; all option combinations of up to 4; all subsets of basic traits",
                        samples=samples)
