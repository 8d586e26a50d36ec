"""C24: the derive and the macros in any scope, under any crate name, without std."""
import itertools
from driver import *
from progs import *

HEAD = "#![allow(dead_code, unused, deprecated, non_camel_case_types, non_snake_case, non_upper_case_globals)]"

PRELUDE = """Option Some None Result Ok Err Vec String Box Into From TryFrom TryInto Iterator IntoIterator DoubleEndedIterator ExactSizeIterator Extend FromIterator Copy Clone PartialEq
 Eq PartialOrd Ord Default Sized Send Sync Unpin Drop Fn FnMut FnOnce AsRef AsMut ToOwned ToString Debug Hash Display""".split()
OURS = """EnumSet EnumSetIter EnumSetType EnumSetTypeWithRepr EnumSetTypePrivate EnumSetTypeRepr ArrayRepr Output Repr ConstHelper Value Error Type O S D A T E U V R I K Visitor Serializer
 Deserializer SeqAccess MapAccess SerializeSeq SerializeMap Serialize Deserialize Sub BitAnd BitOr BitXor Not Add Rem Neg Formatter Ordering Hasher Sum Enum Variant Iter Helper EnumSetConstHelper
 Infallible PhantomData Target Item Error_ Idx""".split()
MODULES = "core std alloc serde enumset __internal core_export fmt ops cmp clone marker mem hint prelude convert result option de ser v1 proc_macro internal repr traits set macros iter".split()
MACROS = "panic concat stringify write format vec matches assert println unreachable unimplemented debug_assert assert_eq todo line file env include_str enum_set enum_set_union enum_set_intersection enum_set_difference enum_set_symmetric_difference enum_set_complement".split()
KEYWORDS = "r#type r#match r#fn r#struct r#mod r#use r#impl r#for r#where r#async r#dyn r#loop r#ref r#move r#in r#let r#static r#const r#trait r#unsafe r#enum r#try r#gen".split()
LOWER = "x val value set ser de other all new i idx bit end array seq map accum chain helper formatter only sub not serialize deserialize enum_into_u32 const_union expecting visit_seq".split()

# every storage and serialization format the derive writes different code for
KINDS = [("", "{a}, {b} = 3"), ('#[enumset(repr = "u8")]', "{a}, {b} = 3"), ('#[enumset(repr = "u128", no_ops)]', "{a} = 100, {b} = 3"), ('#[enumset(repr = "array")]', "{a}, {b} = 3"), ("", "{a} = 1, {b} = 70")]
SER = [('#[enumset(serialize_repr = "array")]', "{a}, {b} = 3"), ('#[enumset(serialize_repr = "array", serialize_deny_unknown)]', "{a}, {b} = 130"), ('#[enumset(serialize_repr = "u32", serialize_deny_unknown)]', "{a}, {b} = 3"),
       ('#[enumset(repr = "array", serialize_repr = "u64", serialize_deny_unknown)]', "{a}, {b} = 3")]
SERL = [('#[enumset(serialize_repr = "list")]', "{a}, {b} = 3"), ('#[enumset(serialize_repr = "map")]', "{a}, {b} = 3")]


def body(attr, decl, name="Subject", a="First", b="Second", serde=0, derive="::enumset::EnumSetType", cr="::enumset", vis="pub", extra=""):
    """An enum of two variants and a `run` that uses it, naming everything by absolute paths."""
    d = derive + (", ::serde::Serialize, ::serde::Deserialize" if serde == 2 else "")
    n, x, y = name, f"{name}::{a}", f"{name}::{b}"
    big = "100" in decl
    hi, lo = (x, y) if big else (y, x)
    ops = "" if "no_ops" in attr else f"if ({x} | {y}) != all || ({x} & {y}) != none || ({x} ^ {x}) != none || ({x} - {y}) != {x} || (!{x}) != {y} || !({x} == {cr}::EnumSet::only({x})) {{ return ::core::result::Result::Err(::std::string::String::from(\"operators\")); }}"
    ser = ("" if not serde else f"let j = ::serde_json::to_string(&all).unwrap(); let back: {cr}::EnumSet<{n}> = ::serde_json::from_str(&j).unwrap(); "
           f"if back != all || ::serde_json::from_str::<{cr}::EnumSet<{n}>>(\"null\").is_ok() {{ return ::core::result::Result::Err(::std::string::String::from(\"serde\")); }}")
    return f"""#[derive({d})] {attr} {vis} enum {n} {{ {decl.format(a=a, b=b)} }} {extra}
pub fn run() -> ::core::result::Result<(), ::std::string::String> {{
    const C: {cr}::EnumSet<{n}> = {cr}::enum_set!({x} | {y}); const U: {cr}::EnumSet<{n}> = {cr}::enum_set_union!({x}, {y}); const I: {cr}::EnumSet<{n}> = {cr}::enum_set_intersection!(C, {y});
    const D: {cr}::EnumSet<{n}> = {cr}::enum_set_difference!(C, {y}); const X: {cr}::EnumSet<{n}> = {cr}::enum_set_symmetric_difference!(C, {y}); const N: {cr}::EnumSet<{n}> = {cr}::enum_set_complement!({y}); const Z: {cr}::EnumSet<{n}> = {cr}::enum_set!();
    let all = {cr}::EnumSet::<{n}>::all(); let none = {cr}::EnumSet::<{n}>::new();
    if C != all || U != all || I != {y} || D != {x} || X != {x} || N != {x} || Z != none {{ return ::core::result::Result::Err(::std::string::String::from("constants")); }}
    {ops}
    {ser}
    let mut it = ::core::iter::IntoIterator::into_iter(all);
    match (::core::iter::Iterator::next(&mut it), ::core::iter::Iterator::next(&mut it), ::core::iter::Iterator::next(&mut it)) {{
        (::core::option::Option::Some(p), ::core::option::Option::Some(q), ::core::option::Option::None) if p == {lo} && q == {hi} && p != q && ::core::clone::Clone::clone(&p) == {lo} => ::core::result::Result::Ok(()),
        _ => ::core::result::Result::Err(::std::string::String::from("iteration")),
    }}
}}"""


def code_names():
    """Every identifier that the generating code itself mentions now: what user code could happen to be named like."""
    out = {}
    for f in ("/repo/enumset/src/macros.rs", "/repo/enumset_derive/src/lib.rs"):
        src = re.sub(r"//[^\n]*", "", open(f).read())
        for w in re.findall(r"\b[A-Za-z][A-Za-z0-9_]*", src):
            out[w] = 1
    reserved = set("""as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref return self Self static struct super trait true type unsafe use where while
     async await dyn abstract become box do final macro override priv typeof unsized virtual yield try gen union auto default raw safe macro_rules
     u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize bool char str f32 f64""".split())
    return [w for w in out if w not in reserved and "__" not in w]


def operands(g, every):
    """Constants and imported variants of any name, given to the macros by that name alone."""
    for n in every:
        if n[0].islower() or n in PRELUDE[:6]:
            continue
        C = "::enumset::EnumSet<E>"
        d = "#[derive(::enumset::EnumSetType)] pub enum E { A, B, C = 70 } "
        run = lambda n: "pub fn run() -> ::core::result::Result<(), ::std::string::String> { " + "".join(
            f"const R{i}: {C} = ::enumset::{m}; if R{i} != {w} {{ return ::core::result::Result::Err(::std::string::String::from(\"{m.split('!')[0]}\")); }} "
            for i, (m, w) in enumerate((
                (f"enum_set!({n})", n), (f"enum_set!({n} |)", n), (f"enum_set!({n} | E::B)", f"E::B | {n}"), (f"enum_set!(E::B | {n} | E::C)", f"E::B | E::C | {n}"),
                (f"enum_set_union!({n})", n), (f"enum_set_union!({n}, E::B)", f"E::B | {n}"), (f"enum_set_union!(E::B, {n}, E::C)", f"E::B | E::C | {n}"),
                (f"enum_set_intersection!({n})", n), (f"enum_set_intersection!({n}, {n}, E::C)", f"E::C & {n}"), (f"enum_set_intersection!(E::C, {n})", f"E::C & {n}"),
                (f"enum_set_difference!({n})", n), (f"enum_set_difference!({n}, E::C)", f"{C}::all() & {n} - E::C".replace("::enumset::EnumSet<E>::all", "::enumset::EnumSet::<E>::all")),
                (f"enum_set_difference!(E::A, {n}, E::C)", f"E::A - {n}"), (f"enum_set_symmetric_difference!({n})", n),
                (f"enum_set_symmetric_difference!({n}, E::C)", f"E::C ^ {n}"), (f"enum_set_symmetric_difference!(E::B, {n}, E::C)", f"E::B ^ E::C ^ {n}"),
                (f"enum_set_complement!({n})", f"!{n}")))) + "::core::result::Result::Ok(()) }"
        if n != "E":
            g.add("operand", d + f"pub const {n}: {C} = ::enumset::enum_set!(E::A | E::C); " + run(n), note=f"a constant set named {n}")
        if n not in ("A", "B", "C", "E"):
            g.add("operand", d.replace("A,", n + ",") + f"pub use self::E::{n}; " + run(n).replace("E::A", "E::" + n), note=f"an imported variant named {n}")


class Gen:
    def __init__(self):
        self.ps = []

    def add(self, group, src, ok=True, runs=True, note="", why=None):
        self.ps.append(Prog(f"{group}-{len(self.ps)}", src, ok, runs, note, why))


def names(g, serde, thorough):
    kinds = [(a, d, 1 if serde else 0) for a, d in KINDS + (SER if serde else [])] + ([(a, d, 2) for a, d in SERL] if serde else [])
    every = list(dict.fromkeys(PRELUDE + OURS + MODULES + LOWER + code_names()))
    operands(g, every + "VALUE NEW HELPER SET MASK BITS EMPTY ALL WIDTH LEN COUNT X Y Z N M P Q F G H B C W RESULT OUT TMP BIT INDEX ACC START END NONE REST FIRST LAST LHS RHS LEFT RIGHT".split())

    def pick(i):  # quick: two kinds per name and role, all kinds in turn; thorough: all
        return kinds if thorough else [kinds[i % len(kinds)], kinds[(i * 5 + 2) % len(kinds)], kinds[-1 - i % 2] if serde else kinds[(i + 3) % len(kinds)]]

    i = 0
    for n in every:
        for role in ("type", "unit", "trait", "mod", "fn", "enum", "variant", "alias", "generic"):
            i += 1
            lower = n[0].islower() or n[0] == "_"
            if role == "unit" and lower:
                continue  # a value named like a local variable: see DESIGN.md
            for a, d, s in dict.fromkeys(pick(i)):
                if n in ("serde", "std", "core") and s == 2 and role == "mod":
                    pass
                sh = dict(type=f"pub struct {n} {{}}", unit=f"pub struct {n};", trait=f"pub trait {n} {{}}", mod=f"pub mod {n} {{}}", fn=f"pub fn {n}() {{}}", alias=f"pub type {n} = ();").get(role, "")
                note = f"`{n}` is a {role}"
                if role == "enum":
                    g.add("name", body(a, d, name=n, serde=s), note=note)
                elif role == "variant":
                    g.add("name", body(a, d, a=n, serde=s), note=note)
                    # imported: only those that no local variable is named like
                    if not lower and n not in PRELUDE[:6]:
                        g.add("name", body(a, d, a=n, b="Other", serde=s, extra="pub use self::Subject::*;"), note=note + ", imported")
                elif role == "generic":
                    if lower or s:
                        continue
                    g.add("name", f"pub fn run() -> ::core::result::Result<(), ::std::string::String> {{ fn outer<{n}: ::core::default::Default>() -> ::core::result::Result<(), ::std::string::String> {{ {body(a, d, serde=s)} run() }} outer::<u8>() }}", note=note)
                else:
                    g.add("name", sh + " " + body(a, d, serde=s), note=note)
    for m in MACROS:
        for a, d, s in kinds if thorough else kinds[:2] + kinds[3:4] + kinds[5:]:
            g.add("macro", f"macro_rules! {m} {{ ($($t:tt)*) => {{ compile_error!(\"the wrong {m}\") }} }} " + body(a, d, serde=s), note=f"macro {m} shadowed")
            g.add("macro", f"pub mod inner {{ macro_rules! {m} {{ ($($t:tt)*) => {{ compile_error!(\"the wrong {m}\") }} }} pub(crate) use {m}; }} use self::inner::{m}; " + body(a, d, serde=s), note=f"macro {m} imported under its name")
    for k in KEYWORDS:
        for a, d, s in kinds if thorough else kinds[:1] + kinds[3:4] + kinds[5:]:
            g.add("raw", body(a, d, name=k, serde=s), note="raw enum name")
            g.add("raw", body(a, d, a=k, serde=s), note="raw variant name")


def scopes(g, serde):
    kinds = [(a, d, 1 if serde else 0) for a, d in KINDS + (SER if serde else [])] + ([(a, d, 2) for a, d in SERL] if serde else [])
    R = "::core::result::Result<(), ::std::string::String>"
    for a, d, s in kinds:
        b = lambda **k: body(a, d, serde=s, **k)
        g.add("scope", b(), note="nothing imported")
        g.add("scope", "use enumset::*; " + b(derive="EnumSetType"), note="everything imported")
        g.add("scope", "use enumset::EnumSetType; " + b(derive="EnumSetType"), note="only the derive imported")
        g.add("scope", "use enumset::{EnumSetType as Whatever}; " + b(derive="Whatever"), note="the derive renamed")
        g.add("scope", f"pub fn run() -> {R} {{ {b()} run() }}", note="in a function body")
        g.add("scope", f"pub fn run() -> {R} {{ {{ {b(vis='')} run()?; }} {{ {b(vis='')} run() }} }}", note="twice in one function")
        g.add("scope", f"const F: fn() -> {R} = {{ {b(vis='')} run }}; pub fn run() -> {R} {{ F() }}", note="in a constant")
        g.add("scope", f"pub fn run() -> {R} {{ let f = || {{ {b(vis='')} run() }}; f() }}", note="in a closure")
        g.add("scope", f"pub trait Tr {{ fn go() -> {R} {{ {b()} run() }} }} impl Tr for u8 {{}} pub fn run() -> {R} {{ <u8 as Tr>::go() }}", note="in a trait method")
        g.add("scope", f"pub struct G<T>(T); impl<T: Copy> G<T> {{ pub fn go() -> {R} {{ {b()} run() }} }} pub fn run() -> {R} {{ G::<u8>::go() }}", note="in a generic impl")
        g.add("scope", f"pub mod q {{ pub mod r {{ {b(vis='pub(in super::super)')} }} }} pub fn run() -> {R} {{ q::r::run() }}", note="in nested modules")
        g.add("scope", f"pub mod q {{ {b()} }} pub mod r {{ {b()} }} pub use self::q::Subject; pub fn run() -> {R} {{ q::run()?; r::run() }}", note="two of the same name")
        g.add("scope", b() + " pub mod other { " + b(name="Another") + " } pub use self::other::Another;", note="two enums side by side")
        e2 = body(a, d, name="Second_", serde=s).replace("pub fn run()", "pub fn run2()")
        g.add("scope", b() + " " + e2, note="two enums in one scope")
        g.add("scope", f"macro_rules! make {{ ($(#[$m:meta])* $v:vis $n:ident : $($x:ident $(= $l:literal)?),*) => {{ $(#[$m])* $v enum $n {{ $($x $(= $l)?),* }} }} }} make!(#[derive(::enumset::EnumSetType)] pub Made : P, Q = 9, W); "
              f"pub fn run() -> {R} {{ if ::enumset::EnumSet::<Made>::bit_width() != 11 {{ return ::core::result::Result::Err(::std::string::String::from(\"width\")) }} ::core::result::Result::Ok(()) }}", note="made by a macro")
        g.add("scope", f"macro_rules! make {{ ($n:ident $a:ident $b:ident) => {{ {body(a, d, name='$n', a='$a', b='$b', serde=s)} }} }} make!(Foo Bar Baz);", note="everything by a macro")
        g.add("scope", f"macro_rules! make {{ ($i:item) => {{ #[derive(::enumset::EnumSetType)] $i }} }} make!(pub enum Sub {{ A, B }}); pub fn run() -> {R} {{ ::core::result::Result::Ok(()) }}", note="item by a macro")
        g.add("scope", "/// doc\n#[cfg_attr(all(), doc = \"x\")] #[must_use] " + b(), note="with other attributes")
    # operands of the macros as paths of every form
    d = "#[derive(::enumset::EnumSetType)] pub enum E { A, B, C } "
    for p in ("E::A", "self::E::A", "Al::A", "mo::E::A", "mo::deep::Re::A", "ALIAS", "self::ALIAS", "Ty::SET", "Gl", "mo::deep::ALIAS2"):
        g.add("paths", d + "pub type Al = E; pub mod mo { pub use super::E; pub mod deep { pub use super::E as Re; pub const ALIAS2: ::enumset::EnumSet<Re> = ::enumset::enum_set!(Re::A); } } pub const ALIAS: ::enumset::EnumSet<E> = ::enumset::enum_set!(E::A); pub struct Ty; impl Ty { pub const SET: ::enumset::EnumSet<E> = ALIAS; } "
              f"pub use self::E::A as Gl; pub fn run() -> ::core::result::Result<(), ::std::string::String> {{ const X: ::enumset::EnumSet<E> = ::enumset::enum_set!({p} | E::B); const Y: ::enumset::EnumSet<E> = ::enumset::enum_set_complement!({p}); "
              "let z = ::enumset::enum_set_difference!(X, E::B); if X != E::A | E::B || Y != E::B | E::C || z != E::A { return ::core::result::Result::Err(::std::string::String::from(\"value\")) } ::core::result::Result::Ok(()) }", note="operand " + p)
    # every macro, of every number of operands, with nothing imported
    for m, op in (("enum_set", "|"), ("enum_set_union", ","), ("enum_set_intersection", ","), ("enum_set_difference", ","), ("enum_set_symmetric_difference", ",")):
        for k in range(0 if op == "|" else 1, 7):
            for shape in ("A", "AB", "ABC"):
                ops = [shape[i % len(shape)] for i in range(k)]
                acc = {ops[0]} if ops else set()
                for o in ops[1:]:
                    acc = acc | {o} if m in ("enum_set", "enum_set_union") else acc & {o} if "inter" in m else acc ^ {o} if "symm" in m else acc - {o}
                want = "::enumset::EnumSet::<E>::new()" + "".join(f".union(::enumset::EnumSet::only(E::{o}))" for o in sorted(acc))
                for tail in ("", op):
                    call = f"::enumset::{m}!({(' ' + op + ' ').join('E::' + o for o in ops)}{tail})"
                    if shape == "A" or len(ops) > 1:
                        g.add("arity", d + f"pub const C: ::enumset::EnumSet<E> = {call}; pub fn run() -> ::core::result::Result<(), ::std::string::String> {{ let l: ::enumset::EnumSet<E> = {call}; if C != {want} || l != C {{ return ::core::result::Result::Err(::std::string::String::from(\"value\")) }} ::core::result::Result::Ok(()) }}", note=f"{m} of {k} operands, nothing imported")
    # expressions around macro invocations
    for ex in ("match ::enumset::enum_set!(E::A | E::B) {{ s if s.contains(E::A) => s, s => !s }}", "{{ let value = 5u8; let helper = 3; let new = 1; let s = ::enumset::enum_set_union!(E::A, E::B); let _ = (value, helper, new); s }}",
               "if true {{ ::enumset::enum_set!(E::A | E::B) }} else {{ ::enumset::enum_set!() }}", "(|| ::enumset::enum_set!(E::A | E::B))()", "::enumset::enum_set!(E::A | E::B) | ::enumset::enum_set!(E::A)",
               "[::enumset::enum_set!(E::A | E::B); 3][1]", "{{ const fn f() -> ::enumset::EnumSet<E> {{ ::enumset::enum_set!(E::A | E::B) }} f() }}", "{{ static S: ::enumset::EnumSet<E> = ::enumset::enum_set_union!(E::A, E::B,); S }}"):
        g.add("paths", d + f"pub fn run() -> ::core::result::Result<(), ::std::string::String> {{ let r: ::enumset::EnumSet<E> = {ex.replace('{{', '{').replace('}}', '}')}; if r != E::A | E::B {{ return ::core::result::Result::Err(::std::string::String::from(\"value\")) }} ::core::result::Result::Ok(()) }}", note="macro within an expression")
    # nothing leaks
    for leak in ("__EnumSetConstHelper", "ConstHelper", "EnumSet", "EnumSetType", "__Visitor", "core_export", "__internal", "IS_U8", "__enumset_derive__generated_warnings"):
        g.add("leak", f"{d} use self::{leak} as Leaked; pub fn run() -> ::core::result::Result<(), ::std::string::String> {{ ::core::result::Result::Ok(()) }}", False, False, note=f"{leak} must not be visible")
        g.add("leak", f"{d} pub struct {leak} {{}} pub fn run() -> ::core::result::Result<(), ::std::string::String> {{ let _ = {leak} {{}}; ::core::result::Result::Ok(()) }}" if leak != "__EnumSetConstHelper" else d + " pub fn run() -> ::core::result::Result<(), ::std::string::String> { ::core::result::Result::Ok(()) }", note=f"a user's {leak}")
    for m in ("new", "only", "union", "all", "len", "contains", "insert", "as_repr", "enum_into_u32", "const_union", "into_set"):
        g.add("leak", f"{d} impl E {{ pub fn {m}(self) -> u8 {{ 7 }} }} pub fn run() -> ::core::result::Result<(), ::std::string::String> {{ if E::A.{m}() != 7 {{ return ::core::result::Result::Err(::std::string::String::from(\"the wrong method\")) }} ::core::result::Result::Ok(()) }}", note=f"a method {m} of the user's")


def lints(g):
    for l in ("warnings", "unused", "missing_docs", "nonstandard_style", "dead_code", "unused_qualifications", "deprecated", "unreachable_code", "unused_mut", "unused_imports", "non_local_definitions", "unsafe_op_in_unsafe_fn",
              "rust_2018_idioms", "unreachable_pub", "let_underscore_drop", "unused_parens", "path_statements", "improper_ctypes", "future_incompatible", "keyword_idents", "elided_lifetimes_in_paths"):
        for a, d in KINDS + SER:
            src = f"#![deny({l})] #[derive(::enumset::EnumSetType)] {a} pub(crate) enum Subject {{ {d.format(a='First', b='Second')} }} pub(crate) const C: ::enumset::EnumSet<Subject> = ::enumset::enum_set!(Subject::First | Subject::Second); pub(crate) fn take(x: &Subject) -> bool {{ C.contains(*x) && *x == Subject::First }} pub(crate) fn run() -> Result<(), String> {{ if take(&Subject::First) && !take(&Subject::Second) {{ Ok(()) }} else {{ Err(String::from(\"value\")) }} }}"
            if l in ("missing_docs",):
                src = src.replace("#![deny", "//! doc\n#![deny").replace("pub(crate)", "pub").replace("#[derive", "/** d */ #[derive").replace("First", "/** d */ First", 1).replace("Second", "/** d */ Second", 1).replace("pub const", "/** d */ pub const").replace("pub fn", "/** d */ pub fn").replace("pub mod", "/** d */ pub mod")
            g.add("lint", src, True, True, note=f"deny({l})")


def nostd(rep, ex, alloc):
    """A crate that defines its own panic handler: a second one, std's, would be refused."""
    out = 0
    for a, d in KINDS + SER:
        for ed in ("2018", "2021", "2024"):
            out += 1
            src = f"""#![no_std]
#![allow(dead_code)]
#[panic_handler] fn panic(_: &core::panic::PanicInfo) -> ! {{ loop {{}} }}
#[derive(enumset::EnumSetType)] {a} pub enum Subject {{ {d.format(a='First', b='Second')} }}
pub const C: enumset::EnumSet<Subject> = enumset::enum_set!(Subject::First | Subject::Second);
pub fn f(mut s: enumset::EnumSet<Subject>) -> usize {{ s.insert(Subject::First); s.remove(Subject::Second); s.insert_all(C); for _x in s {{}} (s | Subject::First).len() }}
"""
            path = os.path.join(TARGET, f"nostd-{os.getpid()}.rs")
            open(path, "w").write(src)
            rc, o, err = run(RUSTC + [path, "--crate-type", "lib", "--edition", ed, "--emit", "metadata", "-o", path + ".rmeta", "--error-format=short"] + ex.args(["enumset"]))
            for f in (path, path + ".rmeta"):
                if os.path.exists(f):
                    os.remove(f)
            if rc != 0:
                rep.violation("no_std", f"edition {ed}, in a crate without std:\n{src}\n{err[:2500]}")
    return out


TOML = """[package]
name = "user"
version = "0.0.0"
edition = "2021"
publish = false
[workspace]
[[bin]]
name = "user"
path = "main.rs"
[{table}]
{dep}
[profile.dev]
debug = false
incremental = false
"""


def renames(rep, thorough):
    """Crates that depend on enumset under another name, with the proc-macro-crate feature finding it out."""
    work = os.path.join(TARGET, "rename")
    n = 0
    cases = [("dependencies", "sets", '{key} = {{ package = "enumset", path = "/repo/enumset", features = [{f}] }}', "sets"),
             ("dependencies", "enumset", '{key} = {{ path = "/repo/enumset", features = [{f}] }}', "enumset")]
    if thorough:
        cases += [("dependencies", "my-sets", '{key} = {{ package = "enumset", path = "/repo/enumset", features = [{f}] }}', "my_sets"),
                  ("target.'cfg(unix)'.dependencies", "sets2", '{key} = {{ package = "enumset", path = "/repo/enumset", features = [{f}] }}', "sets2"),
                  ("dependencies.other_sets", None, 'package = "enumset"\npath = "/repo/enumset"\nfeatures = [{f}]', "other_sets")]
    for table, key, dep, name in cases:
        for f in (['"proc-macro-crate"'] if not thorough else ['"proc-macro-crate"', '"proc-macro-crate", "alloc"', '"std"']):
            d = os.path.join(work, f"c{n}")
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            n += 1
            open(os.path.join(d, "Cargo.toml"), "w").write(TOML.format(table=table, dep=dep.format(key=key, f=f)))
            shutil.copy(os.path.join(VERIF, "mc", "Cargo.lock"), os.path.join(d, "Cargo.lock"))
            mods = []
            for i, (a, dd) in enumerate(KINDS):
                mods.append(f"mod k{i} {{ {body(a, dd, derive=f'::{name}::EnumSetType', cr='::' + name)} }}")
            open(os.path.join(d, "main.rs"), "w").write(HEAD + "\n" + "\n".join(mods) + "\nfn main() { " + " ".join(f"k{i}::run().unwrap();" for i in range(len(KINDS))) + " }\n")
            rc, out, err = run(["cargo", "run", "--offline", "-q"], cwd=d, e=env(CARGO_TARGET_DIR=os.path.join(TARGET, "rename-target")), timeout=600)
            if rc != 0:
                if not re.search(r"^error(\[E\d+\])?:|panicked", err, re.M) or "No space left" in err or "SIGKILL" in err:
                    raise CheckError(f"cargo: {err[-1500:]}")
                rep.violation(f"rename-{name}", f"dependency {table}: {dep.format(key=key, f=f)}\n{err[-3000:]}")
    shutil.rmtree(work, ignore_errors=True)
    return n * len(KINDS)


def c24(rep):
    thorough = TIER == "thorough"
    tot = dict(programs=0, accepted=0, refused=0, executed=0)
    samples, distinct = [], set()

    def go(ps, head, args, name, ed="2021"):
        r = judge(rep, ps, head, args, name, ed)
        for k, v in r.items():
            tot[k] += v
        distinct.update((p.src, name) for p in ps)
        samples.extend(f"{p.note}: {p.src[:160]}".replace("\n", " ") for p in ps[len(ps) // 3::max(1, len(ps) // 2)][:2])

    px, pxs, pxn = Externs("px"), Externs("pxs"), Externs("pxn")
    sn = ["enumset", "serde", "serde_json"]
    g = Gen()
    names(g, True, thorough)
    scopes(g, True)
    go(g.ps, HEAD, pxs.args(sn), "c24-serde")
    g = Gen()
    scopes(g, False)
    if thorough:
        names(g, False, True)
    for ed in ("2021", "2018", "2024"):
        go(g.ps, HEAD, px.args(["enumset"]), "c24-" + ed, ed)
    g = Gen()
    scopes(g, False)
    for p in g.ps:
        p.src = p.src.replace("crate::m", "::m").replace("::core::", "::std::")  # 2015 has no ::core
    go([p for p in g.ps if p.id.startswith("scope")], HEAD + "\nextern crate enumset;", px.args(["enumset"]), "c24-2015", "2015")
    g = Gen()
    lints(g)
    for ed in ("2021", "2024"):
        go(g.ps, "//! doc", px.args(["enumset"]) + ["-D", "unused_must_use"], "c24-lint-" + ed, ed)
        go(g.ps, "//! doc", pxs.args(sn) + ["-D", "unused_must_use"], "c24-lints-" + ed, ed)
    # under another name, given by option
    for alias in ("other", "sets", "enumset2", "core2", "es_") if thorough else ("other", "enumset2"):
        g = Gen()
        for a, d in KINDS + SER:
            for ser in (0, 1):
                if ser == 0 and (a, d) in SER:
                    continue
                a2 = (a[:-2] + f', crate_name = "{alias}")]') if a else f'#[enumset(crate_name = "{alias}")]'
                g.add("crate_name", body(a2, d, derive=f"::{alias}::EnumSetType", cr="::" + alias, serde=ser), note="crate_name")
        for a, d in SERL:
            g.add("crate_name", body(a[:-2] + f', crate_name = "{alias}")]', d, derive=f"::{alias}::EnumSetType", cr="::" + alias, serde=2), note="crate_name")
        go(g.ps, HEAD, pxs.args(sn, {"enumset": alias}), "c24-alias")
    n = nostd(rep, px, False) + nostd(rep, pxn, True)
    n += renames(rep, thorough)
    tot["programs"] += n
    rep.coverage = dict(evaluations=tot["programs"], distinct_nontrivial=len(distinct) + n, accepted=tot["accepted"] + n, refused=tot["refused"], executed=tot["executed"], exhaustive=True,
                        rule="one program per case (distinct by text and configuration), compiled and, where it can be, run: constants, operators, iteration and JSON round trip of its enum are compared with what they have to be",
                        bounds="every name of the prelude, of enumset and of what the generated code mentions (about 160) in 9 roles; constant sets and imported variants of each such name as bare operands of each macro; 6+9 kinds of storage and format (quick: three of them per name and role, all in turn); 19 scopes x all kinds in 4 editions; 21 lints; crate names",
                        samples=samples[:12])
