#!/usr/bin/env python3
"""Writes mc/src/catalog.rs: the enum shapes every value-level check is run on.

The discriminants, the word count and the expected storage size of every enum are computed here,
from Rust's own rules and the documented ones, without asking enumset. Output is deterministic and committed.
"""
import os, sys

HERE = os.path.dirname(os.path.abspath(__file__))
E = []          # (name, attrs, decl [(variant, explicit-or-None)], flags)


def add(name, decl, attrs=(), **kw):
    d = []
    for k, x in enumerate(decl):
        d.append((f"V{k}", x))
    E.append((name, list(attrs), d, kw))


def dense(n):
    return [None] * n


def sparse(*ds):
    return list(ds)


# dense, storage chosen by the derive
for n in (0, 1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 191, 192, 193, 256, 257, 300):
    add(f"D{n}", dense(n))
# every other size
for n in [n for n in list(range(67)) + [72, 80, 88, 96, 104, 112, 120, 126, 136, 144, 160] if f"D{n}" not in [e[0] for e in E]]:
    add(f"D{n}", dense(n))
# sparse, at and around every storage boundary
for ds in ([7], [8], [0, 7], [7, 8], [15], [16], [0, 15], [31], [32], [0, 1, 31], [63], [0, 31, 32, 63], [0, 63], [64], [63, 64],
           [0, 63, 64, 127], [127], [128], [62, 65, 127, 128], [0, 63, 64, 127, 128, 191], [191], [192], [0, 200], [200],
           [5, 330], [64, 65], [130, 131, 140], [100, 200, 300, 400, 500, 600, 700, 800], [1, 60, 190, 191, 320, 321],
           [0, 1000], [255], [256], [0, 255, 256, 511, 512, 1023, 1024],
           [0, 63, 64, 383, 384, 447], [0, 447, 448, 511], [1, 511, 512, 575], [63, 320, 640, 767], [0, 767, 768, 831], [0, 2047, 2048, 2111]):
    add("S" + "_".join(map(str, ds)), sparse(*ds))
add("Alt128", sparse(*range(1, 128, 2)))
add("Alt8", sparse(1, 3, 4, 6))
add("Tri200", sparse(*range(0, 200, 3)))
# all but one position of a storage unit, or of the enum
for w in (8, 16, 32, 64, 128, 192):
    for h in sorted({0, 1, w // 2, w - 2} | ({63, 64} if w > 64 else set())):
        add(f"H{w}_{h}", sparse(*[i for i in range(w) if i != h]))
    if w <= 128:
        add(f"RH{w}", sparse(*[i for i in range(w) if i != w // 2 + 1]), [f'#[enumset(repr = "u{w}")]'], repr=f"u{w}")
        add(f"RT{w}", sparse(*range(1, w)), [f'#[enumset(repr = "u{w}")]'], repr=f"u{w}")
# positions that agree modulo 2^k
for k in (3, 4, 5, 6, 7, 8, 9, 10, 12):
    add(f"M{k}", sparse(*sorted({1, 3, 1 + (1 << k), 3 + (1 << k), 3 + (2 << k)})), heavy=k > 9)
add("Big65539", sparse(3, 65539), heavy=True)
add("Big65536", sparse(3, 65535, 65536), heavy=True)
add("Big70000", sparse(0, 64, 4095, 4096, 70000), heavy=True)
# declaration order differs from numeric order; implicit after explicit
add("Mix1", [10, 2, None, 70, 0])
add("Mix2", [127, None, 0, None, 64, 63])
add("Mix3", [7, 6, 5, 4, 3, 2, 1, 0])
add("Mix4", [200, 3, None, 130, None, 64, 191, 192])
add("Mix5", [0x1F, None, 5, 0])
# explicit #[enumset(repr = "...")]
for r, dss in (("u8", ([], [0], [7], [0, 7], [0, 1, 2, 3, 4], [1, 2, 4], list(range(8)))),
               ("u16", ([0, 8, 15], [1], list(range(8)), [3, 9])),
               ("u32", ([0, 31], [0, 8, 16, 24], [5], [0, 1, 2])),
               ("u64", ([0, 63], [40], [31, 32, 33], [0, 1, 2])),
               ("u128", ([0, 63, 64, 127], [127], [64], [0, 1, 2, 3, 4, 5, 6, 7], [63, 64, 65]))):
    for i, ds in enumerate(dss):
        add(f"R{r[1:]}x{i}", sparse(*ds), [f'#[enumset(repr = "{r}")]'], repr=r)
add("R128full", dense(128), ['#[enumset(repr = "u128")]'], repr="u128")
add("R64full", dense(64), ['#[enumset(repr = "u64")]'], repr="u64")
add("R16full", dense(16), ['#[enumset(repr = "u16")]'], repr="u16")
# forced array
for i, ds in enumerate(([], [0, 1, 2], [63], [64], [0, 127], [0, 128, 191], list(range(8)), [0, 63, 64], [2, 66, 130, 194])):
    add(f"A{i}", sparse(*ds), ['#[enumset(repr = "array")]'], array=True)
# rust-level reprs of the enum itself
for r, ds in (("u8", [0, 200, 255]), ("u8", [0, 1, 2]), ("u16", [0, 1, 300]), ("u32", [0, 5, 64]), ("u64", [0, 31, 32]), ("usize", [1, 7, 9]),
              ("i8", [0, 64, 127]), ("i16", [0, 129, 300]), ("i32", [0, 15]), ("i64", [0, 63]), ("isize", [0, 127]), ("C", [0, 1, 40])):
    add(f"P{r}_{ds[-1]}", sparse(*ds), [f"#[repr({r})]"])
# option flags
add("NoSuper", sparse(0, 9, 70), ["#[enumset(no_super_impls)]"], no_super=True)
# enums whose own `==` holds between any two of them: sets have to go by the discriminants
for i, (ds, a) in enumerate((((0, 1, 2, 5), []), ((0, 9, 70), []), ((0, 63, 64, 127), ['repr = "u128"']), (range(9), []), ((0, 1, 62, 63, 64, 128), []), ((3, 2, 1), ['repr = "u8"']))):
    add(f"Odd{i}", sparse(*ds), [f"#[enumset({', '.join(['no_super_impls'] + a)})]"], odd=True, **({"repr": a[0].split('"')[1]} if a else {}))
add("NoOps", sparse(0, 1, 5, 64), ["#[enumset(no_ops)]"], no_ops=True)


def main():
    out = ["// @generated by tools/gen_catalog.py; do not edit.",
           "#![allow(non_camel_case_types, dead_code, clippy::all)]", "use crate::{Cat, CatOps, CatRepr};", "use enumset::*;", "",
           "macro_rules! odd_order { ($n:ident) => { "
           "impl PartialOrd for $n { fn partial_cmp(&self, o: &Self) -> Option<core::cmp::Ordering> { Some(self.cmp(o)) } } "
           "impl Ord for $n { fn cmp(&self, o: &Self) -> core::cmp::Ordering { crate::odd(self.disc()).cmp(&crate::odd(o.disc())) } } }; "
           "($n:ident =) => { impl PartialEq for $n { fn eq(&self, _: &Self) -> bool { true } } impl Eq for $n {} "
           "impl PartialOrd for $n { fn partial_cmp(&self, _: &Self) -> Option<core::cmp::Ordering> { Some(core::cmp::Ordering::Equal) } } "
           "impl Ord for $n { fn cmp(&self, _: &Self) -> core::cmp::Ordering { core::cmp::Ordering::Equal } } } }", ""]
    names, names_ops, names_repr = [], [], []
    for name, attrs, decl, kw in E:
        cur, ds = 0, []
        for v, x in decl:
            if x is not None:
                cur = x
            ds.append((cur, v))
            cur += 1
        assert len({d for d, _ in ds}) == len(ds)
        order = sorted(ds)
        top = order[-1][0] if order else 0
        words = top // 64 + 1
        if kw.get("repr"):
            size = int(kw["repr"][1:]) // 8
        elif kw.get("array"):
            size = words * 8
        else:
            size = next((s for s in (1, 2, 4, 8) if top < 8 * s), words * 8)
        der = "EnumSetType, Debug" + (", Clone, Copy, PartialEq, Eq" if kw.get("no_super") else ", Clone, Copy" if kw.get("odd") else "")
        body = ", ".join(v if x is None else f"{v} = {x}" for v, x in decl)
        src = " ".join([f"#[derive({der})]"] + attrs + [f"pub enum {name} {{ {body} }}"])
        out.append(src)
        out.append(f"impl Cat for {name} {{")
        out.append(f"    const NAME: &'static str = {name!r};".replace("'" + name + "'", f'"{name}"'))
        short = src if len(src) < 400 else src[:380] + " ... }"
        out.append(f"    const DECL: &'static str = r####\"{short}\"####;")
        out.append("    const DISCR: &'static [u32] = &[" + ", ".join(str(d) for d, _ in order) + "];")
        out.append("    const VARS: &'static [Self] = &[" + ", ".join(f"{name}::{v}" for _, v in order) + "];")
        out.append("    const VNAMES: &'static [&'static str] = &[" + ", ".join(f'"{v}"' for _, v in order) + "];")
        out.append(f"    const WORDS: usize = {words};")
        out.append(f"    const SIZE: usize = {size};")
        out.append(f"    const INTEGER: bool = {'true' if (kw.get('repr') or (not kw.get('array') and top < 64)) else 'false'};")
        out.append(f"    const HEAVY: bool = {'true' if kw.get('heavy') else 'false'};")
        out.append("    fn disc(self) -> u32 { " + ("self as u32" if decl else "match self {}") + " }")
        if kw.get("odd"):
            out.append("    const ODD: bool = true;")
        out.append("}")
        # the enum's own order is neither that of the discriminants nor the opposite one; nothing about sets may follow it
        out.append(f"odd_order! {{ {name}{' =' if kw.get('odd') else ''} }}")
        if decl:
            out.append(f"impl core::fmt::Display for {name} {{ fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result "
                       f"{{ f.pad(crate::vname(*self)) }} }}")
        else:
            out.append(f"impl core::fmt::Display for {name} {{ fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {{ Ok(()) }} }}")
        names.append(name)
        if not kw.get("no_ops"):
            out.append(f"impl CatOps for {name} {{}}")
            names_ops.append(name)
        if kw.get("repr"):
            out.append(f"impl CatRepr for {name} {{ type R = {kw['repr']}; }}")
            names_repr.append(name)
        out.append("")
    out.append("pub const NAMES: &[&str] = &[" + ", ".join(f'"{n}"' for n in names) + "];")
    for suffix, tr, ns in (("", "Job", names), ("_ops", "JobOps", names_ops), ("_repr", "JobRepr", names_repr)):
        out.append(f"pub const NAMES{suffix.upper()}: &[&str] = &[" + ", ".join(f'"{n}"' for n in ns) + "];" if suffix else "")
        out.append(f"pub fn dispatch{suffix}<J: crate::{tr}>(name: &str, j: &J, cx: &mut crate::Cx) {{ match name {{")
        for n in ns:
            out.append(f'    "{n}" => j.run::<{n}>(cx),')
        out.append('    _ => panic!("no such job: {name}"),')
        out.append("} }")
    path = os.path.join(HERE, "..", "mc", "src", "catalog.rs")
    text = "\n".join(out) + "\n"
    if "--check" in sys.argv:
        sys.exit(0 if open(path).read() == text else 1)
    open(path, "w").write(text)


main()
