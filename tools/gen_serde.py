#!/usr/bin/env python3
"""Writes mcs/src/catalog.rs: the enums of the serde checks (shape x serialization format x policy x storage).
The expected format is computed here from the documented rules. Output is deterministic and committed."""
import os, sys

HERE = os.path.dirname(os.path.abspath(__file__))
SHAPES = {
    "D0": [], "D1": [0], "D3": [0, 1, 2], "D8": list(range(8)), "D9": list(range(9)), "D16": list(range(16)), "D33": list(range(33)),
    "D64": list(range(64)), "D65": list(range(65)), "D128": list(range(128)), "D129": list(range(129)), "D193": list(range(193)),
    "Sa": [7], "Sb": [1, 4, 6], "Sc": [3, 8], "Sd": [0, 15, 16], "Se": [31, 32], "Sf": [0, 63], "Sg": [64], "Sh": [2, 63, 64, 100], "Si": [0, 127],
    "Sj": [128], "Sk": [0, 64, 128, 191], "Sl": [192], "Sm": [5, 130, 330], "Sn": [1, 62, 65, 126],
    "So": [3, 320, 447], "Sp": [0, 447, 448, 511], "Sq": [1, 511, 512, 575],
}
# dense enums of every other size, in the format and policy of the derive's choosing
EVERY = [n for n in list(range(67)) + [72, 80, 88, 96, 104, 112, 120, 126, 127, 136, 144, 160, 256] if f"D{n}" not in SHAPES]
# one variant or two, at every other position
ONE = [n for n in list(range(0, 66)) + [72, 80, 88, 96, 104, 112, 120, 125, 126]]
INTS = [8, 16, 32, 64, 128]
E = []


def add(shape, fmt=None, deny=False, repr_=None, legacy=None, num=False):
    ds = SHAPES[shape]
    top = max(ds, default=0)
    attrs = []
    assert len(set(ds)) == len(ds)
    if repr_:
        attrs.append(f'repr = "{repr_}"')
    if fmt:
        attrs.append(f'serialize_repr = "{fmt}"')
    if legacy:
        attrs.append(legacy)
    if deny:
        attrs.append("serialize_deny_unknown")
    name = shape + (f"_{fmt}" if fmt else "") + (f"_{legacy}" if legacy else "") + ("_deny" if deny else "") + (f"_in_{repr_}" if repr_ else "")
    name += "_num" if num else ""
    if legacy:
        f = "List" if legacy.endswith("list") else "Map"
    elif fmt in ("list", "map", "array"):
        f = fmt.capitalize()
    elif fmt:
        f = f"Int({fmt[1:]})"
    else:
        w = next((w for w in INTS if top < w), None)
        f = f"Int({w})" if w else "Array"
    assert not any(e[0] == name for e in E), name
    E.append((name, ds, attrs, f, deny, num))


for sh, ds in SHAPES.items():
    top = max(ds, default=0)
    for deny in (False, True):
        add(sh, None, deny)
        add(sh, "array", deny)
        for w in INTS:
            if top < w and (w in (8, 128) or sh in ("D0", "D3", "D9", "Sa", "Sc", "Sd", "Se", "Sf", "Sn")):
                add(sh, f"u{w}", deny)
        if len(ds) <= 9 or sh in ("D65", "D129"):
            if not deny or sh in ("D3", "Sh", "Sk", "D0", "D9"):
                add(sh, "list", deny)
                add(sh, "map", deny)
for sh in ("D3", "Sc", "Sf", "Si", "D0"):
    top = max(SHAPES[sh], default=0)
    for r in [f"u{w}" for w in INTS if top < w] + ["array"]:
        for deny in (False, True):
            add(sh, None, deny, r)
            add(sh, "array", deny, r)
            add(sh, "u128", deny, r)
        add(sh, "list", False, r)
add("D3", legacy="serialize_as_list")
add("D3", legacy="serialize_as_map")
add("Sk", legacy="serialize_as_list")
add("Sk", legacy="serialize_as_map")
for sh in ("D3", "Sh", "Sk"):
    for f in ("list", "map"):
        add(sh, f, num=True)
for n in EVERY:
    SHAPES[f"D{n}"] = list(range(n))
    add(f"D{n}", None, n % 8 == 0)
    if n % 8 == 0:
        add(f"D{n}")
# all but one position of a storage unit
for w in INTS + [192]:
    for h in (0, w // 2, w - 2):
        SHAPES[f"H{w}_{h}"] = [i for i in range(w) if i != h]
        add(f"H{w}_{h}", None, h == 0)
        if h:
            add(f"H{w}_{h}", None, True)
            add(f"H{w}_{h}", "array", h == w // 2)
for k in (3, 4, 5, 6, 7, 8):
    SHAPES[f"M{k}"] = sorted({1, 3, 1 + (1 << k), 3 + (1 << k), 3 + (2 << k)})
    add(f"M{k}", None, k % 2 == 0)
    add(f"M{k}", "list")
for n in ONE:
    SHAPES[f"T{n}"] = [n] if n % 2 else [n // 2, n] if n else [0]
    add(f"T{n}", None, n % 3 == 0)


def main():
    out = ["// @generated by tools/gen_serde.py; do not edit.", "#![allow(non_camel_case_types, dead_code, deprecated, clippy::all)]",
           "use crate::{Fmt, SCat};", "use enumset::*;", "use serde::{Deserialize, Serialize};", "",
           """macro_rules! num_elem { ($e:ident) => {
    impl Serialize for $e { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_u32(*self as u32) } }
    impl<'de> Deserialize<'de> for $e { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let x = u32::deserialize(d)?;
        <$e as SCat>::VARS.iter().copied().find(|v| *v as u32 == x).ok_or_else(|| serde::de::Error::custom("no such element"))
    } }
} }"""]
    for name, ds, attrs, f, deny, num in E:
        top = max(ds, default=0)
        serd = ", Serialize, Deserialize" if f in ("List", "Map") and not num else ""
        a = f"#[enumset({', '.join(attrs)})] " if attrs else ""
        body = ", ".join(f"V{i} = {d}" for i, d in enumerate(ds))
        src = f"#[derive(EnumSetType, Debug{serd})] {a}pub enum {name} {{ {body} }}"
        out.append(src)
        short = src if len(src) < 400 else src[:380] + " ... }"
        out.append(f"impl SCat for {name} {{ const NAME: &'static str = \"{name}\"; const DECL: &'static str = r####\"{short}\"####; "
                   f"const DISCR: &'static [u32] = &{ds}; const VARS: &'static [Self] = &[" + ", ".join(f"{name}::V{i}" for i in range(len(ds))) + "]; "
                   f"const VNAMES: &'static [&'static str] = &[" + ", ".join(f'"V{i}"' for i in range(len(ds))) + f"]; const NUM: bool = {'true' if num else 'false'}; "
                   f"const WORDS: usize = {top // 64 + 1}; const FMT: Fmt = Fmt::{f}; const DENY: bool = {'true' if deny else 'false'}; }}")
        if num:
            out.append(f"num_elem!({name});")
    out.append("pub const NAMES: &[&str] = &[" + ", ".join(f'"{e[0]}"' for e in E) + "];")
    out.append("pub fn get(name: &str) -> crate::S { match name {")
    for e in E:
        out.append(f'    "{e[0]}" => crate::erase::<{e[0]}>(),')
    out.append('    _ => panic!("no such job: {name}"),')
    out.append("} }")
    path = os.path.join(HERE, "..", "mcs", "src", "catalog.rs")
    text = "\n".join(out) + "\n"
    if "--check" in sys.argv:
        sys.exit(0 if open(path).read() == text else 1)
    open(path, "w").write(text)
    print(len(E), "enums")


main()
