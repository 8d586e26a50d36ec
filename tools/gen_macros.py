#!/usr/bin/env python3
"""gen_macros.py TIER OUT: every macro invocation up to a number of operands, over enums of every storage, as constants."""
import itertools, sys

TIER, OUT = sys.argv[1], sys.argv[2]
THOROUGH = TIER == "thorough"
ENUMS = [  # name, attributes, discriminants, operands deep?
    ("U8", "", [0, 1, 7]),
    ("U8s", "", [3, 5, 6]),
    ("U16", "", list(range(9)) + [15]),
    ("U32", "", [0, 8, 16, 31]),
    ("U64", "", [0, 31, 32, 62, 63]),
    ("A2", "", [0, 63, 64, 65, 127]),
    ("A3", "", [1, 63, 64, 128, 130]),
    ("A5", "", [64, 200, 256, 300]),
    ("R8", 'repr = "u8"', [0, 2, 7]),
    ("R16", 'repr = "u16"', [0, 2, 15]),
    ("R32", 'repr = "u32"', [1, 2, 31]),
    ("R64", 'repr = "u64"', [0, 2, 63]),
    ("R128", 'repr = "u128"', [0, 63, 64, 127]),
    ("R128s", 'repr = "u128"', [2, 3, 4]),
    ("RA", 'repr = "array"', [0, 2, 5]),
    ("RA2", 'repr = "array"', [0, 63, 64]),
    ("One", "", [0]),
    ("One9", "", [9]),
    ("One70", "", [70]),
    ("D64", "", list(range(64))),
    ("D129", "", list(range(129))),
    ("Nops", "no_ops", [0, 1, 40]),
    ("NopsA", "no_ops", [0, 1, 140]),
    ("H8", "", [0, 1, 2, 3, 5, 6, 7]),
    ("H16", 'repr = "u16"', list(range(1, 16))),
    ("H32", "", [i for i in range(32) if i != 16]),
    ("H64", "", [i for i in range(64) if i != 62]),
    ("H128", "", [i for i in range(128) if i != 64]),
    ("RH128", 'repr = "u128"', [i for i in range(128) if i != 63]),
    ("M8", "", [1, 3, 257, 259, 515]),
    ("M16", "", [3, 255, 256, 65535, 65536, 65539]),
    ("D300", "", list(range(300))),
]
MACROS = ["enum_set", "enum_set_union", "enum_set_intersection", "enum_set_difference", "enum_set_symmetric_difference"]
out = ["// @generated by tools/gen_macros.py"]


def call(macro, ops, trail=""):
    sep = " | " if macro == "enum_set" else ", "
    return f"enumset::{macro}!({sep.join(ops)}{trail})"


table = []
for name, attr, ds in ENUMS:
    n = len(ds)
    a = f"#[enumset({attr})] " if attr else ""
    first, last, mid = 0, n - 1, n // 2
    out.append(f"pub mod {name.lower()} {{ // nothing imported")
    out.append(f"#[derive(enumset::EnumSetType, Debug)] {a}pub enum {name} {{ {', '.join(f'V{i} = {d}' for i, d in enumerate(ds))} }}")
    out.append(f"use self::{name} as Alias; type T = enumset::EnumSet<{name}>; pub struct Holder; "
               f"impl Holder {{ pub const PAIR: T = enumset::enum_set!({name}::V{first} | {name}::V{last}); }}")
    out.append(f"pub const EMPTY: T = enumset::EnumSet::empty(); pub const ALL: T = enumset::EnumSet::all(); pub const MIX: T = enumset::enum_set!({name}::V{mid} | Alias::V{last});")
    # operand, the variants it stands for
    letters = [(f"{name}::V{first}", [first]), (f"Alias::V{last}", [last]), ("MIX", [mid, last]), ("EMPTY", []), ("self::ALL", list(range(n))),
               ("Holder::PAIR", [first, last]), (f"crate::gen::{name.lower()}::{name}::V{mid}", [mid])]
    big = n <= 6
    depth = (4 if THOROUGH else 3) if big and name in ("U8", "U64", "A3", "R128", "RA2", "U8s", "Nops") else 3 if THOROUGH else 2
    cases = []  # (text of the macro call, name of macro, operand member lists)
    for macro in MACROS:
        for d in range(1, depth + 1):
            al = letters if d <= 3 else letters[1:6]
            for ops in itertools.product(al, repeat=d):
                cases.append((call(macro, [o[0] for o in ops]), macro, [o[1] for o in ops]))
        # trailing separators
        for ops in [letters[:1], letters[1:3], letters[:4], letters]:
            trails = [" |", " | |", " | | |"] if macro == "enum_set" else [","]
            for t in trails:
                cases.append((call(macro, [o[0] for o in ops], t), macro, [o[1] for o in ops]))
        # every variant, both ways round; alternating long lists
        vs = [(f"{name}::V{i}", [i]) for i in range(n)]
        for ops in (vs, vs[::-1], vs[::2] + vs[1::2], [("ALL", list(range(n)))] + vs[:-1], vs + vs[:1]):
            cases.append((call(macro, [o[0] for o in ops]), macro, [o[1] for o in ops]))
        for v in vs:
            cases.append((call(macro, [v[0]]), macro, [v[1]]))
            cases.append((call(macro, ["ALL", v[0]]), macro, [list(range(n)), v[1]]))
            cases.append((call(macro, [v[0], "self::MIX"]), macro, [v[1], [mid, last]]))
    for l in letters + [(f"{name}::V{i}", [i]) for i in range(n)]:
        cases.append((f"enumset::enum_set_complement!({l[0]})", "enum_set_complement", [l[1]]))
        cases.append((f"enumset::enum_set_complement!({l[0]},)", "enum_set_complement", [l[1]]))
    for t in ("", "|", "| |", "| | |"):
        cases.append((f"{{ const X: T = enumset::enum_set!({t}); X }}", "enum_set", []))
    # other const contexts
    for i, (op, (x, y)) in enumerate(itertools.product(MACROS, itertools.product(letters, repeat=2))):
        k = i % 4
        c = call(op, [x[0], y[0]])
        if k == 0:
            out.append(f"const fn f{i}() -> T {{ {c} }}")
            cases.append((f"f{i}()", op, [x[1], y[1]]))
        elif k == 1:
            out.append(f"static S{i}: T = {c};")
            out.append(f"const _: () = {{ let _x: T = {c}; }};")
        elif k == 2:
            cases.append((f"{{ const X: T = {c}; const Y: T = enumset::enum_set_complement!(X); Y }}", "not " + op, [x[1], y[1]]))
        else:
            cases.append((f"{{ const X: T = {c}; const Y: T = enumset::enum_set_union!(X, {letters[0][0]}); const Z: T = enumset::enum_set_difference!(Y, X); Z }}", "rest " + op, [x[1], y[1]]))
    out.append(f"pub const CASES: [T; {len(cases)}] = [" + ",\n".join(c[0] for c in cases) + "];")
    # what the macros mean, by the documentation
    rows = []
    for text, macro, ops in cases:
        sets = [frozenset(o) for o in ops]
        op = macro.split()[-1]
        r = sets[0] if sets else frozenset()
        if op == "enum_set_complement":
            r = frozenset(range(n)) - r
        for s in sets[1:]:
            r = {"enum_set": r | s, "enum_set_union": r | s, "enum_set_intersection": r & s, "enum_set_difference": r - s, "enum_set_symmetric_difference": r ^ s}[op]
        if macro.startswith("not"):
            r = frozenset(range(n)) - r
        if macro.startswith("rest"):
            r = frozenset(letters[0][1]) - r
        short = text if len(text) < 300 else text[:260] + " ..."
        rows.append(f"(r#\"{short}\"#, &{sorted(r)})")
    out.append(f"pub const WANT: &[(&str, &[usize])] = &[" + ",\n".join(rows) + "];")
    out.append(f"pub const VARS: &[{name}] = &[" + ", ".join(f"{name}::V{i}" for i in range(n)) + "];")
    out.append("}")
    table.append(name)
out.append("pub const NAMES: &[&str] = &[" + ", ".join(f'"{t}"' for t in table) + "];")
out.append("pub fn go(n: &str, cx: &mut mc::Cx) { match n {" + "".join(f'"{t}" => super::drive({t.lower()}::VARS, &{t.lower()}::CASES, {t.lower()}::WANT, "{t}", cx),\n' for t in table) + "_ => panic!() } }")
open(OUT, "w").write("\n".join(out) + "\n")
