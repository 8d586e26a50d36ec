"""C13: declarations given to the derive; C14: what it accepts."""
import itertools
from driver import *
from progs import *

HEAD = r'''#![allow(dead_code, unused, deprecated, non_camel_case_types)]
pub struct Facts { width: u32, count: u32, size: usize, align: usize, all: Vec<u64>, only: Vec<Vec<u64>>, order: Vec<usize>, back: Vec<Option<usize>>, len: usize, stray: bool }
pub fn facts<E: enumset::EnumSetType>(vars: &[E]) -> Facts {
    use enumset::EnumSet;
    fn words<E: enumset::EnumSetType>(s: EnumSet<E>) -> Vec<u64> {
        let mut v = vec![0u64; EnumSet::<E>::bit_width() as usize / 64 + 2];
        s.copy_into_slice(&mut v);
        while v.last() == Some(&0) { v.pop(); }
        v
    }
    let at = |e: E| vars.iter().position(|v| *v == e);
    let all = EnumSet::<E>::all();
    let only: Vec<Vec<u64>> = vars.iter().map(|v| words(EnumSet::only(*v))).collect();
    Facts {
        width: EnumSet::<E>::bit_width(), count: EnumSet::<E>::variant_count(), size: std::mem::size_of::<EnumSet<E>>(), align: std::mem::align_of::<EnumSet<E>>(),
        order: all.iter().map(|e| at(e).unwrap_or(9999)).collect(),
        // from the bits alone back to the variant
        back: only.iter().map(|w| EnumSet::<E>::try_from_slice(w).and_then(|s| if s.len() == 1 { s.iter().next().and_then(at) } else { None })).collect(),
        stray: !all.is_empty() && all == EnumSet::empty() || words(!EnumSet::<E>::empty()) != words(all),
        all: words(all), only, len: all.len(),
    }
}
pub fn check(f: Facts, rustc: &[u64], max: u64, size: usize) -> Result<(), String> {
    let n = rustc.len();
    fn bits(d: &[u64]) -> Vec<u64> {
        let mut v = vec![];
        for x in d { let i = *x as usize / 64; if v.len() <= i { v.resize(i + 1, 0u64); } v[i] |= 1 << (x % 64); }
        v
    }
    let want = (if n == 0 { 0 } else { max as u32 + 1 }, n as u32, n);
    if (f.width, f.count, f.len) != want { return Err(format!("(bit_width, variant_count, all().len()) are {:?}, not {want:?}", (f.width, f.count, f.len))); }
    if f.all != bits(rustc) { return Err(format!("all() has the words {:x?}, not {:x?}", f.all, bits(rustc))); }
    for i in 0..n {
        if f.only[i] != bits(&rustc[i..i + 1]) { return Err(format!("variant {i} of discriminant {} has the words {:x?}", rustc[i], f.only[i])); }
        if f.back[i] != Some(i) { return Err(format!("the bit of variant {i} gives back {:?}", f.back[i])); }
    }
    let mut o: Vec<usize> = (0..n).collect();
    o.sort_by_key(|i| rustc[*i]);
    if f.order != o { return Err(format!("all() iterates over {:?}, not {o:?}", f.order)); }
    if f.stray { return Err("the complement of the empty set is not the full set".into()); }
    if size != 0 && (f.size, f.align) != (size, if size == 16 { std::mem::align_of::<u128>() } else { size }) { return Err(format!("the set's size and alignment are {:?}, not {size}", (f.size, f.align))); }
    Ok(())
}'''


def resolve(ds):
    """Rust's rule: the first is 0, an implied one is one more than the one before. None where two coincide."""
    out, nxt = [], 0
    for d in ds:
        v = nxt if d is None else d
        out.append(v)
        nxt = v + 1
    return out if len(set(out)) == len(out) else None


def notation(v, k, layout):
    s = "" if layout in ("", "C", "Rust") else layout
    return [f"{v}", f"0x{v:X}", f"0b{v:b}", f"0o{v:o}", f"{v}_", f"0x{v:x}_{s or 'isize'}", f"{v}{s or 'isize'}", f"00{v}", f"0b{v:_b}"][k % 9]


LIMIT = dict(u8=256, i8=128, u16=65536, i16=32768)


def size_of(top, repr_):
    if repr_ and repr_ != "array":
        return int(repr_[1:]) // 8
    if repr_ == "array" or top >= 64:
        return 0
    return next(w for w in (8, 16, 32, 64) if top < w) // 8


def module(i, ds, vals, layout="", repr_="", k=0, names=None):
    names = names or [f"V{j}" for j in range(len(ds))]
    body = ", ".join(n + (f" = {notation(d, k + j, layout)}" if d is not None else "") for j, (n, d) in enumerate(zip(names, ds)))
    a = (f"#[repr({layout})] " if layout else "") + (f'#[enumset(repr = "{repr_}")] ' if repr_ else "")
    decl = f"#[derive(enumset::EnumSetType)] {a}pub enum E {{ {body} }}"
    top = max(vals, default=0)
    assert_ = f"if [{', '.join(f'E::{n} as u64' for n in names)}] != {vals}u64 {{ panic!() }}" if False else ""
    exp = ", ".join(f"E::{n} as u64" for n in names)
    src = decl + "\n" + (f"pub fn run() -> Result<(), String> {{ let r: [u64; {len(names)}] = [{exp}]; if r != {vals} {{ return Err(\"the generator is wrong about Rust\".into()) }} "
                         f"crate::check(crate::facts(&[{', '.join('E::' + n for n in names)}] as &[E]), &r, {top}, {size_of(top, repr_)}) }}")
    return Prog(f"decl-{i}", src, True, True, f"declared: {decl}")


def programs(thorough):
    out = []
    al = [None, 0, 1, 7, 8, 31, 63, 64, 127, 128] if not thorough else [None, 0, 1, 6, 7, 8, 15, 16, 31, 32, 63, 64, 65, 127, 128, 191, 192, 255, 256]
    seen = set()

    def add(ds, layout="", repr_="", k=0):
        vals = resolve(ds)
        if vals is None or (tuple(ds), layout, repr_) in seen:
            return
        top = max(vals, default=0)
        if top >= LIMIT.get(layout, 1 << 30) or (repr_ not in ("", "array") and top >= int(repr_[1:])):
            return
        seen.add((tuple(ds), layout, repr_))
        out.append(module(f"{len(out)}", list(ds), vals, layout, repr_, k))

    for n in (0, 1, 2, 3):
        for k, ds in enumerate(itertools.product(al, repeat=n)):
            add(ds, k=k)
    # every layout and representation on shorter ones
    al2 = [None, 0, 1, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128]
    lays = ["", "C", "Rust", "u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "usize", "isize", "u128", "i128"]
    lays = [l for l in lays if l not in ("u128", "i128")]
    reprs = ["", "u8", "u16", "u32", "u64", "u128", "array"]
    for n in (0, 1, 2):
        for k, ds in enumerate(itertools.product(al2, repeat=n)):
            for r in reprs:
                add(ds, "", r, k)
            for l in lays:
                if n == 0 and l:
                    continue  # rustc forbids a layout on an enum without variants
                add(ds, l, "", k)
                if thorough or n == 1:
                    for r in reprs:
                        add(ds, l, r, k)
    # discriminants that agree in their low bits, in either order, and with an implied one after each
    for b in range(3, 18 if thorough else 17):
        for a in (0, 1, 3, 63):
            for m in (1, 2, 3) if thorough else (1,):
                x = a + (m << b)
                for k, ds in enumerate(([a, x], [x, a], [a, None, x, None], [x, None, a, None])):
                    if x < (1 << 16) or a in (0, 3) and k < 2 or thorough:
                        add(ds, "", "", k)
                        if x < 128:
                            add(ds, "", "u128", k)
                            add(ds, "", "array", k)
    # longer runs: implied after explicit, descending, jumps back
    runs = [[None] * 8, [None] * 9, [5] + [None] * 4, [60] + [None] * 10, [100] + [None] * 40, [3, 2, 1, 0], [10, None, 5, None, 0, None], [63, None, 0, None],
            [127, None, 1, None, 64, None], [200, None, None, 100, None, 0], list(range(70))[::-1], [x * 3 for x in range(50)], [255, None], [1000, None, 4, None, 65535, None],
            [7, 6, None, 8], [0, 2, 4, 6, 1, 3, 5, 7], [64, None, 63, 0], [70000, 0], [0, 70000], [99999, None]]
    if thorough:
        al4 = [None, 0, 1, 7, 63, 64, 128]
        runs += [list(d) for d in itertools.product(al4, repeat=4)] + [list(d) for d in itertools.permutations([0, 1, 63, 64, 65])]
        runs += [[s] + [None] * (n - 1) for s in (0, 1, 7, 8, 31, 32, 56, 60, 63, 64, 120, 127, 128) for n in (2, 5, 9, 17, 33, 65, 129)]
    for k, ds in enumerate(runs):
        for l in ("", "u8", "i16", "u64", "C") if len(runs) < 100 else ("",):
            for r in ("", "u8", "u128", "array") if l == "" and len(runs) < 100 else ("",):
                add(ds, l, r, k)
    return out


def c13(rep):
    thorough = TIER == "thorough"
    ex = Externs("px")
    ps = programs(thorough)
    r = judge(rep, ps, HEAD, ex.args(["enumset"]), "c13")
    nontriv = sum(1 for p in ps if "=" in p.src.split("enum E {")[1].split("}")[0])
    rep.coverage = dict(evaluations=r["programs"], distinct_nontrivial=nontriv, executed=r["executed"], exhaustive=True,
                        rule="one declaration per case, all distinct; non-trivial: at least one explicit discriminant; each is compiled with the real derive and run, and bit width, count, full set, "
                             "the words of each variant, the variant of each bit, order, size and alignment are compared with Rust's own discriminants and with the generator's",
                        bounds="all declarations of up to 3 variants over " + ("19" if thorough else "10") + " discriminants (or implied), up to 2 variants x 13 layouts and 7 representations, runs up to 129 variants",
                        samples=[p.src.split("\n")[0] for p in ps[::max(1, len(ps) // 10)]][:10])
