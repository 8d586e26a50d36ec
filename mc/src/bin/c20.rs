//! C20: `Debug` is `EnumSet(A | B)`, `Display` is `A | B`, in discriminant order, the elements formatted with the flags given; and
//! with a writer that fails at any call or byte, or an element whose formatting fails, the error comes out and what was
//! written is a prefix.
use enumset::*;
use mc::*;
use std::fmt::{self, Write};

trait Api {
    fn fmt(&self, s: usize, spec: usize) -> String;
    /// a writer that fails at its k-th call; what it got, and whether the error came out
    fn calls(&self, s: usize, display: bool, k: usize) -> (String, bool, usize);
    /// a writer with room for k bytes; both fail only once and take what comes after, which is counted
    fn bytes(&self, s: usize, display: bool, k: usize) -> (String, bool, usize);
}
const SPEC: [&str; 12] = ["{:?}", "{}", "{:#?}", "{:#}", "{:>4}", "{:<4}", "{:*^5}", "{:.1}", "{:4?}", "{:x?}", "{:-^6.2}", "{:04?}"];
macro_rules! spec {
    ($x:expr, $k:expr) => {
        match $k {
            0 => format!("{:?}", $x), 1 => format!("{}", $x), 2 => format!("{:#?}", $x), 3 => format!("{:#}", $x), 4 => format!("{:>4}", $x),
            5 => format!("{:<4}", $x), 6 => format!("{:*^5}", $x), 7 => format!("{:.1}", $x), 8 => format!("{:4?}", $x), 9 => format!("{:x?}", $x),
            10 => format!("{:-^6.2}", $x), _ => format!("{:04?}", $x),
        }
    };
}
struct W { got: String, calls: usize, room: usize, failed: bool, after: usize }
impl W {
    fn new(calls: usize, room: usize) -> W { W { got: String::new(), calls, room, failed: false, after: 0 } }
    fn fail(&mut self) -> fmt::Result {
        self.failed = true;
        Err(fmt::Error)
    }
}
impl Write for W {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.failed {
            self.after += 1;
            return Ok(())
        }
        if self.calls == 0 { return self.fail() }
        self.calls -= 1;
        for c in s.chars() {
            if self.room == 0 { return self.fail() }
            self.room -= 1;
            self.got.push(c);
        }
        Ok(())
    }
}
impl<E: Cat> Api for Vec<EnumSet<E>> {
    fn fmt(&self, s: usize, spec: usize) -> String {
        spec!(self[s], spec)
    }
    fn calls(&self, s: usize, display: bool, k: usize) -> (String, bool, usize) {
        let mut w = W::new(k, usize::MAX);
        let r = if display { write!(w, "{}", self[s]) } else { write!(w, "{:?}", self[s]) };
        (w.got, r.is_err(), w.after)
    }
    fn bytes(&self, s: usize, display: bool, k: usize) -> (String, bool, usize) {
        let mut w = W::new(usize::MAX, k);
        let r = if display { write!(w, "{}", self[s]) } else { write!(w, "{:?}", self[s]) };
        (w.got, r.is_err(), w.after)
    }
}
struct J;
impl Job for J {
    fn run<E: Cat>(&self, cx: &mut Cx) {
        let e = E::info();
        let mut sets = if e.heavy { unary(&e, 5, 3) } else { unary(&e, cx.pick(8, 11), cx.pick(6, 8)) };
        sets.extend(wide(&e, cx.pick(8, 11), cx.pick(66, 130)));
        let real: Vec<EnumSet<E>> = sets.iter().map(|m| build::<E>(*m)).collect();
        // how each element alone is formatted with each flag: std's derive and `pad`, not enumset
        let el: Vec<Vec<String>> = (0..SPEC.len()).map(|k| E::VARS.iter().map(|v| spec!(*v, k)).collect()).collect();
        drive(cx, e, &sets, &el, &real);
    }
}
fn drive(cx: &mut Cx, e: Info, sets: &[M], el: &[Vec<String>], api: &dyn Api) {
    let nm = e.name;
    let mut largest = 0;
    for (s, &m) in sets.iter().enumerate() {
        cx.states += 1;
        let text = |k: usize| {
            let j = m.ixs().iter().map(|i| el[k][*i].clone()).collect::<Vec<_>>().join(" | ");
            if SPEC[k].contains('?') { format!("EnumSet({j})") } else { j }
        };
        for k in 0..SPEC.len() {
            cx.traces += 1;
            cx.ck(&|| format!("{nm}: format!(\"{}\", {})", SPEC[k], e.show(m)), &mut || api.fmt(s, k), text(k));
        }
        if m.len() > 12 {
            largest += 1;
            if largest > 6 { continue }
        }
        for display in [false, true] {
            let t = text(display as usize);
            cx.outcome(t.len() as u64);
            for k in 0..=t.len() {
                let want = (t[..k.min(t.len())].to_string(), k < t.len(), 0);
                cx.traces += 1;
                cx.ck(&|| format!("{nm}: {} of {} into a writer with room for {k} bytes: (written, failed, writes after that)", if display { "Display" } else { "Debug" }, e.show(m)),
                    &mut || api.bytes(s, display, k), want);
            }
            let mut k = 0;
            loop {
                let mut g = (String::new(), false, 0);
                cx.traces += 1;
                cx.ck(&|| format!("{nm}: {} of {} into a writer that fails at call {k}: what was written is a proper prefix if and only if it failed, and the writes after that", if display { "Display" } else { "Debug" }, e.show(m)),
                    &mut || { g = api.calls(s, display, k); (t.starts_with(&g.0), if g.1 { g.0.len() < t.len() } else { g.0 == t }, g.2) }, (true, true, 0));
                if !g.1 || k > 2000 { break }
                k += 1;
            }
        }
    }
}

// ---- elements whose own formatting fails
#[derive(EnumSetType)]
enum Picky { A, B, C, D = 9, E = 70 }
impl Picky {
    fn f(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let k = BAD.with(|b| b.get());
        if k == *self as u32 as usize { return Err(fmt::Error) }
        f.write_str("<")?;
        f.write_str(match self { Picky::A => "a", Picky::B => "b", Picky::C => "c", Picky::D => "d", Picky::E => "e" })
    }
}
thread_local! { static BAD: std::cell::Cell<usize> = std::cell::Cell::new(99); }
impl fmt::Debug for Picky { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.f(f) } }
impl fmt::Display for Picky { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.f(f) } }
fn picky(cx: &mut Cx) {
    const V: [Picky; 5] = [Picky::A, Picky::B, Picky::C, Picky::D, Picky::E];
    let d = [0usize, 1, 2, 9, 70];
    for m in 0u32..32 {
        cx.states += 1;
        let set: EnumSet<Picky> = (0..5).filter(|i| m >> i & 1 == 1).map(|i| V[i]).collect();
        for bad in [99, 0, 1, 2, 9, 70] {
            BAD.with(|b| b.set(bad));
            for display in [false, true] {
                cx.traces += 1;
                let mut want = if display { String::new() } else { "EnumSet(".to_string() };
                let mut failed = false;
                let mut first = true;
                for i in 0..5 {
                    if m >> i & 1 == 0 { continue }
                    if !first { want.push_str(" | ") }
                    first = false;
                    if d[i] == bad { failed = true; break }
                    want.push('<');
                    want.push("abcde".as_bytes()[i] as char);
                }
                if !failed && !display { want.push(')') }
                cx.ck(&|| format!("{} of subset {m:#b} of five elements, the one with discriminant {bad} failing to format: (written, failed)", if display { "Display" } else { "Debug" }),
                    &mut || { let mut s = String::new(); let r = if display { write!(s, "{set}") } else { write!(s, "{set:?}") }; (s, r.is_err()) }, (want, failed));
            }
        }
    }
}

// ---- elements that write out every flag they are given: all combinations of flags have to reach them unchanged
#[derive(EnumSetType)]
enum Flags { A = 2, B = 10, C = 77 }
impl Flags {
    fn f(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let a = match f.align() { None => 'n', Some(fmt::Alignment::Left) => 'l', Some(fmt::Alignment::Right) => 'r', Some(fmt::Alignment::Center) => 'c' };
        let t = format!("{}{}{}{}{}{a}{:?}{:?}", *self as u8, f.alternate() as u8, f.sign_plus() as u8, f.sign_minus() as u8, f.sign_aware_zero_pad() as u8, f.width(), f.precision());
        f.write_str(&t)?;
        f.write_char(f.fill())?;
        fmt::Debug::fmt(&(*self as u8), f)
    }
}
impl fmt::Debug for Flags { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.f(f) } }
impl fmt::Display for Flags { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("~")?; self.f(f) } }
type Show = fn(&Either) -> String;
enum Either { El(Flags), Set(EnumSet<Flags>) }
macro_rules! specs {
    ($($l:literal)*) => { const ALL_SPECS: &[(&str, Show)] = &[$(($l, |x| match x { Either::El(v) => format!($l, v), Either::Set(v) => format!($l, v) })),*]; };
}
include!("c20_specs.in");
fn flags(cx: &mut Cx) {
    const V: [Flags; 3] = [Flags::A, Flags::B, Flags::C];
    for m in 0u32..8 {
        cx.states += 1;
        let ixs: Vec<usize> = (0..3).filter(|i| m >> i & 1 == 1).collect();
        let set: EnumSet<Flags> = ixs.iter().map(|i| V[*i]).collect();
        for (spec, f) in ALL_SPECS {
            cx.traces += 1;
            let j = ixs.iter().map(|i| f(&Either::El(V[*i]))).collect::<Vec<_>>().join(" | ");
            let want = if spec.contains('?') { format!("EnumSet({j})") } else { j };
            cx.ck(&|| format!("format!(\"{spec}\") of subset {m:#b} of three elements that write out the flags they are given"), &mut || f(&Either::Set(set)), want);
        }
    }
}
fn main() {
    let names: Vec<&str> = catalog::NAMES.iter().copied().chain(["picky", "flags"]).collect();
    main_with(&names, |n, cx| if n == "picky" { picky(cx) } else if n == "flags" { flags(cx) } else { catalog::dispatch(n, &J, cx) });
}
