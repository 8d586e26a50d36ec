//! Shared machinery of the value-level checks.
//!
//! Every check enumerates states (sets, iterators, histories) of the *real* `EnumSet` and compares each
//! observable answer with the reference model below: a set is a bit per variant *index* (position in discriminant
//! order), knows nothing about storage, and its operations are the textbook ones.
#![allow(clippy::all)]
pub mod catalog;
pub mod family;
pub mod model;
pub use family::*;
pub use model::M;

use enumset::*;
use std::fmt::{Debug, Display};
use std::io::{Seek, SeekFrom, Write};
use std::ops::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// An enum of the catalogue. All constants are computed by the generator, never asked from enumset.
pub trait Cat: EnumSetType + Ord + Debug + Display + 'static {
    const NAME: &'static str;
    const DECL: &'static str;
    /// discriminants, ascending
    const DISCR: &'static [u32];
    /// variants, in the order of `DISCR`
    const VARS: &'static [Self];
    const VNAMES: &'static [&'static str];
    /// `u64` words needed for the largest discriminant
    const WORDS: usize;
    /// expected size of the set, where documented
    const SIZE: usize;
    const INTEGER: bool;
    const HEAVY: bool;
    /// any two variants are `==`
    const ODD: bool = false;
    /// the discriminant, by `as`
    fn disc(self) -> u32;
    fn n() -> usize {
        Self::VARS.len()
    }
    fn info() -> Info {
        Info {
            name: Self::NAME,
            decl: Self::DECL,
            discr: Self::DISCR,
            vnames: Self::VNAMES,
            words: Self::WORDS,
            size: Self::SIZE,
            integer: Self::INTEGER,
            heavy: Self::HEAVY,
            n: Self::VARS.len(),
        }
    }
}
/// What the model knows of an enum, without its type: keeps the enumerating code out of the generic code.
#[derive(Copy, Clone)]
pub struct Info {
    pub name: &'static str,
    pub decl: &'static str,
    pub discr: &'static [u32],
    pub vnames: &'static [&'static str],
    pub words: usize,
    pub size: usize,
    pub integer: bool,
    pub heavy: bool,
    pub n: usize,
}
impl Info {
    pub fn all(&self) -> M {
        M::all(self.n)
    }
    /// The `u64` words the documentation says a set is ("bit n of the array is discriminant n").
    pub fn words_of(&self, m: M) -> Vec<u64> {
        let mut w = vec![0u64; self.words];
        for i in 0..self.n {
            if m.has(i) {
                let d = self.discr[i] as usize;
                w[d / 64] |= 1u64 << (d % 64);
            }
        }
        w
    }
    pub fn show(&self, m: M) -> String {
        let mut v: Vec<String> = (0..self.n).filter(|i| m.has(*i)).map(|i| format!("{}={}", self.vnames[i], self.discr[i])).collect();
        if v.len() > 24 {
            let k = v.len();
            v.truncate(20);
            v.push(format!("... {k} in all"));
        }
        format!("{{{}}}", v.join(","))
    }
}
/// ... that has the derived operators.
pub trait CatOps:
    Cat
    + PartialEq<EnumSet<Self>>
    + Not<Output = EnumSet<Self>>
    + Sub<Self, Output = EnumSet<Self>>
    + Sub<EnumSet<Self>, Output = EnumSet<Self>>
    + BitAnd<Self, Output = EnumSet<Self>>
    + BitAnd<EnumSet<Self>, Output = EnumSet<Self>>
    + BitOr<Self, Output = EnumSet<Self>>
    + BitOr<EnumSet<Self>, Output = EnumSet<Self>>
    + BitXor<Self, Output = EnumSet<Self>>
    + BitXor<EnumSet<Self>, Output = EnumSet<Self>>
{
}
/// ... that has `#[enumset(repr = "<integer>")]`.
pub trait CatRepr: Cat + EnumSetTypeWithRepr<Repr = <Self as CatRepr>::R> {
    type R: Copy + Debug + PartialEq;
}

pub fn vname<E: Cat>(e: E) -> &'static str {
    E::DISCR.binary_search(&e.disc()).map_or("<not a variant>", |i| E::VNAMES[i])
}
/// What the catalogue's enums are ordered by.
pub fn odd(d: u32) -> u32 {
    d.wrapping_add(1).wrapping_mul(2654435761)
}

pub trait Job {
    fn run<E: Cat>(&self, cx: &mut Cx);
}
pub trait JobOps {
    fn run<E: CatOps>(&self, cx: &mut Cx);
}
pub trait JobRepr {
    fn run<E: CatRepr>(&self, cx: &mut Cx);
}

#[derive(Copy, Clone, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}

/// Collects counts, compares, reports.
pub struct Cx {
    pub job: String,
    pub tier: Tier,
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub samples: Vec<String>,
    pub notes: Vec<String>,
    outcomes: std::collections::HashSet<u64>,
    trace: Option<std::fs::File>,
    sample_at: u64,
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn payload(p: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "<panic>".into()
    }
}

impl Cx {
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    /// picks the bound of the tier
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() {
            thorough
        } else {
            quick
        }
    }
    pub fn fail(&self, case: &str, want: &str, got: &str) -> ! {
        println!(
            "{{\"kind\":\"fail\",\"job\":{},\"case\":{},\"want\":{},\"got\":{}}}",
            esc(&self.job),
            esc(case),
            esc(want),
            esc(got)
        );
        std::io::stdout().flush().ok();
        std::process::exit(3)
    }
    #[cold]
    fn mark(&mut self, case: &str) {
        if let Some(f) = &mut self.trace {
            let mut rec = format!("{} #{}\n", case, self.transitions);
            while rec.len() < 2048 {
                rec.push(' ');
            }
            f.seek(SeekFrom::Start(0)).unwrap();
            f.write_all(rec.as_bytes()).unwrap();
        }
    }
    #[cold]
    fn sample(&mut self, case: &dyn Fn() -> String, got: &dyn Debug) {
        if self.transitions >= self.sample_at && self.samples.len() < 6 {
            let mut s = format!("{} -> {:?}", case(), got);
            s.truncate(300);
            self.samples.push(s);
            self.sample_at = self.sample_at * 7 + 11;
        }
    }
    /// One transition: run `got` on the real code, compare with the model's answer.
    #[inline(never)]
    pub fn ck<T: PartialEq + Debug>(&mut self, case: &dyn Fn() -> String, got: &mut dyn FnMut() -> T, want: T) {
        self.ck_panic(case, got, Some(want))
    }
    /// As `ck`, where `None` means the call has to panic.
    #[inline(never)]
    pub fn ck_panic<T: PartialEq + Debug>(&mut self, case: &dyn Fn() -> String, got: &mut dyn FnMut() -> T, want: Option<T>) {
        if self.trace.is_some() {
            self.mark(&case());
        }
        let g = catch_unwind(AssertUnwindSafe(got));
        self.transitions += 1;
        match (g, want) {
            (Ok(g), Some(w)) => {
                if g != w {
                    self.fail(&case(), &format!("{w:?}"), &format!("{g:?}"));
                }
                if self.transitions >= self.sample_at {
                    self.sample(case, &g);
                }
            }
            (Err(_), None) => {}
            (Ok(g), None) => self.fail(&case(), "panic", &format!("{g:?}")),
            (Err(p), Some(w)) => self.fail(&case(), &format!("{w:?}"), &format!("panic: {}", payload(p))),
        }
    }
    /// Records an observed outcome, so that a run in which nothing varies can be told from a real one.
    #[inline]
    pub fn outcome(&mut self, h: u64) {
        if self.outcomes.len() < 1_000_000 {
            self.outcomes.insert(h);
        }
    }
    pub fn note(&mut self, s: impl Into<String>) {
        self.notes.push(s.into());
    }
}

/// `--list`, or `--job NAME --tier quick|thorough [--trace FILE]`.
pub fn main_with(names: &[&str], run: impl FnOnce(&str, &mut Cx)) {
    let a: Vec<String> = std::env::args().skip(1).collect();
    if a.first().map(|s| s == "--list") == Some(true) {
        for n in names {
            println!("{n}");
        }
        return;
    }
    let opt = |k: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].clone());
    let job = opt("--job").expect("--job");
    let mut cx = Cx {
        job: job.clone(),
        tier: if opt("--tier").as_deref() == Some("thorough") { Tier::Thorough } else { Tier::Quick },
        states: 0,
        transitions: 0,
        traces: 0,
        samples: vec![],
        notes: vec![],
        outcomes: Default::default(),
        trace: opt("--trace").map(|p| std::fs::File::create(p).unwrap()),
        sample_at: 0,
    };
    std::panic::set_hook(Box::new(|_| {}));
    if let Err(p) = catch_unwind(AssertUnwindSafe(|| run(&job, &mut cx))) {
        // a panic outside `ck`: a call made while building a state, i.e. the code under test again
        // (the driver re-runs the job in trace mode to name the case)
        println!("{{\"kind\":\"panic\",\"job\":{},\"got\":{}}}", esc(&job), esc(&payload(p)));
        std::io::stdout().flush().ok();
        std::process::exit(4);
    }
    let list = |v: &[String]| v.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",");
    println!(
        "{{\"kind\":\"done\",\"job\":{},\"states\":{},\"transitions\":{},\"traces\":{},\"outcomes\":{},\"samples\":[{}],\"notes\":[{}]}}",
        esc(&job),
        cx.states,
        cx.transitions,
        cx.traces,
        cx.outcomes.len(),
        list(&cx.samples),
        list(&cx.notes)
    );
}

/// What a set is observed to be: its members by asking about every variant, and its length.
#[derive(Copy, Clone, PartialEq, Eq, Hash)]
pub struct Seen(pub M, pub usize);
impl Debug for Seen {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "members(by index) {:?}, len {}", self.0, self.1)
    }
}
impl From<M> for Seen {
    fn from(m: M) -> Self {
        Seen(m, m.len())
    }
}
#[inline(never)]
pub fn see<E: Cat>(s: EnumSet<E>) -> Seen {
    let mut m = M::EMPTY;
    for i in 0..E::n() {
        if s.contains(E::VARS[i]) {
            m.put(i);
        }
    }
    Seen(m, s.len())
}
/// Builds the real set of a model set, by inserting.
#[inline(never)]
pub fn build<E: Cat>(m: M) -> EnumSet<E> {
    let mut s = EnumSet::new();
    for i in 0..E::n() {
        if m.has(i) {
            s.insert(E::VARS[i]);
        }
    }
    s
}
