//! Constants made by the macros, evaluated by rustc, and what C05 and C12 ask of them.
use enumset::*;
pub use mc::*;
use std::hash::{BuildHasher, BuildHasherDefault};
pub mod gen {
    #![allow(dead_code, unused)]
    #[cfg(feature = "thorough")]
    include!("gen_thorough.rs");
    #[cfg(not(feature = "thorough"))]
    include!("gen_quick.rs");
}
#[derive(Copy, Clone, PartialEq)]
pub enum Ask {
    /// C12: is it the set the run-time operators give
    Value,
    /// C05: whatever set it is, has it exactly the bits of its members
    Bits,
}
thread_local! {
    pub static ASK: std::cell::Cell<Ask> = const { std::cell::Cell::new(Ask::Value) };
}
fn drive<E: EnumSetType>(vars: &[E], cases: &[EnumSet<E>], want: &[(&str, &[usize])], nm: &str, cx: &mut Cx) {
    assert_eq!(cases.len(), want.len());
    let ask = ASK.get();
    for (got, (text, w)) in cases.iter().zip(want) {
        cx.states += 1;
        if !w.is_empty() && w.len() < vars.len() {
            cx.outcome(text.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3)));
        }
        if ask == Ask::Value {
            // members, length, and equality with a set made at run time (so no stray bits)
            let run: EnumSet<E> = w.iter().map(|i| vars[*i]).collect();
            cx.ck(&|| format!("{nm}: {text}: (variants by index, length, equal to the set made at run time)"),
                &mut || ((0..vars.len()).filter(|i| got.contains(vars[*i])).collect::<Vec<_>>(), got.len(), *got == run), (w.to_vec(), w.len(), true));
        } else {
            cx.traces += 1;
            let members: Vec<usize> = (0..vars.len()).filter(|i| got.contains(vars[*i])).collect();
            let run: EnumSet<E> = members.iter().map(|i| vars[*i]).collect();
            let h = BuildHasherDefault::<std::collections::hash_map::DefaultHasher>::default();
            cx.ck(&|| format!("{nm}: {text}, which contains the variants {members:?}: (length, == the set of its members made at run time, hashes alike, same words, subset of all())"),
                &mut || (got.len(), *got == run, h.hash_one(*got) == h.hash_one(run), got.to_vec() == run.to_vec(), got.is_subset(EnumSet::all())),
                (members.len(), true, true, true, true));
        }
    }
}
pub fn main_ask(a: Ask) {
    main_with(gen::NAMES, |n, cx| {
        ASK.set(a);
        gen::go(n, cx)
    });
}
