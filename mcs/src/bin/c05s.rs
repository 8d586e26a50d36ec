//! C05 for deserialization: whatever is accepted, from whatever input, has exactly the bits of its members.
use mcs::*;

fn ok(s: &S, r: Result<Got, impl Sized>) -> Result<(), Got> {
    match r {
        Ok(g) if g != s.want(g.m) => Err(g),
        _ => Ok(()),
    }
}
fn run(cx: &mut Cx, s: &S) {
    let nm = s.info.name;
    let a = &*s.api;
    let what = "(refused, or else a set with exactly the bits of its members)";
    let feed = |cx: &mut Cx, v: &V| cx.ck(&|| format!("{nm}: deserialize {v:x?} {what}"), &mut || ok(s, s.de(v)), Ok(()));
    let bin = |cx: &mut Cx, b: &[u8]| cx.ck(&|| format!("{nm}: deserialize {b:x?} with bincode {what}"), &mut || ok(s, a.unbin(b)), Ok(()));
    let json = |cx: &mut Cx, j: &str| cx.ck(&|| format!("{nm}: deserialize JSON {j} {what}"), &mut || ok(s, a.unjson(j)), Ok(()));
    match s.fmt {
        Fmt::Int(w) => {
            for x in int_values(cx, s) {
                cx.states += 1;
                cx.traces += 1;
                cx.outcome(x as u64 ^ (x >> 64) as u64);
                for v in [8, 16, 32, 64, 128].into_iter().flat_map(|v| [utok(v, x), itok(v, x as i128)]).flatten().map(V::T) {
                    feed(cx, &v);
                }
                bin(cx, &x.to_le_bytes()[..w as usize / 8]);
                json(cx, &x.to_string());
            }
        }
        Fmt::Array => word_lists(cx, s, &mut |words, cx| {
            cx.states += 1;
            cx.traces += 1;
            cx.outcome(words.iter().fold(words.len() as u64, |h, x| (h ^ x).wrapping_mul(0x100000001b3)));
            for h in [None, Some(words.len())] {
                feed(cx, &V::Seq(h, words.iter().map(|x| V::T(Tok::U64(*x))).collect()));
            }
            let mut b = (words.len() as u64).to_le_bytes().to_vec();
            b.extend(words.iter().flat_map(|x| x.to_le_bytes()));
            bin(cx, &b);
            json(cx, &format!("[{}]", words.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")));
        }),
        Fmt::List | Fmt::Map => {
            for m in unary(&s.info, cx.pick(8, 12), cx.pick(6, 9)) {
                cx.states += 1;
                cx.traces += 1;
                cx.outcome(m.hash64());
                // forwards, backwards, every element twice; in the map also with every other entry false
                let up: Vec<usize> = m.ixs();
                let down: Vec<usize> = up.iter().rev().copied().collect();
                let twice: Vec<usize> = up.iter().chain(&down).copied().collect();
                for ixs in [&up, &down, &twice] {
                    let el = |i: &usize| V::T(s.elem(*i));
                    if s.fmt == Fmt::List {
                        feed(cx, &V::Seq(None, ixs.iter().map(el).collect()));
                    } else {
                        for alt in [false, true] {
                            feed(cx, &V::Map(None, ixs.iter().enumerate().map(|(k, i)| (el(i), V::T(Tok::Bool(!(alt && k % 2 == 1))))).collect()));
                        }
                    }
                }
            }
        }
    }
    for v in junk() {
        feed(cx, &v);
    }
}
fn main() {
    main_s(|_| true, run);
}
