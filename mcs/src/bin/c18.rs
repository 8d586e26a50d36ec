//! C18: what happens to bits that are no variant's, in the integer and array formats: ignored, or refused with
//! `serialize_deny_unknown`; never a panic, never a trace of them in the set.
use mcs::*;

fn expect(s: &S, words: &[u64]) -> Option<Got> {
    let (m, rest) = s.masked(words);
    (!(rest && s.deny)).then(|| s.want(m))
}
fn run(cx: &mut Cx, s: &S) {
    let nm = s.info.name;
    let a = &*s.api;
    match s.fmt {
        Fmt::Int(w) => {
            for x in int_values(cx, s) {
                cx.states += 1;
                cx.traces += 1;
                let words = [x as u64, (x >> 64) as u64];
                let want = expect(s, &words);
                cx.outcome(x as u64 ^ (x >> 64) as u64);
                for v in [8, 16, 32, 64, 128].into_iter().flat_map(|v| [utok(v, x), itok(v, x as i128).filter(|_| x >> 127 == 0)]).flatten().map(V::T) {
                    if serde_int(w, &v).is_some() {
                        cx.ck(&|| format!("{nm}: deserialize {v:x?}"), &mut || s.de(&v).ok(), want.clone());
                    }
                }
                let le = &x.to_le_bytes()[..w as usize / 8];
                cx.ck(&|| format!("{nm}: deserialize {le:x?} with bincode"), &mut || a.unbin(le).ok(), want.clone());
                cx.ck(&|| format!("{nm}: deserialize JSON {x}"), &mut || a.unjson(&x.to_string()).ok(), want.clone());
            }
        }
        Fmt::Array => {
            word_lists(cx, s, &mut |words, cx| {
                cx.states += 1;
                cx.traces += 1;
                let want = expect(s, words);
                cx.outcome(words.iter().fold(words.len() as u64, |h, x| (h ^ x).wrapping_mul(0x100000001b3)));
                for h in [None, Some(words.len())] {
                    let v = V::Seq(h, words.iter().map(|x| V::T(Tok::U64(*x))).collect());
                    cx.ck(&|| format!("{nm}: deserialize {v:x?}"), &mut || s.de(&v).ok(), want.clone());
                }
                let mut b = (words.len() as u64).to_le_bytes().to_vec();
                b.extend(words.iter().flat_map(|x| x.to_le_bytes()));
                cx.ck(&|| format!("{nm}: deserialize {b:x?} with bincode"), &mut || a.unbin(&b).ok(), want.clone());
                let j = format!("[{}]", words.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
                cx.ck(&|| format!("{nm}: deserialize JSON {j}"), &mut || a.unjson(&j).ok(), want.clone());
            });
        }
        _ => unreachable!(),
    }
}
fn main() {
    main_s(|f| matches!(f, Fmt::Int(_) | Fmt::Array), run);
}
