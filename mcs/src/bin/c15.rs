//! C15: integer formats. Every set of the family is written, and read back from every integer token; every junk token is refused.
use mcs::*;

fn run(cx: &mut Cx, s: &S) {
    let Fmt::Int(w) = s.fmt else { unreachable!() };
    let nm = s.info.name;
    let a = &*s.api;
    for m in unary(&s.info, cx.pick(12, 16), cx.pick(8, 12)).into_iter().chain(wide(&s.info, cx.pick(12, 16), cx.pick(66, 130))) {
        cx.states += 1;
        cx.traces += 1;
        let x = s.value(m);
        cx.outcome(m.hash64());
        let t = utok(w, x).unwrap();
        let sh = s.info.show(m);
        cx.ck(&|| format!("{nm}: serialize {sh}"), &mut || s.log(m), Ok(vec![t.clone()]));
        cx.ck(&|| format!("{nm}: serialize {sh} as JSON"), &mut || a.json(m), Ok(x.to_string()));
        cx.ck(&|| format!("{nm}: deserialize JSON {x}"), &mut || a.unjson(&x.to_string()), Ok(s.want(m)));
        let le = x.to_le_bytes()[..w as usize / 8].to_vec();
        cx.ck(&|| format!("{nm}: serialize {sh} with bincode"), &mut || a.bin(m), Ok(le.clone()));
        cx.ck(&|| format!("{nm}: deserialize {le:x?} with bincode"), &mut || a.unbin(&le), Ok(s.want(m)));
        let mut tup = 0xdead_beefu32.to_le_bytes().to_vec();
        tup.extend(&le);
        tup.extend(0x0123_4567_89ab_cdefu64.to_le_bytes());
        cx.ck(&|| format!("{nm}: round trip of {sh} between two numbers"), &mut || a.bin_tuple(m), Ok((tup, 0xdead_beef, s.want(m), 0x0123_4567_89ab_cdef)));
        cx.ck(&|| format!("{nm}: deserialize {t:?}, refusing any other request"), &mut || s.de_strict(&V::T(t.clone())), Ok(s.want(m)));
        for v in [8, 16, 32, 64, 128].into_iter().flat_map(|v| [utok(v, x), itok(v, x as i128).filter(|_| x >> 127 == 0)]).flatten().map(V::T) {
            let want = serde_int(w, &v).map(|_| s.want(m));
            cx.ck(&|| format!("{nm}: deserialize {v:?}"), &mut || s.de(&v).ok(), want);
        }
        // too short, for every length
        for l in 0..le.len() {
            let b = &le[..l];
            cx.ck(&|| format!("{nm}: deserialize truncated {b:x?} with bincode"), &mut || a.unbin(b).ok(), None);
        }
    }
    // integers that do not fit, and everything that is no integer
    let mut bad = junk();
    for v in [8u32, 16, 32, 64, 128] {
        for k in 0..=128u32 {
            let p = 1u128.checked_shl(k).unwrap_or(0);
            for x in [p, p.wrapping_sub(1), p.wrapping_add(1), 0u128.wrapping_sub(p)] {
                bad.extend(utok(v, x).map(V::T));
                bad.extend(itok(v, x as i128).map(V::T));
            }
        }
    }
    for v in bad {
        cx.states += 1;
        let want = match serde_int(w, &v) {
            None => None,
            Some(x) => {
                let (m, rest) = s.masked(&[x as u64, (x >> 64) as u64]);
                if rest {
                    continue; // unknown bits: C18
                }
                Some(s.want(m))
            }
        };
        cx.ck(&|| format!("{nm}: deserialize {v:?}"), &mut || s.de(&v).ok(), want);
    }
    for j in ["-1", "1.5", "true", "null", "\"0\"", "[]", "{}", "", "340282366920938463463374607431768211456", "[0]", "1e0", "0 0"] {
        cx.ck(&|| format!("{nm}: deserialize JSON {j:?}"), &mut || a.unjson(j).is_err(), true);
    }
}
fn main() {
    main_s(|f| matches!(f, Fmt::Int(_)), run);
}
