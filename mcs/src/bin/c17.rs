//! C17: the array format. Every set of the family is written and read back; word lists of every length up to two more than needed are
//! read, over letters without unknown bits.
use mcs::*;

fn wordlist(w: &[u64], h: Option<usize>) -> V {
    V::Seq(h, w.iter().map(|x| V::T(Tok::U64(*x))).collect())
}
fn run(cx: &mut Cx, s: &S) {
    let nm = s.info.name;
    let a = &*s.api;
    for m in unary(&s.info, cx.pick(10, 16), cx.pick(7, 11)).into_iter().chain(wide(&s.info, cx.pick(10, 16), cx.pick(66, 130))) {
        cx.states += 1;
        cx.traces += 1;
        cx.outcome(m.hash64());
        let sh = s.info.show(m);
        let mut w = s.info.words_of(m);
        while w.last() == Some(&0) {
            w.pop();
        }
        // trailing zero words may or may not be written; the first format seen decides what the others have to say
        let mut seen: Option<Vec<u64>> = None;
        cx.ck(&|| format!("{nm}: serialize {sh}: words without trailing zeros, number of words reasonable"), &mut || s.log(m).and_then(|l| {
            let n = l.len();
            let mut x = vec![];
            for t in &l[1.min(n)..n.max(1) - 1] {
                match t { Tok::U64(v) => x.push(*v), _ => return Err(format!("{l:?}")) }
            }
            if n < 2 || l[0] != Tok::Seq(Some(x.len())) || l[n - 1] != Tok::SeqEnd { return Err(format!("{l:?}")) }
            seen = Some(x.clone());
            let small = x.len() <= s.info.words + 1;
            while x.last() == Some(&0) { x.pop(); }
            Ok((x, small))
        }), Ok((w.clone(), true)));
        let out = seen.unwrap();
        let j = format!("[{}]", out.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
        cx.ck(&|| format!("{nm}: serialize {sh} as JSON"), &mut || a.json(m), Ok(j.clone()));
        cx.ck(&|| format!("{nm}: deserialize JSON {j}"), &mut || a.unjson(&j), Ok(s.want(m)));
        let mut b = (out.len() as u64).to_le_bytes().to_vec();
        b.extend(out.iter().flat_map(|x| x.to_le_bytes()));
        cx.ck(&|| format!("{nm}: serialize {sh} with bincode"), &mut || a.bin(m), Ok(b.clone()));
        cx.ck(&|| format!("{nm}: deserialize {sh} with bincode"), &mut || a.unbin(&b), Ok(s.want(m)));
        for l in 0..b.len() {
            let t = &b[..l];
            cx.ck(&|| format!("{nm}: deserialize truncated {t:x?} with bincode"), &mut || a.unbin(t).ok(), None);
        }
        cx.ck(&|| format!("{nm}: round trip of {sh} between two numbers"), &mut || a.bin_tuple(m).map(|t| (t.1, t.2, t.3)), Ok((0xdead_beef, s.want(m), 0x0123_4567_89ab_cdef)));
        // with any number of zero words after the last, under any size hint
        let far = if m.is_empty() || m == s.info.all() || m.len() == 1 { vec![30, 64, 129, 1000, 5000] } else { vec![] };
        for extra in (0..=s.info.words + 2 - w.len()).chain(far) {
            let mut x = w.clone();
            x.resize(w.len() + extra, 0);
            for h in [None, Some(0), Some(x.len()), Some(usize::MAX)] {
                let v = wordlist(&x, h);
                cx.ck(&|| format!("{nm}: deserialize {v:?}"), &mut || s.de(&v), Ok(s.want(m)));
            }
            let v = wordlist(&x, Some(x.len()));
            cx.ck(&|| format!("{nm}: deserialize {v:?}, refusing any other request"), &mut || s.de_strict(&v), Ok(s.want(m)));
            let mut b = (x.len() as u64).to_le_bytes().to_vec();
            b.extend(x.iter().flat_map(|x| x.to_le_bytes()));
            cx.ck(&|| format!("{nm}: deserialize {b:x?} with bincode"), &mut || a.unbin(&b), Ok(s.want(m)));
            // elements of other integer types
            for wd in [8, 16, 32, 128] {
                let els: Vec<V> = x.iter().map(|e| V::T(utok(wd, *e as u128).unwrap_or(Tok::U64(*e)))).collect();
                let all = els.iter().map(|e| serde_int(64, e)).collect::<Option<Vec<_>>>().is_some();
                let v = V::Seq(None, els);
                cx.ck(&|| format!("{nm}: deserialize {v:?}"), &mut || s.de(&v).ok(), all.then(|| s.want(m)));
            }
        }
    }
    // one element of the wrong type at each position, also beyond the last word
    for jv in junk() {
        if serde_int(64, &jv).is_some() {
            continue;
        }
        for l in 0..=s.info.words + 2 {
            for at in 0..=l {
                let mut x: Vec<V> = vec![V::T(Tok::U64(0)); l];
                x.insert(at, jv.clone());
                let v = V::Seq(None, x);
                cx.states += 1;
                cx.ck(&|| format!("{nm}: deserialize {v:?}"), &mut || s.de(&v).is_err(), true);
            }
        }
    }
    for jv in junk() {
        if let V::Seq(_, x) = &jv {
            if !x.is_empty() {
                continue;
            }
        }
        let fits = matches!(jv, V::Seq(..));
        cx.states += 1;
        cx.ck(&|| format!("{nm}: deserialize {jv:?}"), &mut || s.de(&jv).ok(), fits.then(|| s.want(M::EMPTY)));
    }
    for j in ["-1", "0", "true", "null", "\"V0\"", "[]", "{}", "", "[", "[0", "[-1]", "[0.5]", "[18446744073709551616]", "[null]", "[[]]", "[] 0", "[0,]", "[0,-1]", "[0,0,0,0,0,0,0,0,-1]"] {
        cx.ck(&|| format!("{nm}: deserialize JSON {j:?}"), &mut || a.unjson(j).ok(), (j == "[]").then(|| s.want(M::EMPTY)));
    }
}
fn main() {
    main_s(|f| f == Fmt::Array, run);
}
