//! C16: the list and map formats. Every set of the family is written and read back; every short sequence of elements (or entries),
//! in every order and with repetitions, under every size hint, is read.
use mcs::*;

fn sorted(mut v: Vec<Tok>) -> Vec<String> {
    let mut s: Vec<String> = v.drain(..).map(|t| format!("{t:?}")).collect();
    s.sort();
    s
}
/// The written items, in no particular order: the format is that of a set.
fn items(s: &S, log: Vec<Tok>) -> Result<(Tok, Vec<String>, Tok), String> {
    let n = log.len();
    if n < 2 {
        return Err(format!("{log:?}"));
    }
    let mut inner: Vec<Tok> = log[1..n - 1].to_vec();
    if s.fmt == Fmt::Map {
        if inner.len() % 3 != 0 || inner.chunks(3).any(|c| c[0] != Tok::Key || c[2] != Tok::Bool(true)) {
            return Err(format!("{log:?}"));
        }
        inner = inner.chunks(3).map(|c| c[1].clone()).collect();
    }
    Ok((log[0].clone(), sorted(inner), log[n - 1].clone()))
}
fn wrap(s: &S, hint: Option<usize>, els: &[(Tok, bool)]) -> V {
    match s.fmt {
        Fmt::List => V::Seq(hint, els.iter().map(|e| V::T(e.0.clone())).collect()),
        _ => V::Map(hint, els.iter().map(|e| (V::T(e.0.clone()), V::T(Tok::Bool(e.1)))).collect()),
    }
}
fn json(s: &S, els: &[(Tok, bool)]) -> String {
    let e = |t: &Tok, key: bool| match t {
        Tok::Variant(n) => format!("\"{n}\""),
        Tok::U32(n) if key => format!("\"{n}\""),
        Tok::U32(n) => format!("{n}"),
        _ => unreachable!(),
    };
    match s.fmt {
        Fmt::List => format!("[{}]", els.iter().map(|x| e(&x.0, false)).collect::<Vec<_>>().join(",")),
        _ => format!("{{{}}}", els.iter().map(|x| format!("{}:{}", e(&x.0, true), x.1)).collect::<Vec<_>>().join(",")),
    }
}
fn run(cx: &mut Cx, s: &S) {
    let nm = s.info.name;
    let a = &*s.api;
    let map = s.fmt == Fmt::Map;
    for m in unary(&s.info, cx.pick(10, 16), cx.pick(7, 11)).into_iter().chain(wide(&s.info, cx.pick(10, 16), cx.pick(66, 130))) {
        cx.states += 1;
        cx.traces += 1;
        cx.outcome(m.hash64());
        let sh = s.info.show(m);
        let n = m.len();
        let want = (if map { Tok::Map(Some(n)) } else { Tok::Seq(Some(n)) }, sorted(m.ixs().iter().map(|i| s.elem(*i)).collect()), if map { Tok::MapEnd } else { Tok::SeqEnd });
        cx.ck(&|| format!("{nm}: serialize {sh}"), &mut || s.log(m).and_then(|l| items(s, l)), Ok(want));
        cx.ck(&|| format!("{nm}: JSON round trip of {sh}"), &mut || a.json(m).and_then(|j| a.unjson(&j)), Ok(s.want(m)));
        cx.ck(&|| format!("{nm}: bincode round trip of {sh}"), &mut || a.bin(m).and_then(|j| a.unbin(&j)), Ok(s.want(m)));
        cx.ck(&|| format!("{nm}: bincode size of {sh}"), &mut || a.bin(m).map(|b| b.len()), Ok(8 + n * if map { 5 } else { 4 }));
        cx.ck(&|| format!("{nm}: round trip of {sh} between two numbers"), &mut || a.bin_tuple(m).map(|t| (t.1, t.2, t.3)), Ok((0xdead_beef, s.want(m), 0x0123_4567_89ab_cdef)));
        let up: Vec<(Tok, bool)> = m.ixs().iter().map(|i| (s.elem(*i), true)).collect();
        let down: Vec<(Tok, bool)> = up.iter().rev().cloned().collect();
        for els in [&up, &down] {
            for h in [None, Some(0), Some(n), Some(usize::MAX)] {
                let v = wrap(s, h, els);
                cx.ck(&|| format!("{nm}: deserialize {v:?}"), &mut || s.de(&v), Ok(s.want(m)));
            }
            let j = json(s, els);
            cx.ck(&|| format!("{nm}: deserialize JSON {j}"), &mut || a.unjson(&j), Ok(s.want(m)));
        }
        // every member several times over: more items than there are variants
        for k in [2, 3, if n <= 3 { 1000 } else { 7 }] {
            let els: Vec<(Tok, bool)> = (0..k).flat_map(|i| if i % 2 == 0 { &up } else { &down }).cloned().collect();
            for h in [None, Some(n), Some(els.len())] {
                let v = wrap(s, h, &els);
                cx.ck(&|| format!("{nm}: deserialize the members of {sh} {k} times over, as {v:?}"), &mut || s.de(&v), Ok(s.want(m)));
            }
            let j = json(s, &els);
            cx.ck(&|| format!("{nm}: deserialize JSON {j}"), &mut || a.unjson(&j), Ok(s.want(m)));
            if n > 0 {
                // ... and an unknown element at the very end
                let mut els = els;
                els.push((if s.num { Tok::U32(99_999) } else { Tok::Variant("Nope") }, true));
                let v = wrap(s, None, &els);
                cx.ck(&|| format!("{nm}: deserialize the members of {sh} {k} times over and an unknown element, as {v:?}"), &mut || s.de(&v).ok(), None);
            }
        }
        let v = wrap(s, Some(n), &up);
        cx.ck(&|| format!("{nm}: deserialize {v:?}, refusing any other request"), &mut || s.de_strict(&v), Ok(s.want(m)));
        if map {
            // every variant mentioned, absent ones with false
            let full: Vec<(Tok, bool)> = (0..s.info.n).map(|i| (s.elem(i), m.has(i))).collect();
            let v = wrap(s, None, &full);
            cx.ck(&|| format!("{nm}: deserialize {v:?}"), &mut || s.de(&v), Ok(s.want(m)));
            let j = json(s, &full);
            cx.ck(&|| format!("{nm}: deserialize JSON {j}"), &mut || a.unjson(&j), Ok(s.want(m)));
        }
    }
    // every sequence up to a depth over a few variants and one unknown element
    let al = alphabet(&s.info, 3);
    let mut letters: Vec<(Option<usize>, Tok, bool)> = vec![];
    for b in if map { vec![true, false] } else { vec![true] } {
        letters.extend(al.iter().map(|i| (Some(*i), s.elem(*i), b)));
        letters.push((None, if s.num { Tok::U32(99_999) } else { Tok::Variant("Nope") }, b));
    }
    let depth = match (map, cx.thorough()) { (false, false) => 6, (false, true) => 9, (true, false) => 4, (true, true) => 6 };
    let mut seqs: Vec<Vec<usize>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..depth {
        let to = seqs.len();
        for i in from..to {
            for l in 0..letters.len() {
                let mut x = seqs[i].clone();
                x.push(l);
                seqs.push(x);
            }
        }
        from = to;
    }
    for q in seqs {
        let (mut m, mut bad) = (M::EMPTY, false);
        for l in &q {
            match letters[*l].0 {
                None => bad = true,
                Some(i) if letters[*l].2 => m.put(i),
                Some(_) => {} // says nothing against another entry
            }
        }
        cx.states += 1;
        let els: Vec<(Tok, bool)> = q.iter().map(|l| (letters[*l].1.clone(), letters[*l].2)).collect();
        let v = wrap(s, [Some(q.len()), None, Some(0), Some(1)][cx.states as usize % 4], &els);
        let want = (!bad).then(|| s.want(m));
        cx.ck(&|| format!("{nm}: deserialize {v:?}"), &mut || s.de(&v).ok(), want.clone());
        let j = json(s, &els);
        cx.ck(&|| format!("{nm}: deserialize JSON {j}"), &mut || a.unjson(&j).ok(), want);
    }
    // one element or value of the wrong type, and everything that is not a list (or map) at all
    let ok: Vec<(Tok, bool)> = al.iter().map(|i| (s.elem(*i), true)).collect();
    for jv in junk() {
        let elem_ok = match &jv {
            V::T(Tok::Variant(n)) => !s.num && s.info.vnames.contains(n),
            V::T(Tok::Str(n)) => !s.num && s.info.vnames.contains(n),
            _ => false,
        };
        let numeric = matches!(jv, V::T(Tok::U8(_) | Tok::U16(_) | Tok::U32(_) | Tok::U64(_) | Tok::U128(_) | Tok::I8(_) | Tok::I16(_) | Tok::I32(_) | Tok::I64(_) | Tok::I128(_)));
        if elem_ok || numeric {
            continue; // may well be an element
        }
        for at in 0..=ok.len() {
            let v = match wrap(s, None, &ok) {
                V::Seq(h, mut x) => { x.insert(at, jv.clone()); V::Seq(h, x) }
                V::Map(h, mut x) => { x.insert(at, (jv.clone(), V::T(Tok::Bool(true)))); V::Map(h, x) }
                v => v,
            };
            // what the elements are is their own business, but a failure of theirs is ours to pass on
            cx.ck(&|| format!("{nm}: deserialize {v:?}"), &mut || s.de(&v).is_err(), true);
        }
        if map && at_least(&ok, 1) && jv != V::T(Tok::Bool(true)) && jv != V::T(Tok::Bool(false)) {
            let V::Map(h, mut x) = wrap(s, None, &ok) else { unreachable!() };
            x[0].1 = jv.clone();
            let v = V::Map(h, x);
            cx.ck(&|| format!("{nm}: deserialize {v:?}"), &mut || s.de(&v).is_err(), true);
        }
    }
    for jv in junk() {
        cx.states += 1;
        let fits = match (&jv, map) {
            (V::Seq(_, x), false) => x.is_empty(),
            (V::Map(_, x), true) => x.is_empty(),
            _ => false,
        };
        let maybe = s.num && matches!((&jv, map), (V::Seq(..), false) | (V::Map(..), true)) && !fits;
        if maybe {
            continue;
        }
        cx.ck(&|| format!("{nm}: deserialize {jv:?}"), &mut || s.de(&jv).ok(), fits.then(|| s.want(M::EMPTY)));
    }
    let own = if map { "{}" } else { "[]" };
    for j in ["-1", "0", "true", "null", "\"V0\"", "[]", "{}", "", "[", "{", "[\"V0\"", "{\"V0\":true", "[[]]", "[null]", "{\"V0\":1}", "{\"V0\":null}", "[] []"] {
        cx.ck(&|| format!("{nm}: deserialize JSON {j:?}"), &mut || a.unjson(j).ok(), (j == own).then(|| s.want(M::EMPTY)));
    }
}
fn at_least<T>(v: &[T], n: usize) -> bool {
    v.len() >= n
}
fn main() {
    main_s(|f| matches!(f, Fmt::List | Fmt::Map), run);
}
