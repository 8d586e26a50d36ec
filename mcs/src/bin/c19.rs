//! C19: faults. For every set and every input of the family: first without a fault, counting the calls made to the (de)serializer, then once
//! per call with exactly that call failing. The injected error has to come back as it is, with no call after it.
use mcs::*;

fn faults(cx: &mut Cx, what: &dyn Fn() -> String, go: &dyn Fn(&State) -> Option<Er>) {
    let st = State::default();
    go(&st);
    let n = st.calls.get();
    cx.states += 1;
    cx.ck(&|| format!("{}: calls made", what()), &mut || (n > 0, st.wrong.borrow().clone()), (true, None));
    let h = what().bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3));
    for k in 0..n {
        cx.traces += 1;
        if k > 0 {
            cx.outcome(h.wrapping_add((k as u64).wrapping_mul(0x9E3779B97F4A7C15)));
        }
        cx.ck(&|| format!("{}: call {k} of {n} fails", what()), &mut || {
            let st = State::failing(Some(k));
            let e = go(&st);
            (e, st.wrong.into_inner())
        }, (Some(Er::Fault(k)), None));
    }
}
fn run(cx: &mut Cx, s: &S) {
    let nm = s.info.name;
    let a = &*s.api;
    let (full, k) = (cx.pick(8, 13), cx.pick(6, 9));
    let sets = unary(&s.info, full, k);
    for m in &sets {
        if m.len() > cx.pick(70, 200) {
            continue;
        }
        faults(cx, &|| format!("{nm}: serialize {}", s.info.show(*m)), &|st| a.ser(*m, st).err());
    }
    let mut inputs: Vec<V> = vec![];
    for m in &sets {
        if m.len() > cx.pick(40, 200) {
            continue;
        }
        let ix = m.ixs();
        match s.fmt {
            Fmt::Int(w) => {
                inputs.push(V::T(utok(w, s.value(*m)).unwrap()));
                inputs.push(V::T(utok(w, !s.value(*m) & (u128::MAX >> (128 - w))).unwrap()));
            }
            Fmt::List => {
                let mut x: Vec<V> = ix.iter().map(|i| V::T(s.elem(*i))).collect();
                inputs.push(V::Seq(None, x.clone()));
                x.reverse();
                inputs.push(V::Seq(Some(x.len()), x));
            }
            Fmt::Map => {
                for b in [true, false] {
                    inputs.push(V::Map(Some(ix.len()), ix.iter().map(|i| (V::T(s.elem(*i)), V::T(Tok::Bool(b)))).collect()));
                }
                inputs.push(V::Map(None, (0..s.info.n.min(12)).map(|i| (V::T(s.elem(i)), V::T(Tok::Bool(m.has(i))))).collect()));
            }
            Fmt::Array => {
                for l in 0..=s.info.words + 2 {
                    let mut x = s.info.words_of(*m);
                    x.resize(l, 0);
                    for (i, y) in [(usize::MAX, 0), (0, u64::MAX), (l.wrapping_sub(1), 1 << 63)] {
                        let mut x = x.clone();
                        if i < l {
                            x[i] |= y;
                        }
                        inputs.push(V::Seq(if i == 0 { None } else { Some(l) }, x.into_iter().map(|x| V::T(Tok::U64(x))).collect()));
                    }
                }
            }
        }
    }
    for v in inputs {
        faults(cx, &|| format!("{nm}: deserialize {v:?}"), &|st| a.de(&v, st).err());
    }
}
fn main() {
    main_s(|_| true, run);
}
