//! C21: the operators the derive adds to the enum itself (`v | w`, `v & w`, `v - w`, `v ^ w`, `!v`, with another variant or a set on the
//! right, and `v == set`), and the `Copy`/`Clone`/`Eq` it adds.
use enumset::*;
use mc::*;

const OPS: [&str; 8] = ["v | w", "v & w", "v - w", "v ^ w", "v | s", "v & s", "v - s", "v ^ s"];
trait Api {
    fn vv(&self, op: usize, v: usize, w: usize) -> Seen;
    fn not(&self, v: usize) -> Seen;
    fn eq(&self, v: usize, s: usize) -> (bool, bool, bool);
}
struct A<E: CatOps>(Vec<EnumSet<E>>);
impl<E: CatOps> Api for A<E> {
    fn vv(&self, op: usize, v: usize, w: usize) -> Seen {
        let v = E::VARS[v];
        see(match op {
            0 => v | E::VARS[w],
            1 => v & E::VARS[w],
            2 => v - E::VARS[w],
            3 => v ^ E::VARS[w],
            4 => v | self.0[w],
            5 => v & self.0[w],
            6 => v - self.0[w],
            _ => v ^ self.0[w],
        })
    }
    fn not(&self, v: usize) -> Seen {
        see(!E::VARS[v])
    }
    fn eq(&self, v: usize, s: usize) -> (bool, bool, bool) {
        let (v, s) = (E::VARS[v], self.0[s]);
        (v == s, v != s, s == v)
    }
}
trait Base {
    fn eq(&self, a: usize, b: usize) -> (bool, bool, bool, bool);
    fn discr(&self, a: usize) -> usize;
}
impl<E: Cat> Base for std::marker::PhantomData<E> {
    fn eq(&self, a: usize, b: usize) -> (bool, bool, bool, bool) {
        let (a, b) = (&E::VARS[a], &E::VARS[b]);
        let (c, d) = (a.clone(), *b);
        let (f, s) = (|| format!("{c:?}"), EnumSet::only(c));
        (a == b, a != b, c == d && f() == format!("{d:?}"), s.contains(d))
    }
    fn discr(&self, a: usize) -> usize {
        E::DISCR.iter().position(|_| true).map_or(0, |_| EnumSet::only(E::VARS[a]).to_vec().iter().enumerate().map(|(i, w)| if *w == 0 { 0 } else { i * 64 + w.trailing_zeros() as usize }).sum())
    }
}
fn base(cx: &mut Cx, e: Info, odd: bool, b: &dyn Base) {
    for i in 0..e.n {
        cx.ck(&|| format!("{}: bit of EnumSet::only({})", e.name, e.vnames[i]), &mut || b.discr(i), e.discr[i] as usize);
        for j in 0..e.n {
            cx.traces += 1;
            cx.ck(&|| format!("{}: (==, !=, == of clone and copy, only(a).contains(b)) of {} and {}", e.name, e.vnames[i], e.vnames[j]), &mut || b.eq(i, j), (i == j || odd, i != j && !odd, i == j, i == j));
        }
    }
}
struct J;
impl JobOps for J {
    fn run<E: CatOps>(&self, cx: &mut Cx) {
        let e = E::info();
        base(cx, e, E::ODD, &std::marker::PhantomData::<E>);
        let mut sets = if e.heavy { unary(&e, 5, 3) } else { unary(&e, cx.pick(9, 12), cx.pick(7, 9)) };
        sets.extend(wide(&e, cx.pick(9, 12), cx.pick(66, 130)));
        let real: Vec<EnumSet<E>> = sets.iter().map(|m| build::<E>(*m)).collect();
        drive(cx, e, &sets, &A(real));
    }
}
fn drive(cx: &mut Cx, e: Info, sets: &[M], api: &dyn Api) {
    let nm = e.name;
    let vs = if e.n <= 32 { (0..e.n).collect() } else { alphabet(&e, cx.pick(20, 40)) };
    let fs = |a: M, b: M| [a.or(b), a.and(b), a.minus(b), a.xor(b)];
    cx.states += sets.len() as u64;
    for &v in &vs {
        let one = M::of(&[v]);
        cx.ck(&|| format!("{nm}: !{}", e.vnames[v]), &mut || api.not(v), one.not(e.n).into());
        for w in 0..e.n {
            cx.traces += 1;
            for op in 0..4 {
                cx.ck(&|| format!("{nm}: {} with v={} w={}", OPS[op], e.vnames[v], e.vnames[w]), &mut || api.vv(op, v, w), fs(one, M::of(&[w]))[op].into());
            }
        }
        for (k, &m) in sets.iter().enumerate() {
            cx.traces += 1;
            cx.outcome(one.xor(m).hash64());
            for op in 0..4 {
                cx.ck(&|| format!("{nm}: {} with v={} s={}", OPS[op + 4], e.vnames[v], e.show(m)), &mut || api.vv(op + 4, v, k), fs(one, m)[op].into());
            }
            cx.ck(&|| format!("{nm}: (v == s, v != s, s == v) with v={} s={}", e.vnames[v], e.show(m)), &mut || api.eq(v, k), (one == m, one != m, one == m));
        }
    }
}
struct B;
impl Job for B {
    fn run<E: Cat>(&self, cx: &mut Cx) {
        let e = E::info();
        cx.states += e.n as u64;
        base(cx, e, E::ODD, &std::marker::PhantomData::<E>);
    }
}
fn main() {
    main_with(catalog::NAMES, |n, cx| if catalog::NAMES_OPS.contains(&n) { catalog::dispatch_ops(n, &J, cx) } else { catalog::dispatch(n, &B, cx) });
}
