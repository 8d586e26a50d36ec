//! C04: collecting. Every sequence of elements and of sets over a small alphabet, with repetition, in every order, through
//! every collecting entry point and through iterators of different kinds (exact, unsized, empty-reporting, chained).
use enumset::*;
use mc::*;

const ROUTE_E: [&str; 12] = ["collect::<EnumSet>() of Vec::into_iter", "collect of filtered iter", "collect of rev", "collect of from_fn (no size hint)", "extend(array-like)",
    "extend(filtered)", "extend one by one", "sum of values", "sum of refs", "fold with |", "collect of chain(rest, first)", "FromIterator::from_iter"];
const ROUTE_S: [&str; 9] = ["collect::<EnumSet>()", "collect of filtered", "collect of rev", "extend", "extend one by one", "sum of values",
    "sum of refs", "fold with |", "collect of from_fn (no size hint)"];
const ROUTE_1: [&str; 8] = ["EnumSet::only(v)", "EnumSet::from(v)", "v.into()", "collect of once", "sum of once", "empty() | v", "insert into new()", "only(v).iter().collect()"];

/// What an iterator says about its length.
const HINT: [&str; 6] = ["exact", "unknown", "claiming to be empty", "claiming five more", "claiming usize::MAX at least", "exact, and going on after its end"];
const ROUTE_P: [&str; 5] = ["collect", "extend", "sum", "sum of refs", "FromIterator of a chain with an empty list"];

/// Counts what is taken from it. `fold` and the like are std's defaults, on `next`.
struct Probe<'a, X> {
    items: &'a [X],
    taken: &'a std::cell::Cell<usize>,
    ends: &'a std::cell::Cell<usize>,
    hint: usize,
    /// what a caller gets that asks again after the end
    more: Option<&'a X>,
}
impl<'a, X> Iterator for Probe<'a, X> {
    type Item = &'a X;
    fn next(&mut self) -> Option<&'a X> {
        let k = self.taken.get();
        if k < self.items.len() {
            self.taken.set(k + 1);
            return Some(&self.items[k]);
        }
        self.ends.set(self.ends.get() + 1);
        if self.hint == 5 && self.ends.get() > 1 { self.more.take() } else { None }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let left = self.items.len() - self.taken.get();
        match self.hint {
            0 | 5 => (left, Some(left)),
            1 => (0, None),
            2 => (0, Some(0)),
            3 => (left + 5, Some(left + 5)),
            _ => (usize::MAX, None),
        }
    }
}

trait Api {
    /// what came out, how many items were taken, whether the end was reached
    fn probe(&self, r: usize, hint: usize, start: usize, elems: bool, seq: &[usize]) -> (Seen, usize, bool);
    fn elems(&self, r: usize, start: usize, seq: &[usize]) -> Seen;
    fn sets(&self, r: usize, start: usize, seq: &[usize]) -> Seen;
    fn one(&self, r: usize, v: usize) -> Seen;
}
struct A<E: Cat>(Vec<EnumSet<E>>);
impl<E: Cat> A<E> {
    fn probed<X: Copy>(&self, r: usize, hint: usize, start: usize, items: &[X], more: Option<X>) -> (Seen, usize, bool)
    where EnumSet<E>: FromIterator<X> + Extend<X> + std::iter::Sum<X> + for<'x> std::iter::Sum<&'x X> {
        let (taken, ends) = (Default::default(), Default::default());
        let it = Probe { items, taken: &taken, ends: &ends, hint, more: more.as_ref() };
        let mut s = self.0[start];
        match r {
            0 => s = it.copied().collect(),
            1 => s.extend(it.copied()),
            2 => s = it.copied().sum(),
            3 => s = it.sum(),
            _ => s = FromIterator::from_iter(it.chain(&[]).copied()),
        }
        (see(s), taken.get(), ends.get() > 0)
    }
}
impl<E: Cat> Api for A<E> {
    fn probe(&self, r: usize, hint: usize, start: usize, elems: bool, seq: &[usize]) -> (Seen, usize, bool) {
        if elems {
            self.probed(r, hint, start, &seq.iter().map(|i| E::VARS[*i]).collect::<Vec<_>>(), E::VARS.last().copied())
        } else {
            self.probed(r, hint, start, &seq.iter().map(|i| self.0[*i]).collect::<Vec<_>>(), Some(EnumSet::all()))
        }
    }
    fn elems(&self, r: usize, start: usize, seq: &[usize]) -> Seen {
        let v: Vec<E> = seq.iter().map(|i| E::VARS[*i]).collect();
        let mut s = self.0[start];
        // collecting starts from nothing: unite with the start afterwards, by inserting
        let c: EnumSet<E> = match r {
            0 => v.into_iter().collect(),
            1 => v.into_iter().filter(|_| true).collect(),
            2 => v.into_iter().rev().collect(),
            3 => { let mut i = v.into_iter(); std::iter::from_fn(move || i.next()).collect() }
            4 => { s.extend(v); return see(s) }
            5 => { s.extend(v.into_iter().filter(|_| true)); return see(s) }
            6 => { for x in v { s.extend(Some(x)) } return see(s) }
            7 => v.into_iter().sum(),
            8 => v.iter().sum(),
            9 => v.into_iter().fold(EnumSet::new(), |a, x| a | x),
            10 => { let (a, b) = v.split_at(v.len() / 2); b.iter().chain(a).copied().collect() }
            _ => <EnumSet<E> as FromIterator<E>>::from_iter(v),
        };
        for i in 0..E::n() {
            if c.contains(E::VARS[i]) {
                s.insert(E::VARS[i]);
            }
        }
        // the length is that of the collected set: with an empty start it must be exact
        if start == 0 { see(c) } else { see(s) }
    }
    fn sets(&self, r: usize, start: usize, seq: &[usize]) -> Seen {
        let v: Vec<EnumSet<E>> = seq.iter().map(|i| self.0[*i]).collect();
        let mut s = self.0[start];
        let c: EnumSet<E> = match r {
            0 => v.into_iter().collect(),
            1 => v.into_iter().filter(|_| true).collect(),
            2 => v.into_iter().rev().collect(),
            3 => { s.extend(v); return see(s) }
            4 => { for x in v { s.extend(Some(x)) } return see(s) }
            5 => v.into_iter().sum(),
            6 => v.iter().sum(),
            7 => v.into_iter().fold(EnumSet::new(), |a, x| a | x),
            _ => { let mut i = v.into_iter(); std::iter::from_fn(move || i.next()).collect() }
        };
        for i in 0..E::n() {
            if c.contains(E::VARS[i]) {
                s.insert(E::VARS[i]);
            }
        }
        if start == 0 { see(c) } else { see(s) }
    }
    fn one(&self, r: usize, v: usize) -> Seen {
        let v = E::VARS[v];
        see(match r {
            0 => EnumSet::only(v),
            1 => EnumSet::from(v),
            2 => v.into(),
            3 => std::iter::once(v).collect(),
            4 => std::iter::once(v).sum(),
            5 => EnumSet::empty() | v,
            6 => { let mut s = EnumSet::new(); s.insert(v); s }
            _ => EnumSet::only(v).iter().collect(),
        })
    }
}

fn seqs(n: usize, len: usize) -> Vec<Vec<usize>> {
    let mut out: Vec<Vec<usize>> = vec![vec![]];
    let mut last = out.clone();
    for _ in 0..len {
        let mut next = vec![];
        for s in &last {
            for x in 0..n {
                let mut t = s.clone();
                t.push(x);
                next.push(t);
            }
        }
        out.extend(next.iter().cloned());
        last = next;
    }
    out
}

fn drive(cx: &mut Cx, e: Info, els: &[usize], sets: &[M], lens: (usize, usize), api: &dyn Api) {
    let nm = e.name;
    for i in 0..e.n {
        for r in 0..ROUTE_1.len() {
            cx.ck(&|| format!("{nm}: {} with v={}", ROUTE_1[r], e.vnames[i]), &mut || api.one(r, i), M::of(&[i]).into());
        }
        cx.traces += 1;
    }
    let starts: Vec<usize> = (0..sets.len()).collect();
    let probe = |cx: &mut Cx, elems: bool, q: &[usize], m: M| {
        for r in 0..ROUTE_P.len() {
            for hint in 0..HINT.len() {
                for &st in if r == 1 { &starts[..] } else { &starts[..1] } {
                    cx.ck(&|| format!("{nm}: {} of {} {:?} by an iterator whose length is {}{}: (set, items taken, end reached)", ROUTE_P[r], if elems { "elements" } else { "sets" },
                        q.iter().map(|i| if elems { e.vnames[*i].to_string() } else { e.show(sets[*i]) }).collect::<Vec<_>>(), HINT[hint], if r == 1 { format!(", into {}", e.show(sets[st])) } else { String::new() }),
                        &mut || api.probe(r, hint, st, elems, q), (if r == 1 { m.or(sets[st]) } else { m }.into(), q.len(), true));
                }
            }
        }
    };
    for q in seqs(els.len(), lens.0) {
        cx.states += 1;
        let q: Vec<usize> = q.iter().map(|i| els[*i]).collect();
        let m = M::of(&q);
        cx.outcome(m.hash64());
        for &st in starts.iter().take(if q.len() <= 3 { 99 } else { 2 }) {
            cx.traces += 1;
            for r in 0..ROUTE_E.len() {
                cx.ck(&|| format!("{nm}: {} of elements {:?}, into {}", ROUTE_E[r], q.iter().map(|i| e.vnames[*i]).collect::<Vec<_>>(), e.show(sets[st])),
                    &mut || api.elems(r, st, &q), m.or(sets[st]).into());
            }
        }
        probe(cx, true, &q, m);
    }
    // long runs of one item with another at one end; every variant in order, backwards, and many times over
    let mut long: Vec<(bool, String, Vec<usize>)> = vec![];
    let mut runs: Vec<usize> = (lens.0..=if e.heavy { 9 } else { 70 }).collect();
    runs.extend([127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513, 1023, 1024, 1025]);
    if !e.heavy {
        runs.extend([4096, 65534, 65535, 65536, 65537]);
    }
    if cx.pick(false, true) && e.n < 12 {
        runs.extend([1 << 20, (1 << 24) + 1]);
    }
    let ends = [els.first(), els.last()].map(|i| i.copied());
    if let [Some(a), Some(b)] = ends {
        for &n in &runs {
            for (x, y) in [(a, b), (b, a)] {
                long.push((true, format!("{n} x {} and then {}", e.vnames[x], e.vnames[y]), [vec![x; n], vec![y]].concat()));
                if n <= 1025 {
                    long.push((true, format!("{} and then {n} x {}", e.vnames[x], e.vnames[y]), [vec![x], vec![y; n]].concat()));
                }
            }
        }
        let all: Vec<usize> = (0..e.n).collect();
        for k in [1, 2, 3, 40, 300] {
            if k <= 3 || e.n <= 300 && !e.heavy {
                long.push((true, format!("all variants in order, {k} times"), all.repeat(k)));
                long.push((true, format!("all variants backwards, {k} times"), all.iter().rev().copied().collect::<Vec<_>>().repeat(k)));
            }
        }
    }
    for &n in &runs {
        for (x, y) in [(0, sets.len() - 1), (sets.len() - 1, sets.len() / 2), (2.min(sets.len() - 1), 3.min(sets.len() - 1))] {
            long.push((false, format!("{n} x {} and then {}", e.show(sets[x]), e.show(sets[y])), [vec![x; n], vec![y]].concat()));
        }
    }
    for (elems, what, q) in &long {
        cx.states += 1;
        cx.traces += 1;
        let m = if *elems { M::of(q) } else { q.iter().fold(M::EMPTY, |a, i| a.or(sets[*i])) };
        cx.outcome(m.hash64().rotate_left(7));
        for r in 0..ROUTE_P.len() {
            for hint in 0..if q.len() < 2000 { HINT.len() } else { 2 } {
                let st = if r == 1 { sets.len() - 1 } else { 0 };
                cx.ck(&|| format!("{nm}: {} of {} by an iterator whose length is {}{}: (set, items taken, end reached)", ROUTE_P[r], what, HINT[hint], if r == 1 { format!(", into {}", e.show(sets[st])) } else { String::new() }),
                    &mut || api.probe(r, hint, st, *elems, q), (if r == 1 { m.or(sets[st]) } else { m }.into(), q.len(), true));
            }
        }
        for r in 0..if q.len() > 2000 { 0 } else if *elems { ROUTE_E.len() } else { ROUTE_S.len() } {
            cx.ck(&|| format!("{nm}: {} of {}", if *elems { ROUTE_E[r] } else { ROUTE_S[r] }, what), &mut || if *elems { api.elems(r, 0, q) } else { api.sets(r, 0, q) }, m.into());
        }
    }
    for q in seqs(sets.len(), lens.1) {
        cx.states += 1;
        let m = q.iter().fold(M::EMPTY, |a, i| a.or(sets[*i]));
        cx.outcome(m.hash64().rotate_left(3));
        for &st in starts.iter().take(if q.len() <= 2 { 99 } else { 2 }) {
            cx.traces += 1;
            for r in 0..ROUTE_S.len() {
                cx.ck(&|| format!("{nm}: {} of sets {:?}, into {}", ROUTE_S[r], q.iter().map(|i| e.show(sets[*i])).collect::<Vec<_>>(), e.show(sets[st])),
                    &mut || api.sets(r, st, &q), m.or(sets[st]).into());
            }
        }
        probe(cx, false, &q, m);
    }
}

struct J;
impl Job for J {
    fn run<E: Cat>(&self, cx: &mut Cx) {
        let e = E::info();
        let els = alphabet(&e, cx.pick(5, 6));
        let big = alphabet(&e, 9);
        let mut sets = vec![M::EMPTY, e.all()];
        for m in [els.first().map(|i| M::of(&[*i])), els.last().map(|i| M::of(&[*i])), Some(e.all().minus(M::of(&els))),
            Some(M::of(&big.iter().copied().step_by(2).collect::<Vec<_>>())), Some(e.all().minus(M::of(&big.iter().copied().step_by(3).collect::<Vec<_>>())))].into_iter().flatten() {
            if !sets.contains(&m) {
                sets.push(m);
            }
        }
        let lens = if e.heavy { (2, 2) } else { cx.pick((4, 3), (6, 5)) };
        let real = sets.iter().map(|m| build::<E>(*m)).collect();
        drive(cx, e, &els, &sets, lens, &A::<E>(real));
    }
}
fn main() {
    main_with(catalog::NAMES, |n, cx| catalog::dispatch(n, &J, cx));
}
