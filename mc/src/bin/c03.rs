//! C03: iteration. A stateless search over every interleaving of `next` and `next_back` (and, for larger sets, every
//! interleaving with a bounded number of direction changes), with every other way of consuming the iterator tried on a
//! clone in every state reached. The model is the list of members in discriminant order.
use enumset::*;
use mc::*;

/// Observers, run on a clone of the iterator; the parameter is a count. Answers are lists of variant indices, padded
/// with markers where there is more than one part.
const OBS: &[(&str, bool)] = &[
    ("collect", false), ("rev().collect", false), ("count", false), ("last", false), ("fold", false), ("rfold", false),
    ("for_each", false), ("size_hint+len", false), ("rev().size_hint", false), ("collect::<EnumSet>().iter()", false), ("rev().last", false),
    ("clone(), then both halves", false), ("map/filter/partition", false), ("peekable", false), ("by_ref().next() then collect", false),
    ("max/min by position", false), ("try_fold/try_rfold stopping early", false),
    ("nth(k) then rest", true), ("nth_back(k) then rest", true), ("skip(k)", true), ("take(k)", true), ("skip(k).rev()", true),
    ("take(k).rev()", true), ("step_by(k+1)", true), ("rev().step_by(k+1)", true), ("position(k-th)", true), ("rposition(k-th)", true),
    ("find k-th then rest", true), ("rfind k-th then rest", true), ("any(k-th) then rest", true), ("all(not k-th) then rest", true), ("take_while/skip_while k", true), ("nth(k), nth_back(k) then size_hint", true),
    ("zip(k..)", true), ("collect::<Vec>() and partition directly", false), ("max/min by the enum's own order", false), ("is_sorted, by the enum's own order and by position", false),
    ("reduce", false), ("find_map, filter_map, map_while", true), ("cmp/partial_cmp/eq/ne/lt/le/gt/ge with itself, its rest and its reverse", false), ("cycle().take(2k+1)", true),
    ("enumerate/inspect/flat_map/unzip", false), ("fuse, stepped over the end", false), ("scan stopping after k", true), ("try_for_each, then rest", true), ("rev().nth(k) then rest", true),
    ("by_ref().take(k) then rest", true), ("by_ref().rev().take(k) then rest", true), ("all/any with constant answers", false),
    ("chain", false),
];
/// The enum's own order of variants, by index: all equal, or by `odd`.
fn rank(e: &Info, odd: bool, i: usize) -> u32 {
    if odd { 0 } else { mc::odd(e.discr[i]) }
}
const SEP: usize = 9999;
const NONE: usize = 8888;

trait Api {
    fn start(&mut self, set: usize, into: bool);
    fn push(&mut self);
    fn pop(&mut self);
    fn next(&mut self, back: bool) -> Option<usize>;
    fn obs(&mut self, o: usize, k: usize) -> Vec<usize>;
}
/// `len` of two iterators agree
trait EqLen: ExactSizeIterator + Clone {
    fn eq_by_len(&self, o: &Self) -> bool {
        self.len() == o.len()
    }
}
impl<I: ExactSizeIterator + Clone> EqLen for I {}
struct A<E: Cat> {
    sets: Vec<EnumSet<E>>,
    stack: Vec<EnumSetIter<E>>,
}
#[inline(never)]
fn ix<E: Cat>(v: E) -> usize {
    E::DISCR.binary_search(&v.disc()).unwrap_or(7777)
}
impl<E: Cat> Api for A<E> {
    fn start(&mut self, set: usize, into: bool) {
        let s = self.sets[set];
        self.stack = vec![if into { s.into_iter() } else { s.iter() }];
    }
    fn push(&mut self) {
        let t = self.stack.last().unwrap().clone();
        self.stack.push(t);
    }
    fn pop(&mut self) {
        self.stack.pop();
    }
    fn next(&mut self, back: bool) -> Option<usize> {
        let it = self.stack.last_mut().unwrap();
        if back { it.next_back() } else { it.next() }.map(ix)
    }
    fn obs(&mut self, o: usize, k: usize) -> Vec<usize> {
        let mut it = self.stack.last().unwrap().clone();
        let mut out = vec![];
        macro_rules! opt {
            ($e:expr) => { match $e { Some(v) => out.push(ix(v)), None => out.push(NONE) } };
        }
        macro_rules! hint {
            ($i:expr) => {{ let h = $i.size_hint(); out.push(h.0); out.push(h.1.unwrap_or(NONE)); out.push($i.len()); }};
        }
        match o {
            0 => out.extend(it.map(ix)),
            1 => out.extend(it.rev().map(ix)),
            2 => out.push(it.count()),
            3 => opt!(it.last()),
            4 => it.fold((), |_, v| out.push(ix(v))),
            5 => it.rfold((), |_, v| out.push(ix(v))),
            6 => it.for_each(|v| out.push(ix(v))),
            7 => hint!(it),
            8 => { let r = it.rev(); hint!(r) }
            9 => out.extend(it.collect::<EnumSet<E>>().iter().map(ix)),
            10 => opt!(it.rev().last()),
            11 => {
                let mut c = it.clone();
                c.next();
                let mut d = it.clone();
                d.next_back();
                out.extend(c.map(ix));
                out.push(SEP);
                out.extend(d.map(ix));
                out.push(SEP);
                out.extend(it.map(ix));
            }
            12 => {
                let (a, b): (Vec<usize>, Vec<usize>) = it.map(ix).filter(|x| x % 3 != 1).partition(|x| x % 2 == 0);
                out.extend(a);
                out.push(SEP);
                out.extend(b);
            }
            13 => {
                let mut p = it.peekable();
                let k = p.peek().copied();
                opt!(k);
                out.push(p.len());
                out.extend(p.map(ix));
            }
            14 => {
                opt!(it.by_ref().next());
                let v: Vec<usize> = it.by_ref().map(ix).collect();
                out.extend(v);
                out.push(SEP);
                opt!(it.next());
                opt!(it.next_back());
                hint!(it);
            }
            15 => {
                opt!(it.clone().max_by_key(|v| ix(*v)));
                opt!(it.min_by_key(|v| ix(*v)));
            }
            16 => {
                let mut n = 0;
                let _ = it.try_fold((), |_, v| { out.push(ix(v)); n += 1; if n == 2 { Err(()) } else { Ok(()) } });
                out.push(SEP);
                let mut n = 0;
                let _ = it.try_rfold((), |_, v| { out.push(ix(v)); n += 1; if n == 2 { Err(()) } else { Ok(()) } });
                out.push(SEP);
                hint!(it);
                out.extend(it.map(ix));
            }
            17 => { opt!(it.nth(k)); hint!(it); out.extend(it.map(ix)); }
            18 => { opt!(it.nth_back(k)); hint!(it); out.extend(it.map(ix)); }
            19 => { let s = it.skip(k); hint!(s); out.extend(s.map(ix)); }
            20 => { let s = it.take(k); hint!(s); out.extend(s.map(ix)); }
            21 => { let s = it.skip(k).rev(); hint!(s); out.extend(s.map(ix)); }
            22 => { let s = it.take(k).rev(); hint!(s); out.extend(s.map(ix)); }
            23 => { let s = it.step_by(k + 1); hint!(s); out.extend(s.map(ix)); }
            24 => { let s = it.rev().step_by(k + 1); hint!(s); out.extend(s.map(ix)); }
            25 => {
                let t = it.clone().map(ix).nth(k).unwrap_or(NONE);
                out.push(it.position(|v| ix(v) == t).unwrap_or(NONE));
                out.extend(it.map(ix));
            }
            26 => {
                let t = it.clone().map(ix).nth(k).unwrap_or(NONE);
                out.push(it.rposition(|v| ix(v) == t).unwrap_or(NONE));
                out.extend(it.map(ix));
            }
            27 => {
                let t = it.clone().map(ix).nth(k).unwrap_or(NONE);
                opt!(it.find(|v| ix(*v) == t));
                out.extend(it.map(ix));
            }
            28 => {
                let t = it.clone().map(ix).nth(k).unwrap_or(NONE);
                opt!(it.rfind(|v| ix(*v) == t));
                out.extend(it.map(ix));
            }
            29 => {
                let t = it.clone().map(ix).nth(k).unwrap_or(NONE);
                out.push(it.any(|v| ix(v) == t) as usize);
                out.extend(it.map(ix));
            }
            30 => {
                let t = it.clone().map(ix).nth(k).unwrap_or(NONE);
                out.push(it.all(|v| ix(v) != t) as usize);
                out.extend(it.map(ix));
            }
            31 => {
                let t = it.clone().map(ix).nth(k).unwrap_or(NONE);
                out.extend(it.clone().map(ix).take_while(|v| *v != t));
                out.push(SEP);
                out.extend(it.map(ix).skip_while(|v| *v != t));
            }
            32 => { opt!(it.nth(k)); opt!(it.nth_back(k)); hint!(it); out.extend(it.map(ix)); }
            33 => { let z = it.zip(k..); let v: Vec<_> = z.collect(); for (a, b) in v { out.push(ix(a)); out.push(b); } }
            34 => {
                out.extend(it.clone().collect::<Vec<E>>().into_iter().map(ix));
                out.push(SEP);
                let (a, b): (Vec<E>, Vec<E>) = it.partition(|v| ix(*v) % 2 == 0);
                out.extend(a.into_iter().map(ix));
                out.push(SEP);
                out.extend(b.into_iter().map(ix));
            }
            35 => {
                opt!(it.clone().max());
                opt!(it.clone().min());
                opt!(it.clone().max_by(|a, b| ix(*b).cmp(&ix(*a))));
                opt!(it.clone().min_by(|a, b| ix(*b).cmp(&ix(*a))));
                opt!(it.max_by_key(|_| 0));
            }
            36 => {
                out.push(it.clone().is_sorted() as usize);
                out.push(it.clone().is_sorted_by_key(ix) as usize);
                out.push(it.is_sorted_by(|a, b| ix(*a) < ix(*b)) as usize);
            }
            37 => {
                opt!(it.clone().reduce(|_, b| b));
                opt!(it.clone().reduce(|a, _| a));
                let mut seen = vec![];
                let _ = it.reduce(|a, b| { seen.push(ix(a)); b });
                out.extend(seen);
            }
            38 => {
                let t = it.clone().map(ix).nth(k).unwrap_or(NONE);
                let mut f = it.clone();
                out.push(f.find_map(|v| (ix(v) == t).then_some(t)).unwrap_or(NONE));
                out.extend(f.map(ix));
                out.push(SEP);
                out.extend(it.clone().filter_map(|v| (ix(v) != t).then_some(ix(v))));
                out.push(SEP);
                out.extend(it.map_while(|v| (ix(v) != t).then_some(ix(v))));
            }
            39 => {
                let mut rest = it.clone();
                rest.next();
                let c = |o: std::cmp::Ordering| (o as i8 + 1) as usize;
                let i = || it.clone().map(ix);
                out.extend([c(i().cmp(rest.clone().map(ix))), c(it.clone().cmp(it.clone())), it.clone().partial_cmp(it.clone()).map_or(NONE, c)]);
                out.extend([it.clone().eq(it.clone()), it.clone().ne(it.clone()), it.clone().lt(it.clone()), it.clone().le(it.clone()), it.clone().gt(it.clone()), it.clone().ge(it.clone())].map(|b| b as usize));
                out.extend([it.clone().eq(rest.clone()), rest.clone().ne(it.clone()), i().eq(it.clone().rev().map(ix)), rest.clone().eq_by_len(&it)].map(|b| b as usize));
            }
            40 => out.extend(it.cycle().take(2 * k + 1).map(ix)),
            41 => {
                for (i, v) in it.clone().enumerate() {
                    out.extend([i, ix(v)]);
                }
                let mut n = 0;
                out.extend(it.clone().inspect(|_| n += 1).flat_map(|v| [ix(v), ix(v)]));
                out.push(n);
                let (a, b): (Vec<usize>, Vec<E>) = it.map(|v| (ix(v), v)).unzip();
                out.extend(a);
                out.extend(b.into_iter().map(ix));
            }
            42 => {
                let mut f = it.fuse();
                let n = f.len();
                for i in 0..n + 3 {
                    out.push(if i % 2 == 0 { f.next() } else { f.next_back() }.map_or(NONE, ix));
                    out.push(f.len());
                }
            }
            43 => out.extend(it.scan(0, |n, v| { *n += 1; (*n <= k).then_some(ix(v)) })),
            44 => {
                let mut n = 0;
                let r = it.try_for_each(|v| { out.push(ix(v)); n += 1; if n > k { None } else { Some(()) } });
                out.push(r.is_some() as usize);
                out.extend(it.map(ix));
            }
            45 => { let mut r = it.rev(); opt!(r.nth(k)); hint!(r); out.extend(r.map(ix)); }
            46 => { let v: Vec<E> = it.by_ref().take(k).collect(); out.extend(v.into_iter().map(ix)); out.push(SEP); hint!(it); out.extend(it.map(ix)); }
            47 => { let v: Vec<E> = it.by_ref().rev().take(k).collect(); out.extend(v.into_iter().map(ix)); out.push(SEP); hint!(it); out.extend(it.map(ix)); }
            48 => {
                out.push(it.clone().all(|_| true) as usize);
                out.push(it.clone().any(|_| true) as usize);
                out.push(it.clone().all(|_| false) as usize);
                out.push(it.any(|_| false) as usize);
            }
            _ => { let c = it.clone().chain(it); out.push(c.size_hint().0); out.extend(c.map(ix)); }
        }
        out
    }
}

/// The model's answer, from the remaining members `r`.
fn model(e: &Info, odd: bool, r: &[usize], o: usize, k: usize) -> Vec<usize> {
    let opt = |x: Option<&usize>| x.copied().unwrap_or(NONE);
    let l = r.len();
    let rev: Vec<usize> = r.iter().rev().copied().collect();
    let hint = |n: usize, v: &[usize]| [&[n, n, n][..], v].concat();
    let tgt = r.get(k);
    match o {
        0 | 4 | 6 | 9 => r.to_vec(),
        1 | 5 => rev,
        2 => vec![l],
        3 => vec![opt(r.last())],
        7 | 8 => vec![l, l, l],
        10 => vec![opt(r.first())],
        11 => [&r[l.min(1)..], &[SEP], &r[..l.saturating_sub(1)], &[SEP], r].concat(),
        12 => {
            let f: Vec<usize> = r.iter().copied().filter(|x| x % 3 != 1).collect();
            let (a, b): (Vec<usize>, Vec<usize>) = f.into_iter().partition(|x| x % 2 == 0);
            [a, vec![SEP], b].concat()
        }
        13 => [&[opt(r.first()), l][..], r].concat(),
        14 => [&[opt(r.first())][..], &r[l.min(1)..], &[SEP, NONE, NONE, 0, 0, 0]].concat(),
        15 => vec![opt(r.last()), opt(r.first())],
        16 => {
            let a = l.min(2);
            let rest = &r[a..];
            let b = rest.len().min(2);
            let mut out = r[..a].to_vec();
            out.push(SEP);
            out.extend(rest.iter().rev().take(b));
            out.push(SEP);
            let left = &rest[..rest.len() - b];
            out.extend([left.len(); 3]);
            out.extend(left);
            out
        }
        17 => { let rest = &r[l.min(k + 1)..]; [vec![opt(tgt)], hint(rest.len(), rest)].concat() }
        18 => { let rest = &r[..l.saturating_sub(k + 1)]; [vec![opt(rev.get(k))], hint(rest.len(), rest)].concat() }
        19 => { let s = &r[l.min(k)..]; hint(s.len(), s) }
        20 => { let s = &r[..l.min(k)]; hint(s.len(), s) }
        21 => { let s: Vec<usize> = r[l.min(k)..].iter().rev().copied().collect(); hint(s.len(), &s) }
        22 => { let s: Vec<usize> = r[..l.min(k)].iter().rev().copied().collect(); hint(s.len(), &s) }
        23 => { let s: Vec<usize> = (0..l).filter(|i| i % (k + 1) == 0).map(|i| r[i]).collect(); hint(s.len(), &s) }
        24 => { let s: Vec<usize> = (0..l).filter(|i| i % (k + 1) == 0).map(|i| rev[i]).collect(); hint(s.len(), &s) }
        25 => match tgt { Some(_) => [&[k][..], &r[k + 1..]].concat(), None => vec![NONE] },
        26 => match tgt { Some(_) => [&[k][..], &r[..k]].concat(), None => vec![NONE] },
        27 => match tgt { Some(t) => [&[*t][..], &r[k + 1..]].concat(), None => vec![NONE] },
        28 => match tgt { Some(t) => [&[*t][..], &r[..k]].concat(), None => vec![NONE] },
        29 => match tgt { Some(_) => [&[1][..], &r[k + 1..]].concat(), None => vec![0] },
        30 => match tgt { Some(_) => [&[0][..], &r[k + 1..]].concat(), None => vec![1] },
        31 => match tgt { Some(_) => [&r[..k], &[SEP], &r[k..]].concat(), None => [r, &[SEP]].concat() },
        32 => {
            let rest = &r[l.min(k + 1)..];
            let left = &rest[..rest.len().saturating_sub(k + 1)];
            let b = rest.len().checked_sub(k + 1).map(|i| &rest[i]);
            [vec![opt(tgt), opt(b)], hint(left.len(), left)].concat()
        }
        33 => r.iter().enumerate().flat_map(|(i, v)| [*v, k + i]).collect(),
        34 => {
            let (a, b): (Vec<usize>, Vec<usize>) = r.iter().copied().partition(|x| x % 2 == 0);
            [r.to_vec(), vec![SEP], a, vec![SEP], b].concat()
        }
        35 => {
            let key = |i: &&usize| rank(e, odd, **i);
            vec![opt(r.iter().max_by_key(key)), opt(r.iter().min_by_key(key)), opt(r.first()), opt(r.last()), opt(r.last())]
        }
        36 => vec![r.windows(2).all(|w| rank(e, odd, w[0]) <= rank(e, odd, w[1])) as usize, 1, 1],
        37 => [&[opt(r.last()), opt(r.first())][..], &r[..l.saturating_sub(1)]].concat(),
        38 => {
            let (at, t) = (k.min(l), tgt.copied());
            let skip: Vec<usize> = r.iter().copied().filter(|x| Some(*x) != t).collect();
            [&[t.unwrap_or(NONE)][..], &r[(at + 1).min(l)..], &[SEP], &skip, &[SEP], &r[..at]].concat()
        }
        39 => {
            let rest = &r[l.min(1)..];
            let c = |o: std::cmp::Ordering| (o as i8 + 1) as usize;
            let mut v = vec![c(r.cmp(rest)), 1, 1, 1, 0, 0, 1, 0, 1];
            v.extend([l == 0, l != 0, l <= 1, l == 0].map(|b| b as usize));
            v
        }
        40 => r.iter().cycle().take(2 * k + 1).copied().collect(),
        41 => [r.iter().enumerate().flat_map(|(i, v)| [i, *v]).collect::<Vec<_>>(), r.iter().flat_map(|v| [*v, *v]).collect(), vec![l], r.to_vec(), r.to_vec()].concat(),
        42 => {
            let (mut a, mut b, mut out) = (0, l, vec![]);
            for i in 0..l + 3 {
                if a == b {
                    out.push(NONE);
                } else if i % 2 == 0 {
                    out.push(r[a]);
                    a += 1;
                } else {
                    b -= 1;
                    out.push(r[b]);
                }
                out.push(b - a);
            }
            out
        }
        43 => r[..l.min(k)].to_vec(),
        44 => [&r[..l.min(k + 1)], &[(l <= k) as usize], &r[l.min(k + 1)..]].concat(),
        45 => { let rest = &rev[l.min(k + 1)..]; [vec![opt(rev.get(k))], hint(rest.len(), rest)].concat() }
        46 => { let c = l.min(k); [r[..c].to_vec(), vec![SEP], hint(l - c, &r[c..])].concat() }
        47 => { let c = l.min(k); [rev[..c].to_vec(), vec![SEP], hint(l - c, &r[..l - c])].concat() }
        48 => vec![1, (l > 0) as usize, (l == 0) as usize, 0],
        _ => [&[2 * l][..], r, r].concat(),
    }
}

struct D<'a> {
    cx: &'a mut Cx,
    e: Info,
    api: &'a mut dyn Api,
    set: M,
    path: String,
    ks: usize,
    into: bool,
    odd: bool,
}
impl<'a> D<'a> {
    fn observe(&mut self, r: &[usize], all: bool) {
        self.cx.states += 1;
        let (path, set, nm, e) = (&self.path, self.set, self.e.name, self.e);
        let odd = self.odd;
        for (o, (name, counted)) in OBS.iter().enumerate() {
            if !all && !matches!(o, 0 | 1 | 2 | 3 | 7 | 17 | 18) {
                continue;
            }
            let top = if *counted { (r.len() + 1).min(self.ks) } else { 0 };
            for k in 0..=top {
                let api = &mut *self.api;
                let start = if self.into { "into_iter" } else { "iter" };
                self.cx.ck(&|| format!("{nm}: {}.{start}(){path}, then {name} (k={k})", e.show(set)), &mut || api.obs(o, k), model(&e, odd, r, o, k));
            }
        }
    }
    fn step(&mut self, back: bool, r: &[usize]) -> Vec<usize> {
        self.api.push();
        self.path.push_str(if back { ".next_back()" } else { ".next()" });
        let want = if back { r.last() } else { r.first() }.copied();
        let (path, set, nm, e, api) = (&self.path, self.set, self.e.name, self.e, &mut *self.api);
        self.cx.ck(&|| format!("{nm}: {}.iter(){path}", e.show(set)), &mut || api.next(back), want);
        self.cx.outcome(want.map_or(0, |x| x as u64 + 1) * 1000 + r.len() as u64 * 2 + back as u64);
        let mut v = r.to_vec();
        if !v.is_empty() {
            v.remove(if back { r.len() - 1 } else { 0 });
        }
        v
    }
    fn undo(&mut self, back: bool) {
        let l = self.path.len() - if back { ".next_back()" } else { ".next()" }.len();
        self.path.truncate(l);
        self.api.pop();
    }
    /// every interleaving; two more calls past the end
    fn full(&mut self, r: &[usize], past: usize) {
        self.observe(r, true);
        if r.is_empty() && past == 0 {
            self.cx.traces += 1;
            return;
        }
        for back in [false, true] {
            let v = self.step(back, r);
            self.full(&v, if r.is_empty() { past - 1 } else { past });
            self.undo(back);
        }
    }
    /// every interleaving with at most `sw` changes of direction; cheap observers everywhere
    fn bounded(&mut self, r: &[usize], dir: bool, sw: usize, past: usize, obs: bool) {
        if obs {
            self.observe(r, false);
        }
        if r.is_empty() && past == 0 {
            self.cx.traces += 1;
            return;
        }
        for back in [dir, !dir] {
            if back != dir && sw == 0 {
                continue;
            }
            let v = self.step(back, r);
            self.bounded(&v, back, sw - (back != dir) as usize, if r.is_empty() { past - 1 } else { past }, obs);
            self.undo(back);
        }
    }
}

struct J;
impl Job for J {
    fn run<E: Cat>(&self, cx: &mut Cx) {
        let e = E::info();
        let full = cx.pick(7, 9);
        let mut sets: Vec<M> = if e.heavy { unary(&e, 6, 3) } else { unary(&e, cx.pick(8, 10), cx.pick(6, 8)) };
        let most = if e.heavy { 0 } else if e.n <= 130 { 3 } else { 2 };
        sets.extend(wide(&e, cx.pick(8, 10), cx.pick(66, 130)).into_iter().filter(|m| m.len() <= most));
        sets.extend(wide(&e, cx.pick(8, 10), cx.pick(18, 34)).into_iter().filter(|m| m.len() > most));
        let real: Vec<EnumSet<E>> = sets.iter().map(|m| build::<E>(*m)).collect();
        drive(cx, e, E::ODD, &sets, full, &mut A { sets: real, stack: vec![] });
    }
}
fn drive(cx: &mut Cx, e: Info, odd: bool, sets: &[M], full: usize, api: &mut dyn Api) {
    let mut large = 0;
    for (k, &m) in sets.iter().enumerate() {
        let into = k % 2 == 1;
        let r = m.ixs();
        api.start(k, into);
        let ks = cx.pick(12, 20);
        let th = cx.thorough();
        let mut d = D { cx, e, api, set: m, path: String::new(), ks, into, odd };
        if r.len() <= full {
            d.full(&r, 2);
        } else {
            large += 1;
            d.observe(&r, true);
            // many large sets: one change of direction for most, two for a few small enough
            let l = r.len();
            let sw = if l <= if th { 24 } else { 14 } { 2 } else if l * l <= if th { 40000 } else { 6000 } || large <= 3 { 1 } else { 0 };
            let obs = l <= 40 && sw > 0;
            d.bounded(&r, false, sw, 2, obs);
            if sw < 2 {
                d.bounded(&r, true, 0, 2, obs);
            }
        }
    }
}
fn main() {
    main_with(catalog::NAMES, |n, cx| catalog::dispatch(n, &J, cx));
}
