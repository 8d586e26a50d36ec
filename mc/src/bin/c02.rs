//! C02: histories of mutations, by breadth-first search over the real set.
//!
//! A state is the memory of the real set together with the model's set; a transition applies one mutating call to a
//! copy and compares its return value and everything observable afterwards. The search starts from the empty set, the
//! full set and sets built by conversion, and runs until no new state appears, so it covers histories of every length
//! over the alphabet.
use enumset::*;
use mc::*;
use std::collections::{HashMap, HashSet, VecDeque};

const ELEM: [&str; 7] = ["insert", "remove", "|=", "&=", "-=", "^=", "extend([v])"];
const SET: [&str; 8] = ["insert_all", "remove_all", "|=", "&=", "-=", "^=", "extend([set])", "extend(set.iter())"];
const NUL: [&str; 4] = ["clear", "s = !s", "s = EnumSet::all()", "s = s.iter().rev().collect()"];

/// (new state's handle, returned value if the call returns one)
trait Api {
    fn elem(&mut self, op: usize, s: usize, v: usize) -> (usize, Option<bool>);
    fn set(&mut self, op: usize, s: usize, arg: usize) -> usize;
    fn nul(&mut self, op: usize, s: usize) -> usize;
    fn seen(&self, s: usize) -> (Seen, bool, Vec<u64>);
    fn bytes(&self, s: usize) -> Vec<u8>;
    fn eq(&self, s: usize, t: usize) -> bool;
    fn truncate(&mut self, to: usize);
    fn start(&mut self, k: usize, m: M) -> usize;
    /// no set around a mutated one, and no argument, ever changed
    fn calm(&self) -> bool;
}
struct A<E: Cat> {
    arena: Vec<EnumSet<E>>,
    args: Vec<EnumSet<E>>,
    calm: bool,
}
impl<E: Cat> A<E> {
    fn add(&mut self, s: EnumSet<E>) -> usize {
        self.arena.push(s);
        self.arena.len() - 1
    }
    /// Mutates the middle set of five; the ones around it, and the argument, have to keep every byte of theirs.
    fn among<R>(&mut self, s: usize, f: impl Fn(&mut EnumSet<E>, &[EnumSet<E>]) -> R) -> (usize, R) {
        let (all, no) = (EnumSet::all(), EnumSet::new());
        let raw = |s: &[EnumSet<E>]| unsafe {
            std::slice::from_raw_parts(s.as_ptr() as *const u8, std::mem::size_of_val(s)).to_vec()
        };
        let args = raw(&self.args);
        let mut out = None;
        for near in [all, no] {
            let mut five = [no, near, self.arena[s], near, all];
            let before = (raw(&five[..2]), raw(&five[3..]));
            let r = f(&mut five[2], &self.args);
            self.calm &= (raw(&five[..2]), raw(&five[3..])) == before && raw(&self.args) == args;
            out = Some((five[2], r));
        }
        let (s, r) = out.unwrap();
        (self.add(s), r)
    }
}
impl<E: Cat> Api for A<E> {
    fn elem(&mut self, op: usize, s: usize, v: usize) -> (usize, Option<bool>) {
        let v = E::VARS[v];
        self.among(s, |s, _| {
            match op {
                0 => return Some(s.insert(v)),
                1 => return Some(s.remove(v)),
                2 => *s |= v,
                3 => *s &= v,
                4 => *s -= v,
                5 => *s ^= v,
                _ => s.extend([v]),
            }
            None
        })
    }
    fn set(&mut self, op: usize, s: usize, arg: usize) -> usize {
        self.among(s, |s, args| {
            let a = &args[arg];
            match op {
                0 => s.insert_all(*a),
                1 => s.remove_all(*a),
                2 => *s |= *a,
                3 => *s &= *a,
                4 => *s -= *a,
                5 => *s ^= *a,
                6 => s.extend([*a]),
                _ => s.extend(a.iter()),
            }
        })
        .0
    }
    fn nul(&mut self, op: usize, s: usize) -> usize {
        self.among(s, |s, _| match op {
            0 => s.clear(),
            1 => *s = !*s,
            2 => *s = EnumSet::all(),
            _ => *s = s.iter().rev().collect(),
        })
        .0
    }
    fn calm(&self) -> bool {
        self.calm
    }
    fn seen(&self, s: usize) -> (Seen, bool, Vec<u64>) {
        let s = self.arena[s];
        (see(s), s.is_empty(), s.to_vec())
    }
    fn bytes(&self, s: usize) -> Vec<u8> {
        let s = &self.arena[s];
        // an integer or an array of them: no padding
        unsafe { std::slice::from_raw_parts(s as *const _ as *const u8, std::mem::size_of_val(s)) }.to_vec()
    }
    fn eq(&self, s: usize, t: usize) -> bool {
        self.arena[s] == self.arena[t]
    }
    fn truncate(&mut self, to: usize) {
        self.arena.truncate(to)
    }
    fn start(&mut self, k: usize, m: M) -> usize {
        let s = match k {
            0 => EnumSet::new(),
            1 => EnumSet::all(),
            _ => EnumSet::from_slice(&E::info().words_of(m)),
        };
        self.add(s)
    }
}

fn drive(cx: &mut Cx, e: Info, els: &[usize], args: &[M], api: &mut dyn Api) {
    let nm = e.name;
    let mut seen: HashSet<(Vec<u8>, M)> = HashSet::new();
    let mut by_model: HashMap<M, usize> = HashMap::new();
    let mut queue: VecDeque<(usize, M, u32)> = VecDeque::new();
    let mut hist: HashMap<usize, (usize, String)> = HashMap::new();
    let odd = M::of(&els.iter().copied().step_by(2).collect::<Vec<_>>());
    for (k, m) in [(0, M::EMPTY), (1, e.all()), (2, odd)] {
        let s = api.start(k, m);
        if seen.insert((api.bytes(s), m)) {
            hist.insert(s, (usize::MAX, ["EnumSet::new()", "EnumSet::all()", "EnumSet::from_slice(words)"][k].into()));
            queue.push_back((s, m, 0));
            by_model.insert(m, s);
        }
    }
    let path = |hist: &HashMap<usize, (usize, String)>, mut s: usize| {
        let mut v = vec![];
        while s != usize::MAX {
            let (p, w) = &hist[&s];
            v.push(w.clone());
            s = *p;
        }
        v.reverse();
        v.join("; ")
    };
    let mut depth = 0;
    while let Some((s, m, d)) = queue.pop_front() {
        cx.states += 1;
        depth = depth.max(d);
        // the whole set of calls enabled in every state
        for kind in 0..3 {
            let (nops, nargs) = match kind {
                0 => (ELEM.len(), els.len()),
                1 => (SET.len(), args.len()),
                _ => (NUL.len(), 1),
            };
            for arg in 0..nargs {
                for op in 0..nops {
                    let what = || match kind {
                        0 => format!("{}({})", ELEM[op], e.vnames[els[arg]]),
                        1 => format!("{}({})", SET[op], e.show(args[arg])),
                        _ => NUL[op].to_string(),
                    };
                    let (t, want_ret) = match kind {
                        0 => {
                            let i = els[arg];
                            let one = M::of(&[i]);
                            match op {
                                0 => (m.or(one), Some(!m.has(i))),
                                1 => (m.minus(one), Some(m.has(i))),
                                2 | 6 => (m.or(one), None),
                                3 => (m.and(one), None),
                                4 => (m.minus(one), None),
                                _ => (m.xor(one), None),
                            }
                        }
                        1 => (
                            match op {
                                0 | 2 | 6 | 7 => m.or(args[arg]),
                                1 | 4 => m.minus(args[arg]),
                                3 => m.and(args[arg]),
                                _ => m.xor(args[arg]),
                            },
                            None,
                        ),
                        _ => ([M::EMPTY, m.not(e.n), e.all(), m][op], None),
                    };
                    let case = || format!("{nm}: {}; {}", path(&hist, s), what());
                    let mut h = 0;
                    cx.ck(
                        &|| format!("{} returns", case()),
                        &mut || {
                            let (x, r) = match kind {
                                0 => api.elem(op, s, els[arg]),
                                1 => (api.set(op, s, arg), None),
                                _ => (api.nul(op, s), None),
                            };
                            h = x;
                            r
                        },
                        want_ret,
                    );
                    cx.ck(&|| format!("{} leaves the sets next to it, and its argument, alone", case()), &mut || api.calm(), true);
                    let mut w = e.words_of(t);
                    cx.ck(
                        &|| format!("{} leaves (members, is_empty, words)", case()),
                        &mut || {
                            let mut o = api.seen(h);
                            while o.2.len() > w.len() && o.2.last() == Some(&0) {
                                o.2.pop();
                            }
                            o
                        },
                        (t.into(), t.is_empty(), std::mem::take(&mut w.clone())),
                    );
                    w.clear();
                    cx.outcome(t.hash64().wrapping_add(want_ret.map_or(0, |b| b as u64 + 1)));
                    let key = (api.bytes(h), t);
                    if seen.contains(&key) {
                        api.truncate(h);
                        continue;
                    }
                    // a new memory content for a membership reached before: the two histories must still be equal
                    if let Some(&other) = by_model.get(&t) {
                        cx.ck(&|| format!("{} equals {}", case(), path(&hist, other)), &mut || api.eq(h, other), true);
                    }
                    by_model.entry(t).or_insert(h);
                    seen.insert(key);
                    hist.insert(h, (s, what()));
                    queue.push_back((h, t, d + 1));
                    cx.traces += 1;
                }
            }
        }
    }
    cx.note(format!("closed: no new state beyond depth {depth}"));
}

struct J;
impl Job for J {
    fn run<E: Cat>(&self, cx: &mut Cx) {
        let e = E::info();
        let k = if e.heavy { 3 } else { cx.pick(9, 12) };
        let els = alphabet(&e, k);
        let mut args = vec![M::EMPTY, e.all()];
        args.extend(subsets(&els[..els.len().min(3)]));
        let others = e.all().minus(M::of(&els));
        args.push(others);
        args.push(M::of(&others.ixs().into_iter().step_by(2).collect::<Vec<_>>()));
        args.push(M::of(&els));
        let mut seen = std::collections::HashSet::new();
        args.retain(|m| seen.insert(*m));
        let real = args.iter().map(|m| build::<E>(*m)).collect();
        drive(cx, e, &els, &args, &mut A { arena: vec![], args: real, calm: true });
    }
}
fn main() {
    main_with(catalog::NAMES, |n, cx| catalog::dispatch(n, &J, cx));
}
