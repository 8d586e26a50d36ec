//! The reference model of a set: which variants (by index in discriminant order) it has.
#[derive(Copy, Clone, PartialEq, Eq, Hash, Default)]
pub struct M(pub [u64; 5]);
impl std::fmt::Debug for M {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.debug_set().entries(self.ixs()).finish()
    }
}
impl M {
    pub const EMPTY: M = M([0; 5]);
    pub fn all(n: usize) -> M {
        let mut m = M::EMPTY;
        for i in 0..n {
            m.put(i);
        }
        m
    }
    pub fn of(ix: &[usize]) -> M {
        let mut m = M::EMPTY;
        for &i in ix {
            m.put(i);
        }
        m
    }
    #[inline]
    pub fn has(self, i: usize) -> bool {
        self.0[i / 64] >> (i % 64) & 1 == 1
    }
    #[inline]
    pub fn put(&mut self, i: usize) {
        self.0[i / 64] |= 1 << (i % 64);
    }
    pub fn del(&mut self, i: usize) {
        self.0[i / 64] &= !(1 << (i % 64));
    }
    pub fn with(mut self, i: usize) -> M {
        self.put(i);
        self
    }
    pub fn without(mut self, i: usize) -> M {
        self.del(i);
        self
    }
    fn zip(self, o: M, f: impl Fn(u64, u64) -> u64) -> M {
        let mut r = M::EMPTY;
        for k in 0..5 {
            r.0[k] = f(self.0[k], o.0[k]);
        }
        r
    }
    pub fn or(self, o: M) -> M {
        self.zip(o, |a, b| a | b)
    }
    pub fn and(self, o: M) -> M {
        self.zip(o, |a, b| a & b)
    }
    pub fn minus(self, o: M) -> M {
        self.zip(o, |a, b| a & !b)
    }
    pub fn xor(self, o: M) -> M {
        self.zip(o, |a, b| a ^ b)
    }
    /// complement within `n` variants
    pub fn not(self, n: usize) -> M {
        M::all(n).minus(self)
    }
    pub fn len(self) -> usize {
        self.0.iter().map(|w| w.count_ones() as usize).sum()
    }
    pub fn is_empty(self) -> bool {
        self == M::EMPTY
    }
    pub fn subset(self, o: M) -> bool {
        self.minus(o).is_empty()
    }
    pub fn disjoint(self, o: M) -> bool {
        self.and(o).is_empty()
    }
    pub fn ixs(self) -> Vec<usize> {
        (0..320).filter(|i| self.has(*i)).collect()
    }
    pub fn hash64(self) -> u64 {
        self.0.iter().fold(0xcbf29ce484222325u64, |h, w| (h ^ w).wrapping_mul(0x100000001b3).rotate_left(17))
    }
}
