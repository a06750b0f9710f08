//! Model of `hibitset`: a set of indices is a bit mask over the finite index universe of
//! `vstd_model::far` (near indices, up to three arbitrary far indices, and one bit standing for
//! every other index, which only complements can contain).
//!
//! Kept from the real crate: which calls panic for out-of-range indices, ascending iteration, the
//! snapshot of iteration, what `add`/`remove` return, and that a split producer yields two
//! non-empty disjoint halves (lower / upper) of what is left.
#![allow(clippy::all)]
use std::cell::UnsafeCell;
use std::fmt;
use std::ops::{BitAnd, BitAndAssign, BitOr, BitOrAssign, BitXor, BitXorAssign, Not};
use vstd_model::bound::bound;
use vstd_model::far::{self, LIMIT, NEAR, NFAR};
use vstd_model::sync::atomic::{sched, Cell};

#[cfg(feature = "parallel")]
mod parallel;
#[cfg(feature = "parallel")]
pub use parallel::{BitParIter, BitProducer};

type Index = u32;
pub type Mask = u16;
const REST: usize = NEAR + NFAR;
const ALL: Mask = (1 << (REST + 1)) - 1;
const _: () = assert!(REST <= 11);

static mut ITER_MAX: usize = REST + 1;
/// Harness bound: no iteration of the execution yields more than `n` indices.
pub fn set_iter_max(n: usize) { unsafe { ITER_MAX = n } }

#[inline]
fn pos(i: Index) -> usize {
    if (i as usize) < NEAR {
        i as usize
    } else {
        NEAR + far::slot(i as usize)
    }
}
#[inline]
fn bit(i: Index) -> Mask { 1 << pos(i) }
#[inline]
fn tracked_bit(i: Index) -> Mask {
    let p = pos(i);
    bound(p < REST);
    1 << p
}

#[derive(Clone, Default)]
pub struct BitSet { m: Mask }

impl BitSet {
    pub const BITS_PER_USIZE: usize = 64;
    pub fn new() -> BitSet { BitSet { m: 0 } }
    pub fn with_capacity(max: Index) -> BitSet {
        assert!(max <= LIMIT, "Expected index to be less then MAX_EID");
        BitSet { m: 0 }
    }
    #[inline]
    pub fn add(&mut self, id: Index) -> bool {
        assert!(id <= LIMIT, "Expected index to be less then MAX_EID");
        let b = tracked_bit(id);
        let was = self.m & b != 0;
        self.m |= b;
        was
    }
    #[inline]
    pub fn remove(&mut self, id: Index) -> bool {
        if id >= LIMIT { return false; }
        let b = bit(id);
        let was = self.m & b != 0;
        self.m &= !b;
        was
    }
    #[inline]
    pub fn contains(&self, id: Index) -> bool { id < LIMIT && self.m & bit(id) != 0 }
    pub fn contains_set(&self, other: &BitSet) -> bool { other.m & !self.m == 0 }
    pub fn clear(&mut self) { self.m = 0 }
}
impl fmt::Debug for BitSet { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("BitSet") } }
impl PartialEq for BitSet { fn eq(&self, o: &BitSet) -> bool { self.m == o.m } }
impl Eq for BitSet {}

pub struct AtomicBitSet { m: UnsafeCell<Cell<Mask>> }
unsafe impl Send for AtomicBitSet {}
unsafe impl Sync for AtomicBitSet {}
impl Default for AtomicBitSet { fn default() -> Self { AtomicBitSet { m: UnsafeCell::new(Cell::new(0)) } } }
impl fmt::Debug for AtomicBitSet { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("AtomicBitSet") } }
#[inline]
fn check(id: Index) { assert!(id < LIMIT, "index out of bounds"); }
impl AtomicBitSet {
    pub fn new() -> AtomicBitSet { Default::default() }
    #[inline]
    fn cell(&self) -> &mut Mask {
        unsafe { (*self.m.get()).current(|g| g & (ALL >> 1)) }
    }
    #[inline]
    pub fn add_atomic(&self, id: Index) -> bool {
        check(id);
        let b = tracked_bit(id);
        sched::point();
        let c = self.cell();
        let was = *c & b != 0;
        *c |= b;
        was
    }
    #[inline]
    pub fn add(&mut self, id: Index) -> bool {
        check(id);
        let b = tracked_bit(id);
        let c = self.cell();
        let was = *c & b != 0;
        *c |= b;
        was
    }
    #[inline]
    pub fn remove(&mut self, id: Index) -> bool {
        check(id);
        let b = bit(id);
        let c = self.cell();
        let was = *c & b != 0;
        *c &= !b;
        was
    }
    #[inline]
    pub fn contains(&self, id: Index) -> bool {
        check(id);
        sched::point();
        *self.cell() & bit(id) != 0
    }
    pub fn clear(&mut self) { *self.cell() = 0 }
}

/// Word `idx` of layer `level` of a set in which every word of a layer summarises exactly the
/// words below it (`BitSet` and `AtomicBitSet`).
fn layer(m: Mask, level: u32, idx: usize) -> usize {
    let at = |p: usize| {
        if p >= REST || m & (1 << p) == 0 { return 0 }
        let i = if p < NEAR { p } else { far::at(p - NEAR) as usize };
        if i >> (6 * level + 6) == idx { 1usize << ((i >> (6 * level)) & 63) } else { 0 }
    };
    // (written out: no loop, no unwinding bound)
    at(0) | at(1) | at(2) | at(3) | at(4) | at(5) | at(6) | at(7) | at(8) | at(9) | at(10)
}

pub trait BitSetLike {
    /// Not in the real trait; this default is for sets implemented elsewhere.
    #[doc(hidden)]
    fn members(&self) -> Mask {
        let reaches = |i: usize| self.layer3() >> (i >> 18) & 1 != 0 && self.layer2(i >> 18) >> (i >> 12 & 63) & 1 != 0
            && self.layer1(i >> 12) >> (i >> 6 & 63) & 1 != 0 && self.layer0(i >> 6) >> (i & 63) & 1 != 0;
        let at = |p: usize| -> Mask {
            let i = if p >= REST { return 0 } else if p < NEAR { p } else if far::on() { far::at(p - NEAR) as usize } else { return 0 };
            if reaches(i) { 1 << p } else { 0 }
        };
        let rest = if self.layer3() == !0 { 1 << REST } else { 0 };
        at(0) | at(1) | at(2) | at(3) | at(4) | at(5) | at(6) | at(7) | at(8) | at(9) | at(10) | rest
    }
    fn get_from_layer(&self, layer: usize, idx: usize) -> usize {
        match layer {
            0 => self.layer0(idx),
            1 => self.layer1(idx),
            2 => self.layer2(idx),
            3 => self.layer3(),
            _ => panic!("Invalid layer: {}", layer),
        }
    }
    fn is_empty(&self) -> bool { self.layer3() == 0 }
    fn layer3(&self) -> usize;
    fn layer2(&self, i: usize) -> usize;
    fn layer1(&self, i: usize) -> usize;
    fn layer0(&self, i: usize) -> usize;
    fn contains(&self, i: Index) -> bool;
    fn iter(self) -> BitIter<Self> where Self: Sized {
        let left = self.members();
        BitIter { set: self, left, n: 0 }
    }
    #[cfg(feature = "parallel")]
    fn par_iter(self) -> BitParIter<Self> where Self: Sized { BitParIter::new(self) }
}
pub trait DrainableBitSet: BitSetLike {
    fn remove(&mut self, i: Index) -> bool;
    fn drain<'a>(&'a mut self) -> DrainBitIter<'a, Self> where Self: Sized {
        let left = self.members();
        DrainBitIter { iter: BitIter { set: self, left, n: 0 } }
    }
}
impl<'a, T: BitSetLike + ?Sized> BitSetLike for &'a T {
    #[inline]
    fn members(&self) -> Mask { (**self).members() }
    #[inline]
    fn is_empty(&self) -> bool { (**self).is_empty() }
    fn layer3(&self) -> usize { (**self).layer3() }
    fn layer2(&self, i: usize) -> usize { (**self).layer2(i) }
    fn layer1(&self, i: usize) -> usize { (**self).layer1(i) }
    fn layer0(&self, i: usize) -> usize { (**self).layer0(i) }
    #[inline]
    fn contains(&self, i: Index) -> bool { (**self).contains(i) }
}
impl<'a, T: BitSetLike + ?Sized> BitSetLike for &'a mut T {
    #[inline]
    fn members(&self) -> Mask { (**self).members() }
    #[inline]
    fn is_empty(&self) -> bool { (**self).is_empty() }
    fn layer3(&self) -> usize { (**self).layer3() }
    fn layer2(&self, i: usize) -> usize { (**self).layer2(i) }
    fn layer1(&self, i: usize) -> usize { (**self).layer1(i) }
    fn layer0(&self, i: usize) -> usize { (**self).layer0(i) }
    #[inline]
    fn contains(&self, i: Index) -> bool { (**self).contains(i) }
}
impl<'a, T: DrainableBitSet> DrainableBitSet for &'a mut T {
    fn remove(&mut self, i: Index) -> bool { (**self).remove(i) }
}
impl BitSetLike for BitSet {
    #[inline]
    fn members(&self) -> Mask { self.m }
    #[inline]
    fn is_empty(&self) -> bool { self.members() == 0 }
    fn layer3(&self) -> usize { layer(self.members(), 3, 0) }
    fn layer2(&self, i: usize) -> usize { layer(self.members(), 2, i) }
    fn layer1(&self, i: usize) -> usize { layer(self.members(), 1, i) }
    fn layer0(&self, i: usize) -> usize { layer(self.members(), 0, i) }
    #[inline]
    fn contains(&self, i: Index) -> bool { self.contains(i) }
}
impl DrainableBitSet for BitSet { fn remove(&mut self, i: Index) -> bool { self.remove(i) } }
impl BitSetLike for AtomicBitSet {
    #[inline]
    fn members(&self) -> Mask {
        sched::point();
        *self.cell()
    }
    #[inline]
    fn is_empty(&self) -> bool { self.members() == 0 }
    fn layer3(&self) -> usize { layer(self.members(), 3, 0) }
    fn layer2(&self, i: usize) -> usize { layer(self.members(), 2, i) }
    fn layer1(&self, i: usize) -> usize { layer(self.members(), 1, i) }
    fn layer0(&self, i: usize) -> usize { layer(self.members(), 0, i) }
    #[inline]
    fn contains(&self, i: Index) -> bool { self.contains(i) }
}
impl DrainableBitSet for AtomicBitSet { fn remove(&mut self, i: Index) -> bool { self.remove(i) } }

#[derive(Debug, Clone)]
pub struct BitIter<T> { pub(crate) set: T, pub(crate) left: Mask, pub(crate) n: usize }
impl<T: BitSetLike> BitIter<T> {
    pub fn contains(&self, i: Index) -> bool { self.set.contains(i) }
}
impl<T: BitSetLike> Iterator for BitIter<T> {
    type Item = Index;
    #[inline]
    fn next(&mut self) -> Option<Index> {
        if self.n >= unsafe { ITER_MAX } {
            bound(self.left == 0);
            return None;
        }
        if self.left == 0 { return None; }
        self.n += 1;
        let b = self.left.trailing_zeros() as usize;
        self.left &= self.left - 1;
        if b < NEAR {
            Some(b as Index)
        } else if far::on() {
            bound(b < REST);
            Some(far::at(b - NEAR))
        } else {
            bound(false);
            None
        }
    }
}
pub struct DrainBitIter<'a, T: 'a> { iter: BitIter<&'a mut T> }
impl<'a, T: DrainableBitSet> Iterator for DrainBitIter<'a, T> {
    type Item = Index;
    fn next(&mut self) -> Option<Index> {
        let n = self.iter.next();
        if let Some(i) = n { self.iter.set.remove(i); }
        n
    }
}

#[derive(Debug, Clone)]
pub struct BitSetAnd<A: BitSetLike, B: BitSetLike>(pub A, pub B);
impl<A: BitSetLike, B: BitSetLike> BitSetLike for BitSetAnd<A, B> {
    fn members(&self) -> Mask { self.0.members() & self.1.members() }
    fn layer3(&self) -> usize { self.0.layer3() & self.1.layer3() }
    fn layer2(&self, i: usize) -> usize { self.0.layer2(i) & self.1.layer2(i) }
    fn layer1(&self, i: usize) -> usize { self.0.layer1(i) & self.1.layer1(i) }
    fn layer0(&self, i: usize) -> usize { self.0.layer0(i) & self.1.layer0(i) }
    fn contains(&self, i: Index) -> bool { self.0.contains(i) && self.1.contains(i) }
}
impl<A: DrainableBitSet, B: DrainableBitSet> DrainableBitSet for BitSetAnd<A, B> {
    fn remove(&mut self, i: Index) -> bool {
        if self.contains(i) { self.0.remove(i); self.1.remove(i); true } else { false }
    }
}
#[derive(Debug, Clone)]
pub struct BitSetOr<A: BitSetLike, B: BitSetLike>(pub A, pub B);
impl<A: BitSetLike, B: BitSetLike> BitSetLike for BitSetOr<A, B> {
    fn members(&self) -> Mask { self.0.members() | self.1.members() }
    #[inline]
    fn is_empty(&self) -> bool { self.0.is_empty() & self.1.is_empty() }
    fn layer3(&self) -> usize { self.0.layer3() | self.1.layer3() }
    fn layer2(&self, i: usize) -> usize { self.0.layer2(i) | self.1.layer2(i) }
    fn layer1(&self, i: usize) -> usize { self.0.layer1(i) | self.1.layer1(i) }
    fn layer0(&self, i: usize) -> usize { self.0.layer0(i) | self.1.layer0(i) }
    fn contains(&self, i: Index) -> bool { self.0.contains(i) || self.1.contains(i) }
}
impl<A: DrainableBitSet, B: DrainableBitSet> DrainableBitSet for BitSetOr<A, B> {
    fn remove(&mut self, i: Index) -> bool {
        if self.contains(i) { self.0.remove(i); self.1.remove(i); true } else { false }
    }
}
#[derive(Debug, Clone)]
pub struct BitSetNot<A: BitSetLike>(pub A);
impl<A: BitSetLike> BitSetLike for BitSetNot<A> {
    fn members(&self) -> Mask { !self.0.members() & ALL }
    fn contains(&self, i: Index) -> bool { !self.0.contains(i) }
    fn is_empty(&self) -> bool { false }
    fn layer3(&self) -> usize { !0 }
    fn layer2(&self, _: usize) -> usize { !0 }
    fn layer1(&self, _: usize) -> usize { !0 }
    fn layer0(&self, i: usize) -> usize { !self.0.layer0(i) }
}
#[derive(Debug, Clone)]
pub struct BitSetXor<A: BitSetLike, B: BitSetLike>(pub A, pub B);
impl<A: BitSetLike, B: BitSetLike> BitSetLike for BitSetXor<A, B> {
    fn members(&self) -> Mask { self.0.members() ^ self.1.members() }
    fn layer3(&self) -> usize { self.0.layer3() | self.1.layer3() }
    fn layer2(&self, i: usize) -> usize { self.0.layer2(i) | self.1.layer2(i) }
    fn layer1(&self, i: usize) -> usize { self.0.layer1(i) | self.1.layer1(i) }
    fn layer0(&self, i: usize) -> usize { self.0.layer0(i) ^ self.1.layer0(i) }
    fn contains(&self, i: Index) -> bool { self.0.contains(i) != self.1.contains(i) }
}
#[derive(Debug, Clone)]
pub struct BitSetAll;
impl BitSetLike for BitSetAll {
    fn members(&self) -> Mask { ALL }
    fn layer3(&self) -> usize { !0 }
    fn layer2(&self, _: usize) -> usize { !0 }
    fn layer1(&self, _: usize) -> usize { !0 }
    fn layer0(&self, _: usize) -> usize { !0 }
    fn contains(&self, _: Index) -> bool { true }
}

impl<'a, B: BitSetLike> BitOrAssign<&'a B> for BitSet {
    fn bitor_assign(&mut self, o: &B) { let m = o.members(); bound(m >> REST == 0); self.m |= m }
}
impl<'a, B: BitSetLike> BitAndAssign<&'a B> for BitSet { fn bitand_assign(&mut self, o: &B) { self.m &= o.members() } }
impl<'a, B: BitSetLike> BitXorAssign<&'a B> for BitSet {
    fn bitxor_assign(&mut self, o: &B) { let m = o.members(); bound(m >> REST == 0); self.m ^= m }
}

macro_rules! operator {
    ( impl < ( $( $lifetime:tt )* ) ( $( $arg:ident ),* ) > for $bitset:ty ) => {
        impl<$( $lifetime, )* $( $arg ),*> IntoIterator for $bitset where $( $arg: BitSetLike ),* {
            type Item = Index;
            type IntoIter = BitIter<Self>;
            fn into_iter(self) -> BitIter<Self> { BitSetLike::iter(self) }
        }
        impl<$( $lifetime, )* $( $arg ),*> Not for $bitset where $( $arg: BitSetLike ),* {
            type Output = BitSetNot<Self>;
            fn not(self) -> BitSetNot<Self> { BitSetNot(self) }
        }
        impl<$( $lifetime, )* $( $arg, )* T> BitAnd<T> for $bitset where T: BitSetLike, $( $arg: BitSetLike ),* {
            type Output = BitSetAnd<Self, T>;
            fn bitand(self, r: T) -> BitSetAnd<Self, T> { BitSetAnd(self, r) }
        }
        impl<$( $lifetime, )* $( $arg, )* T> BitOr<T> for $bitset where T: BitSetLike, $( $arg: BitSetLike ),* {
            type Output = BitSetOr<Self, T>;
            fn bitor(self, r: T) -> BitSetOr<Self, T> { BitSetOr(self, r) }
        }
        impl<$( $lifetime, )* $( $arg, )* T> BitXor<T> for $bitset where T: BitSetLike, $( $arg: BitSetLike ),* {
            type Output = BitSetXor<Self, T>;
            fn bitxor(self, r: T) -> BitSetXor<Self, T> { BitSetXor(self, r) }
        }
    }
}
operator!(impl<()()> for BitSet);
operator!(impl<('a)()> for &'a BitSet);
operator!(impl<()()> for AtomicBitSet);
operator!(impl<('a)()> for &'a AtomicBitSet);
operator!(impl<()(A)> for BitSetNot<A>);
operator!(impl<('a)(A)> for &'a BitSetNot<A>);
operator!(impl<()(A, B)> for BitSetAnd<A, B>);
operator!(impl<('a)(A, B)> for &'a BitSetAnd<A, B>);
operator!(impl<()(A, B)> for BitSetOr<A, B>);
operator!(impl<('a)(A, B)> for &'a BitSetOr<A, B>);
operator!(impl<()(A, B)> for BitSetXor<A, B>);
operator!(impl<('a)(A, B)> for &'a BitSetXor<A, B>);
operator!(impl<()()> for BitSetAll);
operator!(impl<('a)()> for &'a BitSetAll);

macro_rules! iterator { ($bitset:ident) => {
    impl FromIterator<Index> for $bitset {
        fn from_iter<T: IntoIterator<Item = Index>>(it: T) -> Self { let mut s = $bitset::new(); for i in it { s.add(i); } s }
    }
    impl<'a> FromIterator<&'a Index> for $bitset {
        fn from_iter<T: IntoIterator<Item = &'a Index>>(it: T) -> Self { let mut s = $bitset::new(); for i in it { s.add(*i); } s }
    }
    impl Extend<Index> for $bitset { fn extend<T: IntoIterator<Item = Index>>(&mut self, it: T) { for i in it { self.add(i); } } }
    impl<'a> Extend<&'a Index> for $bitset { fn extend<T: IntoIterator<Item = &'a Index>>(&mut self, it: T) { for i in it { self.add(*i); } } }
} }
iterator!(BitSet);
iterator!(AtomicBitSet);
