//! C13: only joins bounded by some member can be iterated safely.
use crate::env;
use crate::nd::Nd;
use goggles::entity::Allocator;
use goggles::hibitset::{AtomicBitSet, BitSet, BitSetAll, BitSetAnd, BitSetLike, BitSetNot, BitSetOr, BitSetXor};
use goggles::rayon::iter::ParallelIterator;
use goggles::join::BitSetConstrained;
use goggles::{join, par_join, DenseVecStorage, Flagged, HashMapStorage, Index, IntoJoin, IntoJoinExt, Join, MaskedStorage, ParJoinExt, RawStorage, VecStorage};

/// A bit set of indices below 4 that calls itself constrained or not.
#[derive(Clone, Copy)]
pub struct Leaf {
    m: u8,
    c: bool,
}
impl BitSetLike for Leaf {
    #[cfg(overlay)]
    fn members(&self) -> goggles::hibitset::Mask {
        self.m as _
    }
    fn layer3(&self) -> usize {
        (self.m != 0) as usize
    }
    fn layer2(&self, i: usize) -> usize {
        (self.m != 0 && i == 0) as usize
    }
    fn layer1(&self, i: usize) -> usize {
        (self.m != 0 && i == 0) as usize
    }
    fn layer0(&self, i: usize) -> usize {
        if i == 0 { self.m as usize } else { 0 }
    }
    fn contains(&self, i: Index) -> bool {
        i < 8 && self.m & 1 << i != 0
    }
}
impl BitSetConstrained for Leaf {
    fn is_constrained(&self) -> bool {
        self.c
    }
}
impl Join for Leaf {
    type Item = Index;
    type Access = ();
    type Mask = Leaf;
    fn open(self) -> (Leaf, ()) {
        (self, ())
    }
    unsafe fn get(_: &(), i: Index) -> Index {
        i
    }
}
fn leaf(nd: &mut Nd) -> Leaf {
    Leaf { m: nd.below(16), c: nd.bool() }
}

/// Every checked constructor agrees with `want`.
fn decide<J: IntoJoin>(j: impl Fn() -> J, want: bool)
where
    <J::IntoJoin as Join>::Mask: BitSetConstrained,
{
    prop!(j().into_join().open().0.is_constrained() == want, "a mask is constrained exactly by the documented rules");
    prop!(join::JoinIter::new(j().into_join()).is_ok() == want, "JoinIter::new refuses exactly the unconstrained joins");
    prop!(par_join::JoinParIter::new(j().into_join()).is_ok() == want, "JoinParIter::new refuses exactly the unconstrained joins");
    prop!(join::JoinParIter::new(j().into_join()).is_ok() == want, "the other JoinParIter::new refuses exactly the unconstrained joins");
}
fn accepted<M: BitSetConstrained>(m: M) {
    prop!(m.is_constrained(), "an ordinary member is constrained");
}

/// The rules, for arbitrary operands: nested expressions follow by induction.
fn ops(nd: &mut Nd) {
    let (a, b) = (leaf(nd), leaf(nd));
    let (pa, pb) = (&a, &b);
    match nd.below(8) {
        0 => decide(|| a, a.c),
        1 => decide(|| BitSetNot(a), !a.c),
        2 => decide(|| BitSetAnd(a, b), a.c || b.c),
        3 => decide(|| BitSetOr(a, b), a.c && b.c),
        4 => decide(|| BitSetXor(a, b), a.c && b.c),
        5 => decide(|| &BitSetAll, false),
        6 => {
            let x = BitSetAnd(pa, pb);
            decide(|| &x, a.c || b.c)
        }
        _ => {
            let x = BitSetNot(pa);
            decide(|| &x, !a.c)
        }
    }
    prop!((&BitSetXor(pa, pb)).is_constrained() == (a.c && b.c), "references do not change anything");
    prop!((&BitSetOr(pa, pb)).is_constrained() == (a.c && b.c), "references do not change anything");
    prop!((&&a).is_constrained() == a.c, "references do not change anything");
    prop!(BitSetNot(BitSetAll).is_constrained(), "the empty set is constrained");
}

/// Tuples: constrained exactly if some member is; optional members never constrain.
fn tuples(nd: &mut Nd) {
    let (a, b, c) = (leaf(nd), leaf(nd), leaf(nd));
    match nd.below(7) {
        0 => decide(|| (a,), a.c),
        1 => decide(|| (a, b), a.c || b.c),
        2 => decide(|| (a, b, c), a.c || b.c || c.c),
        3 => decide(|| (a, &BitSetAll, BitSetNot(b)), a.c || !b.c),
        4 => decide(|| ((a, b), c), a.c || b.c || c.c),
        5 => decide(|| (BitSetNot(a), BitSetNot(b)), !a.c || !b.c),
        _ => decide(|| (a, b, c, a, b), a.c || b.c || c.c),
    }
}

fn optional(nd: &mut Nd) {
    let (a, b) = (leaf(nd), leaf(nd));
    prop!(join::JoinIter::new(a.maybe()).is_err(), "an optional member alone is refused");
    prop!(par_join::JoinParIter::new(a.maybe()).is_err(), "an optional member alone is refused in parallel");
    prop!(join::JoinIter::new((a.maybe(), b.maybe()).into_join()).is_err(), "optional members alone are refused");
    prop!(par_join::JoinParIter::new((a.maybe(), b.maybe()).into_join()).is_err(), "optional members alone are refused in parallel");
    prop!(join::JoinIter::new((a, b.maybe()).into_join()).is_ok() == a.c, "an optional member does not constrain");
    prop!(join::JoinIter::new((a.maybe(), b).into_join()).is_ok() == b.c, "an optional member does not constrain");
    prop!(par_join::JoinParIter::new((a.maybe(), b).into_join()).is_ok() == b.c, "an optional member does not constrain in parallel");
    prop!(join::JoinIter::new((a.maybe(), BitSetNot(b)).into_join()).is_ok() != b.c, "optional and negated members");
}

/// Everything that joins in the crate is accepted, empty or not, and its negation refused.
fn ordinary(nd: &mut Nd) {
    fn st<S: RawStorage<Item = u8> + Default>(nd: &mut Nd) -> MaskedStorage<S> {
        let mut s = MaskedStorage::<S>::default();
        if nd.bool() {
            s.insert(1, 7);
        }
        s
    }
    env::iter_max(3);
    let mut v = st::<VecStorage<u8>>(nd);
    let h = st::<HashMapStorage<u8>>(nd);
    let mut f = st::<Flagged<VecStorage<u8>>>(nd);
    f.set_track_modified(true);
    let mut al = Allocator::new();
    if nd.bool() {
        al.allocate();
    }
    prop!(join::JoinIter::new(&v).is_ok(), "a storage is an ordinary member");
    prop!(join::JoinIter::new(&mut v).is_ok(), "a mutable storage is an ordinary member");
    prop!(par_join::JoinParIter::new(&v).is_ok(), "a storage is an ordinary member in parallel");
    prop!(join::JoinIter::new(v.guard()).is_ok(), "a guarded storage is an ordinary member");
    prop!(join::JoinIter::new(f.modified()).is_ok(), "the modified indices are an ordinary member");
    prop!(join::JoinIter::new(f.modified_mut()).is_ok(), "the modified indices are an ordinary member");
    prop!(join::JoinIter::new(&al).is_ok(), "the entities are an ordinary member");
    prop!(par_join::JoinParIter::new(&al).is_ok(), "the entities are an ordinary member in parallel");
    prop!(join::JoinIter::new((&h, (&v).maybe(), BitSetNot(v.mask())).into_join()).is_ok(), "an ordinary member is enough");
    prop!(join::JoinIter::new(((&v).maybe(), BitSetNot(h.mask())).into_join()).is_err(), "optional and negated members are refused");
    prop!(join::JoinIter::new(BitSetNot(al.live_bitset())).is_err(), "negated members are refused");
    accepted(&BitSet::new());
    accepted(AtomicBitSet::new());
    accepted(al.live_bitset());
}

/// The panicking front ends let exactly the constrained joins through.
fn front(nd: &mut Nd) {
    env::iter_max(4);
    env::choices(nd);
    let a = leaf(nd);
    let mut n = 0;
    for i in (a,).join() {
        prop!(a.contains(i.0), "only members are visited");
        n += 1;
    }
    prop!(a.c, "join panics on an unconstrained join");
    prop!(n == a.m.count_ones(), "every member is visited");
}
fn par_front(nd: &mut Nd) {
    env::iter_max(4);
    env::choices(nd);
    let a = leaf(nd);
    let it = (a,).par_join();
    prop!(a.c, "par_join panics on an unconstrained join");
    drop(it);
}
/// ... and constrained ones do get through.
fn front_ok(nd: &mut Nd) {
    env::iter_max(4);
    env::choices(nd);
    let mut a = leaf(nd);
    a.c = true;
    let mut n = 0;
    for _ in (a, BitSetNot(Leaf { m: 0, c: true })).join() {
        n += 1;
    }
    prop!(n == a.m.count_ones(), "every member is visited");
    let s = ::std::sync::atomic::AtomicUsize::new(0);
    (a,).par_join().for_each(|_| {
        s.fetch_add(1, ::std::sync::atomic::Ordering::Relaxed);
    });
    prop!(s.into_inner() as u32 == n, "every member is visited in parallel");
}
fn unconstrained(nd: &mut Nd) {
    env::iter_max(4);
    let a = leaf(nd);
    let mut n = 0;
    for i in a.join_unconstrained() {
        prop!(a.contains(i), "only members are visited");
        n += 1;
    }
    prop!(n == a.m.count_ones(), "every member is visited");
}

harnesses! {
    c13_ops [6] => ops;
    c13_tuples [6] => tuples;
    c13_optional [6] => optional;
    c13_ordinary [6] => ordinary;
    c13_front [6] => front;
    c13_front_ok [6] => front_ok;
    c13_par_front [6] => par_front;
    c13_unconstrained [6] => unconstrained;
}
