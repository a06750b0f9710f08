//! C11: a join visits exactly the common indices, in order, once.
use crate::env;
use crate::nd::Nd;
use crate::st::ids;
use goggles::entity::{Allocator, Entity};
use goggles::hibitset::{AtomicBitSet, BitSet, BitSetAll, BitSetAnd, BitSetNot, BitSetOr, BitSetXor};
use goggles::{DenseVecStorage, Flagged, HashMapStorage, IntoJoin, IntoJoinExt, Join, JoinIter, MaskedStorage, RawStorage, VecStorage};

/// A storage with arbitrary members; the value at ids[k] is arbitrary.
pub fn storage<S: RawStorage<Item = u8> + Default>(nd: &mut Nd, ids: &[u32; 3], v: &mut [Option<u8>; 3]) -> MaskedStorage<S> {
    let mut s = MaskedStorage::<S>::default();
    let mut k = 0;
    while k < 3 {
        if nd.bool() {
            let x = nd.u8();
            s.insert(ids[k], x);
            v[k] = Some(x);
        }
        k += 1;
    }
    s
}
pub fn bits(nd: &mut Nd, ids: &[u32; 3], m: &mut [bool; 3]) -> BitSet {
    let mut b = BitSet::new();
    let mut k = 0;
    while k < 3 {
        if nd.bool() {
            b.add(ids[k]);
            m[k] = true;
        }
        k += 1;
    }
    b
}
fn abits(nd: &mut Nd, ids: &[u32; 3], m: &mut [bool; 3]) -> AtomicBitSet {
    let mut b = AtomicBitSet::new();
    let mut k = 0;
    while k < 3 {
        if nd.bool() {
            b.add(ids[k]);
            m[k] = true;
        }
        k += 1;
    }
    b
}

/// Compares an iterator with the expected items, index by index.
fn expect<T>(mut it: impl Iterator<Item = T>, want: [bool; 3], mut same: impl FnMut(usize, T) -> bool) {
    let mut k = 0;
    while k < 3 {
        if want[k] {
            match it.next() {
                Some(x) => prop!(same(k, x), "a join yields the items of the next common index"),
                None => prop!(false, "a join yields every common index"),
            }
        }
        k += 1;
    }
    prop!(it.next().is_none(), "a join yields nothing but the common indices, once");
}

type VS = VecStorage<u8>;

/// Two storages (one mutable) and a bit set.
fn three<A: RawStorage<Item = u8> + Default, B: RawStorage<Item = u8> + Default>(nd: &mut Nd) {
    let ids = ids(nd);
    let (mut a, mut b, mut m) = ([None; 3], [None; 3], [false; 3]);
    let sa = storage::<A>(nd, &ids, &mut a);
    let mut sb = storage::<B>(nd, &ids, &mut b);
    let bs = bits(nd, &ids, &mut m);
    let mut want = [false; 3];
    let mut k = 0;
    while k < 3 {
        want[k] = a[k].is_some() && b[k].is_some() && m[k];
        k += 1;
    }
    expect((&sa, &mut sb, &bs).join(), want, |k, (x, y, i)| {
        let ok = Some(*x) == a[k] && Some(*y) == b[k] && i == ids[k];
        *y = y.wrapping_add(1);
        ok
    });
    let mut k = 0;
    while k < 3 {
        let now = if want[k] { b[k].map(|v| v.wrapping_add(1)) } else { b[k] };
        prop!(sb.get(ids[k]).copied() == now, "a mutable join gives access to the component of the index");
        k += 1;
    }
}

/// Optional and negated members, and one alone.
fn optional(nd: &mut Nd) {
    let ids = ids(nd);
    let (mut a, mut b, mut m, mut n) = ([None; 3], [None; 3], [false; 3], [false; 3]);
    let mut sa = storage::<VS>(nd, &ids, &mut a);
    let mut sb = storage::<VS>(nd, &ids, &mut b);
    let bs = bits(nd, &ids, &mut m);
    let ns = bits(nd, &ids, &mut n);
    let mut want = [false; 3];
    let mut k = 0;
    while k < 3 {
        want[k] = m[k] && !n[k];
        k += 1;
    }
    expect(((&sa).maybe(), &bs, (&mut sb).maybe(), !&ns).join(), want, |k, (x, i, y, j)| {
        x.copied() == a[k] && y.map(|y| *y) == b[k] && i == ids[k] && j == ids[k]
    });
    expect((&sa).join(), [a[0].is_some(), a[1].is_some(), a[2].is_some()], |k, x| Some(*x) == a[k]);
    expect((&mut sa,).join(), [a[0].is_some(), a[1].is_some(), a[2].is_some()], |k, (x,)| Some(*x) == a[k]);
}

/// Optional members of composite joins, nested tuples, guards.
fn nested(nd: &mut Nd) {
    let ids = ids(nd);
    let (mut a, mut b, mut m) = ([None; 3], [None; 3], [false; 3]);
    let sa = storage::<VS>(nd, &ids, &mut a);
    let mut sb = storage::<VS>(nd, &ids, &mut b);
    let bs = bits(nd, &ids, &mut m);
    expect(((&sa, &sb).maybe(), &bs).join(), m, |k, (x, i)| {
        i == ids[k]
            && match (x, a[k], b[k]) {
                (Some((p, q)), Some(r), Some(s)) => *p == r && *q == s,
                (None, r, s) => r.is_none() || s.is_none(),
                _ => false,
            }
    });
    let mut want = [false; 3];
    let mut k = 0;
    while k < 3 {
        want[k] = m[k] && a[k].is_some() && b[k].is_some();
        k += 1;
    }
    expect((((&sa, &bs), sb.guard())).join(), want, |k, ((x, i), g)| i == ids[k] && Some(*x) == a[k] && Some(*g.get()) == b[k]);
}

/// The modified indices as a member, whether their components are still there or not.
fn modified(nd: &mut Nd) {
    let ids = ids(nd);
    let (mut a, mut m, mut t) = ([None; 3], [false; 3], [false; 3]);
    let mut sa = storage::<Flagged<VS>>(nd, &ids, &mut a);
    let bs = bits(nd, &ids, &mut m);
    let mut want = [false; 3];
    let mut k = 0;
    while k < 3 {
        if nd.bool() {
            sa.mark_modified(ids[k]);
            t[k] = true;
        }
        want[k] = m[k] && t[k];
        k += 1;
    }
    expect((&bs, sa.modified()).join(), want, |k, (i, x)| i == ids[k] && x.copied() == a[k]);
    expect((&bs, sa.modified_mut()).join(), want, |k, (i, x)| {
        i == ids[k]
            && match (x, a[k]) {
                (Some(x), Some(v)) => {
                    let ok = *x == v;
                    *x = v.wrapping_add(1);
                    a[k] = Some(*x);
                    ok
                }
                (None, None) => true,
                _ => false,
            }
    });
    let mut k = 0;
    while k < 3 {
        prop!(sa.get(ids[k]).copied() == a[k], "a mutable join gives access to the component of the index");
        k += 1;
    }
}

/// Every kind of bit set as a member.
fn sets(nd: &mut Nd) {
    let ids = ids(nd);
    let (mut a, mut b, mut c) = ([false; 3], [false; 3], [false; 3]);
    let x = bits(nd, &ids, &mut a);
    let y = abits(nd, &ids, &mut b);
    let z = bits(nd, &ids, &mut c);
    let f = |g: &dyn Fn(usize) -> bool| [g(0), g(1), g(2)];
    expect((&x, &y).join(), f(&|k| a[k] && b[k]), |k, (i, j)| i == ids[k] && j == ids[k]);
    expect((BitSetOr(&x, &y), &z).join(), f(&|k| (a[k] || b[k]) && c[k]), |k, (i, j)| i == ids[k] && j == ids[k]);
    expect(BitSetXor(&x, &y).join(), f(&|k| a[k] != b[k]), |k, i| i == ids[k]);
    expect(BitSetAnd(&x, BitSetNot(&y)).join(), f(&|k| a[k] && !b[k]), |k, i| i == ids[k]);
    expect((&z, BitSetAll, &x).join(), f(&|k| a[k] && c[k]), |k, (i, j, l)| i == ids[k] && j == ids[k] && l == ids[k]);
    expect((&z).join_unconstrained(), c, |k, i| i == ids[k]);
}

/// Entities as a member.
fn entities(nd: &mut Nd) {
    env::iter_max(3);
    let mut al = Allocator::new();
    let e = [al.allocate(), al.allocate_atomic(), al.allocate()];
    let mut alive = [true; 3];
    let k = nd.below(3) as usize;
    if nd.bool() {
        al.kill(e[k]).ok();
        alive[k] = false;
    } else {
        al.kill_atomic(e[k]).ok();
        if nd.bool() {
            al.merge_atomic(&mut Vec::new());
            alive[k] = false;
        }
    }
    let ids = [0, 1, 2];
    let (mut a, mut m) = ([None; 3], [false; 3]);
    let sa = storage::<VS>(nd, &ids, &mut a);
    let mut want = [false; 3];
    let mut k = 0;
    while k < 3 {
        want[k] = alive[k] && a[k].is_some();
        k += 1;
    }
    expect((&al, &sa).join(), want, |k, (x, y)| x == e[k] && Some(*y) == a[k]);
    expect((&sa, &al).join(), want, |k, (y, x)| x == e[k] && Some(*y) == a[k]);
}

/// Wide tuples: every member restricts the result, whatever its position.
macro_rules! wide {
    ($name:ident, $n:literal, $($i:literal)*) => {
        fn $name(nd: &mut Nd) {
            let ids = ids(nd);
            let mut all = BitSet::new();
            all.add(ids[0]);
            all.add(ids[1]);
            all.add(ids[2]);
            let mut m = [false; 3];
            let one = bits(nd, &ids, &mut m);
            let p = nd.below($n);
            let pick = |i: u8| if i == p { &one } else { &all };
            expect(($(pick($i),)*).join(), m, |k, t| same(t, ids[k]));
        }
    };
}
trait AllEq {
    fn all_eq(self, i: u32) -> bool;
}
fn same(t: impl AllEq, i: u32) -> bool {
    t.all_eq(i)
}
macro_rules! all_eq {
    ($($t:ident)*) => {
        #[allow(non_camel_case_types)]
        impl AllEq for ($(all_eq!(@ $t),)*) {
            fn all_eq(self, i: u32) -> bool {
                let ($($t,)*) = self;
                true $(&& $t == i)*
            }
        }
    };
    (@ $t:ident) => { u32 };
}
all_eq!(a b c d e);
all_eq!(a b c d e f g h);
all_eq!(a b c d e f g h i1 j k l m n o p);
all_eq!(a b c d e f g h i1 j k l m n o p q r s t u v w x y z);
wide!(wide5, 5, 0 1 2 3 4);
wide!(wide8, 8, 0 1 2 3 4 5 6 7);
wide!(wide16, 16, 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15);
wide!(wide26, 26, 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25);

/// Views of a world as members.
fn world(nd: &mut Nd) {
    use crate::wld::{A, B};
    use goggles::world_common::ComponentStorage;
    env::iter_max(3);
    place!(ComponentStorage<A>);
    place!(ComponentStorage<B>);
    let mut w = goggles::World::new();
    w.insert_component::<A>();
    w.insert_component::<B>();
    let e = [w.create_entity(), w.entities().create(), w.entities().create()];
    let (mut a, mut b, mut alive) = ([None; 3], [None; 3], [true; 3]);
    let mut k = 0;
    while k < 3 {
        if nd.bool() {
            let x = nd.u8();
            w.get_component_mut::<A>().insert(e[k], A(x)).ok();
            a[k] = Some(x);
        }
        if nd.bool() {
            let x = nd.u8();
            w.write_component::<B>().insert(e[k], B(x)).ok();
            b[k] = Some(x);
        }
        k += 1;
    }
    let k = nd.below(3) as usize;
    if nd.bool() {
        w.delete_entity(e[k]).ok();
        alive[k] = false;
        a[k] = None;
        b[k] = None;
    }
    let f = |g: &dyn Fn(usize) -> bool| [g(0), g(1), g(2)];
    {
        let (ca, mut cb) = (w.read_component::<A>(), w.write_component::<B>());
        let es = w.entities();
        expect((&ca, &mut cb, &es).join(), f(&|k| a[k].is_some() && b[k].is_some()), |k, (x, y, z)| {
            let ok = Some(x.0) == a[k] && Some(y.0) == b[k] && z == e[k];
            y.0 = y.0.wrapping_add(1);
            ok
        });
        let mut k = 0;
        while k < 3 {
            let now = if a[k].is_some() { b[k].map(|v| v.wrapping_add(1)) } else { b[k] };
            prop!(cb.get(e[k]).map(|x| x.0) == now, "a mutable join gives access to the component of the index");
            b[k] = now;
            k += 1;
        }
        expect((&es, (&ca).maybe(), !cb.mask()).join(), f(&|k| alive[k] && b[k].is_none()), |k, (z, x, i)| z == e[k] && x.map(|x| x.0) == a[k] && i == e[k].index());
        expect((ca.mask(), cb.guard()).join(), f(&|k| a[k].is_some() && b[k].is_some()), |k, (i, g)| i == e[k].index() && Some(g.get().0) == b[k]);
    }
    ::std::mem::forget(w);
}

harnesses! {
    c11_vec_dense [7] => |nd: &mut Nd| three::<VecStorage<u8>, DenseVecStorage<u8>>(nd);
    c11_hash_vec [7] => |nd: &mut Nd| three::<HashMapStorage<u8>, VecStorage<u8>>(nd);
    c11_dense_flag [7] => |nd: &mut Nd| three::<VecStorage<u8>, Flagged<VecStorage<u8>>>(nd);
    c11_optional [7] => optional;
    c11_nested [7] => nested;
    c11_modified [7] => modified;
    c11_sets [7] => sets;
    c11_entities [7] => entities;
    c11_wide5 [7] => wide5;
    c11_wide8 [7] => wide8;
    c11_wide16 [7] => wide16;
    c11_wide26 [7] => wide26;
    c11_world [7] => world;
}
