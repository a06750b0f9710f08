//! C12: a parallel join visits the same items as the sequential one.
use crate::c11::{bits, storage};
use crate::env;
use crate::nd::Nd;
use ::std::sync::atomic::{AtomicU32, Ordering::Relaxed};
use goggles::entity::Allocator;
use goggles::hibitset::BitSet;
use goggles::rayon::iter::ParallelIterator;
use goggles::{DenseVecStorage, HashMapStorage, IntoJoinExt, Join, JoinIter, MaskedStorage, ParJoinExt, RawStorage, VecStorage};

/// Which indices there are does not matter to how the work is split: three fixed ones, whose
/// presence in every member is arbitrary.
fn near() -> [u32; 3] {
    env::iter_max(3);
    [0, 1, 3]
}

/// How often each index was handed out; an item that belongs to none is counted in `stray`.
struct Seen {
    n: [AtomicU32; 3],
    stray: AtomicU32,
}
impl Seen {
    fn new() -> Seen {
        Seen { n: [AtomicU32::new(0), AtomicU32::new(0), AtomicU32::new(0)], stray: AtomicU32::new(0) }
    }
    fn at(&self, ids: &[u32; 3], i: u32) -> usize {
        let k = if i == ids[0] { 0 } else if i == ids[1] { 1 } else if i == ids[2] { 2 } else { 3 };
        if k < 3 {
            self.n[k].fetch_add(1, Relaxed);
        } else {
            self.stray.fetch_add(1, Relaxed);
        }
        k
    }
    fn seen(&self, k: usize) -> bool {
        self.n[k].load(Relaxed) > 0
    }
    fn check(&self, want: [bool; 3]) {
        let mut k = 0;
        while k < 3 {
            prop!(self.n[k].load(Relaxed) == want[k] as u32, "the parallel join hands out every common index exactly once");
            k += 1;
        }
        prop!(self.stray.load(Relaxed) == 0, "the parallel join hands out nothing else");
    }
}

fn pair<A: RawStorage<Item = u8> + Default + Send + Sync, B: RawStorage<Item = u8> + Default + Send + Sync>(nd: &mut Nd) {
    let ids = near();
    env::choices(nd);
    let (mut a, mut b, mut m) = ([None; 3], [None; 3], [false; 3]);
    let sa = storage::<A>(nd, &ids, &mut a);
    let mut sb = storage::<B>(nd, &ids, &mut b);
    let bs = bits(nd, &ids, &mut m);
    let seen = Seen::new();
    let mut want = [false; 3];
    let mut k = 0;
    while k < 3 {
        want[k] = a[k].is_some() && b[k].is_some() && m[k];
        k += 1;
    }
    (&bs, &sa, &mut sb).par_join().for_each(|(i, x, y)| {
        let k = seen.at(&ids, i);
        if k < 3 {
            prop!(Some(*x) == a[k] && Some(*y) == b[k], "the parallel join hands out the items of the index");
        }
        *y = y.wrapping_add(1);
    });
    seen.check(want);
    let mut k = 0;
    while k < 3 {
        let now = if want[k] { b[k].map(|v| v.wrapping_add(1)) } else { b[k] };
        prop!(sb.get(ids[k]).copied() == now, "the parallel join gives access to the component of the index");
        k += 1;
    }
}

fn optional(nd: &mut Nd) {
    let ids = near();
    env::choices(nd);
    let (mut a, mut m) = ([None; 3], [false; 3]);
    let sa = storage::<VecStorage<u8>>(nd, &ids, &mut a);
    let bs = bits(nd, &ids, &mut m);
    let seen = Seen::new();
    ((&sa).maybe(), &bs).par_join().for_each(|(x, i)| {
        let k = seen.at(&ids, i);
        if k < 3 {
            prop!(x.copied() == a[k], "an optional member yields its item exactly if present");
        }
    });
    seen.check(m);
    let seen = Seen::new();
    (&bs).par_join_unconstrained().for_each(|i| {
        seen.at(&ids, i);
    });
    seen.check(m);
}

fn entities(nd: &mut Nd) {
    env::iter_max(3);
    let mut al = Allocator::new();
    let e = [al.allocate(), al.allocate_atomic(), al.allocate()];
    let k = nd.below(3) as usize;
    let mut alive = [true; 3];
    if nd.bool() {
        al.kill(e[k]).ok();
        alive[k] = false;
    }
    env::choices(nd);
    let ids = [0, 1, 2];
    let seen = Seen::new();
    (&al).par_join().for_each(|x| {
        let k = seen.at(&ids, x.index());
        if k < 3 {
            prop!(x == e[k], "the parallel join hands out the alive entity of the index");
        }
    });
    seen.check(alive);
}

/// Views of a world as members.
fn world(nd: &mut Nd) {
    use crate::wld::{A, B};
    use goggles::world_common::ComponentStorage;
    env::iter_max(3);
    place!(ComponentStorage<A>);
    place!(ComponentStorage<B>);
    let mut w = goggles::World::new();
    w.insert_component::<A>();
    w.insert_component::<B>();
    let e = [w.create_entity(), w.entities().create(), w.create_entity()];
    let (mut a, mut b) = ([None; 3], [None; 3]);
    let mut k = 0;
    while k < 3 {
        if nd.bool() {
            let x = nd.u8();
            w.get_component_mut::<A>().insert(e[k], A(x)).ok();
            a[k] = Some(x);
        }
        if nd.bool() {
            let x = nd.u8();
            w.get_component_mut::<B>().insert(e[k], B(x)).ok();
            b[k] = Some(x);
        }
        k += 1;
    }
    env::choices(nd);
    let ids = [0, 1, 2];
    let seen = Seen::new();
    {
        let (ca, mut cb) = (w.read_component::<A>(), w.write_component::<B>());
        let es = w.entities();
        (&es, &ca, &mut cb).par_join().for_each(|(z, x, y)| {
            let k = seen.at(&ids, z.index());
            if k < 3 {
                prop!(z == e[k] && Some(x.0) == a[k] && Some(y.0) == b[k], "the parallel join hands out the items of the index");
            }
        });
        seen.check([a[0].is_some() && b[0].is_some(), a[1].is_some() && b[1].is_some(), a[2].is_some() && b[2].is_some()]);
    }
    ::std::mem::forget(w);
}

/// Guards and modified indices as members.
fn guards(nd: &mut Nd) {
    use goggles::Flagged;
    let ids = near();
    env::choices(nd);
    let (mut a, mut m) = ([None; 3], [false; 3]);
    let mut sa = storage::<Flagged<VecStorage<u8>>>(nd, &ids, &mut a);
    let k = nd.below(3) as usize;
    sa.mark_modified(ids[k]);
    m[k] = true;
    let seen = Seen::new();
    sa.guard().par_join().for_each(|g| {
        let k = if a[0].is_some() && !seen.seen(0) { 0 } else if a[1].is_some() && !seen.seen(1) { 1 } else { 2 };
        let _ = g.get();
        seen.n[k].fetch_add(1, Relaxed);
    });
    seen.check([a[0].is_some(), a[1].is_some(), a[2].is_some()]);
    let seen = Seen::new();
    (sa.modified(), sa.modified_indexes()).par_join().for_each(|(x, i)| {
        let k = seen.at(&ids, i);
        if k < 3 {
            prop!(x.copied() == a[k], "the parallel join hands out the items of the index");
        }
    });
    seen.check(m);
}

/// Members far apart: in different words of the bit sets, at every level.
fn apart(nd: &mut Nd) {
    let ids = env::far_at([70, 5000, 300_000]);
    env::iter_max(3);
    env::choices(nd);
    let (mut a, mut m) = ([None; 3], [false; 3]);
    let sa = storage::<VecStorage<u8>>(nd, &ids, &mut a);
    let bs = bits(nd, &ids, &mut m);
    let seen = Seen::new();
    let mut want = [false; 3];
    let mut k = 0;
    while k < 3 {
        want[k] = a[k].is_some() && m[k];
        k += 1;
    }
    (&sa, &bs).par_join().for_each(|(x, i)| {
        let k = seen.at(&ids, i);
        if k < 3 {
            prop!(Some(*x) == a[k], "the parallel join hands out the items of the index");
        }
    });
    seen.check(want);
    let seen = Seen::new();
    (&bs).par_join_unconstrained().for_each(|i| {
        seen.at(&ids, i);
    });
    seen.check(m);
}

harnesses! {
    c12_apart [5] => apart;
    c12_vec [5] => |nd: &mut Nd| pair::<VecStorage<u8>, VecStorage<u8>>(nd);
    c12_dense [5] => |nd: &mut Nd| pair::<VecStorage<u8>, DenseVecStorage<u8>>(nd);
    c12_hash [5] => |nd: &mut Nd| pair::<HashMapStorage<u8>, VecStorage<u8>>(nd);
    c12_optional [5] => optional;
    c12_entities [5] => entities;
    c12_world [5] => world;
    c12_guards [5] => guards;
}
