//! C20: declared resources cover what fetching borrows.
use crate::env;
use crate::nd::{assume, Nd};
use crate::wld::{A, B};
use goggles::resource_set::ResourceId;
use goggles::world_common::ComponentStorage;
use goggles::{Entities, FetchNone, FetchResources, Read, ReadComponent, ReadResource, ResourceSet, Resources, RwResources, World, WorldResourceId, WorldResources, Write, WriteComponent, WriteResource};

#[derive(Default)]
pub struct R(u8);
#[derive(Default)]
pub struct S(u8);

type Set = RwResources<ResourceId>;
type None1 = FetchNone<World, WorldResources>;

/// How a view uses each of: the entities, resource R, resource A (a type that is also a component),
/// component A, component B.   0: not at all, 1: reads, 2: writes
type Uses = [u8; 5];
const NO: Uses = [0; 5];
fn ids() -> [WorldResourceId; 5] {
    [WorldResourceId::Entities, WorldResourceId::resource::<R>(), WorldResourceId::resource::<A>(), WorldResourceId::component::<A>(), WorldResourceId::component::<B>()]
}
fn declared<'a, V: FetchResources<'a, World, Resources = WorldResources>>(want: Uses) {
    match V::check_resources() {
        Ok(r) => {
            let id = ids();
            let (mut n, mut k) = (0, 0);
            while k < 5 {
                let reads = r.reads().any(|x| *x == id[k]);
                let writes = r.writes().any(|x| *x == id[k]);
                prop!(reads == (want[k] == 1), "exactly what a view reads is declared as read");
                prop!(writes == (want[k] == 2), "exactly what a view writes is declared as written");
                n += (want[k] != 0) as usize;
                k += 1;
            }
            prop!(r.reads().count() + r.writes().count() == n, "a view declares nothing it does not use");
        }
        Err(_) => prop!(false, "a single view has no conflict"),
    }
}
fn resources(_: &mut Nd) {
    declared::<Entities>([1, 0, 0, 0, 0]);
    declared::<ReadResource<R>>([0, 1, 0, 0, 0]);
    declared::<WriteResource<R>>([0, 2, 0, 0, 0]);
    declared::<ReadResource<A>>([0, 0, 1, 0, 0]);
    declared::<WriteResource<A>>([0, 0, 2, 0, 0]);
}
fn components(_: &mut Nd) {
    declared::<ReadComponent<A>>([1, 0, 0, 1, 0]);
    declared::<WriteComponent<A>>([1, 0, 0, 2, 0]);
    declared::<ReadComponent<B>>([1, 0, 0, 0, 1]);
    declared::<WriteComponent<B>>([1, 0, 0, 0, 2]);
    declared::<None1>(NO);
}
fn tuple(_: &mut Nd) {
    declared::<(Entities, ReadComponent<A>, WriteComponent<B>, ReadResource<R>)>([1, 1, 0, 1, 2]);
}
fn same(_: &mut Nd) {
    declared::<(WriteResource<A>, WriteComponent<A>, None1)>([1, 0, 2, 2, 0]);
}
fn nested(_: &mut Nd) {
    declared::<((ReadResource<R>, ReadComponent<A>), (ReadResource<R>, ReadComponent<A>))>([1, 1, 0, 1, 0]);
}

fn w(nd: &mut Nd) -> World {
    let mut w = World::new();
    w.insert_resource(R(nd.u8()));
    w.insert_resource(A(nd.u8()));
    w.insert_component::<A>();
    w.insert_component::<B>();
    w
}
/// Declared as conflicting <=> fetching both fails.  A failed fetch panics, so the two directions
/// are separate harnesses: in one everything undeclared has to be granted, in the other nothing
/// declared as a conflict may be granted.
fn both<'a, V, W>(world: &'a World, refused: bool)
where
    V: FetchResources<'a, World, Resources = WorldResources>,
    W: FetchResources<'a, World, Resources = WorldResources>,
{
    let (Ok(v), Ok(w)) = (V::check_resources(), W::check_resources()) else { unreachable!() };
    let conflict = v.conflicts_with(&w);
    prop!(conflict == w.conflicts_with(&v), "conflicts are symmetric");
    prop!(<(V, W)>::check_resources().is_err() == conflict, "a pair of conflicting views is refused");
    if conflict == refused {
        asked!();
        let a = world.fetch::<V>();
        let b = W::fetch(world);
        prop!(!refused, "two views declared as conflicting cannot be held together");
        drop(b);
        drop(a);
        if !refused {
            let p = world.fetch::<(V, W)>();
            drop(p);
            // nothing is left borrowed
            let p = world.fetch::<(WriteResource<R>, WriteResource<A>, WriteComponent<A>, WriteComponent<B>)>();
            drop(p);
        }
    } else {
        assume(false);
    }
}
macro_rules! second {
    ($v:ty, $k:expr, $world:expr, $r:expr) => {
        match $k {
            0 => both::<$v, Entities>($world, $r),
            1 => both::<$v, ReadResource<R>>($world, $r),
            2 => both::<$v, WriteResource<R>>($world, $r),
            3 => both::<$v, ReadComponent<A>>($world, $r),
            4 => both::<$v, WriteComponent<A>>($world, $r),
            5 => both::<$v, WriteResource<A>>($world, $r),
            6 => both::<$v, (ReadComponent<B>, ReadResource<R>)>($world, $r),
            _ => both::<$v, None1>($world, $r),
        }
    };
}
fn pairs(nd: &mut Nd, first: u8, refused: bool) {
    place!(R);
    place!(A);
    place!(ComponentStorage<A>);
    place!(ComponentStorage<B>);
    let world = w(nd);
    let k = nd.below(8);
    match first {
        0 => second!(ReadResource<R>, k, &world, refused),
        1 => second!(WriteResource<R>, k, &world, refused),
        2 => second!(ReadComponent<A>, k, &world, refused),
        3 => second!(WriteComponent<A>, k, &world, refused),
        _ => second!((ReadComponent<B>, WriteResource<A>), k, &world, refused),
    }
    ::std::mem::forget(world);
}

fn set_both<'a, V, W>(s: &'a ResourceSet, refused: bool, want: bool)
where
    V: FetchResources<'a, ResourceSet, Resources = Set>,
    W: FetchResources<'a, ResourceSet, Resources = Set>,
{
    let (Ok(v), Ok(w)) = (V::check_resources(), W::check_resources()) else { unreachable!() };
    let conflict = v.conflicts_with(&w);
    prop!(conflict == want, "views conflict exactly if one writes what the other uses");
    prop!(<(V, W)>::check_resources().is_err() == conflict, "a pair of conflicting views is refused");
    if conflict == refused {
        asked!();
        let a = s.fetch::<V>();
        let b = s.fetch::<W>();
        prop!(!refused, "two views declared as conflicting cannot be held together");
        drop(b);
        drop(a);
        if !refused {
            drop(s.fetch::<(V, W)>());
            drop(s.fetch::<(Write<R>, Write<S>)>());
        }
    } else {
        assume(false);
    }
}
fn set(nd: &mut Nd, refused: bool) {
    place!(R);
    place!(S);
    let mut s = ResourceSet::new();
    s.insert(R(nd.u8()));
    s.insert(S(nd.u8()));
    match nd.below(6) {
        0 => set_both::<Read<R>, Read<R>>(&s, refused, false),
        1 => set_both::<Read<R>, Write<R>>(&s, refused, true),
        2 => set_both::<Write<R>, Read<R>>(&s, refused, true),
        3 => set_both::<Write<R>, Write<R>>(&s, refused, true),
        4 => set_both::<Write<R>, Write<S>>(&s, refused, false),
        _ => set_both::<(Read<R>, Write<S>), Read<S>>(&s, refused, true),
    }
    ::std::mem::forget(s);
}
fn set_ids(_: &mut Nd) {
    let id = ResourceId::of::<R>();
    match <Read<R> as FetchResources<ResourceSet>>::check_resources() {
        Ok(r) => prop!(r.reads().count() == 1 && r.writes().count() == 0 && r.reads().all(|x| *x == id), "a shared view declares one read"),
        Err(_) => prop!(false, "a single view has no conflict"),
    }
    match <Write<R> as FetchResources<ResourceSet>>::check_resources() {
        Ok(r) => prop!(r.writes().count() == 1 && r.reads().count() == 0 && r.writes().all(|x| *x == id), "a mutable view declares one write"),
        Err(_) => prop!(false, "a single view has no conflict"),
    }
}

harnesses! {
    c20_resources [7] => resources;
    c20_components [7] => components;
    c20_tuple [7] => tuple;
    c20_same [7] => same;
    c20_nested [7] => nested;
    c20_set_ids [7] => set_ids;
    c20_set_ok [7] => |nd: &mut Nd| set(nd, false);
    c20_set_refused [7] => |nd: &mut Nd| set(nd, true);
    c20_rr_ok [7] => |nd: &mut Nd| pairs(nd, 0, false);
    c20_wr_ok [7] => |nd: &mut Nd| pairs(nd, 1, false);
    c20_rc_ok [7] => |nd: &mut Nd| pairs(nd, 2, false);
    c20_wc_ok [7] => |nd: &mut Nd| pairs(nd, 3, false);
    c20_tuple_ok [7] => |nd: &mut Nd| pairs(nd, 4, false);
    c20_rr_refused [7] => |nd: &mut Nd| pairs(nd, 0, true);
    c20_wr_refused [7] => |nd: &mut Nd| pairs(nd, 1, true);
    c20_rc_refused [7] => |nd: &mut Nd| pairs(nd, 2, true);
    c20_wc_refused [7] => |nd: &mut Nd| pairs(nd, 3, true);
    c20_tuple_refused [7] => |nd: &mut Nd| pairs(nd, 4, true);
}
