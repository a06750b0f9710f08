//! C08: every component value is dropped exactly once.
use crate::dropc::{self, drops, made, D};
use crate::env;
use crate::nd::Nd;
use crate::st::ids;
use goggles::world_common::ComponentStorage;
use goggles::{AnyCloneComponentSet, AnyComponentSet, Component, DenseVecStorage, Entity, Flagged, HashMapStorage, MaskedStorage, RawStorage, VecStorage, World};

fn storage<S: RawStorage<Item = D> + Default>(nd: &mut Nd, script: &[u8]) {
    dropc::reset();
    let ids = ids(nd);
    let mut has: [Option<u8>; 3] = [None; 3];
    {
        let mut s = MaskedStorage::<S>::default();
        let mut i = 0;
        while i < script.len() {
            let k = nd.below(3) as usize;
            match script[i] {
                b'i' => {
                    let d = D::new();
                    let id = d.0;
                    let old = s.insert(ids[k], d);
                    prop!(old.as_ref().map(|d| d.0) == has[k], "a replaced value is handed back");
                    if let Some(o) = &old {
                        prop!(drops(o.0) == 0, "a value handed back is not dropped");
                    }
                    drop(old);
                    has[k] = Some(id);
                }
                b'r' => {
                    let old = s.remove(ids[k]);
                    prop!(old.as_ref().map(|d| d.0) == has[k], "a removed value is handed back");
                    if let Some(o) = &old {
                        prop!(drops(o.0) == 0, "a value handed back is not dropped");
                    }
                    drop(old);
                    has[k] = None;
                }
                b'w' => {
                    let id = s.get_or_insert_with(ids[k], D::new).0;
                    match has[k] {
                        Some(h) => prop!(h == id, "a present value stays"),
                        None => has[k] = Some(id),
                    }
                }
                b'm' => {
                    // assignment through a mutable reference drops the old value
                    if let Some(x) = s.get_mut(ids[k]) {
                        *x = D::new();
                        has[k] = Some(x.0);
                    }
                }
                _ => {}
            }
            i += 1;
        }
        let mut k = 0;
        while k < 3 {
            if let Some(h) = has[k] {
                prop!(drops(h) == 0, "a present value has not been dropped");
                prop!(s.get(ids[k]).map(|d| d.0) == Some(h), "a present value is found");
            }
            k += 1;
        }
    }
    dropc::all_dropped();
}

/// Components that count their drops.
pub trait Counted: Component + Clone + Send + Sync + 'static {
    fn new() -> Self;
    fn id(&self) -> u8;
}
macro_rules! counted {
    ($($t:ident: $s:ty;)*) => { $(
        #[derive(Clone, Debug)]
        pub struct $t(pub D);
        impl Component for $t { type Storage = $s; }
        impl Counted for $t {
            fn new() -> Self { $t(D::new()) }
            fn id(&self) -> u8 { self.0.0 }
        }
    )* };
}
counted! {
    WV: VecStorage<WV>;
    WD: DenseVecStorage<WD>;
    WH: HashMapStorage<WH>;
    WF: Flagged<VecStorage<WF>>;
}
const MAX: usize = 4;

/// A history of a world with one component type; every handle (alive, pending or stale) is symbolic.
fn world<X: Counted>(nd: &mut Nd, script: &[u8])
where
    X::Storage: Default + Send + Sync,
{
    dropc::reset();
    env::iter_max(4);
    place!(ComponentStorage<X>);
    let mut w = World::new();
    w.insert_component::<X>();
    let mut h: [Option<Entity>; MAX] = [None; MAX];
    let mut alive = [false; MAX];
    let mut pending = [false; MAX];
    let mut has: [Option<u8>; MAX] = [None; MAX];
    let mut n = 0;
    let mut i = 0;
    while i < script.len() {
        match script[i] {
            b'c' | b'C' => {
                h[n] = Some(if script[i] == b'c' { w.create_entity() } else { w.entities().create() });
                alive[n] = true;
                n += 1;
            }
            b'm' => {
                w.merge();
                let mut k = 0;
                while k < n {
                    if pending[k] {
                        pending[k] = false;
                        alive[k] = false;
                        if let Some(d) = has[k] {
                            prop!(drops(d) == 1, "a component is dropped when its entity is merged away");
                        }
                        has[k] = None;
                    }
                    k += 1;
                }
            }
            b'X' | b'R' => {
                let old = if script[i] == b'X' { w.insert_component::<X>() } else { w.remove_component::<X>() };
                let mut k = 0;
                while k < n {
                    if let Some(d) = has[k] {
                        prop!(drops(d) == 0, "the components of a storage handed back are not dropped");
                    }
                    has[k] = None;
                    k += 1;
                }
                drop(old);
            }
            o => {
                let k = nd.below(n as u8) as usize;
                let e = h[k].unwrap();
                match o {
                    b'k' => {
                        let ok = w.delete_entity(e).is_ok();
                        prop!(ok == alive[k], "deleting is accepted exactly for alive handles");
                        if let Some(d) = has[k] {
                            prop!(drops(d) == 1, "a component is dropped when its entity is deleted");
                        }
                        alive[k] = false;
                        pending[k] = false;
                        has[k] = None;
                    }
                    b'K' => pending[k] |= w.entities().delete(e).is_ok(),
                    b'x' => {
                        let x = X::new();
                        let id = x.id();
                        match w.get_component_mut::<X>().insert(e, x) {
                            Ok(old) => {
                                prop!(alive[k], "a stale handle inserts nothing");
                                prop!(old.as_ref().map(|o| o.id()) == has[k], "a replaced value is handed back");
                                if let Some(o) = &old {
                                    prop!(drops(o.id()) == 0, "a value handed back is not dropped");
                                }
                                has[k] = Some(id);
                            }
                            Err(_) => prop!(!alive[k] && drops(id) == 1, "a refused value is dropped"),
                        }
                    }
                    b'w' => {
                        let made = dropc::made();
                        match w.write_component::<X>().get_or_insert_with(e, X::new) {
                            Ok(x) => match has[k] {
                                Some(d) => prop!(x.id() == d, "a present value stays"),
                                None => has[k] = Some(x.id()),
                            },
                            Err(_) => prop!(!alive[k] && dropc::made() == made, "a stale handle inserts nothing"),
                        }
                    }
                    _ => match w.get_component_mut::<X>().remove(e) {
                        Ok(old) => {
                            prop!(old.as_ref().map(|o| o.id()) == has[k], "a removed value is handed back");
                            if let Some(o) = &old {
                                prop!(drops(o.id()) == 0, "a value handed back is not dropped");
                            }
                            has[k] = None;
                        }
                        Err(_) => prop!(!alive[k], "removing for an alive entity succeeds"),
                    },
                }
            }
        }
        i += 1;
    }
    let mut k = 0;
    while k < n {
        if let Some(d) = has[k] {
            prop!(drops(d) == 0, "a present value has not been dropped");
        }
        k += 1;
    }
    drop(w);
    dropc::all_dropped();
}

/// Sets of components, on their own and put into a world for one of three entities, one of them dead.
fn sets(nd: &mut Nd, script: &[u8]) {
    dropc::reset();
    let mut s = AnyComponentSet::new();
    let mut i = 0;
    while i < script.len() {
        match script[i] {
            b'V' => drop(s.insert(WV::new())),
            b'D' => drop(s.insert(WD::new())),
            b'v' => {
                let had = s.get::<WV>().map(|x| x.id());
                let x = s.remove::<WV>();
                prop!(x.as_ref().map(|x| x.id()) == had, "a removed value is handed back");
                if let Some(x) = &x {
                    prop!(drops(x.id()) == 0, "a value handed back is not dropped");
                }
            }
            b'g' => {
                if let Some(x) = s.get_mut::<WD>() {
                    *x = WD::new();
                }
            }
            b'm' => {
                let mut t = AnyComponentSet::new();
                t.insert(WV::new());
                let old = s.get::<WV>().map(|x| x.id());
                let new = t.get::<WV>().map(|x| x.id());
                s.merge(t);
                prop!(s.get::<WV>().map(|x| x.id()) == new, "merging overwrites");
                if let Some(o) = old {
                    prop!(drops(o) == 1, "an overwritten value is dropped");
                }
            }
            _ => {
                let mut t = AnyCloneComponentSet::new();
                t.insert(WV::new());
                t.clone_into_set(&mut s);
                if script[i] == b'C' {
                    t.clone_into_set(&mut s);
                }
            }
        }
        i += 1;
    }
    if let Some(x) = s.get::<WV>() {
        prop!(drops(x.id()) == 0, "a present value has not been dropped");
    }
    if let Some(x) = s.get::<WD>() {
        prop!(drops(x.id()) == 0, "a present value has not been dropped");
    }
    drop(s);
    dropc::all_dropped();
}

fn into_world(nd: &mut Nd, clone: bool) {
    dropc::reset();
    env::iter_max(3);
    place!(ComponentStorage<WV>);
    place!(ComponentStorage<WD>);
    let mut w = World::new();
    w.insert_component::<WV>();
    w.insert_component::<WD>();
    let e = [w.create_entity(), w.create_entity()];
    let had = nd.bool();
    if had {
        let _ = w.get_component_mut::<WV>().insert(e[0], WV::new());
    }
    let dead = nd.bool();
    if dead {
        let _ = w.delete_entity(e[0]);
    }
    if clone {
        let mut s = AnyCloneComponentSet::new();
        s.insert(WV::new());
        s.insert(WD::new());
        prop!(s.insert_into_world(&mut w, e[0]).is_ok() != dead, "inserting for an alive entity succeeds");
        prop!(s.insert_into_world(&mut w, e[1]).is_ok(), "inserting for an alive entity succeeds");
        if let Some(x) = s.get::<WV>() {
            prop!(drops(x.id()) == 0, "a cloneable set keeps its values");
        }
    } else {
        let mut s = AnyComponentSet::new();
        s.insert(WD::new());
        s.insert(WV::new());
        prop!(s.insert_into_world(&mut w, e[0]).is_ok() != dead, "inserting for an alive entity succeeds");
    }
    let mut k = 0;
    while k < 2 {
        if let Some(x) = w.read_component::<WV>().get(e[k]) {
            prop!(drops(x.id()) == 0, "a present value has not been dropped");
        }
        if let Some(x) = w.read_component::<WD>().get(e[k]) {
            prop!(drops(x.id()) == 0, "a present value has not been dropped");
        }
        k += 1;
    }
    drop(w);
    dropc::all_dropped();
}

harnesses! {
    c08_world_vec [13] => |nd: &mut Nd| world::<WV>(nd, b"ccxxkcx");
    c08_world_dense [13] => |nd: &mut Nd| world::<WD>(nd, b"cCxxKm");
    c08_world_hash [13] => |nd: &mut Nd| world::<WH>(nd, b"ccxwKkm");
    c08_world_flagged [13] => |nd: &mut Nd| world::<WF>(nd, b"ccxrxkx");
    c08_world_again [13] => |nd: &mut Nd| world::<WV>(nd, b"ccxxXxk");
    c08_world_off [13] => |nd: &mut Nd| world::<WD>(nd, b"ccxRk");
    c08_world_stale [13] => |nd: &mut Nd| world::<WV>(nd, b"cxkcxwr");
    c08_sets_a [13] => |nd: &mut Nd| sets(nd, b"VDVgv");
    c08_sets_b [13] => |nd: &mut Nd| sets(nd, b"DVmC");
    c08_sets_c [13] => |nd: &mut Nd| sets(nd, b"mDCvc");
    c08_into [13] => |nd: &mut Nd| into_world(nd, false);
    c08_into_clone [13] => |nd: &mut Nd| into_world(nd, true);
    c08_vec [13] => |nd: &mut Nd| storage::<VecStorage<D>>(nd, b"iirwm");
    c08_dense [13] => |nd: &mut Nd| storage::<DenseVecStorage<D>>(nd, b"iirw");
    c08_hash [13] => |nd: &mut Nd| storage::<HashMapStorage<D>>(nd, b"iirw");
    c08_flagged [13] => |nd: &mut Nd| storage::<Flagged<VecStorage<D>>>(nd, b"iwrim");
}
