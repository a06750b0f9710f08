//! C09: a panicking constructor callback leaves the storage consistent.
//!
//! Symbolically, the state is inspected from inside the callback (that is what an unwinding caller
//! would find) and the execution ends there; natively the callback really panics and the storage
//! is used and dropped afterwards.
use crate::env;
use crate::nd::Nd;
use crate::st::*;
use goggles::hibitset::BitSetLike;
use goggles::world_common::ComponentStorage;
use goggles::{DenseVecStorage, Flagged, HashMapStorage, MaskedStorage, RawStorage, TrackedStorage, VecStorage, World};

fn panics<S: RawStorage<Item = u8> + Default>(nd: &mut Nd, script: &[u8], prep: impl Fn(&mut MaskedStorage<S>), modified: impl Fn(&MaskedStorage<S>, u32) -> bool) {
    let mut m = Map::new(nd);
    let mut s = MaskedStorage::<S>::default();
    prep(&mut s);
    m.fill(nd, &mut s);
    let mut i = 0;
    while i < script.len() {
        m.op(nd, &mut s, script[i]);
        i += 1;
    }
    let k = nd.below(3) as usize;
    let before = modified(&s, m.ids[k]);
    #[cfg(overlay)]
    {
        let p: *const MaskedStorage<S> = &s;
        let present = m.v[k].is_some();
        s.get_or_insert_with(m.ids[k], || {
            prop!(!present, "the constructor is called only for an empty index");
            let s = unsafe { &*p };
            prop!(!s.contains(m.ids[k]), "the index is still absent when the constructor panics");
            prop!(modified(s, m.ids[k]) == before, "a panicking constructor marks nothing");
            m.check(s);
            m.mask(s);
            0
        });
    }
    #[cfg(not(overlay))]
    {
        use ::std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
        let r = catch_unwind(AssertUnwindSafe(|| {
            s.get_or_insert_with(m.ids[k], || resume_unwind(Box::new("callback")));
        }));
        if r.is_err() {
            prop!(!s.contains(m.ids[k]), "the index is still absent when the constructor panics");
            prop!(modified(&s, m.ids[k]) == before, "a panicking constructor marks nothing");
            m.check(&s);
            m.mask(&s);
        }
    }
}

fn plain<S: RawStorage<Item = u8> + Default>(nd: &mut Nd) {
    panics::<S>(nd, b"r", |_| {}, |_, _| false)
}
fn tracked<S: TrackedStorage<Item = u8> + Default>(nd: &mut Nd) {
    panics::<S>(nd, b"", |s| s.set_track_modified(true), |s, i| s.modified_indexes().contains(i))
}

/// The component whose default constructor is the callback.
struct Made(u8);
impl goggles::Component for Made {
    type Storage = VecStorage<Made>;
}
static mut PEEK: Option<World1> = None;
#[derive(Clone, Copy)]
struct World1 {
    s: *const ComponentStorage<Made>,
    v: [Option<u8>; 2],
    k: usize,
}
impl World1 {
    fn look(&self) {
        prop!(self.v[self.k].is_none(), "the constructor is called only for an empty index");
        self.check();
    }
    fn check(&self) {
        let s = unsafe { &*self.s };
        let mut j = 0;
        while j < 2 {
            prop!(s.contains(j as u32) == self.v[j].is_some(), "the storage is as it was when the constructor panics");
            prop!(s.mask().contains(j as u32) == self.v[j].is_some(), "the storage is as it was when the constructor panics");
            prop!(s.get(j as u32).map(|m| m.0) == self.v[j], "the storage is as it was when the constructor panics");
            j += 1;
        }
    }
}
impl Default for Made {
    fn default() -> Made {
        panic_here();
        Made(0)
    }
}
fn panic_here() {
    #[cfg(overlay)]
    unsafe {
        if let Some(p) = PEEK {
            p.look()
        }
    }
    #[cfg(not(overlay))]
    ::std::panic::resume_unwind(Box::new("callback"));
}

/// The same through a component view of a world.
fn world(nd: &mut Nd, or_default: bool) {
    env::iter_max(3);
    let mut w = World::new();
    place!(ComponentStorage<Made>);
    w.insert_component::<Made>();
    let e = [w.create_entity(), w.entities().create()];
    let mut v = [None; 2];
    let k = nd.below(2) as usize;
    {
        let mut c = w.get_component_mut::<Made>();
        let mut j = 0;
        while j < 2 {
            if nd.bool() {
                let x = nd.u8();
                prop!(c.insert(e[j], Made(x)).is_ok(), "inserting for an alive entity succeeds");
                v[j] = Some(x);
            }
            j += 1;
        }
    }
    {
        let mut c = w.write_component::<Made>();
        let p = World1 { s: c.storage(), v, k };
        #[cfg(overlay)]
        {
            unsafe { PEEK = Some(p) };
            if or_default {
                c.get_or_default(e[k]).ok();
            } else {
                c.get_or_insert_with(e[k], Made::default).ok();
            }
            unsafe { PEEK = None };
        }
        #[cfg(not(overlay))]
        {
            use ::std::panic::{catch_unwind, AssertUnwindSafe};
            let r = catch_unwind(AssertUnwindSafe(|| {
                if or_default {
                    c.get_or_default(e[k]).ok();
                } else {
                    c.get_or_insert_with(e[k], Made::default).ok();
                }
            }));
            if r.is_err() {
                p.check();
            }
        }
    }
    ::std::mem::forget(w);
}

harnesses! {
    c09_vec [6] => |nd: &mut Nd| plain::<VecStorage<u8>>(nd);
    c09_dense [6] => |nd: &mut Nd| plain::<DenseVecStorage<u8>>(nd);
    c09_hash [6] => |nd: &mut Nd| plain::<HashMapStorage<u8>>(nd);
    c09_flagged [6] => |nd: &mut Nd| tracked::<Flagged<VecStorage<u8>>>(nd);
    c09_world [6] => |nd: &mut Nd| world(nd, false);
    c09_world_default [6] => |nd: &mut Nd| world(nd, true);
}
