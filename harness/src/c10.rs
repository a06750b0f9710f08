//! C10: change tracking flags exactly the touched indices.
use crate::env;
use crate::nd::Nd;
use crate::st::ids;
use goggles::hibitset::BitSetLike;
use crate::wld::D;
use goggles::world_common::ComponentStorage;
use goggles::{DenseVecStorage, Entity, Flagged, HashMapStorage, IntoJoinExt, Join, JoinIter, MaskedStorage, RawStorage, TrackedStorage, VecStorage, World};

struct Sh {
    ids: [u32; 3],
    v: [Option<u8>; 3],
    m: [bool; 3],
    on: bool,
}

impl Sh {
    fn touch(&mut self, k: usize) {
        if self.on {
            self.m[k] = true;
        }
    }
    fn op<S: TrackedStorage<Item = u8>>(&mut self, nd: &mut Nd, s: &mut MaskedStorage<S>, op: u8) {
        let k = nd.below(3) as usize;
        let i = self.ids[k];
        match op {
            // tracking on or off
            b't' => {
                self.on = nd.bool();
                s.set_track_modified(self.on);
                prop!(s.tracking_modified() == self.on, "tracking is on exactly if it was switched on");
            }
            b'c' => {
                s.clear_modified();
                self.m = [false; 3];
            }
            b'i' => {
                let v = nd.u8();
                s.insert(i, v);
                self.v[k] = Some(v);
                self.touch(k);
            }
            b'r' => {
                if s.remove(i).is_some() {
                    self.touch(k);
                }
                self.v[k] = None;
            }
            b'm' => {
                if let Some(x) = s.get_mut(i) {
                    let v = nd.u8();
                    *x = v;
                    self.v[k] = Some(v);
                    self.touch(k);
                }
            }
            b'w' => {
                let v = nd.u8();
                s.get_or_insert_with(i, || v);
                if self.v[k].is_none() {
                    self.v[k] = Some(v);
                }
                self.touch(k);
            }
            // reading marks nothing
            b'g' => {
                s.get(i);
                s.contains(i);
                if let Some(g) = s.get_guard(i) {
                    g.get();
                }
            }
            // a guard marks when it is used mutably, or explicitly
            b'G' => {
                let how = nd.below(3);
                if let Some(mut g) = s.get_guard(i) {
                    if how == 0 {
                        g.get_mut();
                    } else if how == 1 {
                        g.mark_modified();
                    }
                    if how == 1 {
                        self.m[k] = true;
                    } else if how == 0 {
                        self.touch(k);
                    }
                }
            }
            b'x' => {
                s.mark_modified(i);
                self.m[k] = true;
            }
            // a mutable join touches what it yields; a guarded or shared one does not
            b'J' => {
                let n = (&mut *s).join().count();
                prop!(n == self.count(), "a join over the storage yields every component");
                let mut k = 0;
                while k < 3 {
                    if self.v[k].is_some() {
                        self.touch(k);
                    }
                    k += 1;
                }
            }
            b'j' => {
                let n = (&*s).join().count();
                prop!(n == self.count(), "a join over the storage yields every component");
            }
            b'u' => {
                let mut n = 0;
                let use_it = nd.bool();
                let mut it = s.guard().join();
                while n < 3 {
                    match it.next() {
                        Some(mut g) => {
                            if use_it {
                                g.get_mut();
                            } else {
                                g.get();
                            }
                        }
                        None => break,
                    }
                    n += 1;
                }
                prop!(n == self.count(), "a guarded join yields every component");
                let mut k = 0;
                while k < 3 {
                    if self.v[k].is_some() && use_it {
                        self.touch(k);
                    }
                    k += 1;
                }
            }
            _ => {}
        }
    }
    fn count(&self) -> usize {
        self.v[0].is_some() as usize + self.v[1].is_some() as usize + self.v[2].is_some() as usize
    }

    fn check<S: TrackedStorage<Item = u8>>(&mut self, s: &mut MaskedStorage<S>, how: u8) {
        if how == 0 {
            let mut it = s.modified_indexes().iter();
            let mut k = 0;
            while k < 3 {
                prop!(s.modified_indexes().contains(self.ids[k]) == self.m[k], "the modified set is exact");
                if self.m[k] {
                    prop!(it.next() == Some(self.ids[k]), "the modified set has exactly the touched indices");
                }
                k += 1;
            }
            prop!(it.next().is_none(), "the modified set has exactly the touched indices");
        } else if how == 1 {
            let mut it = s.modified().join();
            let mut k = 0;
            while k < 3 {
                if self.m[k] {
                    match it.next() {
                        Some(x) => prop!(x.copied() == self.v[k], "joining the modified yields the component or nothing"),
                        None => prop!(false, "joining the modified yields every modified index"),
                    }
                }
                k += 1;
            }
            prop!(it.next().is_none(), "joining the modified yields each index once");
        } else {
            let mut it = s.modified_mut().join();
            let mut k = 0;
            while k < 3 {
                if self.m[k] {
                    match it.next() {
                        Some(x) => {
                            prop!(x.as_deref().copied() == self.v[k], "joining the modified yields the component or nothing");
                            if let Some(x) = x {
                                *x = x.wrapping_add(1);
                                self.v[k] = Some(*x);
                            }
                        }
                        None => prop!(false, "joining the modified yields every modified index"),
                    }
                }
                k += 1;
            }
            prop!(it.next().is_none(), "joining the modified yields each index once");
            drop(it);
            let mut k = 0;
            while k < 3 {
                prop!(s.get(self.ids[k]).copied() == self.v[k], "writing through the modified join writes the component");
                k += 1;
            }
        }
    }
}

fn run<S: TrackedStorage<Item = u8> + Default>(nd: &mut Nd, script: &[u8], how: u8) {
    let mut s = MaskedStorage::<S>::default();
    let mut h = Sh { ids: ids(nd), v: [None; 3], m: [false; 3], on: false };
    prop!(!s.tracking_modified(), "tracking starts off");
    let mut i = 0;
    while i < script.len() {
        h.op(nd, &mut s, script[i]);
        i += 1;
    }
    h.check(&mut s, how);
}

type V = Flagged<VecStorage<u8>>;
type DV = Flagged<DenseVecStorage<u8>>;
type HV = Flagged<HashMapStorage<u8>>;
/// The same calls through the component views of a world.
struct Wh {
    w: World,
    e: [Entity; 2],
    v: [Option<u8>; 2],
    m: [bool; 2],
    alive: [bool; 2],
    on: bool,
}

impl Wh {
    fn touch(&mut self, k: usize) {
        if self.on && self.v[k].is_some() {
            self.m[k] = true;
        }
    }
    fn op(&mut self, nd: &mut Nd, op: u8) {
        let k = nd.below(2) as usize;
        let e = self.e[k];
        match op {
            b't' => {
                self.on = nd.bool();
                self.w.get_component_mut::<D>().set_track_modified(self.on);
                prop!(self.w.read_component::<D>().tracking_modified() == self.on, "tracking is on exactly if it was switched on");
            }
            b'c' => {
                self.w.write_component::<D>().clear_modified();
                self.m = [false; 2];
            }
            b'i' => {
                let v = nd.u8();
                if self.w.write_component::<D>().insert(e, D(v)).is_ok() {
                    self.v[k] = Some(v);
                }
                self.touch(k);
            }
            b'r' => {
                self.w.get_component_mut::<D>().remove(e).ok();
                self.touch(k);
                self.v[k] = None;
            }
            b'm' => {
                self.w.write_component::<D>().get_mut(e);
                self.touch(k);
            }
            b'w' => {
                if self.w.get_component_mut::<D>().get_or_insert_with(e, || D(7)).is_ok() && self.v[k].is_none() {
                    self.v[k] = Some(7);
                }
                self.touch(k);
            }
            b'd' => {
                if self.w.write_component::<D>().get_or_default(e).is_ok() && self.v[k].is_none() {
                    self.v[k] = Some(0);
                }
                self.touch(k);
            }
            // reading marks nothing
            b'g' => {
                let mut c = self.w.write_component::<D>();
                c.get(e);
                c.contains(e);
                c.mask();
                c.storage();
                if let Some(g) = c.get_guard(e) {
                    g.get();
                }
                prop!((&c).join().count() == self.count(), "a join over the components yields every one");
                let n = c.guard().join().count();
                prop!(n == self.count(), "a guarded join over the components yields every one");
            }
            b'x' => {
                let ok = self.w.read_component::<D>().mark_modified(e).is_ok();
                prop!(ok == self.alive[k], "marking is accepted exactly for alive handles");
                if ok {
                    self.m[k] = true;
                }
            }
            b'J' => {
                let n = (&mut self.w.write_component::<D>()).join().count();
                prop!(n == self.count(), "a join over the components yields every one");
                self.touch(0);
                self.touch(1);
            }
            b'k' => {
                self.w.delete_entity(e).ok();
                self.touch(k);
                self.v[k] = None;
                self.alive[k] = false;
            }
            _ => {
                self.w.entities().delete(e).ok();
                self.w.merge();
                self.touch(k);
                self.v[k] = None;
                self.alive[k] = false;
            }
        }
    }
    fn count(&self) -> usize {
        self.v[0].is_some() as usize + self.v[1].is_some() as usize
    }
    fn check(&mut self) {
        {
            let c = self.w.read_component::<D>();
            let mut it = c.modified().join();
            let mut k = 0;
            while k < 2 {
                prop!(c.modified_indexes().contains(self.e[k].index()) == self.m[k], "the modified set is exact");
                if self.m[k] {
                    match it.next() {
                        Some(x) => prop!(x.map(|d| d.0) == self.v[k], "joining the modified yields the component or nothing"),
                        None => prop!(false, "joining the modified yields every modified index"),
                    }
                }
                k += 1;
            }
            prop!(it.next().is_none(), "joining the modified yields each index once");
        }
        let mut c = self.w.write_component::<D>();
        let mut it = c.modified_mut().join();
        let mut k = 0;
        while k < 2 {
            if self.m[k] {
                match it.next() {
                    Some(x) => prop!(x.map(|d| d.0) == self.v[k], "joining the modified yields the component or nothing"),
                    None => prop!(false, "joining the modified yields every modified index"),
                }
            }
            k += 1;
        }
        prop!(it.next().is_none(), "joining the modified yields each index once");
    }
}

fn world(nd: &mut Nd, script: &[u8]) {
    env::iter_max(2);
    place!(ComponentStorage<D>);
    let mut w = World::new();
    w.insert_component::<D>();
    let e = [w.create_entity(), w.create_entity()];
    let mut h = Wh { w, e, v: [None; 2], m: [false; 2], alive: [true; 2], on: false };
    let mut i = 0;
    while i < script.len() {
        h.op(nd, script[i]);
        i += 1;
    }
    h.check();
    ::std::mem::forget(h);
}

harnesses! {
    c10_set [8] => |nd: &mut Nd| run::<V>(nd, b"titrm", 0);
    c10_guard [8] => |nd: &mut Nd| run::<V>(nd, b"iitgG", 0);
    c10_insert [8] => |nd: &mut Nd| run::<V>(nd, b"itiw", 0);
    c10_clear [8] => |nd: &mut Nd| run::<V>(nd, b"tiirxcr", 0);
    c10_joins [8] => |nd: &mut Nd| run::<V>(nd, b"iitJ", 0);
    c10_joinr [8] => |nd: &mut Nd| run::<V>(nd, b"iitju", 0);
    c10_mod [8] => |nd: &mut Nd| run::<V>(nd, b"tiirx", 1);
    c10_modmut [8] => |nd: &mut Nd| run::<V>(nd, b"tiirx", 2);
    c10_dense [8] => |nd: &mut Nd| run::<DV>(nd, b"tiirx", 1);
    c10_hash [8] => |nd: &mut Nd| run::<HV>(nd, b"tiirm", 0);
    c10_w_a [8] => |nd: &mut Nd| world(nd, b"iitJ");
    c10_w_b [8] => |nd: &mut Nd| world(nd, b"iitgk");
    c10_w_c [8] => |nd: &mut Nd| world(nd, b"tiircx");
    c10_w_d [8] => |nd: &mut Nd| world(nd, b"titmwK");
    c10_w_e [8] => |nd: &mut Nd| world(nd, b"itdkx");
}
