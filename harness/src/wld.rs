//! Shared driver for world histories: two component types on one world, next to a list of every
//! handle ever returned, its state and the components it should have.  The kinds of the calls are
//! fixed by a script, the handle (alive, pending or stale) and the value of each are symbolic.
use crate::env;
use crate::nd::Nd;
use goggles::{Component, DenseVecStorage, Entity, Flagged, HashMapStorage, IntoJoinExt, VecStorage, World};

pub const MAX: usize = 4;

macro_rules! components {
    ($($t:ident: $s:ty;)*) => { $(
        #[derive(Clone, Copy, PartialEq, Debug, Default)]
        pub struct $t(pub u8);
        impl Component for $t { type Storage = $s; }
        impl Val for $t {
            fn of(v: u8) -> Self { $t(v) }
            fn v(&self) -> u8 { self.0 }
            fn set(&mut self, v: u8) { self.0 = v }
        }
    )* };
}
pub trait Val: Default + Send + Sync + 'static {
    fn of(v: u8) -> Self;
    fn v(&self) -> u8;
    fn set(&mut self, v: u8);
}
components! {
    A: VecStorage<A>;
    B: DenseVecStorage<B>;
    C: HashMapStorage<C>;
    D: Flagged<VecStorage<D>>;
}

#[derive(Clone, Copy, PartialEq)]
pub enum St {
    Alive,
    Pending,
    Dead,
}

pub struct Hist {
    pub w: World,
    pub h: [Option<Entity>; MAX],
    pub st: [St; MAX],
    pub x: [Option<u8>; MAX],
    pub y: [Option<u8>; MAX],
    pub n: usize,
}

impl Hist {
    pub fn new() -> Hist {
        env::iter_max(4);
        Hist { w: World::new(), h: [None; MAX], st: [St::Dead; MAX], x: [None; MAX], y: [None; MAX], n: 0 }
    }
    pub fn handle(&self, k: usize) -> Entity {
        match self.h[k] {
            Some(e) => e,
            None => unreachable!(),
        }
    }
    pub fn alive(&self, k: usize) -> bool {
        self.st[k] != St::Dead
    }
    fn gone(&mut self, k: usize) {
        self.st[k] = St::Dead;
        self.x[k] = None;
        self.y[k] = None;
    }

    pub fn op<X, Y>(&mut self, nd: &mut Nd, op: u8)
    where
        X: Component + Val,
        Y: Component + Val,
        X::Storage: Default + Send + Sync,
        Y::Storage: Default + Send + Sync,
    {
        match op {
            b'X' => {
                let had = self.w.contains_component::<X>();
                let old = self.w.insert_component::<X>();
                prop!(old.is_some() == had, "registering a component again returns the old storage");
                prop!(self.w.contains_component::<X>(), "a registered component is contained");
                ::std::mem::forget(old);
                self.x = [None; MAX];
            }
            b'R' => {
                let old = self.w.remove_component::<X>();
                prop!(old.is_some() && !self.w.contains_component::<X>(), "a component can be unregistered");
                ::std::mem::forget(old);
                self.x = [None; MAX];
            }
            b'Y' => {
                self.w.insert_component::<Y>();
            }
            b'c' | b'C' => {
                let e = if op == b'c' { self.w.create_entity() } else { self.w.entities().create() };
                let mut k = 0;
                while k < self.n {
                    prop!(self.h[k] != Some(e), "a handle is never given out twice");
                    k += 1;
                }
                self.h[self.n] = Some(e);
                self.st[self.n] = St::Alive;
                self.n += 1;
            }
            b'm' => {
                self.w.merge();
                let mut k = 0;
                while k < self.n {
                    if self.st[k] == St::Pending {
                        self.gone(k);
                    }
                    k += 1;
                }
            }
            b'?' => self.answers::<X, Y>(),
            b'j' => self.joined::<X>(),
            _ => {
                let k = nd.below(self.n as u8) as usize;
                let v = nd.u8();
                let e = self.handle(k);
                let alive = self.alive(k);
                match op {
                    b'k' => {
                        prop!(self.w.delete_entity(e).is_ok() == alive, "deleting is accepted exactly for alive handles");
                        self.gone(k);
                    }
                    b'K' => {
                        prop!(self.w.entities().delete(e).is_ok() == alive, "deferred deletion is accepted exactly for alive handles");
                        if alive {
                            self.st[k] = St::Pending;
                        }
                    }
                    b'x' => match self.w.get_component_mut::<X>().insert(e, X::of(v)) {
                        Ok(old) => {
                            prop!(alive, "a stale handle inserts nothing");
                            prop!(old.map(|o| o.v()) == self.x[k], "inserting returns the replaced component");
                            self.x[k] = Some(v);
                        }
                        Err(_) => prop!(!alive, "inserting for an alive entity succeeds"),
                    },
                    b'y' => match self.w.write_component::<Y>().insert(e, Y::of(v)) {
                        Ok(old) => {
                            prop!(alive, "a stale handle inserts nothing");
                            prop!(old.map(|o| o.v()) == self.y[k], "inserting returns the replaced component");
                            self.y[k] = Some(v);
                        }
                        Err(_) => prop!(!alive, "inserting for an alive entity succeeds"),
                    },
                    b'r' => match self.w.get_component_mut::<X>().remove(e) {
                        Ok(old) => {
                            prop!(alive, "a stale handle removes nothing");
                            prop!(old.map(|o| o.v()) == self.x[k], "removing returns the component");
                            self.x[k] = None;
                        }
                        Err(_) => prop!(!alive, "removing for an alive entity succeeds"),
                    },
                    b'w' => match self.w.get_component_mut::<X>().get_or_insert_with(e, || X::of(v)) {
                        Ok(x) => {
                            prop!(alive, "a stale handle inserts nothing");
                            prop!(x.v() == self.x[k].unwrap_or(v), "a present component stays, an absent one is made");
                            self.x[k] = Some(x.v());
                        }
                        Err(_) => prop!(!alive, "get_or_insert_with for an alive entity succeeds"),
                    },
                    b'd' => match self.w.write_component::<X>().get_or_default(e) {
                        Ok(x) => {
                            prop!(alive, "a stale handle inserts nothing");
                            prop!(x.v() == self.x[k].unwrap_or(0), "a present component stays, an absent one is made");
                            self.x[k] = Some(x.v());
                        }
                        Err(_) => prop!(!alive, "get_or_default for an alive entity succeeds"),
                    },
                    b'g' => {
                        let mut c = self.w.get_component_mut::<X>();
                        match c.get_mut(e) {
                            Some(x) => {
                                prop!(Some(x.v()) == self.x[k], "a mutable lookup sees the entity's component");
                                x.set(v);
                                self.x[k] = Some(v);
                            }
                            None => prop!(self.x[k].is_none(), "a mutable lookup finds a present component"),
                        }
                    }
                    b'G' => {
                        let mut c = self.w.write_component::<X>();
                        match c.get_guard(e) {
                            Some(_) => prop!(self.x[k].is_some(), "a guarded lookup finds present components only"),
                            None => prop!(self.x[k].is_none(), "a guarded lookup finds a present component"),
                        }
                    }
                    _ => unreachable!(),
                }
            }
        }
    }

    /// Every handle sees exactly its own components.
    pub fn answers<X, Y>(&self)
    where
        X: Component + Val,
        Y: Component + Val,
        X::Storage: Send + Sync,
        Y::Storage: Send + Sync,
    {
        let x = self.w.read_component::<X>();
        let y = self.w.read_component::<Y>();
        let mut k = 0;
        while k < self.n {
            let e = self.handle(k);
            prop!(self.w.entities().is_alive(e) == self.alive(k), "is_alive is exact");
            prop!(x.get(e).map(|x| x.v()) == self.x[k], "a handle reads exactly its entity's component");
            prop!(x.contains(e) == self.x[k].is_some(), "a handle contains exactly its entity's component");
            prop!(y.get(e).map(|y| y.v()) == self.y[k], "a handle reads exactly its entity's second component");
            k += 1;
        }
    }

    /// Joining entities with components yields every pair once.
    pub fn joined<X>(&self)
    where
        X: Component + Val,
        X::Storage: Send + Sync,
    {
        let x = self.w.read_component::<X>();
        let es = self.w.entities();
        let mut seen = [false; MAX];
        let mut count = 0;
        let mut it = (&es, &x).join();
        let mut i = 0;
        while i <= MAX {
            match it.next() {
                Some((e, x)) => {
                    count += 1;
                    let mut k = 0;
                    while k < self.n {
                        if self.h[k] == Some(e) {
                            prop!(self.alive(k) && self.x[k] == Some(x.v()) && !seen[k], "joining yields alive entities with their components, once");
                            seen[k] = true;
                        }
                        k += 1;
                    }
                }
                None => break,
            }
            i += 1;
        }
        let mut want = 0;
        let mut k = 0;
        while k < self.n {
            if self.x[k].is_some() {
                want += 1;
            }
            k += 1;
        }
        prop!(count == want, "joining yields every entity that has the component");
    }
}
