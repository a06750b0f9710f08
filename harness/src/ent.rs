//! Shared driver for entity-allocator histories: a script of operations on one allocator, mirrored
//! by a list of every handle ever returned and its state.  The kinds of the operations are fixed
//! by the script, which handle (alive, pending or stale) each deletion targets is symbolic.
use crate::env;
use crate::nd::Nd;
use goggles::entity::{Allocator, Entity};
use goggles::hibitset::BitSetLike;
use goggles::{IntoJoinExt, JoinIter, World};

pub const MAX: usize = 6;

#[derive(Clone, Copy, PartialEq)]
pub enum St {
    Alive,
    Pending,
    Dead,
}

pub struct Hist {
    pub h: [Option<Entity>; MAX],
    pub st: [St; MAX],
    pub n: usize,
}

/// What a history runs on: an allocator, or a world.
pub trait Ents {
    /// Whether merging tells which entities it deleted.
    const REPORTS: bool;
    fn create(&mut self) -> Entity;
    fn create_deferred(&self) -> Entity;
    fn kill(&mut self, e: Entity) -> bool;
    fn kill_deferred(&self, e: Entity) -> bool;
    fn merge(&mut self, killed: &mut Vec<Entity>);
    fn alive(&self, e: Entity) -> bool;
    fn at(&self, index: u32) -> Option<Entity>;
    fn live(&self, index: u32) -> bool;
    fn count(&self) -> u32;
    fn joining<R>(&self, f: impl FnOnce(JoinIter<&Allocator>) -> R) -> R;
}

impl Ents for Allocator {
    const REPORTS: bool = true;
    fn create(&mut self) -> Entity {
        self.allocate()
    }
    fn create_deferred(&self) -> Entity {
        self.allocate_atomic()
    }
    fn kill(&mut self, e: Entity) -> bool {
        Allocator::kill(self, e).is_ok()
    }
    fn kill_deferred(&self, e: Entity) -> bool {
        self.kill_atomic(e).is_ok()
    }
    fn merge(&mut self, killed: &mut Vec<Entity>) {
        self.merge_atomic(killed)
    }
    fn alive(&self, e: Entity) -> bool {
        self.is_alive(e)
    }
    fn at(&self, index: u32) -> Option<Entity> {
        self.entity(index)
    }
    fn live(&self, index: u32) -> bool {
        self.live_bitset().contains(index)
    }
    fn count(&self) -> u32 {
        self.max_entity_count()
    }
    fn joining<R>(&self, f: impl FnOnce(JoinIter<&Allocator>) -> R) -> R {
        f(self.join())
    }
}

impl Ents for World {
    const REPORTS: bool = false;
    fn create(&mut self) -> Entity {
        self.create_entity()
    }
    fn create_deferred(&self) -> Entity {
        self.entities().create()
    }
    fn kill(&mut self, e: Entity) -> bool {
        self.delete_entity(e).is_ok()
    }
    fn kill_deferred(&self, e: Entity) -> bool {
        self.entities().delete(e).is_ok()
    }
    fn merge(&mut self, _: &mut Vec<Entity>) {
        World::merge(self)
    }
    fn alive(&self, e: Entity) -> bool {
        self.entities().is_alive(e)
    }
    fn at(&self, index: u32) -> Option<Entity> {
        self.entities().entity(index)
    }
    fn live(&self, index: u32) -> bool {
        self.entities().live_bitset().contains(index)
    }
    fn count(&self) -> u32 {
        self.entities().max_entity_count()
    }
    fn joining<R>(&self, f: impl FnOnce(JoinIter<&Allocator>) -> R) -> R {
        let es = self.entities();
        let r = f((&es).join());
        r
    }
}

/// Runs `script`, checking the answers of every operation and the property `C` (1, 2 or 3).
/// a allocate   A allocate_atomic   k kill(any handle)   K kill_atomic(any handle)   m merge
/// c creation of either kind   d deletion of either kind
/// ? every question about the current state
pub fn run<const C: u8>(nd: &mut Nd, script: &[u8]) {
    on::<C, Allocator>(nd, script, Allocator::new());
}

/// The same on a world without any component type.
pub fn world<const C: u8>(nd: &mut Nd, script: &[u8]) {
    on::<C, World>(nd, script, World::new());
}

fn on<const C: u8, E: Ents>(nd: &mut Nd, script: &[u8], mut a: E) {
    env::iter_max(5);
    let mut h = Hist { h: [None; MAX], st: [St::Dead; MAX], n: 0 };
    let mut i = 0;
    while i < script.len() {
        h.op::<C, E>(&mut a, nd, script[i]);
        i += 1;
    }
    h.answers::<C, E>(&a);
    ::std::mem::forget(a);
}

impl Hist {
    pub fn handle(&self, k: usize) -> Entity {
        match self.h[k] {
            Some(e) => e,
            None => unreachable!(),
        }
    }

    pub fn op<const C: u8, E: Ents>(&mut self, a: &mut E, nd: &mut Nd, op: u8) {
        match op {
            b'a' | b'A' | b'c' => {
                let now = if op == b'c' { nd.bool() } else { op == b'a' };
                let e = if now { a.create() } else { a.create_deferred() };
                if C == 1 {
                    self.fresh(e);
                }
                prop!(a.alive(e), "a handle is alive right after its creation");
                let n = self.n;
                self.h[n] = Some(e);
                self.st[n] = St::Alive;
                self.n = n + 1;
            }
            b'k' | b'K' | b'd' => {
                let k = nd.below(self.n as u8) as usize;
                let e = self.handle(k);
                let now = if op == b'd' { nd.bool() } else { op == b'k' };
                let ok = if now { a.kill(e) } else { a.kill_deferred(e) };
                prop!(ok == (self.st[k] != St::Dead), "deleting is accepted exactly for alive handles");
                if self.st[k] != St::Dead {
                    self.st[k] = if now { St::Dead } else { St::Pending };
                }
            }
            b'?' => self.answers::<C, E>(a),
            _ => self.merge::<C, E>(a, nd),
        }
    }

    pub fn merge<const C: u8, E: Ents>(&mut self, a: &mut E, nd: &mut Nd) {
        let mut killed = Vec::new();
        if C == 3 && E::REPORTS && nd.bool() {
            // leftovers in the list passed in
            killed.push(self.handle(0));
        }
        a.merge(&mut killed);
        if C == 3 && E::REPORTS {
            let mut want = 0;
            let mut k = 0;
            while k < self.n {
                let e = self.handle(k);
                let mut seen = 0;
                let mut i = 0;
                while i < self.n {
                    if i < killed.len() && killed[i] == e {
                        seen += 1;
                    }
                    i += 1;
                }
                if self.st[k] == St::Pending {
                    want += 1;
                    prop!(seen == 1, "merge reports each deferred deletion exactly once");
                } else {
                    prop!(seen == 0, "merge reports nothing but deferred deletions");
                }
                k += 1;
            }
            prop!(killed.len() == want, "merge reports exactly the deferred deletions");
        }
        let mut k = 0;
        while k < self.n {
            if self.st[k] == St::Pending {
                self.st[k] = St::Dead;
            }
            k += 1;
        }
    }

    /// A newly returned handle differs from all earlier ones.
    pub fn fresh(&self, e: Entity) {
        prop!(e.generation() != 0, "a generation is never zero");
        let mut k = 0;
        while k < self.n {
            let o = self.handle(k);
            prop!(o != e, "a handle is never given out twice");
            if o.index() == e.index() {
                prop!(self.st[k] == St::Dead, "an index is reused only after its entity was deleted");
                prop!(e.generation() > o.generation(), "a reused index gets a larger generation");
            }
            k += 1;
        }
    }

    /// Every answer about liveness agrees with the history.
    pub fn answers<const C: u8, E: Ents>(&self, a: &E) {
        let mut k = 0;
        while k < self.n {
            let e = self.handle(k);
            prop!(a.alive(e) == (self.st[k] != St::Dead), "is_alive is exact");
            k += 1;
        }
        if C != 2 {
            return;
        }
        let mut top = 0;
        let mut k = 0;
        while k < self.n {
            top = top.max(self.handle(k).index() + 1);
            k += 1;
        }
        prop!(a.count() == top, "the maximum entity count is the highest index ever given out, plus one");
        let mut i = 0;
        while i <= self.n {
            let mut owner = None;
            let mut k = 0;
            while k < self.n {
                if self.st[k] != St::Dead && self.handle(k).index() == i as u32 {
                    owner = self.h[k];
                }
                k += 1;
            }
            prop!(a.at(i as u32) == owner, "entity(index) is exact");
            prop!(a.live(i as u32) == owner.is_some(), "the live set is exact");
            i += 1;
        }
        a.joining(|it| self.joined(it));
    }

    /// Joining over the allocator yields exactly the alive entities.
    fn joined(&self, mut it: JoinIter<&Allocator>) {
        let mut count = 0;
        let mut i = 0;
        while i <= self.n {
            match it.next() {
                Some(e) => {
                    count += 1;
                    let mut alive = false;
                    let mut k = 0;
                    while k < self.n {
                        if self.st[k] != St::Dead && self.h[k] == Some(e) {
                            alive = true;
                        }
                        k += 1;
                    }
                    prop!(alive, "joining the entities yields only alive handles");
                }
                None => break,
            }
            i += 1;
        }
        let mut want = 0;
        let mut k = 0;
        while k < self.n {
            if self.st[k] != St::Dead {
                want += 1;
            }
            k += 1;
        }
        prop!(count == want, "joining the entities yields every alive handle once");
    }
}
