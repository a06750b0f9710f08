//! Shared: a masked storage next to a list of (index, value) pairs.
use crate::env;
use crate::nd::{assume, Nd};
use goggles::hibitset::BitSetLike;
use goggles::{DenseVecStorage, Flagged, HashMapStorage, Index, MaskedStorage, RawStorage, VecStorage};

/// Three distinct arbitrary indices below 2^24, ascending.
pub fn ids(nd: &mut Nd) -> [u32; 3] {
    env::iter_max(3);
    let far = env::far(nd);
    let n = env::NEAR as u8;
    let first = nd.below(4) as u32;
    let ids = if env::near() { [first, far[0] & 3, far[2] & 3] } else { [first, far[0], far[2]] };
    #[cfg(not(kani))]
    if crate::nd::sampling() {
        let mut s = ids;
        s.sort();
        if s[1] == s[0] { s[1] = s[0] + 1 }
        if s[2] <= s[1] { s[2] = s[1] + 1 }
        return s;
    }
    assume(ids[0] < ids[1] && ids[1] < ids[2]);
    ids
}

pub struct Map {
    pub ids: [u32; 3],
    pub v: [Option<u8>; 3],
}

impl Map {
    pub fn new(nd: &mut Nd) -> Map {
        Map { ids: ids(nd), v: [None; 3] }
    }

    /// Puts symbolic contents into an empty storage.
    pub fn fill<S: RawStorage<Item = u8>>(&mut self, nd: &mut Nd, s: &mut MaskedStorage<S>) {
        let mut k = 0;
        while k < 3 {
            if nd.bool() {
                let v = nd.u8();
                s.insert(self.ids[k], v);
                self.v[k] = Some(v);
            }
            k += 1;
        }
    }

    /// One arbitrary safe call.
    pub fn op<S: RawStorage<Item = u8>>(&mut self, nd: &mut Nd, s: &mut MaskedStorage<S>, op: u8) {
        let k = nd.below(3) as usize;
        let v = nd.u8();
        let i = self.ids[k];
        let was = self.v[k];
        match op {
            b'i' => {
                let r = s.insert(i, v);
                prop!(r == was, "insert returns the replaced value");
                self.v[k] = Some(v);
            }
            b'r' => {
                let r = s.remove(i);
                prop!(r == was, "remove returns the present value");
                self.v[k] = None;
            }
            b'm' => match s.get_mut(i) {
                Some(x) => {
                    prop!(Some(*x) == was, "get_mut yields the present value");
                    *x = v;
                    self.v[k] = Some(v);
                }
                None => prop!(was.is_none(), "get_mut finds every present value"),
            },
            b'w' => {
                let mut called = false;
                let x = s.get_or_insert_with(i, || {
                    called = true;
                    v
                });
                match was {
                    Some(o) => prop!(*x == o, "get_or_insert_with returns the present value"),
                    None => prop!(*x == v, "get_or_insert_with returns the new value"),
                }
                *x = x.wrapping_add(1);
                prop!(called == was.is_none(), "the constructor is called exactly if the index is empty");
                self.v[k] = Some(match was { Some(o) => o, None => v }.wrapping_add(1));
            }
            b'g' => match s.get_guard(i) {
                Some(mut g) => {
                    prop!(Some(*g.get()) == was, "a guard reads the present value");
                    *g.get_mut() = v;
                    self.v[k] = Some(v);
                }
                None => prop!(was.is_none(), "get_guard finds every present value"),
            },
            _ => {}
        }
    }

    pub fn check<S: RawStorage<Item = u8>>(&self, s: &MaskedStorage<S>) {
        let mut k = 0;
        while k < 3 {
            prop!(s.contains(self.ids[k]) == self.v[k].is_some(), "contains is exact");
            prop!(s.get(self.ids[k]).copied() == self.v[k], "get is exact");
            k += 1;
        }
    }

    /// The mask has no other member either.
    pub fn mask<S: RawStorage<Item = u8>>(&self, s: &MaskedStorage<S>) {
        let mut it = s.mask().iter();
        let mut k = 0;
        while k < 3 {
            if self.v[k].is_some() {
                prop!(it.next() == Some(self.ids[k]), "the mask is exactly the set of present indices");
            }
            k += 1;
        }
        prop!(it.next().is_none(), "the mask is exactly the set of present indices");
    }
}

/// Runs a script of calls with arbitrary arguments against the list.
pub fn run<S: RawStorage<Item = u8> + Default>(nd: &mut Nd, script: &[u8]) {
    let mut m = Map::new(nd);
    let mut s = MaskedStorage::<S>::default();
    let mut i = 0;
    while i < script.len() {
        m.op(nd, &mut s, script[i]);
        i += 1;
    }
    m.check(&s);
    m.mask(&s);
}
