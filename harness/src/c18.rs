//! C18: a resource set is a typed map with checked borrows.
use crate::env;
use crate::nd::{assume, Nd};
use goggles::{MakeSync, Read, ResourceSet, World, Write};
use std::cell::Cell;

#[derive(Default, Debug)]
pub struct R(u8);
#[derive(Default, Debug)]
pub struct S(u8);
/// Not `Sync`: can only be borrowed mutably.
#[derive(Default, Debug)]
pub struct T(Cell<u8>);

trait V: Send + 'static {
    const K: usize;
    fn of(v: u8) -> Self;
    fn v(&self) -> u8;
    fn set(&mut self, v: u8);
}
impl V for R {
    const K: usize = 0;
    fn of(v: u8) -> R { R(v) }
    fn v(&self) -> u8 { self.0 }
    fn set(&mut self, v: u8) { self.0 = v }
}
impl V for S {
    const K: usize = 1;
    fn of(v: u8) -> S { S(v) }
    fn v(&self) -> u8 { self.0 }
    fn set(&mut self, v: u8) { self.0 = v }
}
impl V for T {
    const K: usize = 2;
    fn of(v: u8) -> T { T(Cell::new(v)) }
    fn v(&self) -> u8 { self.0.get() }
    fn set(&mut self, v: u8) { self.0.set(v) }
}

fn op<X: V>(s: &mut ResourceSet, m: &mut [Option<u8>; 3], op: u8, v: u8) {
    match op {
        b'i' => {
            let old = s.insert(X::of(v));
            prop!(old.map(|o| o.v()) == m[X::K], "inserting returns the replaced value");
            m[X::K] = Some(v);
        }
        b'r' => {
            let old = s.remove::<X>();
            prop!(old.map(|o| o.v()) == m[X::K], "removing returns the value");
            m[X::K] = None;
        }
        b'g' => {
            if m[X::K].is_some() {
                prop!(Some(s.get_mut::<X>().v()) == m[X::K], "get_mut finds the value");
                s.get_mut::<X>().set(v);
                m[X::K] = Some(v);
            }
        }
        _ => {
            if m[X::K].is_some() {
                let mut b = s.borrow_mut::<X>();
                prop!(Some(b.v()) == m[X::K], "a borrow finds the value");
                b.set(v);
                m[X::K] = Some(v);
            }
        }
    }
}
fn check(s: &ResourceSet, m: &[Option<u8>; 3]) {
    prop!(s.contains::<R>() == m[0].is_some(), "contains is exact");
    prop!(s.contains::<S>() == m[1].is_some(), "contains is exact");
    prop!(s.contains::<T>() == m[2].is_some(), "contains is exact");
    if m[0].is_some() {
        prop!(Some(s.borrow::<R>().v()) == m[0], "a value comes back under its own type");
    }
    if m[1].is_some() {
        prop!(Some(s.borrow::<S>().v()) == m[1], "a value comes back under its own type");
    }
    if m[2].is_some() {
        prop!(Some(s.borrow_mut::<T>().v()) == m[2], "a value comes back under its own type");
    }
}
fn map(nd: &mut Nd, script: &[u8], types: u8) {
    place!(R);
    place!(S);
    place!(T);
    let mut s = ResourceSet::new();
    let mut m = [None; 3];
    check(&s, &m);
    let mut i = 0;
    while i < script.len() {
        let v = nd.u8();
        match nd.below(types) {
            0 => op::<R>(&mut s, &mut m, script[i], v),
            2 => op::<S>(&mut s, &mut m, script[i], v),
            _ => op::<T>(&mut s, &mut m, script[i], v),
        }
        i += 1;
    }
    check(&s, &m);
    ::std::mem::forget(s);
}

/// What is held on `R` while `R` or `S` is asked for.
enum Held<A, B> {
    Nothing,
    Shared(A),
    Two(A, A),
    Mut(B),
}
/// One request in one state of the guards; `granted` says whether it has to succeed.
fn request(nd: &mut Nd, granted: bool) {
    place!(R);
    place!(S);
    let mut s = ResourceSet::new();
    let (r, t, u) = (nd.u8(), nd.u8(), nd.u8());
    let present = nd.bool();
    s.insert(S(t));
    if present {
        s.insert(R(r));
    }
    let other = nd.bool();
    let o = if other { Some(s.borrow_mut::<S>()) } else { None };
    let state = nd.below(6);
    assume(present || state == 0);
    let (mut shared, mut unique) = (0, false);
    let h = match state {
        0 => Held::Nothing,
        1 => {
            shared = 1;
            Held::Shared(s.borrow::<R>())
        }
        2 => {
            shared = 2;
            Held::Two(s.borrow::<R>(), s.borrow::<R>())
        }
        3 => {
            unique = true;
            Held::Mut(s.borrow_mut::<R>())
        }
        4 => {
            // released again
            let b = s.borrow::<R>();
            drop(b);
            Held::Nothing
        }
        _ => {
            let b = s.borrow_mut::<R>();
            drop(b);
            Held::Nothing
        }
    };
    let write = nd.bool();
    let fetch = nd.bool();
    let ok = present && !unique && !(write && shared > 0);
    assume(ok == granted);
    asked!();
    match (write, fetch) {
        (false, false) => prop!(s.borrow::<R>().v() == r && granted, "only a borrow that is allowed is granted"),
        (false, true) => prop!(s.fetch::<Read<R>>().v() == r && granted, "only a borrow that is allowed is granted"),
        (true, false) => {
            let mut b = s.borrow_mut::<R>();
            prop!(b.v() == r && granted, "only a mutable borrow that is allowed is granted");
            b.set(u);
        }
        (true, true) => {
            let mut b = s.fetch::<Write<R>>();
            prop!(b.v() == r && granted, "only a mutable borrow that is allowed is granted");
            b.set(u);
        }
    }
    drop(h);
    drop(o);
    let mut w = s.borrow_mut::<R>();
    prop!(w.v() == if write { u } else { r }, "what was written through a borrow is seen afterwards");
    w.set(1);
    drop(w);
    ::std::mem::forget(s);
}
fn missing(nd: &mut Nd) {
    let mut s = ResourceSet::new();
    let mut m = World::new();
    s.insert(S(1));
    m.insert_resource(S(1));
    asked!();
    match nd.below(8) {
        0 => drop(s.borrow::<R>()),
        1 => drop(s.borrow_mut::<T>()),
        2 => s.get_mut::<R>().set(1),
        3 => drop(s.fetch::<Read<R>>()),
        4 => drop(s.fetch::<Write<T>>()),
        5 => drop(m.read_resource::<R>()),
        6 => drop(m.write_resource::<T>()),
        _ => m.get_resource_mut::<R>().set(1),
    }
    prop!(false, "borrowing a missing resource panics");
}
fn world(nd: &mut Nd) {
    place!(R);
    place!(T);
    let mut w = World::new();
    let (a, b, c) = (nd.u8(), nd.u8(), nd.u8());
    prop!(!w.contains_resource::<R>() && w.insert_resource(R(a)).is_none(), "a new world has no resources");
    prop!(w.insert_resource(T::of(b)).is_none() && w.contains_resource::<T>(), "resources are kept by type");
    prop!(w.read_resource::<R>().v() == a && w.write_resource::<T>().v() == b, "a resource comes back under its own type");
    w.write_resource::<R>().set(c);
    w.get_resource_mut::<T>().set(a);
    if nd.bool() {
        prop!(w.insert_resource(R(b)).map(|r| r.v()) == Some(c), "inserting returns the replaced value");
        prop!(w.remove_resource::<R>().map(|r| r.v()) == Some(b), "removing returns the value");
    } else {
        prop!(w.remove_resource::<R>().map(|r| r.v()) == Some(c), "removing returns the value");
    }
    prop!(w.remove_resource::<R>().is_none() && !w.contains_resource::<R>(), "a removed resource is gone");
    prop!(w.remove_resource::<T>().map(|t| t.v()) == Some(a), "the other resource is untouched");
    ::std::mem::forget(w);
}
fn make_sync(nd: &mut Nd) {
    let (a, b) = (nd.u8(), nd.u8());
    let mut m = MakeSync::new(R(a));
    prop!(m.get().v() == a && m.get_mut().v() == a, "the wrapper returns what it was given");
    m.get_mut().set(b);
    prop!(m.into_inner().v() == b, "the wrapper returns what was written to it");
}

harnesses! {
    c18_a [6] => |nd: &mut Nd| map(nd, b"iir", 3);
    c18_b [6] => |nd: &mut Nd| map(nd, b"iri", 2);
    c18_c [6] => |nd: &mut Nd| map(nd, b"iigi", 2);
    c18_d [6] => |nd: &mut Nd| map(nd, b"iirb", 2);
    c18_e [6] => |nd: &mut Nd| map(nd, b"ibgr", 2);
    c18_granted [5] => |nd: &mut Nd| request(nd, true);
    c18_refused [5] => |nd: &mut Nd| request(nd, false);
    c18_missing [5] => missing;
    c18_world [5] => world;
    c18_make_sync [5] => make_sync;
}
