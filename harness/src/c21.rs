//! C21: dynamic component sets transfer components faithfully.
use crate::env;
use crate::nd::Nd;
use crate::wld::*;
use goggles::world_common::ComponentStorage;
use goggles::{AnyCloneComponentSet, AnyComponentSet, Component, Entity, World};

type M = [Option<u8>; 3];

fn op<X: Component + Val + Clone>(s: &mut AnyComponentSet, c: &mut AnyCloneComponentSet, m: &mut M, k: usize, op: u8, v: u8)
where
    X::Storage: Send,
{
    match op {
        b'i' => {
            prop!(s.insert(X::of(v)).map(|o| o.v()) == m[k], "inserting returns the replaced value");
            prop!(c.insert(X::of(v)).map(|o| o.v()) == m[k], "inserting returns the replaced value (cloneable)");
            m[k] = Some(v);
        }
        b'g' => {
            match s.get_mut::<X>() {
                Some(x) => {
                    prop!(Some(x.v()) == m[k], "get_mut finds the value");
                    x.set(v);
                }
                None => prop!(m[k].is_none(), "get_mut finds the value"),
            }
            match c.get_mut::<X>() {
                Some(x) => {
                    prop!(Some(x.v()) == m[k], "get_mut finds the value (cloneable)");
                    x.set(v);
                    m[k] = Some(v);
                }
                None => prop!(m[k].is_none(), "get_mut finds the value (cloneable)"),
            }
        }
        _ => {
            // the cloneable set has no removal
            prop!(s.remove::<X>().map(|o| o.v()) == m[k], "removing returns the value");
            prop!(!s.contains::<X>() && s.get::<X>().is_none(), "a removed value is gone");
            prop!(c.get::<X>().map(|o| o.v()) == m[k], "the sets are independent");
            if let Some(v) = m[k] {
                s.insert(X::of(v));
            }
        }
    }
}
fn holds<X: Component + Val + Clone>(s: &AnyComponentSet, m: Option<u8>)
where
    X::Storage: Send,
{
    prop!(s.get::<X>().map(|o| o.v()) == m, "a value comes back unchanged under its own type");
    prop!(s.contains::<X>() == m.is_some(), "contains is exact");
}
fn holds_clone<X: Component + Val + Clone>(s: &AnyCloneComponentSet, m: Option<u8>)
where
    X::Storage: Send,
{
    prop!(s.get::<X>().map(|o| o.v()) == m, "a cloneable set keeps its values");
    prop!(s.contains::<X>() == m.is_some(), "contains is exact (cloneable)");
}
fn is(s: &AnyComponentSet, m: &M) {
    holds::<A>(s, m[0]);
    holds::<B>(s, m[1]);
    holds::<C>(s, m[2]);
    prop!(s.len() == m.iter().filter(|x| x.is_some()).count(), "the length is the number of component types");
}
fn is_clone(s: &AnyCloneComponentSet, m: &M) {
    holds_clone::<A>(s, m[0]);
    holds_clone::<B>(s, m[1]);
    holds_clone::<C>(s, m[2]);
}
fn set(nd: &mut Nd, script: &[u8], types: u8) {
    let (mut s, mut c, mut m) = (AnyComponentSet::new(), AnyCloneComponentSet::new(), [None; 3]);
    let mut i = 0;
    while i < script.len() {
        let v = nd.u8();
        match nd.below(types) {
            0 => op::<A>(&mut s, &mut c, &mut m, 0, script[i], v),
            1 => op::<B>(&mut s, &mut c, &mut m, 1, script[i], v),
            _ => op::<C>(&mut s, &mut c, &mut m, 2, script[i], v),
        }
        i += 1;
    }
    is(&s, &m);
    is_clone(&c, &m);
    ::std::mem::forget(s);
    ::std::mem::forget(c);
}

/// A set with the given members, and what it holds.
fn made(nd: &mut Nd, a: bool, b: bool, c: bool) -> (AnyComponentSet, M) {
    let mut s = AnyComponentSet::new();
    let mut m = [None; 3];
    if a {
        let v = nd.u8();
        s.insert(A(v));
        m[0] = Some(v);
    }
    if b {
        let v = nd.u8();
        s.insert(B(v));
        m[1] = Some(v);
    }
    if c {
        let v = nd.u8();
        s.insert(C(v));
        m[2] = Some(v);
    }
    (s, m)
}
fn made_clone(nd: &mut Nd, a: bool, b: bool, c: bool) -> (AnyCloneComponentSet, M) {
    let mut s = AnyCloneComponentSet::new();
    let mut m = [None; 3];
    if c {
        let v = nd.u8();
        s.insert(C(v));
        m[2] = Some(v);
    }
    if b {
        let v = nd.u8();
        s.insert(B(v));
        m[1] = Some(v);
    }
    if a {
        let v = nd.u8();
        s.insert(A(v));
        m[0] = Some(v);
    }
    (s, m)
}
fn on_top(m: &M, o: &M) -> (M, bool) {
    let (mut r, mut over) = (*m, false);
    let mut k = 0;
    while k < 3 {
        if o[k].is_some() {
            over |= m[k].is_some();
            r[k] = o[k];
        }
        k += 1;
    }
    (r, over)
}
fn merge(nd: &mut Nd, x: [bool; 3], y: [bool; 3]) {
    let (mut s, m) = made(nd, x[0], x[1], x[2]);
    let (t, n) = made(nd, y[0], y[1], y[2]);
    let (want, over) = on_top(&m, &n);
    prop!(s.merge(t) == over, "merging reports whether anything was overwritten");
    is(&s, &want);
    ::std::mem::forget(s);
}
fn merge_clone(nd: &mut Nd, x: [bool; 3], y: [bool; 3]) {
    let (mut s, m) = made_clone(nd, x[0], x[1], x[2]);
    let (t, n) = made_clone(nd, y[0], y[1], y[2]);
    let (want, over) = on_top(&m, &n);
    prop!(s.merge(t) == over, "merging reports whether anything was overwritten (cloneable)");
    is_clone(&s, &want);
    ::std::mem::forget(s);
}
/// A cloneable set put into a set, twice.
fn clone_into(nd: &mut Nd, x: [bool; 3], y: [bool; 3]) {
    let (mut s, m) = made(nd, x[0], x[1], x[2]);
    let (t, n) = made_clone(nd, y[0], y[1], y[2]);
    let (want, over) = on_top(&m, &n);
    prop!(t.clone_into_set(&mut s) == over, "cloning into a set reports whether anything was overwritten");
    is(&s, &want);
    is_clone(&t, &n);
    ::std::mem::forget(s);
    ::std::mem::forget(t);
}

/// A set is inserted for one of two entities, or for one that is dead.
fn world(nd: &mut Nd, x: [bool; 3], clone: bool) {
    place!(ComponentStorage<A>);
    place!(ComponentStorage<B>);
    place!(ComponentStorage<C>);
    env::iter_max(4);
    let mut w = World::new();
    w.insert_component::<A>();
    w.insert_component::<B>();
    w.insert_component::<C>();
    let mut has = [[None; 3]; 4];
    let dead = w.create_entity();
    let pending = w.create_entity();
    let one = w.create_entity();
    let _ = w.delete_entity(dead);
    let two = w.entities().create();
    let _ = w.entities().delete(pending);
    let e = [dead, pending, one, two];
    // what the entities have already
    let mut k = 1;
    while k < 3 {
        if nd.bool() {
            let v = nd.u8();
            let _ = w.get_component_mut::<A>().insert(e[k], A(v));
            has[k][0] = Some(v);
        }
        if nd.bool() {
            let v = nd.u8();
            let _ = w.get_component_mut::<B>().insert(e[k], B(v));
            has[k][1] = Some(v);
        }
        k += 1;
    }
    let k = nd.below(4) as usize;
    let (want, over);
    if clone {
        let (s, m) = made_clone(nd, x[0], x[1], x[2]);
        (want, over) = on_top(&has[k], &m);
        match s.insert_into_world(&mut w, e[k]) {
            Ok(o) => prop!(o == over && (k != 0 || m == [None; 3]), "inserting reports whether anything was overwritten"),
            Err(_) => prop!(k == 0, "inserting for an alive entity succeeds"),
        }
        is_clone(&s, &m);
        ::std::mem::forget(s);
    } else {
        let (s, m) = made(nd, x[0], x[1], x[2]);
        (want, over) = on_top(&has[k], &m);
        match s.insert_into_world(&mut w, e[k]) {
            Ok(o) => prop!(o == over && (k != 0 || m == [None; 3]), "inserting reports whether anything was overwritten"),
            Err(_) => prop!(k == 0, "inserting for an alive entity succeeds"),
        }
    }
    if k != 0 {
        has[k] = want;
    }
    {
        let (a, b, c) = (w.read_component::<A>(), w.read_component::<B>(), w.read_component::<C>());
        let mut k = 0;
        while k < 4 {
            prop!(a.get(e[k]).map(|x| x.0) == has[k][0], "every entity has exactly its components");
            prop!(b.get(e[k]).map(|x| x.0) == has[k][1], "every entity has exactly its components");
            prop!(c.get(e[k]).map(|x| x.0) == has[k][2], "every entity has exactly its components");
            k += 1;
        }
    }
    ::std::mem::forget(w);
}
const T: bool = true;
const F: bool = false;

harnesses! {
    c21_set_a [5] => |nd: &mut Nd| set(nd, b"iig", 2);
    c21_set_b [5] => |nd: &mut Nd| set(nd, b"ir", 2);
    c21_set_c [5] => |nd: &mut Nd| set(nd, b"igi", 2);
    c21_merge_none [5] => |nd: &mut Nd| merge(nd, [F, F, F], [T, F, T]);
    c21_merge_other [5] => |nd: &mut Nd| merge(nd, [T, F, F], [F, T, T]);
    c21_merge_first [5] => |nd: &mut Nd| merge(nd, [T, F, T], [T, T, F]);
    c21_merge_last [5] => |nd: &mut Nd| merge(nd, [F, T, T], [T, F, T]);
    c21_merge_clone [5] => |nd: &mut Nd| merge_clone(nd, [T, F, T], [T, T, F]);
    c21_merge_clone_other [5] => |nd: &mut Nd| merge_clone(nd, [T, F, F], [F, T, T]);
    c21_clone_into [5] => |nd: &mut Nd| clone_into(nd, [T, F, T], [T, T, F]);
    c21_clone_into_other [5] => |nd: &mut Nd| clone_into(nd, [F, F, T], [T, T, F]);
    c21_world_none [5] => |nd: &mut Nd| world(nd, [F, F, F], false);
    c21_world_ab [5] => |nd: &mut Nd| world(nd, [T, T, F], false);
    c21_world_ac [5] => |nd: &mut Nd| world(nd, [T, F, T], false);
    c21_world_clone_ab [5] => |nd: &mut Nd| world(nd, [T, T, F], true);
    c21_world_clone_c [5] => |nd: &mut Nd| world(nd, [F, F, T], true);
}
