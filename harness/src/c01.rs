//! C01: entity handles are never handed out twice.
use crate::ent::{run, world};
use crate::env;
use crate::nd::{assume, Nd};
use goggles::entity::{Allocator, Entity};

/// Deleting and creating again on an index with an arbitrary generation behind it.
fn reuse(nd: &mut Nd, deferred: bool) {
    env::iter_max(4);
    let mut a = Allocator::new();
    let h = [a.allocate(), a.allocate()];
    prop!(h[0] != h[1], "a handle is never given out twice");
    let g = nd.u32();
    assume(0 < g && g < i32::MAX as u32 - 1);
    prop!(a.kill(h[0]).is_ok(), "an alive entity can be deleted");
    #[cfg(not(goggles_verif))]
    assume(g == 1);
    #[cfg(goggles_verif)]
    match ::std::num::NonZeroI32::new(g as i32) {
        Some(g) => a.verif_set_generation(h[0].index(), g),
        None => {}
    }
    let new = |e: Entity, last: u32| {
        prop!(e != h[1], "a handle is never given out twice");
        prop!(e.generation() != 0, "a generation is never zero");
        if e.index() == h[0].index() {
            prop!(e.generation() > last, "a reused index gets a larger generation");
        }
        prop!(e.index() != h[1].index(), "an index is reused only after its entity was deleted");
    };
    let e = if deferred { a.allocate_atomic() } else { a.allocate() };
    new(e, g);
    let mut killed = Vec::new();
    if nd.bool() {
        prop!(a.kill(e).is_ok(), "an alive entity can be deleted");
    } else {
        prop!(a.kill_atomic(e).is_ok(), "an alive entity can be deleted");
        a.merge_atomic(&mut killed);
    }
    let f = if deferred { a.allocate() } else { a.allocate_atomic() };
    prop!(f != e, "a handle is never given out twice");
    new(f, e.generation());
    ::std::mem::forget(a);
}

harnesses! {
    c01_reuse_now [6] => |nd: &mut Nd| reuse(nd, false);
    c01_reuse_deferred [6] => |nd: &mut Nd| reuse(nd, true);
    c01_a [9] => |nd: &mut Nd| run::<1>(nd, b"aaakka");
    c01_b [9] => |nd: &mut Nd| run::<1>(nd, b"aaakkAA");
    c01_c [9] => |nd: &mut Nd| run::<1>(nd, b"aAkAkma");
    c01_d [9] => |nd: &mut Nd| run::<1>(nd, b"aAKAKma");
    c01_e [9] => |nd: &mut Nd| run::<1>(nd, b"aaKkmAma");
    c01_f [9] => |nd: &mut Nd| run::<1>(nd, b"aaKKmaa");
    c01_g [9] => |nd: &mut Nd| run::<1>(nd, b"aakAka");
    c01_h [9] => |nd: &mut Nd| run::<1>(nd, b"aakAmka");
    c01_i [9] => |nd: &mut Nd| run::<1>(nd, b"AAKmAma");
    c01_j [9] => |nd: &mut Nd| run::<1>(nd, b"aKmAKma");
    c01_k [9] => |nd: &mut Nd| run::<1>(nd, b"akAkAka");
    c01_l [9] => |nd: &mut Nd| run::<1>(nd, b"AAkkAa");
    c01_w_a [9] => |nd: &mut Nd| world::<1>(nd, b"aaKkmAma");
    c01_w_b [9] => |nd: &mut Nd| world::<1>(nd, b"aAkAKma");
}
