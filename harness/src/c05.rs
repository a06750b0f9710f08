//! C05: an index whose generations are used up is never used again.
//!
//! Which generation the deleted entity had is symbolic (hook `verif_set_generation`).
use crate::env;
use crate::nd::{assume, Nd};
use goggles::entity::{Allocator, Entity};
use goggles::hibitset::BitSetLike;
use goggles::{IntoJoinExt, Join};
use std::num::NonZeroI32;

const LAST: u32 = i32::MAX as u32;

/// Three entities, one of them deleted; its last generation was `g`.
fn used(nd: &mut Nd, any: bool) -> (Allocator, [Entity; 3], usize, u32) {
    env::iter_max(4);
    let mut a = Allocator::new();
    let h = [a.allocate(), a.allocate(), a.allocate()];
    let k = if any { nd.below(3) as usize } else { 0 };
    prop!(a.kill(h[k]).is_ok(), "an alive entity can be deleted");
    let g = nd.u32();
    assume(0 < g && g <= LAST);
    match NonZeroI32::new(g as i32) {
        Some(g) => a.verif_set_generation(h[k].index(), g),
        None => {}
    }
    (a, h, k, g)
}
fn check(a: &Allocator, h: &[Entity; 3], k: usize, e: Entity, g: u32) {
    prop!(e.index() == h[k].index(), "a deleted entity's index is reused");
    prop!(g != LAST, "creating on an exhausted index panics");
    prop!(e.generation() > g && e.generation() <= LAST, "the generation of a reused index grows");
    prop!(a.is_alive(e) && a.entity(e.index()) == Some(e), "a returned handle is alive");
    prop!(!a.is_alive(h[k]) || e == h[k], "the deleted handle stays dead");
    prop!(a.live_bitset().contains(e.index()), "a returned handle is live");
}
fn create(a: &mut Allocator, deferred: bool) -> Entity {
    if deferred { a.allocate_atomic() } else { a.allocate() }
}
/// Two creations on the index, with a deletion of either kind between them.
fn twice(nd: &mut Nd, deferred: bool, exhausted: bool) {
    let (mut a, h, k, g) = used(nd, exhausted);
    if exhausted {
        assume(g >= LAST - 1);
    } else {
        assume(g < LAST - 1);
    }
    asked!();
    let e = create(&mut a, deferred);
    check(&a, &h, k, e, g);
    let mut killed = Vec::new();
    if nd.bool() {
        a.merge_atomic(&mut killed);
        check(&a, &h, k, e, g);
    }
    if nd.bool() {
        prop!(a.kill(e).is_ok(), "an alive entity can be deleted");
    } else {
        prop!(a.kill_atomic(e).is_ok(), "an alive entity can be deleted");
        a.merge_atomic(&mut killed);
    }
    prop!(!a.is_alive(e), "a deleted handle is dead");
    let f = create(&mut a, !deferred);
    check(&a, &h, k, f, e.generation());
    prop!(!a.is_alive(e), "a deleted handle stays dead");
}
/// Once it is exhausted, the panic leaves everything else as it was.
fn after(nd: &mut Nd, deferred: bool) {
    let (mut a, h, k, g) = used(nd, true);
    assume(g == LAST);
    fn same(a: &Allocator, h: &[Entity; 3], k: usize) {
        let mut i = 0;
        while i < 3 {
            prop!(a.is_alive(h[i]) == (i != k), "other entities keep their state");
            prop!(a.entity(h[i].index()) == if i == k { None } else { Some(h[i]) }, "an exhausted index has no entity");
            prop!(a.live_bitset().contains(h[i].index()) == (i != k), "an exhausted index is not live");
            i += 1;
        }
    }
    #[cfg(kani)]
    {
        let inspect = || same(&a, &h, k);
        // (a shared view of the allocator at the moment of the panic)
        let p: *const Allocator = &a;
        let look = move || same(unsafe { &*p }, &h, k);
        inspect();
        crate::c05::hook::set(&look);
        asked!();
        create(&mut a, deferred);
        ::std::mem::forget(a);
    }
    #[cfg(not(kani))]
    {
        use ::std::panic::{catch_unwind, AssertUnwindSafe};
        let r = catch_unwind(AssertUnwindSafe(|| create(&mut a, deferred)));
        if r.is_err() {
            let r = catch_unwind(AssertUnwindSafe(|| same(&a, &h, k)));
            prop!(r.is_ok(), "a panicking creation leaves every entity as it was");
        }
    }
}

#[cfg(kani)]
pub mod hook {
    static mut LOOK: Option<*const dyn Fn()> = None;
    static mut BUSY: bool = false;
    pub fn set<'a>(f: &'a (dyn Fn() + 'a)) {
        unsafe { LOOK = Some(::std::mem::transmute::<*const (dyn Fn() + 'a), *const (dyn Fn() + 'static)>(f)) }
    }
    /// Runs where `Option::expect` panics.
    pub fn expect_failed(_: &str) -> ! {
        unsafe {
            prop!(!BUSY, "a panicking creation leaves every entity as it was");
            match LOOK {
                Some(f) => {
                    BUSY = true;
                    (*f)();
                    kani::cover!(true, "LOOKED");
                    kani::assume(false);
                }
                None => panic!("expect failed"),
            }
        }
        loop {}
    }
}

// As `harnesses!`, with the stub.
macro_rules! stubbed {
    ($($name:ident => $f:expr;)*) => {
        #[cfg(kani)]
        mod proofs {
            use super::*;
            $(
                #[kani::proof]
                #[kani::unwind(6)]
                #[kani::solver(cadical)]
                #[kani::stub(core::option::expect_failed, hook::expect_failed)]
                fn $name() {
                    let mut nd = Nd::new(kani::any());
                    ($f)(&mut nd);
                    kani::cover!(true, "END");
                }
            )*
        }
        pub const LIST: &[(&str, fn(&mut Nd))] = &[$((stringify!($name), $f)),*];
    };
}
stubbed! {
    c05_now => |nd: &mut Nd| twice(nd, false, true);
    c05_deferred => |nd: &mut Nd| twice(nd, true, true);
    c05_below_now => |nd: &mut Nd| twice(nd, false, false);
    c05_below_deferred => |nd: &mut Nd| twice(nd, true, false);
    c05_after_now => |nd: &mut Nd| after(nd, false);
    c05_after_deferred => |nd: &mut Nd| after(nd, true);
}
