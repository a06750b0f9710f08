//! What the harness may choose about the environment.  In the overlay build these reach the models;
//! natively they do nothing (the real crates make their own choices).
use crate::nd::{assume, Nd};

/// Indices below this are distinguished individually (the models have to agree: feature `small`).
pub const NEAR: u32 = 4;
pub const LIMIT: u32 = 1 << 24;

/// Whether the check runs within reduced bounds: every index is below `NEAR`.
pub fn near() -> bool {
    #[cfg(kani)]
    {
        cfg!(feature = "near")
    }
    #[cfg(not(kani))]
    {
        ::std::env::var_os("VERIF_NEAR").is_some()
    }
}

/// Three arbitrary indices outside the near range.
#[cfg(overlay)]
pub fn far(nd: &mut Nd) -> [u32; 3] {
    let f = far_pick(nd);
    if !near() {
        ::std::far::set(f);
    }
    f
}
#[cfg(not(overlay))]
pub fn far(nd: &mut Nd) -> [u32; 3] {
    far_pick(nd)
}
/// Three fixed indices outside the near range.
#[cfg(overlay)]
pub fn far_at(f: [u32; 3]) -> [u32; 3] {
    if near() {
        return [0, 1, 3];
    }
    ::std::far::set(f);
    f
}
#[cfg(not(overlay))]
pub fn far_at(f: [u32; 3]) -> [u32; 3] {
    f
}
fn far_pick(nd: &mut Nd) -> [u32; 3] {
    #[allow(unused_mut)]
    let mut f = [nd.u32(), nd.u32(), nd.u32()];
    #[cfg(not(kani))]
    if crate::nd::sampling() {
        // small, so that sampled native runs do not allocate gigabytes
        f = [NEAR + f[0] % 500, 600 + f[1] % 5000, 6000 + f[2] % 60000];
    }
    assume(NEAR <= f[0] && f[0] < f[1] && f[1] < f[2] && f[2] < LIMIT);
    f
}

/// An arbitrary index of the universe: below `near`, or one of the far ones.
pub fn any_index(nd: &mut Nd, near: u8, far: &[u32; 3]) -> u32 {
    let k = nd.below(near + 3);
    assume(!self::near() || k < near);
    if k < near { k as u32 } else { far[(k - near) as usize] }
}

#[cfg(overlay)]
pub fn iter_max(n: usize) {
    hibitset::set_iter_max(n)
}
#[cfg(not(overlay))]
pub fn iter_max(_: usize) {}

#[cfg(overlay)]
pub fn choices(nd: &mut Nd) {
    ::std::order::set(nd.bytes())
}
#[cfg(not(overlay))]
pub fn choices(nd: &mut Nd) {
    let _: [u8; 16] = nd.bytes();
}

#[cfg(overlay)]
pub fn hash_order(nd: &mut Nd) {
    ::std::order::set_hash_order(nd.below(3))
}
#[cfg(not(overlay))]
pub fn hash_order(nd: &mut Nd) {
    nd.below(3);
}

/// Runs both closures concurrently: in the overlay build every interleaving with up to three
/// rounds (see `std::sync::atomic::sched`), natively on two real threads.
#[cfg(overlay)]
pub fn threads<A, B>(nd: &mut Nd, rounds: usize, a: impl FnOnce() -> A, b: impl FnOnce() -> B) -> (A, B) {
    use ::std::sync::atomic::sched;
    let switch = nd.bytes::<{ sched::TAPE }>();
    let guess: [u16; sched::TAPE] = unsafe { ::std::mem::transmute(nd.bytes::<{ 2 * sched::TAPE }>()) };
    sched::begin(rounds, switch, guess);
    sched::thread();
    let ra = a();
    sched::thread();
    let rb = b();
    sched::end();
    (ra, rb)
}
#[cfg(not(overlay))]
pub fn threads<A: Send, B: Send>(_: &mut Nd, _: usize, a: impl FnOnce() -> A + Send, b: impl FnOnce() -> B + Send) -> (A, B) {
    ::std::thread::scope(|s| {
        let h = s.spawn(a);
        let rb = b();
        (h.join().unwrap(), rb)
    })
}
/// Keeps only executions that are real interleavings; call once everything was accessed again.
pub fn feasible() {
    #[cfg(overlay)]
    {
        assume(::std::sync::atomic::sched::feasible());
        ::std::sync::atomic::sched::stop();
    }
}

/// Runs `a`; at one of its scheduling points, chosen by the input, `b` runs to completion (after
/// it if there is no such point).  Natively `b` runs afterwards.
pub fn interrupted<A>(nd: &mut Nd, a: impl FnOnce() -> A, b: fn()) -> A {
    let fire = nd.u8();
    #[cfg(overlay)]
    {
        use ::std::sync::atomic::sched;
        sched::interfere(fire, b);
        let r = a();
        if !sched::calm() {
            b();
        }
        r
    }
    #[cfg(not(overlay))]
    {
        let _ = fire;
        let r = a();
        b();
        r
    }
}

/// Forgets what an earlier run in the same process left in the models.
pub fn reset() {
    #[cfg(overlay)]
    {
        anymap::places::reset();
        ::std::sync::atomic::sched::stop();
        ::std::sync::atomic::sched::calm();
        ::std::order::set([0; ::std::order::TAPE]);
        ::std::order::set_hash_order(0);
    }
}

/// Gives the model of `anymap` a typed place for a resource or a component storage.
#[macro_export]
macro_rules! place {
    ($t:ty) => {
        #[cfg(overlay)]
        #[allow(unused_mut)]
        let mut place = ::std::mem::ManuallyDrop::new(atomic_refcell::AtomicRefCell::new(goggles::MakeSync::new(<$t>::default())));
        #[cfg(overlay)]
        unsafe { anymap::places::provide(&mut *place) };
    };
}
