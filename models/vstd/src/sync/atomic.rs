//! Atomics whose accesses are scheduling points.
//!
//! Outside a concurrent phase (`sched::begin` not called) they are plain cells.  Inside one, the
//! threads of the phase are executed one after the other and every shared cell keeps one copy per
//! round (Lal-Reps): thread `t` in round `r` works on copy `r`; the value a cell has at the start of
//! round `r > 0` is guessed from a harness-supplied tape and, once all threads are done, assumed to
//! equal what the cell held at the end of round `r - 1`.  Executions that survive are exactly the
//! sequentially consistent interleavings in which thread 0 runs a (possibly empty) slice, then
//! thread 1, ..., repeated `rounds` times, with context switches at any atomic access.
pub use ::std::sync::atomic::*;

use ::std::cell::UnsafeCell;
use ::std::fmt;

pub mod sched {
    pub const ROUNDS: usize = 3;
    pub const TAPE: usize = 24;
    pub(crate) static mut ACTIVE: bool = false;
    pub(crate) static mut ENDED: bool = false;
    static mut ROUND: usize = 0;
    static mut MAXR: usize = 1;
    static mut SWITCH: [u8; TAPE] = [0; TAPE];
    static mut SPOS: usize = 0;
    static mut GUESS: [u16; TAPE] = [0; TAPE];
    static mut GPOS: usize = 0;
    static mut OK: bool = true;
    // cells with guessed values that have not been compared with the execution yet
    pub(crate) static mut OPEN: usize = 0;

    /// Start a concurrent phase of `rounds` rounds.
    pub fn begin(rounds: usize, switch: [u8; TAPE], guess: [u16; TAPE]) {
        unsafe {
            assert!(rounds >= 1 && rounds <= ROUNDS);
            ACTIVE = true;
            ENDED = false;
            MAXR = rounds;
            SWITCH = switch;
            SPOS = 0;
            GUESS = guess;
            GPOS = 0;
            OK = true;
            OPEN = 0;
        }
    }
    /// The next thread starts at round 0 (it may skip rounds at its first access).
    pub fn thread() { unsafe { ROUND = 0 } }
    /// All threads are done; cells resolve to their final value on next access.
    pub fn end() {
        unsafe {
            ROUND = MAXR - 1;
            ENDED = true;
        }
    }
    /// Whether every guess was checked and right (only meaningful after `end`, and once every cell
    /// used in the phase has been accessed again).
    pub fn feasible() -> bool { unsafe { OK && OPEN == 0 } }
    /// Back to plain cells; only after `feasible` returned true.
    pub fn stop() { unsafe { ACTIVE = false } }

    // Exchanges that failed since the last load: each needs a switch in between, so more than
    // `rounds - 1` in a row cannot happen in an interleaving.
    static mut FAILS: usize = 0;
    #[inline]
    pub(crate) fn loaded() { unsafe { FAILS = 0 } }
    #[inline]
    pub(crate) fn failed() {
        unsafe {
            if ACTIVE && !ENDED {
                FAILS += 1;
                if FAILS >= MAXR { crate::bound::cut() }
            }
        }
    }
    #[inline]
    pub fn active() -> bool { unsafe { ACTIVE } }
    #[inline]
    pub fn ended() -> bool { unsafe { ENDED } }
    #[inline]
    pub fn round() -> usize { unsafe { ROUND } }
    #[inline]
    pub fn max_rounds() -> usize { unsafe { MAXR } }
    pub fn reject() { unsafe { OK = false } }
    // Interference: at one scheduling point of a thread, chosen by the harness, another thread
    // runs to completion.
    static mut HOOK: Option<fn()> = None;
    static mut FIRE: u8 = 0;
    static mut COUNT: u8 = 0;
    /// From here to `calm`, `hook` runs at the `fire`-th scheduling point (none if there is no such).
    pub fn interfere(fire: u8, hook: fn()) {
        unsafe {
            HOOK = Some(hook);
            FIRE = fire;
            COUNT = 0;
        }
    }
    /// Ends the interference; whether the hook ran.
    pub fn calm() -> bool {
        unsafe {
            let ran = HOOK.is_none();
            HOOK = None;
            ran
        }
    }

    /// A scheduling point.
    #[inline]
    pub fn point() {
        unsafe {
            if let Some(h) = HOOK {
                if COUNT == FIRE {
                    HOOK = None;
                    h();
                    return;
                }
                COUNT += 1;
            }
            if ACTIVE && !ENDED {
                crate::bound::bound(SPOS < TAPE);
                let s = SWITCH[SPOS] as usize;
                SPOS += 1;
                let r = ROUND + s;
                ROUND = if r < MAXR { r } else { MAXR - 1 };
            }
        }
    }
    #[inline]
    pub fn guess() -> u16 {
        unsafe {
            crate::bound::bound(GPOS < TAPE);
            GPOS += 1;
            GUESS[GPOS - 1]
        }
    }
}

/// One shared cell with a copy per round.
pub struct Cell<T> {
    val: [T; sched::ROUNDS],
    start: [T; sched::ROUNDS],
    known: [bool; sched::ROUNDS],
    resolved: bool,
}
impl<T: Copy + PartialEq> Cell<T> {
    pub const fn new(v: T) -> Self {
        Cell { val: [v; sched::ROUNDS], start: [v; sched::ROUNDS], known: [false; sched::ROUNDS], resolved: false }
    }
    /// The copy the running thread sees; `conv` turns a guess into a value.
    #[inline]
    pub fn current(&mut self, conv: impl FnOnce(u16) -> T) -> &mut T {
        if !sched::active() {
            return &mut self.val[0];
        }
        if sched::ended() {
            self.resolve();
            return &mut self.val[0];
        }
        let r = sched::round();
        if r > 0 && !self.known[r] {
            let g = conv(sched::guess());
            if !self.known[1] && !self.known[2] {
                unsafe { sched::OPEN += 1 }
            }
            self.known[r] = true;
            self.start[r] = g;
            self.val[r] = g;
        }
        &mut self.val[r]
    }
    fn resolve(&mut self) {
        if !self.resolved {
            self.resolved = true;
            if self.known[1] || self.known[2] {
                unsafe { sched::OPEN -= 1 }
            }
            let mut r = 1;
            while r < sched::ROUNDS {
                if r < sched::max_rounds() {
                    if self.known[r] {
                        if self.val[r - 1] != self.start[r] { sched::reject(); }
                    } else {
                        self.val[r] = self.val[r - 1];
                    }
                }
                r += 1;
            }
            self.val[0] = self.val[sched::max_rounds() - 1];
        }
    }
}

macro_rules! atomic {
    ($name:ident, $t:ty, $conv:expr) => {
        pub struct $name(UnsafeCell<Cell<$t>>);
        unsafe impl Send for $name {}
        unsafe impl Sync for $name {}
        impl $name {
            pub const fn new(v: $t) -> Self { $name(UnsafeCell::new(Cell::new(v))) }
            #[inline]
            #[allow(clippy::mut_from_ref)]
            fn cell(&self) -> &mut $t { unsafe { (*self.0.get()).current($conv) } }
            pub fn get_mut(&mut self) -> &mut $t { unsafe { (*self.0.get()).current($conv) } }
            pub fn into_inner(mut self) -> $t { *self.get_mut() }
            #[inline]
            pub fn load(&self, _: Ordering) -> $t { sched::point(); sched::loaded(); *self.cell() }
            #[inline]
            pub fn store(&self, v: $t, _: Ordering) { sched::point(); *self.cell() = v }
            #[inline]
            pub fn swap(&self, v: $t, _: Ordering) -> $t { sched::point(); ::std::mem::replace(self.cell(), v) }
            #[inline]
            pub fn compare_exchange(&self, a: $t, b: $t, _: Ordering, _: Ordering) -> Result<$t, $t> {
                sched::point();
                let c = self.cell();
                let old = *c;
                if old == a { *c = b; Ok(old) } else { sched::failed(); Err(old) }
            }
            #[inline]
            pub fn compare_exchange_weak(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                self.compare_exchange(a, b, s, f)
            }
            pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, o: Ordering, mut f: F) -> Result<$t, $t> {
                let mut prev = self.load(o);
                while let Some(n) = f(prev) {
                    match self.compare_exchange_weak(prev, n, s, o) {
                        Ok(x) => return Ok(x),
                        Err(x) => prev = x,
                    }
                }
                Err(prev)
            }
        }
        impl Default for $name { fn default() -> Self { Self::new(Default::default()) } }
        impl From<$t> for $name { fn from(v: $t) -> Self { Self::new(v) } }
        impl fmt::Debug for $name {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(unsafe { &(*self.0.get()).val[0] }, f) }
        }
    };
}
macro_rules! atomic_int {
    ($name:ident, $t:ty) => {
        atomic!($name, $t, |g| g as $t);
        impl $name {
            pub fn fetch_add(&self, v: $t, _: Ordering) -> $t { sched::point(); let c = self.cell(); let o = *c; *c = o.wrapping_add(v); o }
            pub fn fetch_sub(&self, v: $t, _: Ordering) -> $t { sched::point(); let c = self.cell(); let o = *c; *c = o.wrapping_sub(v); o }
            pub fn fetch_or(&self, v: $t, _: Ordering) -> $t { sched::point(); let c = self.cell(); let o = *c; *c = o | v; o }
            pub fn fetch_and(&self, v: $t, _: Ordering) -> $t { sched::point(); let c = self.cell(); let o = *c; *c = o & v; o }
            pub fn fetch_xor(&self, v: $t, _: Ordering) -> $t { sched::point(); let c = self.cell(); let o = *c; *c = o ^ v; o }
            pub fn fetch_max(&self, v: $t, _: Ordering) -> $t { sched::point(); let c = self.cell(); let o = *c; *c = o.max(v); o }
            pub fn fetch_min(&self, v: $t, _: Ordering) -> $t { sched::point(); let c = self.cell(); let o = *c; *c = o.min(v); o }
        }
    };
}
atomic_int!(AtomicU8, u8);
atomic_int!(AtomicU16, u16);
atomic_int!(AtomicU32, u32);
atomic_int!(AtomicU64, u64);
atomic_int!(AtomicUsize, usize);
atomic_int!(AtomicI8, i8);
atomic_int!(AtomicI16, i16);
atomic_int!(AtomicI32, i32);
atomic_int!(AtomicI64, i64);
atomic_int!(AtomicIsize, isize);
atomic!(AtomicBool, bool, |g| g != 0);
