//! Index universe.
//!
//! Models of index-addressed containers represent the indices `0 .. NEAR` directly and, on top of
//! that, up to `NFAR` arbitrary ("far") indices chosen once per execution by the harness (they may
//! be symbolic).  Every other index is outside the universe; touching it is a `BOUND:` failure.
use crate::bound::bound;

#[cfg(feature = "native-large")]
pub const NEAR: usize = 2048;
#[cfg(all(feature = "small", not(feature = "native-large"), not(feature = "six")))]
pub const NEAR: usize = 4;
#[cfg(all(feature = "small", not(feature = "native-large"), feature = "six"))]
pub const NEAR: usize = 6;
#[cfg(not(any(feature = "small", feature = "native-large")))]
pub const NEAR: usize = 8;
pub const NFAR: usize = 3;
/// hibitset's largest representable index + 1 (64^4).
pub const LIMIT: u32 = 1 << 24;

static mut ON: bool = false;
static mut FAR: [u32; NFAR] = [u32::MAX; NFAR];

/// Choose the far indices; must be strictly ascending, `>= NEAR` and `< LIMIT`.
pub fn set(far: [u32; NFAR]) {
    unsafe {
        ON = true;
        FAR = far;
    }
}
#[inline]
pub fn on() -> bool { unsafe { ON } }
#[inline]
pub fn at(j: usize) -> u32 { unsafe { FAR[j] } }

/// Slot of a far index, `NFAR` when `i` is not in the universe.
#[inline]
pub fn slot(i: usize) -> usize {
    unsafe {
        if !ON { return NFAR; }
        if i == FAR[0] as usize { 0 } else if i == FAR[1] as usize { 1 } else if i == FAR[2] as usize { 2 } else { NFAR }
    }
}
#[inline]
pub fn slot_or_bound(i: usize) -> usize {
    let s = slot(i);
    bound(s < NFAR);
    s
}
