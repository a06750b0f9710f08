//! Harness-chosen resolution of choices the real implementations leave open: the iteration order
//! of hash containers, the side a fork-join pool runs first, how a parallel producer is split.
//! All choices come from a byte tape filled by the harness before the code under test runs.
pub const TAPE: usize = 16;
static mut BYTES: [u8; TAPE] = [0; TAPE];
static mut POS: usize = 0;
static mut HASH: u8 = 0;

pub fn set(tape: [u8; TAPE]) {
    unsafe {
        BYTES = tape;
        POS = 0;
    }
}
/// Next choice; 0 once the tape is used up.
#[inline]
pub fn next() -> u8 {
    unsafe {
        if POS < TAPE {
            POS += 1;
            BYTES[POS - 1]
        } else {
            0
        }
    }
}
/// Iteration order of hash containers: 0 = insertion order, 1 = reverse, 2 = rotated by one.
pub fn set_hash_order(o: u8) { unsafe { HASH = o } }
#[inline]
pub fn hash_order() -> u8 { unsafe { HASH } }
