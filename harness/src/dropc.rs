//! Counted values: every value made has an identity; its drops are counted.
pub const N: usize = 12;
static mut MADE: usize = 0;
static mut DROPS: [u8; N] = [0; N];

#[derive(Debug, PartialEq)]
pub struct D(pub u8);
impl D {
    pub fn new() -> D {
        unsafe {
            let n = MADE;
            assert!(n < N, "BOUND: too many values");
            MADE = n + 1;
            D(n as u8)
        }
    }
}
impl Clone for D {
    fn clone(&self) -> D {
        prop!(drops(self.0) == 0, "no dropped value is cloned");
        D::new()
    }
}
impl Drop for D {
    fn drop(&mut self) {
        unsafe {
            prop!((self.0 as usize) < MADE, "only values that exist are dropped");
            DROPS[self.0 as usize] += 1;
            prop!(DROPS[self.0 as usize] == 1, "no value is dropped twice");
        }
    }
}
pub fn reset() {
    unsafe {
        MADE = 0;
        DROPS = [0; N];
    }
}
pub fn drops(id: u8) -> u8 {
    unsafe { DROPS[id as usize] }
}
pub fn made() -> usize {
    unsafe { MADE }
}
/// Everything made so far has been dropped.
pub fn all_dropped() {
    let mut i = 0;
    while i < N {
        if i < made() {
            prop!(drops(i as u8) == 1, "every value is dropped exactly once");
        }
        i += 1;
    }
}
