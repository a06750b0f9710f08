//! Harness inputs: a block of bytes, symbolic under Kani, concrete in a native replay.
pub const LEN: usize = 160;

pub struct Nd {
    b: [u8; LEN],
    pos: usize,
}

/// Payload of the panic that marks a replay input as violating an assumption of the harness.
pub struct Assume;

impl Nd {
    pub fn new(b: [u8; LEN]) -> Nd {
        Nd { b, pos: 0 }
    }
    #[inline]
    pub fn u8(&mut self) -> u8 {
        assert!(self.pos < LEN, "BOUND: harness input exhausted");
        self.pos += 1;
        self.b[self.pos - 1]
    }
    /// Arbitrary value below `n`.
    #[inline]
    pub fn below(&mut self, n: u8) -> u8 {
        let x = self.u8();
        #[cfg(not(kani))]
        if sampling() {
            return x % n;
        }
        assume(x < n);
        x
    }
    #[inline]
    pub fn index(&mut self, n: u8) -> u32 {
        self.below(n) as u32
    }
    #[inline]
    pub fn bool(&mut self) -> bool {
        self.u8() & 1 == 1
    }
    pub fn u16(&mut self) -> u16 {
        u16::from_le_bytes([self.u8(), self.u8()])
    }
    pub fn u32(&mut self) -> u32 {
        u32::from_le_bytes([self.u8(), self.u8(), self.u8(), self.u8()])
    }
    pub fn i32(&mut self) -> i32 {
        self.u32() as i32
    }
    pub fn bytes<const N: usize>(&mut self) -> [u8; N] {
        assert!(self.pos + N <= LEN, "BOUND: harness input exhausted");
        let mut a = [0; N];
        unsafe { ::std::ptr::copy_nonoverlapping(self.b.as_ptr().add(self.pos), a.as_mut_ptr(), N) };
        self.pos += N;
        a
    }
}

#[cfg(not(kani))]
static SAMPLING: ::std::sync::atomic::AtomicBool = ::std::sync::atomic::AtomicBool::new(false);
/// Native sampling runs map out-of-range choices into range instead of rejecting them.
#[cfg(not(kani))]
pub fn set_sampling(on: bool) {
    SAMPLING.store(on, ::std::sync::atomic::Ordering::Relaxed)
}
#[cfg(not(kani))]
pub fn sampling() -> bool {
    SAMPLING.load(::std::sync::atomic::Ordering::Relaxed)
}

#[cfg(kani)]
#[inline]
pub fn assume(c: bool) {
    kani::assume(c)
}
#[cfg(not(kani))]
pub fn assume(c: bool) {
    if !c {
        ::std::panic::panic_any(Assume);
    }
}

/// A checked property.  Failures are recognised by the `PROP:` prefix.
#[macro_export]
macro_rules! prop {
    ($c:expr, $m:literal) => {
        assert!($c, concat!("PROP: ", $m))
    };
}

/// The point a harness that has to panic afterwards must be able to reach.
#[macro_export]
macro_rules! asked {
    () => {
        #[cfg(kani)]
        kani::cover!(true, "ASKED");
    };
}

/// Registers harnesses: `name { unwind N } => function` of type `fn(&mut Nd)`.
#[macro_export]
macro_rules! harnesses {
    ($($name:ident [$unwind:literal] => $f:expr;)*) => {
        #[cfg(kani)]
        mod proofs {
            use super::*;
            $(
                #[kani::proof]
                #[kani::unwind($unwind)]
                #[kani::solver(cadical)]
                fn $name() {
                    let b: [u8; $crate::nd::LEN] = kani::any();
                    let mut nd = $crate::nd::Nd::new(b);
                    ($f)(&mut nd);
                    kani::cover!(true, "END");
                }
            )*
        }
        pub const LIST: &[(&str, fn(&mut $crate::nd::Nd))] = &[$((stringify!($name), $f)),*];
    };
}
