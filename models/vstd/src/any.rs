//! `TypeId` as a plain number, so that comparing the ids of two types is decided while executing.
pub use ::std::any::*;

#[cfg(kani)]
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct TypeId(u64);

#[cfg(kani)]
impl TypeId {
    #[inline]
    pub fn of<T: ?Sized + 'static>() -> TypeId {
        TypeId(const { hash(::std::any::type_name::<T>().as_bytes()) })
    }
}

/// FNV-1a of the type's full path; the harnesses' types have different paths.
#[cfg(kani)]
const fn hash(s: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    let mut i = 0;
    while i < s.len() {
        h = (h ^ s[i] as u64).wrapping_mul(0x100000001b3);
        i += 1;
    }
    h
}
