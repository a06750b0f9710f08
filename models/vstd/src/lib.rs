//! A stand-in for `std` used only while goggles is executed symbolically.
//!
//! Everything is re-exported from the real `std`, except the heap-backed containers (`Vec`,
//! `HashMap`, `HashSet`), which are replaced by small fixed-capacity models with the same
//! observable contract, and `AtomicU32`, which is replaced by a cell that can be put into the
//! "concurrent phase" described in `sync::atomic`.
#![cfg_attr(kani, feature(const_type_name))]
#![allow(clippy::all)]
#[doc(hidden)]
pub use ::std::*;

pub mod any;
pub mod bound;
pub mod collections;
pub mod far;
pub mod order;
pub mod sync;
pub mod vec;

#[macro_export]
macro_rules! vec {
    () => { $crate::vec::Vec::new() };
    ($e:expr; $n:expr) => { $crate::vec::from_elem($e, $n) };
    ($($x:expr),+ $(,)?) => {{
        let mut v = $crate::vec::Vec::new();
        $( v.push($x); )+
        v
    }};
}

pub mod prelude {
    pub mod v1 {
        pub use crate::vec::Vec;
        pub use crate::vec;
        pub use ::std::prelude::v1::*;
    }
    pub mod rust_2015 {
        pub use super::v1::*;
    }
    pub mod rust_2018 {
        pub use super::v1::*;
    }
    pub mod rust_2021 {
        pub use crate::vec;
        pub use crate::vec::Vec;
        pub use ::std::prelude::rust_2021::*;
    }
    pub mod rust_2024 {
        pub use crate::vec;
        pub use crate::vec::Vec;
        pub use ::std::prelude::rust_2024::*;
    }
}
