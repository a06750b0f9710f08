pub use ::std::sync::*;
pub mod atomic;
