//! Harnesses.  The same files are compiled twice: by Kani against the overlay build of goggles
//! (symbolic inputs), and natively against the real crates for replaying counterexamples.
#![allow(dead_code, unused_imports, static_mut_refs)]

#[macro_use]
pub mod nd;
#[macro_use]
pub mod env;
pub mod ent;
pub mod st;
pub mod dropc;
pub mod sys;
pub mod wld;

macro_rules! modules {
    ($($m:ident)*) => {
        $(pub mod $m;)*
        #[cfg(goggles_verif)]
        pub mod c05;
        pub fn find(name: &str) -> Option<fn(&mut nd::Nd)> {
            #[cfg(goggles_verif)]
            if let Some(h) = c05::LIST.iter().find(|h| h.0 == name) {
                return Some(h.1);
            }
            let all: &[&[(&str, fn(&mut nd::Nd))]] = &[$($m::LIST),*];
            all.iter().flat_map(|l| l.iter()).find(|h| h.0 == name).map(|h| h.1)
        }
    };
}
modules! { c01 c02 c03 c04 c06 c07 c08 c09 c10 c11 c12 c13 c14 c15 c16 c17 c18 c19 c20 c21 c22 }
