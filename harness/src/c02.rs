//! C02: liveness answers are exact and stale handles are inert.
use crate::ent::{run, world};
use crate::nd::Nd;
use crate::env;
use goggles::entity::Allocator;
use goggles::hibitset::BitSetLike;

/// `entity` is answered for every index there is, also far beyond the allocated ones.
fn range(nd: &mut Nd) {
    let far = env::far(nd);
    let mut a = Allocator::new();
    let e0 = a.allocate();
    let e1 = a.allocate_atomic();
    let i = if nd.bool() { env::any_index(nd, env::NEAR as u8, &far) } else { nd.u32() };
    #[cfg(kani)]
    crate::nd::assume(i < env::NEAR || i >= env::LIMIT || (!env::near() && (i == far[0] || i == far[1] || i == far[2])));
    let want = if i == 0 { Some(e0) } else if i == 1 { Some(e1) } else { None };
    prop!(a.entity(i) == want, "entity(index) is exact for every index");
    if i < env::LIMIT {
        prop!(a.live_bitset().contains(i) == want.is_some(), "the live set is exact for every index");
    }
    a.merge_atomic(&mut Vec::new());
    prop!(a.entity(i) == want, "entity(index) is exact for every index after a merge");
}

harnesses! {
    c02_a [9] => |nd: &mut Nd| run::<2>(nd, b"aaakka");
    c02_b [9] => |nd: &mut Nd| run::<2>(nd, b"aAkAk?m");
    c02_c [9] => |nd: &mut Nd| run::<2>(nd, b"aAKk?ma");
    c02_d [9] => |nd: &mut Nd| run::<2>(nd, b"akAk?A");
    c02_e [9] => |nd: &mut Nd| run::<2>(nd, b"aaKm?A");
    c02_f [9] => |nd: &mut Nd| run::<2>(nd, b"aAkm?kA");
    c02_g [9] => |nd: &mut Nd| run::<2>(nd, b"aKk?mA");
    c02_h [9] => |nd: &mut Nd| run::<2>(nd, b"akA?m?k");
    c02_i [9] => |nd: &mut Nd| run::<2>(nd, b"AAk?Km");
    c02_j [9] => |nd: &mut Nd| run::<2>(nd, b"aakAK?m");
    c02_k [9] => |nd: &mut Nd| run::<2>(nd, b"aAKKm?A");
    c02_l [9] => |nd: &mut Nd| run::<2>(nd, b"aaKkKm?");
    c02_range [6] => range;
    c02_w_a [9] => |nd: &mut Nd| world::<2>(nd, b"aAKkmA");
    c02_w_b [9] => |nd: &mut Nd| world::<2>(nd, b"aAk?Kma");
}
