//! C03: merging finalises exactly the pending deletions, once.
use crate::ent::{run, world};
use crate::nd::Nd;

harnesses! {
    c03_a [9] => |nd: &mut Nd| run::<3>(nd, b"aaaKKmm");
    c03_b [9] => |nd: &mut Nd| run::<3>(nd, b"aAKAkm");
    c03_c [9] => |nd: &mut Nd| run::<3>(nd, b"aAKkAmKm");
    c03_d [9] => |nd: &mut Nd| run::<3>(nd, b"aaKkmm");
    c03_e [9] => |nd: &mut Nd| run::<3>(nd, b"AKmAKm");
    c03_f [9] => |nd: &mut Nd| run::<3>(nd, b"akAKmm");
    c03_g [9] => |nd: &mut Nd| run::<3>(nd, b"aAKKkm");
    c03_h [9] => |nd: &mut Nd| run::<3>(nd, b"AAkKmm");
    c03_i [9] => |nd: &mut Nd| run::<3>(nd, b"aKkAKm");
    c03_j [9] => |nd: &mut Nd| run::<3>(nd, b"AAAKKm");
    c03_w_a [9] => |nd: &mut Nd| world::<3>(nd, b"aAKKkm");
    c03_w_b [9] => |nd: &mut Nd| world::<3>(nd, b"aKmAKmm");
}
