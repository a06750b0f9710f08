//! C07: a masked storage behaves as a safe map for every call sequence.
use crate::nd::Nd;
use crate::st::*;
use goggles::{DenseVecStorage, Flagged, HashMapStorage, MaskedStorage, RawStorage, VecStorage};

/// Arbitrary contents, then arbitrary calls of every kind.
fn any<S: RawStorage<Item = u8> + Default>(nd: &mut Nd, steps: usize) {
    let mut m = Map::new(nd);
    let mut s = MaskedStorage::<S>::default();
    m.fill(nd, &mut s);
    let mut i = 0;
    while i < steps {
        let op = nd.below(5);
        m.op(nd, &mut s, b"irmwg"[op as usize]);
        i += 1;
    }
    m.check(&s);
    m.mask(&s);
}

harnesses! {
    c07_vec [7] => |nd: &mut Nd| any::<VecStorage<u8>>(nd, 2);
    c07_dense [7] => |nd: &mut Nd| any::<DenseVecStorage<u8>>(nd, 1);
    c07_hash [7] => |nd: &mut Nd| any::<HashMapStorage<u8>>(nd, 1);
    c07_flagged [7] => |nd: &mut Nd| any::<Flagged<VecStorage<u8>>>(nd, 2);
    c07_seq_vec [7] => |nd: &mut Nd| run::<VecStorage<u8>>(nd, b"iwrgm");
    c07_seq_dense [7] => |nd: &mut Nd| run::<DenseVecStorage<u8>>(nd, b"iirwr");
    c07_seq_hash [7] => |nd: &mut Nd| run::<HashMapStorage<u8>>(nd, b"iwrir");
    c07_seq_flagged [7] => |nd: &mut Nd| run::<Flagged<DenseVecStorage<u8>>>(nd, b"iwrwr");
    c07_t_dense [7] => |nd: &mut Nd| any::<DenseVecStorage<u8>>(nd, 2);
    c07_t_hash [7] => |nd: &mut Nd| any::<HashMapStorage<u8>>(nd, 2);
    c07_t_vec [7] => |nd: &mut Nd| any::<VecStorage<u8>>(nd, 3);
    c07_t_seq_dense [9] => |nd: &mut Nd| run::<DenseVecStorage<u8>>(nd, b"iiirwrgr");
}
