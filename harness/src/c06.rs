//! C06: every raw storage is a map from index to component for the indices that are non-empty.
use crate::env;
use crate::nd::{assume, Nd};
use goggles::{DenseVecStorage, Flagged, HashMapStorage, RawStorage, VecStorage};

/// `steps` arbitrary legal operations over arbitrary indices, compared with a list of pairs.
fn ops<S: RawStorage<Item = u32> + Default>(nd: &mut Nd, steps: usize) {
    let far = env::far(nd);
    let ids = [env::any_index(nd, env::NEAR as u8, &far), env::any_index(nd, env::NEAR as u8, &far), env::any_index(nd, env::NEAR as u8, &far)];
    assume(ids[0] != ids[1] && ids[0] != ids[2] && ids[1] != ids[2]);
    let mut shadow: [Option<u32>; 3] = [None; 3];
    let mut s = S::default();
    let mut step = 0;
    while step < steps {
        let op = nd.below(3);
        let k = nd.below(3) as usize;
        let v = nd.u32();
        unsafe {
            match (op, shadow[k]) {
                (0, None) => {
                    s.insert(ids[k], v);
                    shadow[k] = Some(v);
                }
                (1, Some(old)) => {
                    prop!(s.remove(ids[k]) == old, "remove returns the value stored at the index");
                    shadow[k] = None;
                }
                (2, Some(_)) => {
                    *s.get_mut(ids[k]) = v;
                    shadow[k] = Some(v);
                }
                _ => {}
            }
            let mut j = 0;
            while j < 3 {
                if let Some(x) = shadow[j] {
                    prop!(*s.get(ids[j]) == x, "get returns the value last stored at the index");
                }
                j += 1;
            }
        }
        step += 1;
    }
}

harnesses! {
    c06_vec [8] => |nd: &mut Nd| ops::<VecStorage<u32>>(nd, 5);
    c06_dense [7] => |nd: &mut Nd| ops::<DenseVecStorage<u32>>(nd, 4);
    c06_hash [7] => |nd: &mut Nd| ops::<HashMapStorage<u32>>(nd, 4);
    c06_flagged [7] => |nd: &mut Nd| ops::<Flagged<VecStorage<u32>>>(nd, 4);
    c06_t_vec [9] => |nd: &mut Nd| ops::<VecStorage<u32>>(nd, 7);
    c06_t_dense [9] => |nd: &mut Nd| ops::<DenseVecStorage<u32>>(nd, 7);
    c06_t_hash [9] => |nd: &mut Nd| ops::<HashMapStorage<u32>>(nd, 7);
}
