//! C22: dense slices hold exactly the present components.
use crate::env;
use crate::nd::Nd;
use crate::st::*;
use goggles::{DenseVecStorage, MaskedStorage, RawStorage};

fn slices(nd: &mut Nd, script: &[u8]) {
    let mut m = Map::new(nd);
    let mut s = MaskedStorage::<DenseVecStorage<u8>>::default();
    m.fill(nd, &mut s);
    let mut i = 0;
    while i < script.len() {
        m.op(nd, &mut s, script[i]);
        i += 1;
    }
    exact(&m, s.as_slice());
    exact(&m, s.raw_storage_mut_slice());
    // a write through the mutable slice is seen by exactly one lookup
    let p = nd.below(3) as usize;
    let v = nd.u8();
    let sl = s.as_mut_slice();
    if p < sl.len() {
        let old = sl[p];
        sl[p] = v;
        let mut changed = 0;
        let mut same = 0;
        let mut k = 0;
        while k < 3 {
            let now = s.get(m.ids[k]).copied();
            if now == m.v[k] {
                same += 1;
            } else {
                changed += 1;
                prop!(m.v[k] == Some(old) && now == Some(v), "a write through the slice changes the component at its place");
            }
            k += 1;
        }
        prop!(changed == if old == v { 0 } else { 1 }, "a write through the slice changes exactly one component");
        prop!(changed + same == 3, "a write through the slice changes nothing else");
    }
}

trait MutSlice {
    fn raw_storage_mut_slice(&mut self) -> &[u8];
}
impl MutSlice for MaskedStorage<DenseVecStorage<u8>> {
    fn raw_storage_mut_slice(&mut self) -> &[u8] {
        self.as_mut_slice()
    }
}

/// The slice is a permutation of the present values.
fn exact(m: &Map, sl: &[u8]) {
    let mut n = 0;
    let mut k = 0;
    while k < 3 {
        if let Some(v) = m.v[k] {
            n += 1;
            let mut here = 0;
            let mut want = 0;
            let mut j = 0;
            while j < 3 {
                if m.v[j] == Some(v) {
                    want += 1;
                }
                if j < sl.len() && sl[j] == v {
                    here += 1;
                }
                j += 1;
            }
            prop!(here == want, "the slice contains every present component once");
        }
        k += 1;
    }
    prop!(sl.len() == n, "the slice has exactly as many elements as there are components");
}

/// The same through the component views of a world.
fn world(nd: &mut Nd) {
    use crate::wld::B;
    use goggles::world_common::ComponentStorage;
    env::iter_max(3);
    place!(ComponentStorage<B>);
    let mut w = goggles::World::new();
    w.insert_component::<B>();
    let e = [w.create_entity(), w.create_entity(), w.create_entity()];
    let mut v = [None; 3];
    let mut k = 0;
    while k < 3 {
        if nd.bool() {
            w.get_component_mut::<B>().insert(e[k], B(10 + k as u8)).ok();
            v[k] = Some(10 + k as u8);
        }
        k += 1;
    }
    let k = nd.below(3) as usize;
    w.delete_entity(e[k]).ok();
    v[k] = None;
    {
        let c = w.read_component::<B>();
        let sl = c.as_slice();
        let mut n = 0;
        let mut k = 0;
        while k < 3 {
            if v[k].is_some() {
                n += 1;
                let here = (0 < sl.len() && sl[0].0 == 10 + k as u8) as u8 + (1 < sl.len() && sl[1].0 == 10 + k as u8) as u8 + (2 < sl.len() && sl[2].0 == 10 + k as u8) as u8;
                prop!(here == 1, "the slice contains every present component once");
            }
            k += 1;
        }
        prop!(sl.len() == n, "the slice has exactly as many elements as there are components");
    }
    let mut c = w.write_component::<B>();
    let sl = c.as_mut_slice();
    let x = nd.u8();
    if sl.len() > 0 {
        let old = sl[0].0;
        sl[0].0 = x;
        let mut k = 0;
        while k < 3 {
            if v[k] == Some(old) {
                v[k] = Some(x);
            }
            k += 1;
        }
    }
    let mut k = 0;
    while k < 3 {
        prop!(c.get(e[k]).map(|b| b.0) == v[k], "a write through the slice changes the component at its place");
        k += 1;
    }
    drop(c);
    ::std::mem::forget(w);
}

harnesses! {
    c22_none [7] => |nd: &mut Nd| slices(nd, b"");
    c22_i [7] => |nd: &mut Nd| slices(nd, b"i");
    c22_r [7] => |nd: &mut Nd| slices(nd, b"r");
    c22_ri [7] => |nd: &mut Nd| slices(nd, b"ri");
    c22_w [7] => |nd: &mut Nd| slices(nd, b"rw");
    c22_rr [7] => |nd: &mut Nd| slices(nd, b"rr");
    c22_t_rir [7] => |nd: &mut Nd| slices(nd, b"rrii");
    c22_world [7] => world;
}
