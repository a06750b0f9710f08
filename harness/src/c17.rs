//! C17: automatic parallelization keeps order and avoids conflicts.
use crate::env;
use crate::nd::Nd;
use crate::sys::*;
use goggles::{parallelize, SeqPool, System};

type S = Sys<SeqPool>;

fn groups<const N: usize>(nd: &mut Nd) {
    let mut rs = [Rs::default(); N];
    let mut bad = [false; N];
    let mut i = 0;
    while i < N {
        rs[i] = Rs { r: nd.below(4) as u32, w: nd.below(4) as u32 };
        bad[i] = nd.bool();
        i += 1;
    }
    let mut list = Vec::new();
    let mut i = 0;
    while i < N {
        list.push(S::new(i as u8, rs[i], bad[i], false));
        i += 1;
    }
    let out = parallelize(list);
    let mut want = true;
    let mut k = 0; // the next system
    let mut g = 0;
    let mut prev = Rs::default();
    let mut prev_bad = false;
    while g < N {
        if g < out.0.len() {
            let group = &out.0[g].0;
            prop!(group.len() > 0, "no group is empty");
            let mut used = Rs::default();
            let mut any_bad = false;
            let mut j = 0;
            while j < N {
                if j < group.len() {
                    let s = &group[j];
                    prop!(k < N, "no system is added");
                    prop!(s.id as usize == k, "every system is kept, in the original order");
                    prop!(s.rs == rs[k] && s.bad == bad[k], "the systems are the original ones");
                    if s.bad {
                        prop!(group.len() == 1, "a system with an internal conflict stands alone");
                        any_bad = true;
                    } else {
                        prop!(!used.hits(s.rs), "no two systems of a group conflict");
                        if j == 0 && g > 0 {
                            prop!(prev_bad || prev.hits(s.rs), "a group is as large as possible");
                        }
                        used = used.with(s.rs);
                    }
                    k += 1;
                }
                j += 1;
            }
            prev = used;
            prev_bad = any_bad;
        }
        g += 1;
    }
    prop!(k == N && out.0.len() <= N, "every system is kept");
    let mut i = 0;
    let mut all = Rs::default();
    while i < N {
        if bad[i] {
            want = false;
        }
        all = all.with(rs[i]);
        i += 1;
    }
    match out.check_resources() {
        Ok(r) => {
            prop!(want, "an internal conflict is reported by the result");
            prop!(r == all, "the result reports everything its systems use");
        }
        Err(_) => prop!(!want, "parallelizing adds no conflict"),
    }
}

harnesses! {
    c17_one [3] => groups::<1>;
    c17_two [4] => groups::<2>;
    c17_three [5] => groups::<3>;
    c17_four [6] => groups::<4>;
    c17_five [7] => groups::<5>;
}
