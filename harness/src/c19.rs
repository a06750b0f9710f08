//! C19: components live and die with their entity.
use crate::env;
use crate::nd::Nd;
use crate::wld::*;
use goggles::world_common::ComponentStorage;
use goggles::Component;

fn run<X, Y>(nd: &mut Nd, script: &[u8])
where
    X: Component + Val,
    Y: Component + Val,
    X::Storage: Default + Send + Sync,
    Y::Storage: Default + Send + Sync,
{

    place!(ComponentStorage<X>);
    place!(ComponentStorage<Y>);
    let mut h = Hist::new();
    h.op::<X, Y>(nd, b'X');
    h.op::<X, Y>(nd, b'Y');
    let mut i = 0;
    while i < script.len() {
        h.op::<X, Y>(nd, script[i]);
        i += 1;
    }
    h.answers::<X, Y>();
    ::std::mem::forget(h);
}

/// Marking through a handle concerns alive entities only.
fn marks(nd: &mut Nd) {
    use goggles::hibitset::BitSetLike;
    place!(ComponentStorage<D>);
    let mut h = Hist::new();
    h.w.insert_component::<D>();
    h.op::<D, D>(nd, b'c');
    h.op::<D, D>(nd, b'c');
    let (e, f) = (h.handle(0), h.handle(1));
    {
        let mut d = h.w.get_component_mut::<D>();
        prop!(d.insert(e, D(1)).is_ok() && d.insert(f, D(2)).is_ok(), "inserting for an alive entity succeeds");
        d.set_track_modified(true);
        prop!(d.tracking_modified(), "tracking can be switched on");
    }
    let (kill, k) = (nd.below(2) as usize, nd.below(2) as usize);
    h.op::<D, D>(nd, b'c');
    prop!(h.w.delete_entity(h.handle(kill)).is_ok(), "deleting is accepted exactly for alive handles");
    h.w.get_component_mut::<D>().clear_modified();
    let m = h.handle(k);
    let d = h.w.read_component::<D>();
    prop!(d.mark_modified(m).is_ok() == (k != kill), "marking is accepted exactly for alive handles");
    prop!(d.modified_indexes().contains(m.index()) == (k != kill), "marking marks the entity's index only");
    prop!(!d.modified_indexes().contains(h.handle(1 - k).index()), "marking marks the entity's index only");
    drop(d);
    ::std::mem::forget(h);
}

harnesses! {
    c19_a [9] => |nd: &mut Nd| run::<A, B>(nd, b"ccxykcj");
    c19_b [9] => |nd: &mut Nd| run::<A, B>(nd, b"ccxyKmc");
    c19_c [9] => |nd: &mut Nd| run::<B, C>(nd, b"cCxwKkcj");
    c19_d [9] => |nd: &mut Nd| run::<C, A>(nd, b"cCxyKmck");
    c19_e [9] => |nd: &mut Nd| run::<D, C>(nd, b"ccxgKkmc");
    c19_f [9] => |nd: &mut Nd| run::<A, C>(nd, b"ccxxkr?c");
    c19_g [9] => |nd: &mut Nd| run::<B, A>(nd, b"ccxykCxj");
    c19_h [9] => |nd: &mut Nd| run::<D, B>(nd, b"cxKymcwj");
    c19_i [9] => |nd: &mut Nd| run::<A, B>(nd, b"ccxkdGcg");
    c19_j [9] => |nd: &mut Nd| run::<A, B>(nd, b"ccxyRkXx");
    c19_k [9] => |nd: &mut Nd| run::<C, B>(nd, b"CCyxXKmC");
    c19_l [9] => |nd: &mut Nd| run::<A, B>(nd, b"cxkcxk");
    c19_m [9] => |nd: &mut Nd| run::<B, A>(nd, b"cxKmcyxK");
    c19_marks [6] => marks;
    c19_t_a [12] => |nd: &mut Nd| run::<A, B>(nd, b"ccxyKxmcyj");
    c19_t_b [12] => |nd: &mut Nd| run::<B, C>(nd, b"ccxyKkCxmj");
    c19_t_c [12] => |nd: &mut Nd| run::<D, C>(nd, b"cCxyKmxkcj");
}
