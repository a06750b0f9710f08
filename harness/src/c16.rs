//! C16: running a composition runs each system as its structure says.
use crate::env;
use crate::nd::Nd;
use crate::sys::*;
use goggles::system::{ParList, SeqList};
use goggles::{par, seq, Par, Pool, RayonPool, Seq, SeqPool, System};

/// What a run of a composition should leave behind: which systems ran, and the errors in order.
#[derive(Clone, Copy)]
struct Want {
    ran: u8,
    e: Errs,
}
const OK: Errs = Errs { id: [0; N], n: 0 };

fn one<P>(s: &Sys<P>) -> Want {
    Want { ran: 1 << s.id, e: if s.fails { Errs::one(s.id) } else { OK } }
}
fn p(a: Want, b: Want) -> Want {
    let mut e = a.e;
    let mut i = 0;
    while i < N {
        if i < b.e.n {
            e.id[e.n] = b.e.id[i];
            e.n += 1;
        }
        i += 1;
    }
    Want { ran: a.ran | b.ran, e }
}
fn s(a: Want, b: Want) -> Want {
    if a.e.n > 0 {
        return a;
    }
    // everything in `b` runs after everything in `a`
    Want { ran: a.ran | b.ran, e: b.e }
}
fn go<P: Pool, T: System<u8, Error = Errs, Pool = P>>(mut t: T, pool: &P, want: Want, before: &[(u8, u8)]) {
    reset();
    let r = t.run(pool, ARGS);
    match r {
        Ok(()) => prop!(want.e.n == 0, "a composition succeeds only if everything that ran succeeded"),
        Err(e) => prop!(e == want.e, "the error is the combination of the errors that occurred, in order"),
    }
    let mut i = 0;
    while i < N {
        prop!(runs(i) == want.ran >> i & 1, "exactly the systems that should run have run");
        i += 1;
    }
    let mut i = 0;
    while i < before.len() {
        let (a, b) = before[i];
        if runs(b as usize) == 1 {
            prop!(when(a as usize) < when(b as usize), "systems in sequence run in their order");
        }
        i += 1;
    }
}

fn systems<P>(nd: &mut Nd) -> [Sys<P>; N] {
    [0, 1, 2, 3, 4].map(|i| {
        let fails = nd.bool();
        Sys::new(i, Rs::default(), false, fails)
    })
}

fn pairs<P: Pool + Sync>(nd: &mut Nd, pool: P) {
    env::choices(nd);
    let [a, b, c, d, _] = systems::<P>(nd);
    let (x, y, z, t) = (one(&a), one(&b), one(&c), one(&d));
    match nd.below(8) {
        0 => go(Par::new(a, b), &pool, p(x, y), &[]),
        1 => go(Seq::new(a, b), &pool, s(x, y), &[(0, 1)]),
        2 => go(Par::new(Seq::new(a, b), Seq::new(c, d)), &pool, p(s(x, y), s(z, t)), &[(0, 1), (2, 3)]),
        3 => go(Seq::new(Par::new(a, b), Par::new(c, d)), &pool, s(p(x, y), p(z, t)), &[(0, 2), (0, 3), (1, 2), (1, 3)]),
        4 => go(par![a, b, c], &pool, p(x, p(y, z)), &[]),
        5 => go(seq![a, b, c], &pool, s(x, s(y, z)), &[(0, 1), (1, 2)]),
        6 => go(par![a, b, c, d], &pool, p(x, p(y, p(z, t))), &[]),
        _ => go(seq![a, b, c, d], &pool, s(x, s(y, s(z, t))), &[(0, 1), (1, 2), (2, 3)]),
    }
}

fn lists<P: Pool + Sync>(nd: &mut Nd, pool: P) {
    env::choices(nd);
    let [a, b, c, d, _] = systems::<P>(nd);
    let (x, y, z, t) = (one(&a), one(&b), one(&c), one(&d));
    let none = Want { ran: 0, e: OK };
    match nd.below(8) {
        0 => go(ParList::<Sys<P>>(vec![]), &pool, none, &[]),
        1 => go(SeqList::<Sys<P>>(vec![]), &pool, none, &[]),
        2 => go(ParList(vec![a]), &pool, x, &[]),
        3 => go(SeqList(vec![a, b]), &pool, s(x, y), &[(0, 1)]),
        4 => go(SeqList(vec![a, b, c, d]), &pool, s(x, s(y, s(z, t))), &[(0, 1), (1, 2), (2, 3)]),
        5 => go(SeqList(vec![ParList(vec![a, b]), ParList(vec![c])]), &pool, s(p(x, y), z), &[(0, 2), (1, 2)]),
        6 => go(Box::new(Par::new(a, b)), &pool, p(x, y), &[]),
        _ => go(Par::new(SeqList(vec![a, b]), SeqList(vec![c, d])), &pool, p(s(x, y), s(z, t)), &[(0, 1), (2, 3)]),
    }
}

fn par_list<P: Pool + Sync>(nd: &mut Nd, pool: P) {
    env::choices(nd);
    let [a, b, c, d, _] = systems::<P>(nd);
    let (x, y, z, t) = (one(&a), one(&b), one(&c), one(&d));
    match nd.below(4) {
        0 => go(ParList(vec![a, b]), &pool, p(x, y), &[]),
        1 => go(ParList(vec![a, b, c]), &pool, p(x, p(y, z)), &[]),
        2 => go(ParList(vec![a, b, c, d]), &pool, p(x, p(y, p(z, t))), &[]),
        _ => go(ParList(vec![SeqList(vec![a, b]), SeqList(vec![c])]), &pool, p(s(x, y), z), &[(0, 1)]),
    }
}

/// Five systems: a list that does not split evenly more than once.
fn five<P: Pool + Sync>(nd: &mut Nd, pool: P) {
    env::choices(nd);
    let [a, b, c, d, e] = systems::<P>(nd);
    let (x, y, z, t, u) = (one(&a), one(&b), one(&c), one(&d), one(&e));
    match nd.below(3) {
        0 => go(ParList(vec![a, b, c, d, e]), &pool, p(x, p(y, p(z, p(t, u)))), &[]),
        1 => go(SeqList(vec![a, b, c, d, e]), &pool, s(x, s(y, s(z, s(t, u)))), &[(0, 1), (1, 2), (2, 3), (3, 4)]),
        _ => go(Seq::new(ParList(vec![a, b, c]), Par::new(d, e)), &pool, s(p(x, p(y, z)), p(t, u)), &[(0, 3), (0, 4), (1, 3), (2, 4)]),
    }
}

fn tape(nd: &mut Nd) -> TapePool {
    pool(nd)
}

harnesses! {
    c16_pairs [7] => |nd: &mut Nd| { let q = tape(nd); pairs(nd, q) };
    c16_lists [7] => |nd: &mut Nd| { let q = tape(nd); lists(nd, q) };
    c16_parlist [7] => |nd: &mut Nd| { let q = tape(nd); par_list(nd, q) };
    c16_five [7] => |nd: &mut Nd| { let q = tape(nd); five(nd, q) };
    c16_rayon_five [7] => |nd: &mut Nd| five(nd, RayonPool);
    c16_seq_pairs [7] => |nd: &mut Nd| pairs(nd, SeqPool);
    c16_seq_parlist [7] => |nd: &mut Nd| par_list(nd, SeqPool);
    c16_rayon_pairs [7] => |nd: &mut Nd| pairs(nd, RayonPool);
    c16_rayon_parlist [7] => |nd: &mut Nd| par_list(nd, RayonPool);
}
