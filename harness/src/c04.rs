//! C04: concurrent deferred creation and deletion is linearizable.
use crate::ent::{Hist, St, MAX};
use crate::env;
use crate::nd::Nd;
use goggles::entity::{Allocator, Entity};

/// What one thread did: per operation the handle it got (A) or whether its deletion was accepted
/// (K), and whether the handle was alive for it.
#[derive(Clone, Copy)]
struct Log {
    e: [Option<Entity>; 2],
    ok: [bool; 2],
}

/// Two shared-reference operations: A allocate_atomic, K kill_atomic(targets[i]).
fn thread(a: &Allocator, ops: [u8; 2], targets: [Entity; 2]) -> Log {
    let mut l = Log { e: [None; 2], ok: [false; 2] };
    let mut i = 0;
    while i < 2 {
        match ops[i] {
            b'A' => {
                let e = a.allocate_atomic();
                l.ok[i] = a.is_alive(e);
                l.e[i] = Some(e);
            }
            b'K' => l.ok[i] = a.kill_atomic(targets[i]).is_ok(),
            _ => {}
        }
        i += 1;
    }
    l
}

/// The second thread of an interfering execution, for the scheduling hook.
struct Other {
    a: *const Allocator,
    ops: [u8; 2],
    t: [Entity; 2],
    log: Log,
}
static mut OTHER: Option<Other> = None;
fn other() {
    unsafe {
        if let Some(o) = &mut OTHER {
            o.log = thread(&*o.a, o.ops, o.t);
        }
    }
}

/// `rounds` = 0: the second thread runs as a whole at one point of the first; otherwise every
/// interleaving of the two with that many rounds.
fn conc(nd: &mut Nd, rounds: usize, pre: &[u8], ops: [[u8; 2]; 2], post: &[u8]) {
    env::iter_max(5);
    let mut a = Allocator::new();
    let mut h = Hist { h: [None; MAX], st: [St::Dead; MAX], n: 0 };
    let mut i = 0;
    while i < pre.len() {
        h.op::<1, Allocator>(&mut a, nd, pre[i]);
        i += 1;
    }
    let n0 = h.n as u8;
    let mut k = [[0usize; 2]; 2];
    let mut t = [[h.handle(0); 2]; 2];
    let mut x = 0;
    while x < 4 {
        if ops[x / 2][x % 2] == b'K' {
            let j = nd.below(n0) as usize;
            k[x / 2][x % 2] = j;
            t[x / 2][x % 2] = h.handle(j);
        }
        x += 1;
    }
    let r = &a;
    let l = if rounds == 0 {
        unsafe {
            OTHER = Some(Other { a: r, ops: ops[1], t: t[1], log: Log { e: [None; 2], ok: [false; 2] } });
            let l0 = env::interrupted(nd, || thread(r, ops[0], t[0]), other);
            match &OTHER {
                Some(o) => [l0, o.log],
                None => unreachable!(),
            }
        }
    } else {
        let (l0, l1) = env::threads(nd, rounds, || thread(r, ops[0], t[0]), || thread(r, ops[1], t[1]));
        [l0, l1]
    };
    // the state before the merge
    let mut created = [false; 4];
    let mut x = 0;
    while x < 4 {
        if let Some(e) = l[x / 2].e[x % 2] {
            created[x] = a.is_alive(e);
        }
        x += 1;
    }
    let mut killed = Vec::new();
    a.merge_atomic(&mut killed);
    if rounds > 0 {
        env::feasible();
    }
    let mut x = 0;
    while x < 4 {
        let (p, q) = (x / 2, x % 2);
        match ops[p][q] {
            b'A' => {
                let e = match l[p].e[q] {
                    Some(e) => e,
                    None => unreachable!(),
                };
                prop!(l[p].ok[q], "a handle is alive for the thread that created it");
                prop!(created[x], "a handle created concurrently is alive afterwards");
                h.fresh(e);
                let n = h.n;
                h.h[n] = Some(e);
                h.st[n] = St::Alive;
                h.n = n + 1;
            }
            b'K' => {
                let j = k[p][q];
                prop!(l[p].ok[q] == (h.st[j] != St::Dead), "a concurrent deletion is accepted exactly for alive handles");
                if h.st[j] == St::Alive {
                    h.st[j] = St::Pending;
                }
            }
            _ => {}
        }
        x += 1;
    }
    prop!(killed.len() == pending(&h, n0 as usize), "the merge reports every requested deletion once");
    let mut j = 0;
    while j < h.n {
        if h.st[j] == St::Pending {
            h.st[j] = St::Dead;
        }
        j += 1;
    }
    h.answers::<1, Allocator>(&a);
    let mut i = 0;
    while i < post.len() {
        h.op::<1, Allocator>(&mut a, nd, post[i]);
        i += 1;
    }
}

fn pending(h: &Hist, n: usize) -> usize {
    let mut c = 0;
    let mut j = 0;
    while j < n {
        if h.st[j] == St::Pending {
            c += 1;
        }
        j += 1;
    }
    c
}

harnesses! {
    c04_a [5] => |nd: &mut Nd| conc(nd, 2, b"ak", [*b"A ", *b"A "], b"");
    c04_b [6] => |nd: &mut Nd| conc(nd, 3, b"aak", [*b"A ", *b"AA"], b"");
    c04_c [5] => |nd: &mut Nd| conc(nd, 3, b"aak", [*b"AK", *b"AK"], b"");
    c04_d [5] => |nd: &mut Nd| conc(nd, 3, b"aA", [*b"AK", *b"KA"], b"");
    c04_e [5] => |nd: &mut Nd| conc(nd, 0, b"ak", [*b"A ", *b"AA"], b"");
    c04_f [5] => |nd: &mut Nd| conc(nd, 0, b"aakk", [*b"AK", *b"A "], b"");
    c04_h [6] => |nd: &mut Nd| conc(nd, 3, b"a", [*b"A ", *b"AA"], b"");
    c04_i [6] => |nd: &mut Nd| conc(nd, 3, b"aakk", [*b"A ", *b"AA"], b"");
    c04_j [6] => |nd: &mut Nd| conc(nd, 3, b"aK", [*b"AA", *b"K "], b"a");
    c04_g [5] => |nd: &mut Nd| conc(nd, 0, b"aAK", [*b"KA", *b"KA"], b"");
}
