//! C14: read/write resource sets detect exactly the real conflicts.
use crate::env;
use crate::nd::Nd;
use goggles::{Resources, RwResources};

/// Reference: bit masks over the resources 0..4.
#[derive(Clone, Copy)]
struct M {
    r: u8,
    w: u8,
}
impl M {
    fn conflicts(self, o: M) -> bool {
        self.w & (o.r | o.w) != 0 || o.w & (self.r | self.w) != 0
    }
    fn read(&mut self, x: u8) {
        if self.w & 1 << x == 0 {
            self.r |= 1 << x;
        }
    }
    fn write(&mut self, x: u8) {
        self.w |= 1 << x;
        self.r &= !(1 << x);
    }
    fn union(self, o: M) -> M {
        let w = self.w | o.w;
        M { r: (self.r | o.r) & !w, w }
    }
}

/// Up to `n` arbitrary declarations.
fn decl(nd: &mut Nd, n: usize) -> (RwResources<u8>, M) {
    let mut s = RwResources::new();
    let mut m = M { r: 0, w: 0 };
    let mut i = 0;
    while i < n {
        let x = nd.below(3);
        match nd.below(3) {
            0 => {
                s.add_read(x);
                m.read(x);
            }
            1 => {
                s.add_write(x);
                m.write(x);
            }
            _ => {}
        }
        i += 1;
    }
    (s, m)
}

/// What a set lists, each resource once.
fn listed(s: &RwResources<u8>, m: M) {
    let mut r = 0;
    let mut n = 0;
    for x in s.reads() {
        prop!(r & 1 << *x == 0, "a resource is listed once");
        r |= 1 << *x;
        n += 1;
    }
    prop!(r == m.r, "the listed reads are the resources read and not written");
    let mut w = 0;
    for x in s.writes() {
        prop!(w & 1 << *x == 0, "a resource is listed once");
        w |= 1 << *x;
        n += 1;
    }
    prop!(w == m.w, "the listed writes are the resources written");
}

fn declare(nd: &mut Nd) {
    env::hash_order(nd);
    let (s, m) = decl(nd, 3);
    listed(&s, m);
}
fn builder(nd: &mut Nd) {
    env::hash_order(nd);
    let x = [nd.below(3), nd.below(3), nd.below(3)];
    let mut m = M { r: 0, w: 0 };
    m.read(x[0]);
    m.write(x[1]);
    m.read(x[2]);
    listed(&RwResources::new().read(x[0]).write(x[1]).read(x[2]), m);
    let mut s = RwResources::new();
    s.add_writes([x[0]]);
    s.add_reads([x[1], x[2]]);
    let mut m = M { r: 0, w: 0 };
    m.write(x[0]);
    m.read(x[1]);
    m.read(x[2]);
    listed(&s, m);
    // both orders of reads and writes
    let f = RwResources::from_iters([x[1], x[2]], [x[0]]);
    listed(&f, m);
    let f = RwResources::from_iters([x[1]], [x[0], x[2]]);
    let mut m = M { r: 0, w: 0 };
    m.read(x[1]);
    m.write(x[0]);
    m.write(x[2]);
    listed(&f, m);
}
fn map(nd: &mut Nd) {
    env::hash_order(nd);
    let (s, m) = decl(nd, 2);
    let t = [nd.below(3), nd.below(3), nd.below(3)];
    let mut want = M { r: 0, w: 0 };
    let mut i = 0;
    while i < 3 {
        if m.r & 1 << i != 0 {
            want.read(t[i as usize]);
        }
        if m.w & 1 << i != 0 {
            want.write(t[i as usize]);
        }
        i += 1;
    }
    let mapped = s.map(|x| t[*x as usize]);
    listed(&mapped, want);
}
fn conflict(nd: &mut Nd) {
    env::hash_order(nd);
    let (s, m) = decl(nd, 2);
    let (t, n) = decl(nd, 2);
    prop!(s.conflicts_with(&t) == m.conflicts(n), "two sets conflict exactly if one writes what the other uses");
    prop!(t.conflicts_with(&s) == m.conflicts(n), "conflicts do not depend on the order of the sets");
}
fn union(nd: &mut Nd, a: usize, b: usize) {
    env::hash_order(nd);
    let (mut s, m) = decl(nd, a);
    let (t, n) = decl(nd, b);
    s.union(&t);
    listed(&s, m.union(n));
    listed(&t, n);
}
fn union_conflict(nd: &mut Nd) {
    env::hash_order(nd);
    let (mut s, m) = decl(nd, 1);
    let (t, n) = decl(nd, 1);
    let (u, o) = decl(nd, 1);
    let sep = s.conflicts_with(&u) || t.conflicts_with(&u);
    s.union(&t);
    prop!(s.conflicts_with(&u) == sep, "a union conflicts with a third set exactly if a part does");
    prop!(u.conflicts_with(&s) == sep, "a union conflicts with a third set exactly if a part does");
}

harnesses! {
    c14_declare [6] => declare;
    c14_builder [6] => builder;
    c14_map [6] => map;
    c14_conflict [6] => conflict;
    c14_union [6] => |nd: &mut Nd| union(nd, 2, 2);
    c14_union_conflict [6] => union_conflict;
}
