//! C15: composite systems and fetches report every conflict and every use.
use crate::nd::Nd;
use crate::sys::*;
use goggles::system::{ParList, SeqList};
use goggles::{par, seq, FetchNone, FetchResources, Par, ResourceConflict, Seq, SeqPool, System};

type S = Sys<SeqPool>;
/// The resources of a composition, or that it has a conflict.
type Want = Option<Rs>;

fn both(a: Want, b: Want, parallel: bool) -> Want {
    match (a, b) {
        (Some(a), Some(b)) if !parallel || !a.hits(b) => Some(a.with(b)),
        _ => None,
    }
}
fn one(s: &S) -> Want {
    if s.bad { None } else { Some(s.rs) }
}
fn check<T: System<u8, Resources = Rs>>(t: &T, want: Want) {
    match (t.check_resources(), want) {
        (Ok(r), Some(w)) => prop!(r == w, "the reported resources are the union of what the parts use"),
        (Ok(_), None) => prop!(false, "a conflict is reported"),
        (Err(_), Some(_)) => prop!(false, "a composition without conflict is accepted"),
        (Err(_), None) => {}
    }
}

fn systems(nd: &mut Nd) -> [S; 3] {
    [S::any(nd, 0), S::any(nd, 1), S::any(nd, 2)]
}

fn pair(nd: &mut Nd) {
    let [a, b, c] = systems(nd);
    let (x, y, z) = (one(&a), one(&b), one(&c));
    match nd.below(6) {
        0 => check(&Par::new(a, b), both(x, y, true)),
        1 => check(&Seq::new(a, b), both(x, y, false)),
        2 => check(&Par::new(Seq::new(a, b), c), both(both(x, y, false), z, true)),
        3 => check(&Par::new(a, Seq::new(b, c)), both(x, both(y, z, false), true)),
        4 => check(&Seq::new(Par::new(a, b), c), both(both(x, y, true), z, false)),
        _ => check(&Seq::new(a, Par::new(b, c)), both(x, both(y, z, true), false)),
    }
}

fn chain(nd: &mut Nd) {
    let [a, b, c] = systems(nd);
    let d = S::any(nd, 3);
    let (x, y, z, t) = (one(&a), one(&b), one(&c), one(&d));
    match nd.below(6) {
        0 => check(&par![a, b, c], both(x, both(y, z, true), true)),
        1 => check(&seq![a, b, c], both(x, both(y, z, false), false)),
        2 => check(&par![a, b, c, d], both(x, both(y, both(z, t, true), true), true)),
        3 => check(&seq![a, b, c, d], both(x, both(y, both(z, t, false), false), false)),
        4 => check(&Box::new(Par::new(a, b)), both(x, y, true)),
        _ => {
            let s: Box<dyn System<u8, Resources = Rs, Pool = SeqPool, Error = Errs>> = Box::new(c);
            check(&s, z)
        }
    }
}

fn lists(nd: &mut Nd) {
    let [a, b, c] = systems(nd);
    let (x, y, z) = (one(&a), one(&b), one(&c));
    let no = Some(Rs::default());
    match nd.below(8) {
        0 => check(&ParList::<S>(vec![]), no),
        1 => check(&SeqList::<S>(vec![]), no),
        2 => check(&ParList(vec![a]), x),
        3 => check(&SeqList(vec![a]), x),
        4 => check(&ParList(vec![a, b]), both(x, y, true)),
        5 => check(&SeqList(vec![a, b]), both(x, y, false)),
        6 => check(&ParList(vec![a, b, c]), both(both(x, y, true), z, true)),
        _ => check(&SeqList(vec![a, b, c]), both(both(x, y, false), z, false)),
    }
}

/// Longer lists.
fn long(nd: &mut Nd) {
    let [a, b, c] = systems(nd);
    let (d, e) = (S::any(nd, 3), S::any(nd, 4));
    let (x, y, z, t, u) = (one(&a), one(&b), one(&c), one(&d), one(&e));
    match nd.below(4) {
        0 => check(&ParList(vec![a, b, c, d]), both(both(both(x, y, true), z, true), t, true)),
        1 => check(&ParList(vec![a, b, c, d, e]), both(both(both(both(x, y, true), z, true), t, true), u, true)),
        2 => check(&SeqList(vec![a, b, c, d, e]), both(both(both(both(x, y, false), z, false), t, false), u, false)),
        _ => check(&ParList(vec![SeqList(vec![a, b, c]), SeqList(vec![d, e])]), both(both(both(x, y, false), z, false), both(t, u, false), true)),
    }
}

fn nested(nd: &mut Nd) {
    let [a, b, c] = systems(nd);
    let (x, y, z) = (one(&a), one(&b), one(&c));
    match nd.below(4) {
        0 => check(&ParList(vec![SeqList(vec![a, b]), SeqList(vec![c])]), both(both(x, y, false), z, true)),
        1 => check(&SeqList(vec![ParList(vec![a, b]), ParList(vec![c])]), both(both(x, y, true), z, false)),
        2 => check(&Par::new(ParList(vec![a, b]), SeqList(vec![c])), both(both(x, y, true), z, true)),
        _ => check(&Seq::new(ParList(vec![a, b]), Par::new(c, ParList::<S>(vec![]))), both(both(x, y, true), z, false)),
    }
}

/// Fetched data number `I`, with resources and outcome chosen by the harness.
struct F<const I: usize>(u32);
static mut DATA: [(Rs, bool); 26] = [(Rs { r: 0, w: 0 }, false); 26];
struct Source(u32);
static mut FETCHED: u32 = 0;
impl<'a, const I: usize> FetchResources<'a, Source> for F<I> {
    type Resources = Rs;
    fn check_resources() -> Result<Rs, ResourceConflict> {
        let (rs, bad) = unsafe { DATA[I] };
        if bad {
            Err(ResourceConflict { type_name: "F" })
        } else {
            Ok(rs)
        }
    }
    fn fetch(s: &'a Source) -> Self {
        unsafe {
            prop!(FETCHED & 1 << I == 0, "no member is fetched twice");
            FETCHED |= 1 << I;
        }
        F(s.0 + I as u32)
    }
}
fn fetch<T: FetchResources<'static, Source, Resources = Rs>>(want: Want) {
    match (T::check_resources(), want) {
        (Ok(r), Some(w)) => prop!(r == w, "the reported resources are the union of what the members use"),
        (Ok(_), None) => prop!(false, "a conflict between two members is reported"),
        (Err(_), Some(_)) => prop!(false, "a tuple without conflict is accepted"),
        (Err(_), None) => {}
    }
}
static SOURCE: Source = Source(100);
fn small(nd: &mut Nd) {
    let mut i = 0;
    let mut w = [None; 4];
    while i < 4 {
        let (rs, bad) = (Rs { r: nd.below(4) as u32, w: nd.below(4) as u32 }, nd.bool());
        unsafe { DATA[i] = (rs, bad) };
        w[i] = if bad { None } else { Some(rs) };
        i += 1;
    }
    unsafe { FETCHED = 0 };
    fetch::<(F<0>,)>(w[0]);
    fetch::<(F<0>, F<1>)>(both(w[0], w[1], true));
    fetch::<(F<0>, F<1>, F<2>)>(both(both(w[0], w[1], true), w[2], true));
    fetch::<(F<0>, F<1>, F<2>, F<3>)>(both(both(w[0], w[1], true), both(w[2], w[3], true), true));
    fetch::<(F<0>, (F<1>, F<2>))>(both(w[0], both(w[1], w[2], true), true));
    fetch::<(FetchNone<Source, Rs>, F<1>)>(w[1]);
    fetch::<FetchNone<Source, Rs>>(Some(Rs::default()));
    let (a, b, c) = <(F<0>, F<1>, F<2>) as FetchResources<'static, Source>>::fetch(&SOURCE);
    prop!(a.0 == 100 && b.0 == 101 && c.0 == 102, "fetching a tuple fetches every member from the source");
    prop!(unsafe { FETCHED } == 7, "fetching a tuple fetches every member");
}

/// In a wide tuple two arbitrary members use something.
fn wide(nd: &mut Nd) {
    unsafe { DATA = [(Rs { r: 0, w: 0 }, false); 26] };
    let (i, j) = (nd.below(26) as usize, nd.below(26) as usize);
    crate::nd::assume(i != j);
    let a = Rs { r: nd.below(4) as u32, w: nd.below(4) as u32 };
    let b = Rs { r: nd.below(4) as u32, w: nd.below(4) as u32 };
    unsafe {
        DATA[i] = (a, false);
        DATA[j] = (b, false);
    }
    let on = |n: usize| {
        let x = if i < n { a } else { Rs::default() };
        let y = if j < n { b } else { Rs::default() };
        both(Some(x), Some(y), true)
    };
    macro_rules! arity {
        ($($n:literal: ($($k:literal)*))*) => { $(fetch::<($(F<$k>,)*)>(on($n));)* };
    }
    arity! {
        5: (0 1 2 3 4)
        6: (0 1 2 3 4 5)
        7: (0 1 2 3 4 5 6)
        8: (0 1 2 3 4 5 6 7)
        9: (0 1 2 3 4 5 6 7 8)
        12: (0 1 2 3 4 5 6 7 8 9 10 11)
        16: (0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15)
        26: (0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25)
    }
}

harnesses! {
    c15_pair [5] => pair;
    c15_chain [5] => chain;
    c15_lists [5] => lists;
    c15_long [7] => long;
    c15_nested [5] => nested;
    c15_fetch [5] => small;
    c15_wide [5] => wide;
}
