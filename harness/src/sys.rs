//! Systems with chosen resources, outcomes and errors, and a record of what ran.
use crate::nd::Nd;
use goggles::{Pool, ResourceConflict, Resources, System, SystemError};

/// A set of read and a set of written resources, as bits.
#[derive(Clone, Copy, Default, PartialEq)]
pub struct Rs {
    pub r: u32,
    pub w: u32,
}
impl Rs {
    pub fn hits(self, o: Rs) -> bool {
        self.w & (o.r | o.w) != 0 || o.w & (self.r | self.w) != 0
    }
    pub fn with(self, o: Rs) -> Rs {
        Rs { r: self.r | o.r, w: self.w | o.w }
    }
}
impl Resources for Rs {
    fn union(&mut self, o: &Self) {
        *self = self.with(*o);
    }
    fn conflicts_with(&self, o: &Self) -> bool {
        self.hits(*o)
    }
}

/// The errors that occurred, in order.
#[derive(Clone, Copy, PartialEq)]
pub struct Errs {
    pub id: [u8; N],
    pub n: usize,
}
impl Errs {
    pub fn one(i: u8) -> Errs {
        Errs { id: [i, 0, 0, 0, 0], n: 1 }
    }
}
impl SystemError for Errs {
    fn combine(self, o: Errs) -> Errs {
        let mut e = self;
        let mut i = 0;
        while i < N {
            if i < o.n {
                assert!(e.n < N, "PROP: no error is counted twice");
                e.id[e.n] = o.id[i];
                e.n += 1;
            }
            i += 1;
        }
        e
    }
}

pub const N: usize = 5;
/// When each system ran first (0: never), and how often.
static mut WHEN: [u8; N] = [0; N];
static mut RUNS: [u8; N] = [0; N];
static mut CLOCK: u8 = 0;
pub fn reset() {
    unsafe {
        WHEN = [0; N];
        RUNS = [0; N];
        CLOCK = 0;
    }
}
pub fn when(i: usize) -> u8 {
    unsafe { WHEN[i] }
}
pub fn runs(i: usize) -> u8 {
    unsafe { RUNS[i] }
}

/// Runs the two sides in an order taken from the choice tape, or in sequence.
pub struct TapePool {
    pub o: u8,
}
impl Pool for TapePool {
    fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB)
    where
        A: FnOnce() -> RA + Send,
        B: FnOnce() -> RB + Send,
        RA: Send,
        RB: Send,
    {
        unsafe {
            let o = self.o >> JOINS & 1;
            JOINS = (JOINS + 1) & 7;
            if o == 0 {
                let ra = a();
                (ra, b())
            } else {
                let rb = b();
                (a(), rb)
            }
        }
    }
}
static mut JOINS: u8 = 0;
pub fn pool(nd: &mut Nd) -> TapePool {
    unsafe { JOINS = 0 }
    TapePool { o: nd.u8() }
}

/// A system; `P` is the pool type it runs on.
pub struct Sys<P> {
    pub id: u8,
    pub rs: Rs,
    pub bad: bool,
    pub fails: bool,
    pub p: ::std::marker::PhantomData<fn(P)>,
}
impl<P> Sys<P> {
    pub fn new(id: u8, rs: Rs, bad: bool, fails: bool) -> Self {
        Sys { id, rs, bad, fails, p: ::std::marker::PhantomData }
    }
    pub fn any(nd: &mut Nd, id: u8) -> Self {
        let rs = Rs { r: nd.below(4) as u32, w: nd.below(4) as u32 };
        let (bad, fails) = (nd.bool(), nd.bool());
        Self::new(id, rs, bad, fails)
    }
}
pub const ARGS: u8 = 42;
impl<P: Pool> System<u8> for Sys<P> {
    type Resources = Rs;
    type Pool = P;
    type Error = Errs;
    fn check_resources(&self) -> Result<Rs, ResourceConflict> {
        if self.bad {
            Err(ResourceConflict { type_name: "Sys" })
        } else {
            Ok(self.rs)
        }
    }
    fn run(&mut self, _: &P, args: u8) -> Result<(), Errs> {
        prop!(args == ARGS, "every system gets the arguments of the run");
        unsafe {
            CLOCK += 1;
            let i = self.id as usize;
            WHEN[i] = CLOCK;
            RUNS[i] += 1;
            prop!(RUNS[i] == 1, "no system runs twice");
        }
        if self.fails {
            Err(Errs::one(self.id))
        } else {
            Ok(())
        }
    }
}
