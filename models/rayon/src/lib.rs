//! Model of `rayon`: one thread, but every choice the real pool leaves open (which side of a join
//! runs first, whether and where a producer is split, which half is folded first) is taken from the
//! harness' choice tape.
#![allow(clippy::all)]

/// Runs both closures, in either order.
pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    if vstd_model::order::next() & 1 == 0 {
        let ra = a();
        let rb = b();
        (ra, rb)
    } else {
        let rb = b();
        let ra = a();
        (ra, rb)
    }
}
pub fn current_num_threads() -> usize { 2 }

pub mod iter {
    pub trait ParallelIterator: Sized + Send {
        type Item: Send;
        fn drive_unindexed<C: plumbing::UnindexedConsumer<Self::Item>>(self, consumer: C) -> C::Result;
        fn opt_len(&self) -> Option<usize> { None }
        fn for_each<F: Fn(Self::Item) + Sync + Send>(self, f: F) {
            self.drive_unindexed(ForEach(&f))
        }
    }
    pub trait IntoParallelIterator {
        type Iter: ParallelIterator<Item = Self::Item>;
        type Item: Send;
        fn into_par_iter(self) -> Self::Iter;
    }
    impl<T: ParallelIterator> IntoParallelIterator for T {
        type Iter = T;
        type Item = T::Item;
        fn into_par_iter(self) -> T { self }
    }

    struct ForEach<'f, F>(&'f F);
    pub struct Unit;
    impl plumbing::Reducer<()> for Unit { fn reduce(self, _: (), _: ()) {} }
    impl<'f, T, F: Fn(T) + Sync> plumbing::Consumer<T> for ForEach<'f, F> {
        type Folder = ForEach<'f, F>;
        type Reducer = Unit;
        type Result = ();
        fn split_at(self, _: usize) -> (Self, Self, Unit) { (ForEach(self.0), ForEach(self.0), Unit) }
        fn into_folder(self) -> Self { self }
        fn full(&self) -> bool { false }
    }
    impl<'f, T, F: Fn(T) + Sync> plumbing::UnindexedConsumer<T> for ForEach<'f, F> {
        fn split_off_left(&self) -> Self { ForEach(self.0) }
        fn to_reducer(&self) -> Unit { Unit }
    }
    impl<'f, T, F: Fn(T) + Sync> plumbing::Folder<T> for ForEach<'f, F> {
        type Result = ();
        fn consume(self, t: T) -> Self { (self.0)(t); self }
        fn complete(self) {}
        fn full(&self) -> bool { false }
    }

    pub mod plumbing {
        pub trait Consumer<Item>: Send + Sized {
            type Folder: Folder<Item, Result = Self::Result>;
            type Reducer: Reducer<Self::Result>;
            type Result: Send;
            fn split_at(self, index: usize) -> (Self, Self, Self::Reducer);
            fn into_folder(self) -> Self::Folder;
            fn full(&self) -> bool;
        }
        pub trait Folder<Item>: Sized {
            type Result;
            fn consume(self, item: Item) -> Self;
            fn consume_iter<I: IntoIterator<Item = Item>>(mut self, iter: I) -> Self {
                for item in iter {
                    self = self.consume(item);
                    if self.full() { break; }
                }
                self
            }
            fn complete(self) -> Self::Result;
            fn full(&self) -> bool;
        }
        pub trait Reducer<Result> { fn reduce(self, left: Result, right: Result) -> Result; }
        pub trait UnindexedConsumer<I>: Consumer<I> {
            fn split_off_left(&self) -> Self;
            fn to_reducer(&self) -> Self::Reducer;
        }
        pub trait UnindexedProducer: Send + Sized {
            type Item;
            fn split(self) -> (Self, Option<Self>);
            fn fold_with<F: Folder<Self::Item>>(self, folder: F) -> F;
        }

        /// Up to two splits (three parts), wherever the producer allows them, the parts folded in any
        /// order.  The parts are kept in a list so that there is one fold in the program.
        pub fn bridge_unindexed<P: UnindexedProducer, C: UnindexedConsumer<P::Item>>(producer: P, consumer: C) -> C::Result {
            if consumer.full() {
                return consumer.into_folder().complete();
            }
            let c = vstd_model::order::next();
            let (p, q) = if c & 1 == 1 { producer.split() } else { (producer, None) };
            let (p, q, r) = match q {
                None => (p, None, None),
                Some(q) => {
                    if c & 2 == 0 {
                        (p, Some(q), None)
                    } else if c & 4 == 0 {
                        match p.split() {
                            (p, Some(m)) => (p, Some(m), Some(q)),
                            (p, None) => (p, Some(q), None),
                        }
                    } else {
                        let (q, r) = q.split();
                        (p, Some(q), r)
                    }
                }
            };
            let red = consumer.to_reducer();
            let red2 = consumer.to_reducer();
            let mut part = [Some(p), q, r];
            let mut res: [Option<C::Result>; 3] = [None, None, None];
            // the permutation: first[f] and then the other two, in order or swapped
            let o = vstd_model::order::next();
            let first = (o & 3) as usize % 3;
            let swap = o & 4 != 0;
            let mut i = 0;
            while i < 3 {
                let k = if i == 0 { first } else { (first + if (i == 1) != swap { 1 } else { 2 }) % 3 };
                if let Some(p) = part[k].take() {
                    res[k] = Some(p.fold_with(consumer.split_off_left().into_folder()).complete());
                }
                i += 1;
            }
            let [a, b, c] = res;
            let a = match a {
                Some(a) => a,
                None => unreachable!(),
            };
            match (b, c) {
                (None, _) => a,
                (Some(b), None) => red.reduce(a, b),
                (Some(b), Some(c)) => {
                    let b = red2.reduce(b, c);
                    red.reduce(a, b)
                }
            }
        }
    }
}
pub mod prelude {
    pub use crate::iter::{IntoParallelIterator, ParallelIterator};
}
