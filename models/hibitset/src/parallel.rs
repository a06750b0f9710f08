use super::*;
use rayon::iter::plumbing::{bridge_unindexed, Folder, UnindexedConsumer, UnindexedProducer};
use rayon::iter::ParallelIterator;

#[derive(Debug)]
pub struct BitParIter<T>(T, u8);
impl<T> BitParIter<T> {
    pub fn new(set: T) -> Self { BitParIter(set, 3) }
    pub fn layers_split(mut self, layers: u8) -> Self {
        assert!(layers >= 1);
        assert!(layers <= 3);
        self.1 = layers;
        self
    }
}
impl<T: BitSetLike + Send + Sync> ParallelIterator for BitParIter<T> {
    type Item = Index;
    fn drive_unindexed<C: UnindexedConsumer<Index>>(self, consumer: C) -> C::Result {
        bridge_unindexed(BitProducer((&self.0).iter(), self.1), consumer)
    }
}

#[derive(Debug)]
pub struct BitProducer<'a, T: 'a + Send + Sync>(pub BitIter<&'a T>, pub u8);
impl<'a, T: 'a + Send + Sync + BitSetLike> UnindexedProducer for BitProducer<'a, T> {
    type Item = Index;
    /// The real producer splits where the bit hierarchy allows; here the split point is arbitrary
    /// (taken from the choice tape).
    fn split(mut self) -> (Self, Option<Self>) {
        assert!(self.1 >= 1 && self.1 <= 3, "layers");
        let at = vstd_model::order::next();
        let low: Mask = if at as usize > REST { ALL } else { ((1u32 << at) - 1) as Mask };
        let hi = self.0.left & !low;
        let lo = self.0.left & low;
        if hi == 0 || lo == 0 {
            return (self, None);
        }
        let other = BitProducer(BitIter { set: self.0.set, left: hi, n: self.0.n }, self.1);
        self.0.left = lo;
        (self, Some(other))
    }
    fn fold_with<F: Folder<Index>>(self, folder: F) -> F { folder.consume_iter(self.0) }
}
