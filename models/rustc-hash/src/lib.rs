//! Model of `rustc-hash`: the map and set models with the hasher ignored.
use std::hash::{BuildHasherDefault, Hasher};
pub type FxHashMap<K, V> = vstd_model::collections::HashMap<K, V, BuildHasherDefault<FxHasher>>;
pub type FxHashSet<V> = vstd_model::collections::HashSet<V, BuildHasherDefault<FxHasher>>;
#[derive(Default, Clone, Copy)]
pub struct FxHasher { hash: u64 }
impl Hasher for FxHasher {
    fn write(&mut self, b: &[u8]) { for x in b { self.hash = self.hash.rotate_left(5) ^ *x as u64; } }
    fn finish(&self) -> u64 { self.hash }
}
