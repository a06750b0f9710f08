//! Linear-scan models of the hash containers.
pub use ::std::collections::*;

pub mod hash_map {
    pub use super::map::{Entry, HashMap, IntoIter, IntoKeys, IntoValues, Iter, IterMut, Keys, OccupiedEntry, VacantEntry, Values, ValuesMut};
    pub use ::std::collections::hash_map::{DefaultHasher, RandomState};
}
pub mod hash_set {
    pub use super::set::HashSet;
}
pub use map::HashMap;
pub use set::HashSet;

mod map {
    use crate::bound::bound;
    use crate::order;
    use ::std::borrow::Borrow;
    use ::std::collections::hash_map::RandomState;
    use ::std::fmt;
    use ::std::hash::{BuildHasher, Hash};
    use ::std::marker::PhantomData;
    use ::std::mem;
    use ::std::ops::Index;

    #[cfg(feature = "native-large")]
    pub const CAP: usize = 1024;
    #[cfg(all(feature = "small", not(feature = "native-large")))]
    pub const CAP: usize = 4;
    #[cfg(not(any(feature = "small", feature = "native-large")))]
    pub const CAP: usize = 6;

    /// Entries occupy slots `0 .. len` in insertion order (removal moves the last one into the gap).
    pub struct HashMap<K, V, S = RandomState> {
        slots: [Option<(K, V)>; CAP],
        len: usize,
        marker: PhantomData<S>,
    }

    /// n-th position visited by an iteration over `len` entries.
    #[inline]
    fn visit(n: usize, len: usize) -> usize {
        match order::hash_order() {
            0 => n,
            1 => len - 1 - n,
            _ => if n + 1 >= len { 0 } else { n + 1 },
        }
    }

    impl<K, V, S> HashMap<K, V, S> {
        const NONE: Option<(K, V)> = None;
        const fn empty() -> Self {
            HashMap { slots: [Self::NONE; CAP], len: 0, marker: PhantomData }
        }
        pub fn len(&self) -> usize { self.len }
        pub fn is_empty(&self) -> bool { self.len == 0 }
        pub fn capacity(&self) -> usize { self.len }
        pub fn iter(&self) -> Iter<'_, K, V> { Iter { slots: &self.slots, n: 0, len: self.len } }
        pub fn iter_mut(&mut self) -> IterMut<'_, K, V> {
            IterMut { slots: &mut self.slots as *mut _, n: 0, len: self.len, marker: PhantomData }
        }
        pub fn keys(&self) -> Keys<'_, K, V> { Keys(self.iter()) }
        pub fn values(&self) -> Values<'_, K, V> { Values(self.iter()) }
        pub fn values_mut(&mut self) -> ValuesMut<'_, K, V> { ValuesMut(self.iter_mut()) }
        pub fn into_keys(self) -> IntoKeys<K, V> { IntoKeys(self.into_iter()) }
        pub fn into_values(self) -> IntoValues<K, V> { IntoValues(self.into_iter()) }
        pub fn clear(&mut self) {
            let mut i = 0;
            while i < CAP && i < self.len {
                self.slots[i] = None;
                i += 1;
            }
            self.len = 0;
        }
        pub fn drain(&mut self) -> IntoIter<K, V> {
            let t = mem::replace(self, Self::empty());
            t.into_iter()
        }
        pub(super) fn drain_keys(&mut self) -> IntoKeys<K, V> { IntoKeys(self.drain()) }
        pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, mut f: F) {
            let mut i = 0;
            while i < CAP && i < self.len {
                let keep = match &mut self.slots[i] { Some((k, v)) => f(k, v), None => true };
                if keep { i += 1 } else { self.take_slot(i); }
            }
        }
        fn take_slot(&mut self, i: usize) -> (K, V) {
            let last = self.len - 1;
            let out = self.slots[i].take();
            if i != last {
                let moved = self.slots[last].take();
                self.slots[i] = moved;
            }
            self.len = last;
            match out { Some(e) => e, None => unreachable!() }
        }
        fn push_slot(&mut self, k: K, v: V) -> usize {
            let n = self.len;
            bound(n < CAP);
            self.slots[n] = Some((k, v));
            self.len = n + 1;
            n
        }
    }
    impl<K, V> HashMap<K, V, RandomState> {
        pub fn new() -> Self { Self::empty() }
        pub fn with_capacity(_: usize) -> Self { Self::empty() }
    }
    impl<K: Eq + Hash, V, S: BuildHasher> HashMap<K, V, S> {
        pub fn with_hasher(_: S) -> Self { Self::empty() }
        pub fn with_capacity_and_hasher(_: usize, _: S) -> Self { Self::empty() }
        pub fn reserve(&mut self, _: usize) {}
        pub fn shrink_to_fit(&mut self) {}
        #[inline]
        fn find<Q: ?Sized + Eq>(&self, k: &Q) -> Option<usize> where K: Borrow<Q> {
            let mut i = 0;
            while i < CAP && i < self.len {
                if let Some((x, _)) = &self.slots[i] {
                    if x.borrow() == k { return Some(i); }
                }
                i += 1;
            }
            None
        }
        pub fn contains_key<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> bool where K: Borrow<Q> { self.find(k).is_some() }
        pub fn get<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> Option<&V> where K: Borrow<Q> {
            let i = self.find(k)?;
            self.slots[i].as_ref().map(|e| &e.1)
        }
        pub fn get_key_value<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> Option<(&K, &V)> where K: Borrow<Q> {
            let i = self.find(k)?;
            self.slots[i].as_ref().map(|e| (&e.0, &e.1))
        }
        pub fn get_mut<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<&mut V> where K: Borrow<Q> {
            let i = self.find(k)?;
            self.slots[i].as_mut().map(|e| &mut e.1)
        }
        pub fn insert(&mut self, k: K, v: V) -> Option<V> {
            match self.find(&k) {
                Some(i) => match &mut self.slots[i] {
                    // like the real map: the old key stays
                    Some(e) => Some(mem::replace(&mut e.1, v)),
                    None => unreachable!(),
                },
                None => {
                    self.push_slot(k, v);
                    None
                }
            }
        }
        pub fn remove<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<V> where K: Borrow<Q> {
            self.remove_entry(k).map(|e| e.1)
        }
        pub fn remove_entry<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<(K, V)> where K: Borrow<Q> {
            let i = self.find(k)?;
            Some(self.take_slot(i))
        }
        pub fn entry(&mut self, k: K) -> Entry<'_, K, V, S> {
            match self.find(&k) {
                Some(i) => Entry::Occupied(OccupiedEntry { map: self, i, _key: k }),
                None => Entry::Vacant(VacantEntry { map: self, key: k }),
            }
        }
    }

    pub enum Entry<'a, K, V, S = RandomState> {
        Occupied(OccupiedEntry<'a, K, V, S>),
        Vacant(VacantEntry<'a, K, V, S>),
    }
    pub struct OccupiedEntry<'a, K, V, S = RandomState> { map: &'a mut HashMap<K, V, S>, i: usize, _key: K }
    pub struct VacantEntry<'a, K, V, S = RandomState> { map: &'a mut HashMap<K, V, S>, key: K }
    impl<'a, K, V, S> OccupiedEntry<'a, K, V, S> {
        pub fn get(&self) -> &V { match &self.map.slots[self.i] { Some(e) => &e.1, None => unreachable!() } }
        pub fn get_mut(&mut self) -> &mut V { match &mut self.map.slots[self.i] { Some(e) => &mut e.1, None => unreachable!() } }
        pub fn into_mut(self) -> &'a mut V { match &mut self.map.slots[self.i] { Some(e) => &mut e.1, None => unreachable!() } }
        pub fn insert(&mut self, v: V) -> V { mem::replace(self.get_mut(), v) }
        pub fn remove(self) -> V { self.map.take_slot(self.i).1 }
        pub fn remove_entry(self) -> (K, V) { self.map.take_slot(self.i) }
        pub fn key(&self) -> &K { match &self.map.slots[self.i] { Some(e) => &e.0, None => unreachable!() } }
    }
    impl<'a, K, V, S> VacantEntry<'a, K, V, S> {
        pub fn insert(self, v: V) -> &'a mut V {
            let i = self.map.push_slot(self.key, v);
            match &mut self.map.slots[i] { Some(e) => &mut e.1, None => unreachable!() }
        }
        pub fn key(&self) -> &K { &self.key }
        pub fn into_key(self) -> K { self.key }
    }
    impl<'a, K, V, S> Entry<'a, K, V, S> {
        pub fn or_insert(self, v: V) -> &'a mut V { self.or_insert_with(|| v) }
        pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V {
            match self { Entry::Occupied(e) => e.into_mut(), Entry::Vacant(e) => e.insert(f()) }
        }
        pub fn or_default(self) -> &'a mut V where V: Default { self.or_insert_with(V::default) }
        pub fn and_modify<F: FnOnce(&mut V)>(self, f: F) -> Self {
            match self {
                Entry::Occupied(mut e) => { f(e.get_mut()); Entry::Occupied(e) }
                e => e,
            }
        }
    }

    pub struct Iter<'a, K, V> { slots: &'a [Option<(K, V)>; CAP], n: usize, len: usize }
    impl<'a, K, V> Clone for Iter<'a, K, V> { fn clone(&self) -> Self { Iter { slots: self.slots, n: self.n, len: self.len } } }
    impl<'a, K, V> Iterator for Iter<'a, K, V> {
        type Item = (&'a K, &'a V);
        fn next(&mut self) -> Option<Self::Item> {
            if self.n < CAP && self.n < self.len {
                let i = visit(self.n, self.len);
                self.n += 1;
                match &self.slots[i] { Some(e) => Some((&e.0, &e.1)), None => unreachable!() }
            } else {
                None
            }
        }
        fn size_hint(&self) -> (usize, Option<usize>) { (self.len - self.n, Some(self.len - self.n)) }
    }
    impl<'a, K, V> ExactSizeIterator for Iter<'a, K, V> {}
    pub struct IterMut<'a, K, V> { slots: *mut [Option<(K, V)>; CAP], n: usize, len: usize, marker: PhantomData<&'a mut (K, V)> }
    impl<'a, K, V> Iterator for IterMut<'a, K, V> {
        type Item = (&'a K, &'a mut V);
        fn next(&mut self) -> Option<Self::Item> {
            if self.n < CAP && self.n < self.len {
                let i = visit(self.n, self.len);
                self.n += 1;
                match unsafe { &mut (*self.slots)[i] } { Some(e) => Some((&e.0, &mut e.1)), None => unreachable!() }
            } else {
                None
            }
        }
    }
    pub struct IntoIter<K, V> { slots: [Option<(K, V)>; CAP], n: usize, len: usize }
    impl<K, V> Iterator for IntoIter<K, V> {
        type Item = (K, V);
        fn next(&mut self) -> Option<(K, V)> {
            if self.n < CAP && self.n < self.len {
                let i = visit(self.n, self.len);
                self.n += 1;
                self.slots[i].take()
            } else {
                None
            }
        }
    }
    pub struct Keys<'a, K, V>(Iter<'a, K, V>);
    impl<'a, K, V> Iterator for Keys<'a, K, V> { type Item = &'a K; fn next(&mut self) -> Option<&'a K> { self.0.next().map(|e| e.0) } }
    pub struct Values<'a, K, V>(Iter<'a, K, V>);
    impl<'a, K, V> Iterator for Values<'a, K, V> { type Item = &'a V; fn next(&mut self) -> Option<&'a V> { self.0.next().map(|e| e.1) } }
    pub struct ValuesMut<'a, K, V>(IterMut<'a, K, V>);
    impl<'a, K, V> Iterator for ValuesMut<'a, K, V> { type Item = &'a mut V; fn next(&mut self) -> Option<&'a mut V> { self.0.next().map(|e| e.1) } }
    pub struct IntoKeys<K, V>(IntoIter<K, V>);
    impl<K, V> Iterator for IntoKeys<K, V> { type Item = K; fn next(&mut self) -> Option<K> { self.0.next().map(|e| e.0) } }
    pub struct IntoValues<K, V>(IntoIter<K, V>);
    impl<K, V> Iterator for IntoValues<K, V> { type Item = V; fn next(&mut self) -> Option<V> { self.0.next().map(|e| e.1) } }

    impl<K, V, S> IntoIterator for HashMap<K, V, S> {
        type Item = (K, V);
        type IntoIter = IntoIter<K, V>;
        fn into_iter(self) -> IntoIter<K, V> { IntoIter { len: self.len, slots: self.slots, n: 0 } }
    }
    impl<'a, K, V, S> IntoIterator for &'a HashMap<K, V, S> {
        type Item = (&'a K, &'a V);
        type IntoIter = Iter<'a, K, V>;
        fn into_iter(self) -> Iter<'a, K, V> { self.iter() }
    }
    impl<'a, K, V, S> IntoIterator for &'a mut HashMap<K, V, S> {
        type Item = (&'a K, &'a mut V);
        type IntoIter = IterMut<'a, K, V>;
        fn into_iter(self) -> IterMut<'a, K, V> { self.iter_mut() }
    }
    impl<K, V, S: Default> Default for HashMap<K, V, S> { fn default() -> Self { Self::empty() } }
    impl<K: Clone, V: Clone, S: Clone> Clone for HashMap<K, V, S> {
        fn clone(&self) -> Self { HashMap { slots: self.slots.clone(), len: self.len, marker: PhantomData } }
    }
    impl<K: fmt::Debug, V: fmt::Debug, S> fmt::Debug for HashMap<K, V, S> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.debug_map().entries(self.iter()).finish() }
    }
    impl<K: Eq + Hash, V: PartialEq, S: BuildHasher> PartialEq for HashMap<K, V, S> {
        fn eq(&self, o: &Self) -> bool { self.len == o.len && self.iter().all(|(k, v)| o.get(k) == Some(v)) }
    }
    impl<K: Eq + Hash, V: Eq, S: BuildHasher> Eq for HashMap<K, V, S> {}
    impl<K: Eq + Hash, V, S: BuildHasher + Default> FromIterator<(K, V)> for HashMap<K, V, S> {
        fn from_iter<I: IntoIterator<Item = (K, V)>>(it: I) -> Self {
            let mut m = Self::empty();
            for (k, v) in it { m.insert(k, v); }
            m
        }
    }
    impl<K: Eq + Hash, V, S: BuildHasher> Extend<(K, V)> for HashMap<K, V, S> {
        fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, it: I) { for (k, v) in it { self.insert(k, v); } }
    }
    impl<K: Eq + Hash + Borrow<Q>, Q: ?Sized + Eq + Hash, V, S: BuildHasher> Index<&Q> for HashMap<K, V, S> {
        type Output = V;
        fn index(&self, k: &Q) -> &V { self.get(k).expect("no entry found for key") }
    }
}

mod set {
    use super::map::{self, HashMap};
    use ::std::borrow::Borrow;
    use ::std::collections::hash_map::RandomState;
    use ::std::fmt;
    use ::std::hash::{BuildHasher, Hash};

    pub struct HashSet<T, S = RandomState>(HashMap<T, (), S>);

    impl<T> HashSet<T, RandomState> {
        pub fn new() -> Self { HashSet(HashMap::new()) }
        pub fn with_capacity(_: usize) -> Self { Self::new() }
    }
    impl<T, S> HashSet<T, S> {
        pub fn len(&self) -> usize { self.0.len() }
        pub fn is_empty(&self) -> bool { self.0.is_empty() }
        pub fn iter(&self) -> map::Keys<'_, T, ()> { self.0.keys() }
        pub fn clear(&mut self) { self.0.clear() }
        pub fn drain(&mut self) -> map::IntoKeys<T, ()> { self.0.drain_keys() }
        pub fn retain<F: FnMut(&T) -> bool>(&mut self, mut f: F) { self.0.retain(|k, _| f(k)) }
    }
    impl<T: Eq + Hash, S: BuildHasher> HashSet<T, S> {
        pub fn with_hasher(s: S) -> Self { HashSet(HashMap::with_hasher(s)) }
        pub fn contains<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> bool where T: Borrow<Q> { self.0.contains_key(k) }
        pub fn get<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> Option<&T> where T: Borrow<Q> { self.0.get_key_value(k).map(|e| e.0) }
        pub fn insert(&mut self, t: T) -> bool { self.0.insert(t, ()).is_none() }
        pub fn replace(&mut self, t: T) -> Option<T> {
            let old = self.0.remove_entry(&t).map(|e| e.0);
            self.0.insert(t, ());
            old
        }
        pub fn remove<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> bool where T: Borrow<Q> { self.0.remove(k).is_some() }
        pub fn take<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<T> where T: Borrow<Q> { self.0.remove_entry(k).map(|e| e.0) }
        pub fn reserve(&mut self, _: usize) {}
        pub fn intersection<'a>(&'a self, o: &'a HashSet<T, S>) -> Filter<'a, T, S> { Filter { it: self.iter(), other: o, want: true } }
        pub fn difference<'a>(&'a self, o: &'a HashSet<T, S>) -> Filter<'a, T, S> { Filter { it: self.iter(), other: o, want: false } }
        pub fn union<'a>(&'a self, o: &'a HashSet<T, S>) -> ::std::iter::Chain<map::Keys<'a, T, ()>, Filter<'a, T, S>> { self.iter().chain(o.difference(self)) }
        pub fn symmetric_difference<'a>(&'a self, o: &'a HashSet<T, S>) -> ::std::iter::Chain<Filter<'a, T, S>, Filter<'a, T, S>> {
            self.difference(o).chain(o.difference(self))
        }
        pub fn is_disjoint(&self, o: &HashSet<T, S>) -> bool { self.intersection(o).next().is_none() }
        pub fn is_subset(&self, o: &HashSet<T, S>) -> bool { self.difference(o).next().is_none() }
        pub fn is_superset(&self, o: &HashSet<T, S>) -> bool { o.is_subset(self) }
    }
    pub struct Filter<'a, T, S> { it: map::Keys<'a, T, ()>, other: &'a HashSet<T, S>, want: bool }
    impl<'a, T: Eq + Hash, S: BuildHasher> Iterator for Filter<'a, T, S> {
        type Item = &'a T;
        fn next(&mut self) -> Option<&'a T> {
            while let Some(x) = self.it.next() {
                if self.other.contains(x) == self.want { return Some(x); }
            }
            None
        }
    }
    impl<T, S: Default> Default for HashSet<T, S> { fn default() -> Self { HashSet(HashMap::default()) } }
    impl<T: Clone, S: Clone> Clone for HashSet<T, S> { fn clone(&self) -> Self { HashSet(self.0.clone()) } }
    impl<T: fmt::Debug, S> fmt::Debug for HashSet<T, S> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.debug_set().entries(self.iter()).finish() }
    }
    impl<T: Eq + Hash, S: BuildHasher> PartialEq for HashSet<T, S> {
        fn eq(&self, o: &Self) -> bool { self.len() == o.len() && self.is_subset(o) }
    }
    impl<T: Eq + Hash, S: BuildHasher> Eq for HashSet<T, S> {}
    impl<T: Eq + Hash, S: BuildHasher + Default> FromIterator<T> for HashSet<T, S> {
        fn from_iter<I: IntoIterator<Item = T>>(it: I) -> Self {
            let mut s = Self::default();
            for x in it { s.insert(x); }
            s
        }
    }
    impl<T: Eq + Hash, S: BuildHasher> Extend<T> for HashSet<T, S> {
        fn extend<I: IntoIterator<Item = T>>(&mut self, it: I) { for x in it { self.insert(x); } }
    }
    impl<'a, T: Eq + Hash + Copy + 'a, S: BuildHasher> Extend<&'a T> for HashSet<T, S> {
        fn extend<I: IntoIterator<Item = &'a T>>(&mut self, it: I) { for x in it { self.insert(*x); } }
    }
    impl<T, S> IntoIterator for HashSet<T, S> {
        type Item = T;
        type IntoIter = map::IntoKeys<T, ()>;
        fn into_iter(self) -> map::IntoKeys<T, ()> { self.0.into_keys() }
    }
    impl<'a, T, S> IntoIterator for &'a HashSet<T, S> {
        type Item = &'a T;
        type IntoIter = map::Keys<'a, T, ()>;
        fn into_iter(self) -> map::Keys<'a, T, ()> { self.iter() }
    }
    impl<T: Eq + Hash, const N: usize> From<[T; N]> for HashSet<T, RandomState> {
        fn from(a: [T; N]) -> Self { a.into_iter().collect() }
    }
    macro_rules! op { ($tr:ident, $f:ident, $m:ident) => {
        impl<'a, T: Eq + Hash + Clone, S: BuildHasher + Default> ::std::ops::$tr<&'a HashSet<T, S>> for &'a HashSet<T, S> {
            type Output = HashSet<T, S>;
            fn $f(self, o: &HashSet<T, S>) -> HashSet<T, S> { self.$m(o).cloned().collect() }
        }
    } }
    op!(BitOr, bitor, union);
    op!(BitAnd, bitand, intersection);
    op!(Sub, sub, difference);
    op!(BitXor, bitxor, symmetric_difference);
}
