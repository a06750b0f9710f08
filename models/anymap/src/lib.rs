//! Model of `anymap`: the map from type to boxed value on top of the map model.
#![allow(clippy::all)]
use any::{IntoBox, UncheckedAnyExt};
use vstd_model::any::TypeId;
use vstd_model::collections::HashMap;

pub mod any {
    use std::any::Any as StdAny;
    pub trait Any: StdAny {}
    impl<T: StdAny> Any for T {}
    pub trait UncheckedAnyExt: Any {
        unsafe fn downcast_ref_unchecked<T: Any>(&self) -> &T;
        unsafe fn downcast_mut_unchecked<T: Any>(&mut self) -> &mut T;
        unsafe fn downcast_unchecked<T: Any>(self: Box<Self>) -> Box<T>;
    }
    pub trait IntoBox<A: ?Sized + UncheckedAnyExt>: Any {
        fn into_box(self) -> Box<A>;
        fn erase(p: *mut Self) -> *mut A;
    }
    macro_rules! implement { ($($t:ty: ($($b:tt)*);)*) => { $(
        impl UncheckedAnyExt for $t {
            unsafe fn downcast_ref_unchecked<T: 'static>(&self) -> &T { &*(self as *const Self as *const T) }
            unsafe fn downcast_mut_unchecked<T: 'static>(&mut self) -> &mut T { &mut *(self as *mut Self as *mut T) }
            unsafe fn downcast_unchecked<T: 'static>(self: Box<Self>) -> Box<T> { Box::from_raw(Box::into_raw(self) as *mut T) }
        }
        impl<T: Any $($b)*> IntoBox<$t> for T { 
            fn into_box(self) -> Box<$t> { Box::new(self) }
            fn erase(p: *mut Self) -> *mut $t { p as *mut $t }
        }
    )* } }
    implement! {
        dyn Any: ();
        dyn Any + Send: (+ Send);
        dyn Any + Sync: (+ Sync);
        dyn Any + Send + Sync: (+ Send + Sync);
    }
}

/// Typed places for values.  CBMC sees a heap allocation as an array of bytes; a value that is
/// kept in a place of its own type is far cheaper to reason about.  A harness may provide places,
/// a value for which there is none goes to the heap.
pub mod places {
    use vstd_model::any::TypeId;
    const N: usize = 6;
    struct Place { id: TypeId, at: *mut u8, free: bool }
    static mut PLACES: [Option<Place>; N] = [None, None, None, None, None, None];
    static mut LEN: usize = 0;
    pub fn reset() {
        unsafe {
            PLACES = [None, None, None, None, None, None];
            LEN = 0;
        }
    }
    /// # Safety
    /// The place has to outlive every map; what it holds is overwritten without being dropped.
    pub unsafe fn provide<T: 'static>(at: *mut T) {
        PLACES[LEN] = Some(Place { id: TypeId::of::<T>(), at: at as *mut u8, free: true });
        LEN += 1;
    }
    pub(crate) fn take<T: 'static>() -> Option<*mut T> {
        unsafe {
            let mut i = 0;
            while i < N && i < LEN {
                if let Some(p) = &mut PLACES[i] {
                    if p.free && p.id == TypeId::of::<T>() {
                        p.free = false;
                        return Some(p.at as *mut T);
                    }
                }
                i += 1;
            }
            None
        }
    }
    pub(crate) fn give<T: 'static>(at: *mut T) {
        unsafe {
            let mut i = 0;
            while i < N && i < LEN {
                if let Some(p) = &mut PLACES[i] {
                    if p.id == TypeId::of::<T>() && p.at == at as *mut u8 { p.free = true; }
                }
                i += 1;
            }
        }
    }
}

enum Held<A: ?Sized> { Boxed(Box<A>), Placed(*mut A) }
unsafe impl<A: ?Sized + Send> Send for Held<A> {}
unsafe impl<A: ?Sized + Sync> Sync for Held<A> {}
impl<A: ?Sized + UncheckedAnyExt> Held<A> {
    fn new<T: IntoBox<A>>(v: T) -> Self {
        match places::take::<T>() {
            Some(p) => unsafe {
                std::ptr::write(p, v);
                Held::Placed(T::erase(p))
            },
            None => Held::Boxed(v.into_box()),
        }
    }
    fn get<T: IntoBox<A>>(&self) -> &T {
        unsafe {
            match self {
                Held::Boxed(b) => b.downcast_ref_unchecked::<T>(),
                Held::Placed(p) => &*(*p as *const T),
            }
        }
    }
    fn get_mut<T: IntoBox<A>>(&mut self) -> &mut T {
        unsafe {
            match self {
                Held::Boxed(b) => b.downcast_mut_unchecked::<T>(),
                Held::Placed(p) => &mut *(*p as *mut T),
            }
        }
    }
    fn into<T: IntoBox<A>>(self) -> T {
        let me = std::mem::ManuallyDrop::new(self);
        unsafe {
            match &*me {
                Held::Boxed(b) => *std::ptr::read(b).downcast_unchecked::<T>(),
                Held::Placed(p) => {
                    let p = *p as *mut T;
                    let v = std::ptr::read(p);
                    places::give(p);
                    v
                }
            }
        }
    }
}
impl<A: ?Sized> Drop for Held<A> {
    fn drop(&mut self) {
        if let Held::Placed(p) = self {
            unsafe { std::ptr::drop_in_place(*p) }
        }
    }
}

pub struct Map<A: ?Sized + UncheckedAnyExt = dyn any::Any> { m: HashMap<TypeId, Held<A>> }
pub type AnyMap = Map<dyn any::Any>;
impl<A: ?Sized + UncheckedAnyExt> Map<A> {
    pub fn new() -> Self { Map { m: HashMap::new() } }
    pub fn with_capacity(_: usize) -> Self { Self::new() }
    pub fn len(&self) -> usize { self.m.len() }
    pub fn is_empty(&self) -> bool { self.m.is_empty() }
    pub fn clear(&mut self) { self.m.clear() }
    pub fn get<T: IntoBox<A>>(&self) -> Option<&T> {
        self.m.get(&TypeId::of::<T>()).map(|h| h.get::<T>())
    }
    pub fn get_mut<T: IntoBox<A>>(&mut self) -> Option<&mut T> {
        self.m.get_mut(&TypeId::of::<T>()).map(|h| h.get_mut::<T>())
    }
    pub fn insert<T: IntoBox<A>>(&mut self, v: T) -> Option<T> {
        match self.get_mut::<T>() {
            Some(x) => Some(std::mem::replace(x, v)),
            None => {
                self.m.insert(TypeId::of::<T>(), Held::new(v));
                None
            }
        }
    }
    pub fn remove<T: IntoBox<A>>(&mut self) -> Option<T> {
        self.m.remove(&TypeId::of::<T>()).map(|h| h.into::<T>())
    }
    pub fn contains<T: IntoBox<A>>(&self) -> bool { self.m.contains_key(&TypeId::of::<T>()) }
    pub fn entry<T: IntoBox<A>>(&mut self) -> Entry<'_, A, T> {
        if self.contains::<T>() {
            Entry::Occupied(OccupiedEntry { map: self, t: std::marker::PhantomData })
        } else {
            Entry::Vacant(VacantEntry { map: self, t: std::marker::PhantomData })
        }
    }
}
pub enum Entry<'a, A: ?Sized + UncheckedAnyExt, V: 'a> { Occupied(OccupiedEntry<'a, A, V>), Vacant(VacantEntry<'a, A, V>) }
pub struct OccupiedEntry<'a, A: ?Sized + UncheckedAnyExt, V: 'a> { map: &'a mut Map<A>, t: std::marker::PhantomData<V> }
pub struct VacantEntry<'a, A: ?Sized + UncheckedAnyExt, V: 'a> { map: &'a mut Map<A>, t: std::marker::PhantomData<V> }
impl<'a, A: ?Sized + UncheckedAnyExt, V: IntoBox<A>> Entry<'a, A, V> {
    pub fn or_insert(self, d: V) -> &'a mut V { self.or_insert_with(|| d) }
    pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V {
        match self { Entry::Occupied(e) => e.into_mut(), Entry::Vacant(e) => e.insert(f()) }
    }
}
impl<'a, A: ?Sized + UncheckedAnyExt, V: IntoBox<A>> OccupiedEntry<'a, A, V> {
    pub fn get(&self) -> &V { self.map.get::<V>().unwrap() }
    pub fn get_mut(&mut self) -> &mut V { self.map.get_mut::<V>().unwrap() }
    pub fn into_mut(self) -> &'a mut V { self.map.get_mut::<V>().unwrap() }
    pub fn insert(&mut self, v: V) -> V { self.map.insert::<V>(v).unwrap() }
    pub fn remove(self) -> V { self.map.remove::<V>().unwrap() }
}
impl<'a, A: ?Sized + UncheckedAnyExt, V: IntoBox<A>> VacantEntry<'a, A, V> {
    pub fn insert(self, v: V) -> &'a mut V { self.map.insert::<V>(v); self.map.get_mut::<V>().unwrap() }
}
