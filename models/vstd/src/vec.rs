//! Fixed-capacity model of `std::vec::Vec`.
//!
//! With feature `heapvec` the elements are in a heap object of their own (never freed): an access at
//! a symbolic position then concerns that object only, not everything the `Vec` is embedded in.
use crate::bound::{bound, ub};
use ::std::borrow::{Borrow, BorrowMut};
use ::std::fmt;
use ::std::hash::{Hash, Hasher};
use ::std::mem::{ManuallyDrop, MaybeUninit};
use ::std::ops::{Bound, Deref, DerefMut, Index, IndexMut, RangeBounds};
use ::std::slice;

use crate::far::{self, NFAR};
pub const CAP: usize = far::NEAR;

#[cfg(feature = "heapvec")]
pub struct Vec<T> {
    // `CAP` elements, and then those whose position is one of the far indices of the universe.
    // Null until the first growth.
    buf: *mut T,
    len: usize,
    // The capacity the real `Vec` guarantees; `reserve` guarantees no more than was asked for.
    cap: usize,
}
#[cfg(not(feature = "heapvec"))]
pub struct Vec<T> {
    buf: [MaybeUninit<T>; CAP],
    far: [MaybeUninit<T>; NFAR],
    len: usize,
    cap: usize,
}

#[cfg(feature = "heapvec")]
unsafe impl<T: Send> Send for Vec<T> {}
#[cfg(feature = "heapvec")]
unsafe impl<T: Sync> Sync for Vec<T> {}

#[cfg(feature = "heapvec")]
impl<T> Vec<T> {
    #[inline]
    pub const fn new() -> Self {
        Vec { buf: ::std::ptr::null_mut(), len: 0, cap: 0 }
    }
    #[inline]
    fn room(&mut self) {
        if self.buf.is_null() {
            let l = ::std::alloc::Layout::new::<[T; CAP + NFAR]>();
            self.buf = if l.size() == 0 {
                ::std::ptr::NonNull::dangling().as_ptr()
            } else {
                unsafe { ::std::alloc::alloc(l) as *mut T }
            };
        }
    }
    /// The place of element `i < CAP`.
    #[inline]
    fn near(&self, i: usize) -> *const T {
        bound(i < CAP);
        unsafe { self.buf.add(i) }
    }
    #[inline]
    fn near_mut(&mut self, i: usize) -> *mut T { self.near(i) as *mut T }
    #[inline]
    fn far(&self, j: usize) -> *const T { unsafe { self.buf.add(CAP + j) } }
    #[inline]
    fn far_mut(&mut self, j: usize) -> *mut T { self.far(j) as *mut T }
    #[inline]
    fn put(&mut self, i: usize, v: T) { unsafe { self.near_mut(i).write(v) } }
    #[inline]
    fn put_far(&mut self, j: usize, v: T) { unsafe { self.far_mut(j).write(v) } }
    #[inline]
    unsafe fn take_at(&self, i: usize) -> T { self.near(i).read() }
    #[inline]
    pub fn as_ptr(&self) -> *const T { if self.buf.is_null() { ::std::ptr::NonNull::dangling().as_ptr() } else { self.buf } }
    #[inline]
    pub fn as_mut_ptr(&mut self) -> *mut T { self.as_ptr() as *mut T }
}

#[cfg(not(feature = "heapvec"))]
impl<T> Vec<T> {
    #[inline]
    pub const fn new() -> Self {
        Vec { buf: [const { MaybeUninit::uninit() }; CAP], far: [const { MaybeUninit::uninit() }; NFAR], len: 0, cap: 0 }
    }
    #[inline]
    fn room(&mut self) {}
    #[inline]
    fn near(&self, i: usize) -> *const T { self.buf[i].as_ptr() }
    #[inline]
    fn near_mut(&mut self, i: usize) -> *mut T { self.buf[i].as_mut_ptr() }
    #[inline]
    fn far(&self, j: usize) -> *const T { self.far[j].as_ptr() }
    #[inline]
    fn far_mut(&mut self, j: usize) -> *mut T { self.far[j].as_mut_ptr() }
    #[inline]
    fn put(&mut self, i: usize, v: T) { self.buf[i] = MaybeUninit::new(v) }
    #[inline]
    fn put_far(&mut self, j: usize, v: T) { self.far[j] = MaybeUninit::new(v) }
    #[inline]
    unsafe fn take_at(&self, i: usize) -> T { self.buf[i].assume_init_read() }
    #[inline]
    pub fn as_ptr(&self) -> *const T { self.buf.as_ptr() as *const T }
    #[inline]
    pub fn as_mut_ptr(&mut self) -> *mut T { self.buf.as_mut_ptr() as *mut T }
}

impl<T> Vec<T> {
    pub fn with_capacity(n: usize) -> Self {
        let mut v = Self::new();
        v.reserve(n);
        v
    }
    pub fn capacity(&self) -> usize { self.cap }
    #[inline]
    pub fn len(&self) -> usize { self.len }
    #[inline]
    pub fn is_empty(&self) -> bool { self.len == 0 }
    pub fn reserve(&mut self, additional: usize) {
        let need = self.len.checked_add(additional).expect("capacity overflow");
        if need > self.cap {
            bound(need <= CAP || far::on());
            self.cap = need;
            self.room();
        }
    }
    pub fn reserve_exact(&mut self, additional: usize) { self.reserve(additional) }
    pub fn shrink_to_fit(&mut self) { self.cap = self.len; }
    pub fn shrink_to(&mut self, min: usize) {
        let m = if min > self.len { min } else { self.len };
        if m < self.cap { self.cap = m; }
    }
    #[inline]
    pub unsafe fn set_len(&mut self, n: usize) {
        ub(n <= self.cap);
        self.len = n;
    }
    #[inline]
    pub fn as_slice(&self) -> &[T] { bound(self.len <= CAP); unsafe { slice::from_raw_parts(self.as_ptr(), self.len) } }
    #[inline]
    pub fn as_mut_slice(&mut self) -> &mut [T] {
        bound(self.len <= CAP);
        unsafe { slice::from_raw_parts_mut(self.as_mut_ptr(), self.len) }
    }
    #[inline]
    pub fn push(&mut self, v: T) {
        let n = self.len;
        if n + 1 > self.cap {
            bound(n + 1 <= CAP);
            self.cap = n + 1;
            self.room();
        }
        self.put(n, v);
        self.len = n + 1;
    }
    #[inline]
    pub fn pop(&mut self) -> Option<T> {
        if self.len == 0 {
            None
        } else {
            bound(self.len <= CAP);
            self.len -= 1;
            Some(unsafe { self.take_at(self.len) })
        }
    }
    pub fn pop_if(&mut self, f: impl FnOnce(&mut T) -> bool) -> Option<T> {
        let last = self.last_mut()?;
        if f(last) { self.pop() } else { None }
    }
    pub fn insert(&mut self, index: usize, v: T) {
        assert!(index <= self.len, "insertion index should be <= len");
        let n = self.len;
        if n + 1 > self.cap {
            bound(n + 1 <= CAP);
            self.cap = n + 1;
            self.room();
        }
        let mut i = n;
        while i > index {
            let x = unsafe { self.take_at(i - 1) };
            self.put(i, x);
            i -= 1;
        }
        self.put(index, v);
        self.len = n + 1;
    }
    pub fn remove(&mut self, index: usize) -> T {
        assert!(index < self.len, "removal index should be < len");
        let r = unsafe { self.take_at(index) };
        let mut i = index;
        while i + 1 < self.len {
            let x = unsafe { self.take_at(i + 1) };
            self.put(i, x);
            i += 1;
        }
        self.len -= 1;
        r
    }
    pub fn swap_remove(&mut self, index: usize) -> T {
        assert!(index < self.len, "swap_remove index should be < len");
        let last = self.len - 1;
        unsafe {
            let r = self.take_at(index);
            if index != last {
                let x = self.take_at(last);
                self.put(index, x);
            }
            self.len = last;
            r
        }
    }
    pub fn truncate(&mut self, n: usize) {
        if self.len > CAP {
            let mut j = NFAR;
            while j > 0 {
                j -= 1;
                let k = far::at(j) as usize;
                if n <= k && k < self.len { unsafe { ::std::ptr::drop_in_place(self.far_mut(j)) } }
            }
            self.len = if n > CAP { n } else { CAP };
        }
        if ::std::mem::needs_drop::<T>() {
            while self.len > n {
                let _ = self.pop();
            }
        } else if n < self.len {
            self.len = n;
        }
    }
    pub fn clear(&mut self) { self.truncate(0) }
    #[inline]
    fn slot(&self, i: usize) -> *const T {
        if i < CAP { self.near(i) } else { self.far(far::slot_or_bound(i)) }
    }
    #[inline]
    fn slot_mut(&mut self, i: usize) -> *mut T {
        if i < CAP { self.near_mut(i) } else { self.far_mut(far::slot_or_bound(i)) }
    }
    #[inline]
    pub fn get<I: VecIndex<T>>(&self, i: I) -> Option<&I::Output> { i.get_v(self) }
    #[inline]
    pub fn get_mut<I: VecIndex<T>>(&mut self, i: I) -> Option<&mut I::Output> { i.get_mut_v(self) }
    pub fn resize_with<F: FnMut() -> T>(&mut self, n: usize, mut f: F) {
        if n <= self.len {
            self.truncate(n)
        } else {
            bound(n <= CAP || far::on());
            self.room();
            let old = self.len;
            while self.len < n && self.len < CAP { self.push(f()); }
            if n > CAP {
                let mut j = 0;
                while j < NFAR {
                    let k = far::at(j) as usize;
                    if old <= k && k < n { self.put_far(j, f()); }
                    j += 1;
                }
                self.len = n;
                if n > self.cap { self.cap = n; }
            }
        }
    }
    pub fn resize(&mut self, n: usize, v: T) where T: Clone { self.resize_with(n, || v.clone()) }
    pub fn append(&mut self, other: &mut Vec<T>) {
        let n = other.len;
        other.len = 0;
        let mut i = 0;
        while i < n {
            self.push(unsafe { other.take_at(i) });
            i += 1;
        }
    }
    pub fn extend_from_slice(&mut self, o: &[T]) where T: Clone {
        for x in o { self.push(x.clone()); }
    }
    pub fn retain<F: FnMut(&T) -> bool>(&mut self, mut f: F) { self.retain_mut(|x| f(x)) }
    pub fn retain_mut<F: FnMut(&mut T) -> bool>(&mut self, mut f: F) {
        let n = self.len;
        self.len = 0;
        let mut i = 0;
        while i < n {
            let mut x = unsafe { self.take_at(i) };
            if f(&mut x) { self.push(x); }
            i += 1;
        }
    }
    pub fn dedup(&mut self) where T: PartialEq {
        let old = ::std::mem::take(self);
        for x in old {
            if self.last() != Some(&x) { self.push(x); }
        }
    }
    pub fn drain<R: RangeBounds<usize>>(&mut self, r: R) -> IntoIter<T> {
        let s = match r.start_bound() { Bound::Included(&s) => s, Bound::Excluded(&s) => s + 1, Bound::Unbounded => 0 };
        let e = match r.end_bound() { Bound::Included(&e) => e + 1, Bound::Excluded(&e) => e, Bound::Unbounded => self.len };
        assert!(s <= e && e <= self.len, "drain range out of bounds");
        let mut out = Vec::new();
        let mut k = s;
        while k < e { out.push(unsafe { self.take_at(k) }); k += 1; }
        let mut j = s;
        while k < self.len {
            let x = unsafe { self.take_at(k) };
            self.put(j, x);
            j += 1;
            k += 1;
        }
        self.len = j;
        out.into_iter()
    }
    pub fn split_off(&mut self, at: usize) -> Vec<T> {
        assert!(at <= self.len, "`at` split index should be <= len");
        let mut out = Vec::new();
        let mut k = at;
        while k < self.len { out.push(unsafe { self.take_at(k) }); k += 1; }
        self.len = at;
        out
    }
    pub fn into_boxed_slice(self) -> Box<[T]> { self.into_iter().collect::<::std::vec::Vec<T>>().into_boxed_slice() }
    pub fn leak<'a>(self) -> &'a mut [T] { Box::leak(self.into_boxed_slice()) }

    // Inherent versions so that the contract of the unchecked accessors is an explicit check.
    #[inline]
    pub unsafe fn get_unchecked<I: VecIndex<T>>(&self, i: I) -> &I::Output {
        i.get_unchecked_v(self)
    }
    #[inline]
    pub unsafe fn get_unchecked_mut<I: VecIndex<T>>(&mut self, i: I) -> &mut I::Output {
        i.get_unchecked_mut_v(self)
    }
}

pub trait VecIndex<T> {
    type Output: ?Sized;
    fn get_v(self, v: &Vec<T>) -> Option<&Self::Output>;
    fn get_mut_v(self, v: &mut Vec<T>) -> Option<&mut Self::Output>;
    fn index_v(self, v: &Vec<T>) -> &Self::Output;
    fn index_mut_v(self, v: &mut Vec<T>) -> &mut Self::Output;
    unsafe fn get_unchecked_v(self, v: &Vec<T>) -> &Self::Output;
    unsafe fn get_unchecked_mut_v(self, v: &mut Vec<T>) -> &mut Self::Output;
}
impl<T> VecIndex<T> for usize {
    type Output = T;
    #[inline]
    fn get_v(self, v: &Vec<T>) -> Option<&T> {
        if self < v.len { Some(unsafe { &*v.slot(self) }) } else { None }
    }
    #[inline]
    fn get_mut_v(self, v: &mut Vec<T>) -> Option<&mut T> {
        if self < v.len { Some(unsafe { &mut *v.slot_mut(self) }) } else { None }
    }
    #[inline]
    fn index_v(self, v: &Vec<T>) -> &T {
        assert!(self < v.len, "index out of bounds");
        unsafe { &*v.slot(self) }
    }
    #[inline]
    fn index_mut_v(self, v: &mut Vec<T>) -> &mut T {
        assert!(self < v.len, "index out of bounds");
        unsafe { &mut *v.slot_mut(self) }
    }
    #[inline]
    unsafe fn get_unchecked_v(self, v: &Vec<T>) -> &T {
        ub(self < v.len);
        &*v.slot(self)
    }
    #[inline]
    unsafe fn get_unchecked_mut_v(self, v: &mut Vec<T>) -> &mut T {
        ub(self < v.len);
        &mut *v.slot_mut(self)
    }
}
macro_rules! range_index { ($($t:ty),*) => { $(
impl<T> VecIndex<T> for $t {
    type Output = [T];
    fn get_v(self, v: &Vec<T>) -> Option<&[T]> { v.as_slice().get(self) }
    fn get_mut_v(self, v: &mut Vec<T>) -> Option<&mut [T]> { v.as_mut_slice().get_mut(self) }
    fn index_v(self, v: &Vec<T>) -> &[T] { &v.as_slice()[self] }
    fn index_mut_v(self, v: &mut Vec<T>) -> &mut [T] { &mut v.as_mut_slice()[self] }
    unsafe fn get_unchecked_v(self, v: &Vec<T>) -> &[T] { &v.as_slice()[self] }
    unsafe fn get_unchecked_mut_v(self, v: &mut Vec<T>) -> &mut [T] { &mut v.as_mut_slice()[self] }
}
)* } }
range_index!(::std::ops::Range<usize>, ::std::ops::RangeTo<usize>, ::std::ops::RangeFrom<usize>,
    ::std::ops::RangeFull, ::std::ops::RangeInclusive<usize>, ::std::ops::RangeToInclusive<usize>);

pub fn from_elem<T: Clone>(e: T, n: usize) -> Vec<T> {
    let mut v = Vec::new();
    v.resize(n, e);
    v
}

impl<T> Drop for Vec<T> {
    #[inline]
    fn drop(&mut self) {
        if ::std::mem::needs_drop::<T>() {
            // real `Vec` drops front to back
            let n = self.len;
            self.len = 0;
            let mut i = 0;
            while i < n && i < CAP {
                unsafe { ::std::ptr::drop_in_place(self.near_mut(i)) };
                i += 1;
            }
            if n > CAP {
                let mut j = 0;
                while j < NFAR {
                    if (far::at(j) as usize) < n { unsafe { ::std::ptr::drop_in_place(self.far_mut(j)) } }
                    j += 1;
                }
            }
        }
    }
}
impl<T> Default for Vec<T> { fn default() -> Self { Vec::new() } }
impl<T: Clone> Clone for Vec<T> {
    fn clone(&self) -> Self {
        let mut v = Vec::new();
        for x in self.iter() { v.push(x.clone()); }
        v
    }
}
impl<T> Deref for Vec<T> {
    type Target = [T];
    #[inline]
    fn deref(&self) -> &[T] { self.as_slice() }
}
impl<T> DerefMut for Vec<T> {
    #[inline]
    fn deref_mut(&mut self) -> &mut [T] { self.as_mut_slice() }
}
impl<T, I: VecIndex<T>> Index<I> for Vec<T> {
    type Output = I::Output;
    #[inline]
    fn index(&self, i: I) -> &I::Output { i.index_v(self) }
}
impl<T, I: VecIndex<T>> IndexMut<I> for Vec<T> {
    #[inline]
    fn index_mut(&mut self, i: I) -> &mut I::Output { i.index_mut_v(self) }
}
impl<T: fmt::Debug> fmt::Debug for Vec<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(self.as_slice(), f) }
}
impl<T: PartialEq<U>, U> PartialEq<Vec<U>> for Vec<T> {
    fn eq(&self, o: &Vec<U>) -> bool { self.as_slice() == o.as_slice() }
}
impl<T: PartialEq<U>, U> PartialEq<[U]> for Vec<T> {
    fn eq(&self, o: &[U]) -> bool { self.as_slice() == o }
}
impl<T: PartialEq<U>, U, const N: usize> PartialEq<[U; N]> for Vec<T> {
    fn eq(&self, o: &[U; N]) -> bool { self.as_slice() == &o[..] }
}
impl<T: Eq> Eq for Vec<T> {}
impl<T: PartialOrd> PartialOrd for Vec<T> {
    fn partial_cmp(&self, o: &Vec<T>) -> Option<::std::cmp::Ordering> { self.as_slice().partial_cmp(o.as_slice()) }
}
impl<T: Ord> Ord for Vec<T> {
    fn cmp(&self, o: &Vec<T>) -> ::std::cmp::Ordering { self.as_slice().cmp(o.as_slice()) }
}
impl<T: Hash> Hash for Vec<T> { fn hash<H: Hasher>(&self, h: &mut H) { self.as_slice().hash(h) } }
impl<T> AsRef<[T]> for Vec<T> { fn as_ref(&self) -> &[T] { self } }
impl<T> AsMut<[T]> for Vec<T> { fn as_mut(&mut self) -> &mut [T] { self } }
impl<T> Borrow<[T]> for Vec<T> { fn borrow(&self) -> &[T] { self } }
impl<T> BorrowMut<[T]> for Vec<T> { fn borrow_mut(&mut self) -> &mut [T] { self } }

impl<T> FromIterator<T> for Vec<T> {
    fn from_iter<I: IntoIterator<Item = T>>(it: I) -> Self {
        let mut v = Vec::new();
        for x in it { v.push(x); }
        v
    }
}
impl<T> Extend<T> for Vec<T> {
    fn extend<I: IntoIterator<Item = T>>(&mut self, it: I) { for x in it { self.push(x); } }
}
impl<'a, T: Copy + 'a> Extend<&'a T> for Vec<T> {
    fn extend<I: IntoIterator<Item = &'a T>>(&mut self, it: I) { for x in it { self.push(*x); } }
}
impl<T, const N: usize> From<[T; N]> for Vec<T> { fn from(a: [T; N]) -> Self { a.into_iter().collect() } }
impl<'a, T: Clone> From<&'a [T]> for Vec<T> { fn from(a: &'a [T]) -> Self { a.iter().cloned().collect() } }

pub struct IntoIter<T> { v: ManuallyDrop<Vec<T>>, pos: usize, end: usize }
pub type Drain<'a, T> = IntoIter<T>;
impl<T> IntoIter<T> {
    pub fn as_slice(&self) -> &[T] {
        unsafe { slice::from_raw_parts(self.v.as_ptr().add(self.pos), self.end - self.pos) }
    }
}
impl<T> Iterator for IntoIter<T> {
    type Item = T;
    #[inline]
    fn next(&mut self) -> Option<T> {
        if self.pos < self.end {
            let i = self.pos;
            self.pos += 1;
            Some(unsafe { self.v.take_at(i) })
        } else {
            None
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) { (self.end - self.pos, Some(self.end - self.pos)) }
}
impl<T> DoubleEndedIterator for IntoIter<T> {
    fn next_back(&mut self) -> Option<T> {
        if self.pos < self.end {
            self.end -= 1;
            Some(unsafe { self.v.take_at(self.end) })
        } else {
            None
        }
    }
}
impl<T> ExactSizeIterator for IntoIter<T> {}
impl<T> Drop for IntoIter<T> {
    #[inline]
    fn drop(&mut self) {
        if ::std::mem::needs_drop::<T>() {
            while let Some(x) = self.next() { drop(x); }
        }
    }
}
impl<T> IntoIterator for Vec<T> {
    type Item = T;
    type IntoIter = IntoIter<T>;
    #[inline]
    fn into_iter(self) -> IntoIter<T> {
        let end = self.len;
        bound(end <= CAP);
        IntoIter { v: ManuallyDrop::new(self), pos: 0, end }
    }
}
impl<'a, T> IntoIterator for &'a Vec<T> {
    type Item = &'a T;
    type IntoIter = slice::Iter<'a, T>;
    #[inline]
    fn into_iter(self) -> slice::Iter<'a, T> { self.as_slice().iter() }
}
impl<'a, T> IntoIterator for &'a mut Vec<T> {
    type Item = &'a mut T;
    type IntoIter = slice::IterMut<'a, T>;
    #[inline]
    fn into_iter(self) -> slice::IterMut<'a, T> { self.as_mut_slice().iter_mut() }
}
