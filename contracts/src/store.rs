//! Storage and child stand-ins used by the obligations. Each one is a small
//! trusted implementation of the public `Buffer` / `Collection` traits; the
//! code under contract is always the real code from /repo instantiated at
//! these types (or at the real storages where that is within reach).

use core::borrow::{Borrow, BorrowMut};
use core::cell::Cell;
use core::marker::PhantomData;

use narrow::{
    buffer::Buffer,
    collection::{AllocError, Collection, CollectionAllocIn, CollectionRealloc},
    fixed_size::FixedSize,
    length::Length,
};

use crate::nd;

// ---------------------------------------------------------------- allocator

/// Fault injection: number of growths the fallible operations may still make.
pub mod grants {
    #[cfg(kani)]
    static mut LEFT: usize = usize::MAX;
    #[cfg(kani)]
    pub fn set(n: usize) {
        unsafe { LEFT = n }
    }
    #[cfg(kani)]
    pub fn take() -> bool {
        unsafe {
            if LEFT == 0 {
                false
            } else {
                LEFT -= 1;
                true
            }
        }
    }
    #[cfg(not(kani))]
    thread_local! { static LEFT: core::cell::Cell<usize> = const { core::cell::Cell::new(usize::MAX) }; }
    #[cfg(not(kani))]
    pub fn set(n: usize) {
        LEFT.with(|l| l.set(n));
    }
    #[cfg(not(kani))]
    pub fn take() -> bool {
        LEFT.with(|l| {
            let n = l.get();
            if n == 0 {
                false
            } else {
                l.set(n - 1);
                true
            }
        })
    }
}

// ------------------------------------------------------------------ AvBuf

/// Growable storage with a fixed physical capacity. Every fallible growth
/// needs a grant, so that "the n-th reservation fails" is an input.
#[derive(Clone, Copy, Debug, Default)]
pub struct AvBuf;
impl Buffer for AvBuf {
    type For<T: FixedSize> = Av<T>;
}

/// Physical capacity of [`Av`] under the verifier, in items.
pub const PHYS: usize = 24;

#[cfg(kani)]
pub struct Av<T: FixedSize> {
    p: *mut T,
    n: usize,
    cap: usize,
}
#[cfg(not(kani))]
pub struct Av<T: FixedSize> {
    v: Vec<T>,
    cap: usize,
}

impl<T: FixedSize> core::fmt::Debug for Av<T> {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.write_str("Av")
    }
}

#[cfg(kani)]
impl<T: FixedSize> Av<T> {
    pub fn new() -> Self {
        let p = unsafe { std::alloc::alloc(std::alloc::Layout::new::<[T; PHYS]>()) };
        Self { p: p.cast(), n: 0, cap: 0 }
    }
    pub fn push(&mut self, x: T) {
        assert!(self.n < PHYS, "OB: storage stays within the number of items the operation needs");
        unsafe { *self.p.add(self.n) = x };
        self.n += 1;
        if self.cap < self.n {
            self.cap = self.n;
        }
    }
    fn set_len(&mut self, n: usize) {
        self.n = n;
    }
    fn sl(&self) -> &[T] {
        unsafe { core::slice::from_raw_parts(self.p, self.n) }
    }
    fn slm(&mut self) -> &mut [T] {
        unsafe { core::slice::from_raw_parts_mut(self.p, self.n) }
    }
}
#[cfg(not(kani))]
impl<T: FixedSize> Av<T> {
    pub fn new() -> Self {
        Self { v: Vec::new(), cap: 0 }
    }
    pub fn push(&mut self, x: T) {
        self.v.push(x);
        if self.cap < self.v.len() {
            self.cap = self.v.len();
        }
    }
    fn set_len(&mut self, n: usize) {
        self.v.truncate(n);
    }
    fn sl(&self) -> &[T] {
        &self.v
    }
    fn slm(&mut self) -> &mut [T] {
        &mut self.v
    }
}

impl<T: FixedSize> Av<T> {
    pub fn from_fn(n: usize, mut f: impl FnMut(usize) -> T) -> Self {
        let mut s = Self::new();
        let mut i = 0;
        while i < n {
            s.push(f(i));
            i += 1;
        }
        s
    }
    pub fn get(&self, i: usize) -> Option<T> {
        let s = self.sl();
        if i < s.len() { Some(s[i]) } else { None }
    }
    /// Storage reserved so far (items).
    pub fn reserved(&self) -> usize {
        self.cap
    }
    fn ensure(&mut self, additional: usize) -> Result<(), AllocError> {
        match self.sl().len().checked_add(additional) {
            Some(need) => {
                if need > self.cap {
                    if need > LIMIT || !grants::take() {
                        return Err(AllocError);
                    }
                    #[cfg(not(kani))]
                    if self.v.try_reserve(additional).is_err() {
                        return Err(AllocError);
                    }
                    self.cap = need;
                }
                #[cfg(not(kani))]
                if self.v.try_reserve(additional).is_err() {
                    return Err(AllocError);
                }
                Ok(())
            }
            None => Err(AllocError),
        }
    }
}
/// Requests beyond this many items always fail.
pub const LIMIT: usize = 1 << 20;

impl<T: FixedSize> Default for Av<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T: FixedSize> Length for Av<T> {
    fn len(&self) -> usize {
        self.sl().len()
    }
}
impl<T: FixedSize> Borrow<[T]> for Av<T> {
    fn borrow(&self) -> &[T] {
        self.sl()
    }
}
impl<T: FixedSize> BorrowMut<[T]> for Av<T> {
    fn borrow_mut(&mut self) -> &mut [T] {
        self.slm()
    }
}
pub struct AvIter<T: FixedSize> {
    a: Av<T>,
    i: usize,
}
impl<T: FixedSize> Iterator for AvIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        let r = self.a.get(self.i);
        if r.is_some() {
            self.i += 1;
        }
        r
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.a.len() - self.i;
        (n, Some(n))
    }
}
impl<T: FixedSize> ExactSizeIterator for AvIter<T> {}
pub struct RefIter<'a, T: FixedSize> {
    s: &'a [T],
    i: usize,
}
impl<T: FixedSize> Iterator for RefIter<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if self.i < self.s.len() {
            self.i += 1;
            Some(self.s[self.i - 1])
        } else {
            None
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.s.len() - self.i;
        (n, Some(n))
    }
}
impl<T: FixedSize> ExactSizeIterator for RefIter<'_, T> {}
impl<T: FixedSize> Collection for Av<T> {
    type View<'c> = T;
    type Owned = T;
    fn view(&self, index: usize) -> Option<T> {
        self.get(index)
    }
    type Iter<'c> = RefIter<'c, T>;
    fn iter_views(&self) -> RefIter<'_, T> {
        RefIter { s: self.sl(), i: 0 }
    }
    type IntoIter = AvIter<T>;
    fn into_iter_owned(self) -> AvIter<T> {
        AvIter { a: self, i: 0 }
    }
}
impl<T: FixedSize> Extend<T> for Av<T> {
    fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
        for x in iter {
            self.push(x);
        }
    }
}
impl<T: FixedSize> FromIterator<T> for Av<T> {
    fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self {
        let mut s = Self::new();
        s.extend(iter);
        s
    }
}
impl<T: FixedSize> CollectionAllocIn for Av<T> {
    type Alloc = ();
    fn with_capacity_in(capacity: usize, (): ()) -> Self {
        let mut s = Self::new();
        assert!(capacity <= LIMIT, "capacity overflow");
        #[cfg(not(kani))]
        s.v.reserve(capacity);
        s.cap = capacity;
        s
    }
    fn from_iter_in<I: IntoIterator<Item = T>>(iter: I, (): ()) -> Self {
        iter.into_iter().collect()
    }
    fn try_with_capacity_in(capacity: usize, (): ()) -> Result<Self, AllocError> {
        let mut s = Self::new();
        s.ensure(capacity)?;
        Ok(s)
    }
    fn try_from_iter_in<I: IntoIterator<Item = T>>(iter: I, (): ()) -> Result<Self, AllocError> {
        let mut s = Self::new();
        s.try_extend(iter)?;
        Ok(s)
    }
}
impl<T: FixedSize> CollectionRealloc for Av<T> {
    fn allocator(&self) {}
    fn try_reserve(&mut self, additional: usize) -> Result<(), AllocError> {
        self.ensure(additional)
    }
    fn try_extend<I: IntoIterator<Item = T>>(&mut self, iter: I) -> Result<(), AllocError> {
        let n = self.len();
        for x in iter {
            if self.ensure(1).is_err() {
                self.set_len(n);
                return Err(AllocError);
            }
            self.push(x);
        }
        Ok(())
    }
    fn reserve(&mut self, additional: usize) {
        let need = self.len().strict_add(additional);
        assert!(need <= LIMIT, "capacity overflow");
        #[cfg(not(kani))]
        self.v.reserve(additional);
        if need > self.cap {
            self.cap = need;
        }
    }
    fn truncate(&mut self, len: usize) {
        if len < self.len() {
            self.set_len(len);
        }
    }
}

// ------------------------------------------------------- any-length slices

/// A slice of any length (up to `1 << LOG2` items) and any contents.
/// The only bound is the addressable-memory assumption of the verifier's
/// object model; contents are unconstrained.
#[cfg(kani)]
pub fn any_slice<T: FixedSize>(log2: u32) -> &'static [T] {
    any_slice_mut(log2)
}
#[cfg(kani)]
pub fn any_slice_mut<T: FixedSize>(log2: u32) -> &'static mut [T] {
    let n: usize = kani::any();
    kani::assume(n <= 1usize << log2);
    any_slice_len(n)
}
/// A slice of exactly `n` items with any contents; `n` may be symbolic.
#[cfg(kani)]
pub fn any_slice_len<T: FixedSize>(n: usize) -> &'static mut [T] {
    unsafe {
        let size = n * size_of::<T>();
        let p = std::alloc::alloc(std::alloc::Layout::from_size_align_unchecked(
            if size == 0 { 1 } else { size },
            align_of::<T>(),
        ));
        kani::assume(!p.is_null());
        core::slice::from_raw_parts_mut(p.cast(), n)
    }
}
#[cfg(not(kani))]
pub trait AnyItem: FixedSize + nd::Any {}
#[cfg(not(kani))]
impl<T: FixedSize + nd::Any> AnyItem for T {}
#[cfg(kani)]
pub trait AnyItem: FixedSize + nd::Any {}
#[cfg(kani)]
impl<T: FixedSize + nd::Any> AnyItem for T {}
#[cfg(not(kani))]
pub fn any_slice<T: AnyItem>(_log2: u32) -> &'static [T] {
    any_slice_mut(_log2)
}
#[cfg(not(kani))]
pub fn any_slice_mut<T: AnyItem>(_log2: u32) -> &'static mut [T] {
    // Sizes drawn natively stay small; a replayed symbolic size that cannot be
    // allocated makes the replay inconclusive.
    let raw = nd::raw(8, Some(41));
    let n = usize::from_le_bytes(raw.try_into().unwrap());
    any_slice_len(n)
}
#[cfg(not(kani))]
pub fn any_slice_len<T: AnyItem>(n: usize) -> &'static mut [T] {
    nd::assume(n <= 4096);
    let mut seed = 0x1234_5678u64.wrapping_add(n as u64);
    let v: Vec<T> = (0..n)
        .map(|_| {
            seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            unsafe {
                let mut t = core::mem::MaybeUninit::<T>::zeroed();
                let b = t.as_mut_ptr().cast::<u8>();
                for k in 0..size_of::<T>() {
                    *b.add(k) = (seed >> (8 * (k % 8))) as u8;
                }
                t.assume_init()
            }
        })
        .collect();
    Vec::leak(v)
}

// ------------------------------------------------------- abstract children

/// A read-only collection of arbitrary length whose item `i` is `i`: any
/// misplaced index is visible in the value read.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Ident(pub usize);
impl Length for Ident {
    fn len(&self) -> usize {
        self.0
    }
}
impl Collection for Ident {
    type View<'c> = usize;
    type Owned = usize;
    fn view(&self, index: usize) -> Option<usize> {
        (index < self.0).then_some(index)
    }
    type Iter<'c> = core::ops::Range<usize>;
    fn iter_views(&self) -> core::ops::Range<usize> {
        0..self.0
    }
    type IntoIter = core::ops::Range<usize>;
    fn into_iter_owned(self) -> core::ops::Range<usize> {
        0..self.0
    }
}

/// A growable collection of arbitrary length, abstracted to its length and the
/// item at one arbitrary watched position. Because the watched position is an
/// unconstrained input, a postcondition about it is a postcondition about
/// every position.
#[derive(Clone, Copy, Debug)]
pub struct Watched {
    pub len: usize,
    pub watch: usize,
    pub val: u32,
    /// Fallible operations fail when this is false.
    pub ok: bool,
    /// Largest number of further items reserved by one call.
    pub reserved: usize,
    /// Takes every appended item one by one instead of jumping to the watched one.
    pub eager: bool,
}
impl Length for Watched {
    fn len(&self) -> usize {
        self.len
    }
}
pub struct WatchedIter {
    c: Watched,
    i: usize,
}
impl Iterator for WatchedIter {
    type Item = u32;
    fn next(&mut self) -> Option<u32> {
        let r = self.c.view(self.i);
        if r.is_some() {
            self.i += 1;
        }
        r
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.c.len - self.i;
        (n, Some(n))
    }
    fn nth(&mut self, n: usize) -> Option<u32> {
        match self.i.checked_add(n) {
            Some(k) if k < self.c.len => {
                self.i = k + 1;
                self.c.view(k)
            }
            _ => {
                self.i = self.c.len;
                None
            }
        }
    }
}
impl ExactSizeIterator for WatchedIter {}
impl Collection for Watched {
    type View<'c> = u32;
    type Owned = u32;
    fn view(&self, index: usize) -> Option<u32> {
        if index >= self.len {
            None
        } else if index == self.watch {
            Some(self.val)
        } else {
            Some(nd::any())
        }
    }
    type Iter<'c> = WatchedIter;
    fn iter_views(&self) -> WatchedIter {
        WatchedIter { c: *self, i: 0 }
    }
    type IntoIter = WatchedIter;
    fn into_iter_owned(self) -> WatchedIter {
        WatchedIter { c: self, i: 0 }
    }
}
impl Default for Watched {
    fn default() -> Self {
        Watched { len: 0, watch: 0, val: 0, ok: true, reserved: 0, eager: false }
    }
}
impl Extend<u32> for Watched {
    /// Contract of an extension by an iterator of exactly known length,
    /// observed at the watched position (no loop over the items).
    fn extend<I: IntoIterator<Item = u32>>(&mut self, iter: I) {
        let mut it = iter.into_iter();
        let (lo, hi) = it.size_hint();
        if !self.eager && hi == Some(lo) {
            if self.watch >= self.len && self.watch - self.len < lo {
                self.val = it.nth(self.watch - self.len).expect("OB: child receives every announced item");
            }
            self.len = self.len.strict_add(lo);
        } else {
            for x in it {
                if self.watch == self.len {
                    self.val = x;
                }
                self.len = self.len.strict_add(1);
            }
        }
    }
}
impl FromIterator<u32> for Watched {
    fn from_iter<I: IntoIterator<Item = u32>>(iter: I) -> Self {
        let mut s = Watched::default();
        s.extend(iter);
        s
    }
}
impl CollectionAllocIn for Watched {
    type Alloc = ();
    fn with_capacity_in(capacity: usize, (): ()) -> Self {
        Watched { reserved: capacity, ..Watched::default() }
    }
    fn from_iter_in<I: IntoIterator<Item = u32>>(iter: I, (): ()) -> Self {
        iter.into_iter().collect()
    }
    fn try_with_capacity_in(capacity: usize, (): ()) -> Result<Self, AllocError> {
        if grants::take() { Ok(Watched { reserved: capacity, ..Watched::default() }) } else { Err(AllocError) }
    }
    fn try_from_iter_in<I: IntoIterator<Item = u32>>(iter: I, (): ()) -> Result<Self, AllocError> {
        Ok(iter.into_iter().collect())
    }
}
impl CollectionRealloc for Watched {
    fn allocator(&self) {}
    fn try_reserve(&mut self, additional: usize) -> Result<(), AllocError> {
        if self.ok {
            CollectionRealloc::reserve(self, additional);
            Ok(())
        } else {
            Err(AllocError)
        }
    }
    fn try_extend<I: IntoIterator<Item = u32>>(&mut self, iter: I) -> Result<(), AllocError> {
        if self.ok {
            self.extend(iter);
            Ok(())
        } else {
            Err(AllocError)
        }
    }
    fn reserve(&mut self, additional: usize) {
        if self.reserved < additional {
            self.reserved = additional;
        }
    }
    fn truncate(&mut self, len: usize) {
        if len < self.len {
            self.len = len;
        }
    }
}

/// Growable storage over a slice of arbitrary length with `slack` further
/// items of physical room: an arbitrary existing buffer that is appended to.
#[derive(Clone, Copy, Debug, Default)]
pub struct SymBuf;
impl Buffer for SymBuf {
    type For<T: FixedSize> = Sym<T>;
}
pub struct Sym<T: FixedSize> {
    p: Cell<*mut T>,
    n: Cell<usize>,
    room: Cell<usize>,
    /// Items for which storage was requested so far (stored ones included).
    cap: Cell<usize>,
    /// Fallible growth fails when this is false.
    pub ok: Cell<bool>,
    _t: PhantomData<T>,
}
impl<T: FixedSize> Default for Sym<T> {
    fn default() -> Self {
        Sym {
            p: Cell::new(core::ptr::NonNull::dangling().as_ptr()),
            n: Cell::new(0),
            room: Cell::new(0),
            cap: Cell::new(0),
            ok: Cell::new(true),
            _t: PhantomData,
        }
    }
}
impl<T: AnyItem> Sym<T> {
    /// Any buffer of any length `n`, with room for `slack` more items.
    pub fn any(log2: u32, slack: usize) -> Self {
        let s = Self::default();
        s.havoc(log2, slack);
        s
    }
    /// A buffer of exactly `n` items of any content, with `slack` more items of room.
    pub fn exact(n: usize, slack: usize) -> Self {
        let s = Self::default();
        s.become_(n, slack);
        s
    }
    /// The (arbitrary) item at `i`.
    #[cfg(kani)]
    pub fn pin(&self, i: usize) -> T {
        self.at(i)
    }
    #[cfg(not(kani))]
    pub fn pin(&self, i: usize) -> T {
        let x: T = nd::any();
        self.set(i, x);
        x
    }
    fn become_(&self, n: usize, slack: usize) {
        let b = any_slice_len::<T>(n + slack);
        self.p.set(b.as_mut_ptr());
        self.n.set(n);
        self.room.set(n + slack);
        self.cap.set(n);
    }
    /// Replaces the buffer by any buffer of any length: puts the owning
    /// collection into an arbitrary state (restricted afterwards to its
    /// invariant by the obligation).
    pub fn havoc(&self, log2: u32, slack: usize) {
        #[cfg(kani)]
        let n: usize = {
            let n: usize = kani::any();
            kani::assume(n <= 1usize << log2);
            n
        };
        #[cfg(not(kani))]
        let n: usize = {
            let _ = log2;
            let raw = nd::raw(8, Some(41));
            let n = usize::from_le_bytes(raw.try_into().unwrap());
            nd::assume(n <= 4096);
            n
        };
        self.become_(n, slack);
    }
}
impl<T: FixedSize> Sym<T> {
    pub fn sl(&self) -> &[T] {
        unsafe { core::slice::from_raw_parts(self.p.get(), self.n.get()) }
    }
    pub fn at(&self, i: usize) -> T {
        self.sl()[i]
    }
    pub fn set(&self, i: usize, x: T) {
        assert!(i < self.n.get());
        unsafe { *self.p.get().add(i) = x };
    }
    fn push(&mut self, x: T) {
        assert!(self.n.get() < self.room.get(), "OB: storage stays within the number of items the operation needs");
        unsafe { *self.p.get().add(self.n.get()) = x };
        self.n.set(self.n.get() + 1);
        if self.cap.get() < self.n.get() {
            self.cap.set(self.n.get());
        }
    }
    /// Items for which storage was requested so far (stored ones included).
    pub fn requested(&self) -> usize {
        self.cap.get()
    }
    /// An empty buffer, `capacity` items requested, with room for one.
    fn empty(capacity: usize) -> Self {
        let s = Self::default();
        s.p.set(unsafe { std::alloc::alloc(std::alloc::Layout::new::<T>()) }.cast());
        s.room.set(1);
        s.cap.set(capacity);
        s
    }
    fn request(&self, additional: usize) -> bool {
        match self.n.get().checked_add(additional) {
            Some(c) => {
                if c > self.cap.get() {
                    self.cap.set(c);
                }
                true
            }
            None => false,
        }
    }
}
impl<T: FixedSize> Length for Sym<T> {
    fn len(&self) -> usize {
        self.n.get()
    }
}
impl<T: FixedSize> Borrow<[T]> for Sym<T> {
    fn borrow(&self) -> &[T] {
        self.sl()
    }
}
impl<T: FixedSize> BorrowMut<[T]> for Sym<T> {
    fn borrow_mut(&mut self) -> &mut [T] {
        unsafe { core::slice::from_raw_parts_mut(self.p.get(), self.n.get()) }
    }
}
pub struct SymIter<T: FixedSize> {
    a: Sym<T>,
    i: usize,
}
impl<T: FixedSize> Iterator for SymIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        let r = self.a.view(self.i);
        if r.is_some() {
            self.i += 1;
        }
        r
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.a.n.get() - self.i;
        (n, Some(n))
    }
    fn nth(&mut self, n: usize) -> Option<T> {
        match self.i.checked_add(n) {
            Some(k) if k < self.a.n.get() => {
                self.i = k + 1;
                self.a.view(k)
            }
            _ => {
                self.i = self.a.n.get();
                None
            }
        }
    }
}
impl<T: FixedSize> ExactSizeIterator for SymIter<T> {}
impl<T: FixedSize> Collection for Sym<T> {
    type View<'c> = T;
    type Owned = T;
    fn view(&self, index: usize) -> Option<T> {
        let s = self.sl();
        if index < s.len() { Some(s[index]) } else { None }
    }
    type Iter<'c> = RefIter<'c, T>;
    fn iter_views(&self) -> RefIter<'_, T> {
        RefIter { s: self.sl(), i: 0 }
    }
    type IntoIter = SymIter<T>;
    fn into_iter_owned(self) -> SymIter<T> {
        SymIter { a: self, i: 0 }
    }
}
impl<T: FixedSize> Extend<T> for Sym<T> {
    fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
        for x in iter {
            self.push(x);
        }
    }
}
impl<T: FixedSize> FromIterator<T> for Sym<T> {
    fn from_iter<I: IntoIterator<Item = T>>(_: I) -> Self {
        panic!("stand-in buffers are only appended to")
    }
}
impl<T: FixedSize> CollectionAllocIn for Sym<T> {
    type Alloc = ();
    fn with_capacity_in(capacity: usize, (): ()) -> Self {
        Self::empty(capacity)
    }
    fn from_iter_in<I: IntoIterator<Item = T>>(_: I, (): ()) -> Self {
        panic!("stand-in buffers are only appended to")
    }
    fn try_with_capacity_in(capacity: usize, (): ()) -> Result<Self, AllocError> {
        if grants::take() { Ok(Self::empty(capacity)) } else { Err(AllocError) }
    }
    fn try_from_iter_in<I: IntoIterator<Item = T>>(_: I, (): ()) -> Result<Self, AllocError> {
        Err(AllocError)
    }
}
impl<T: FixedSize> CollectionRealloc for Sym<T> {
    fn allocator(&self) {}
    fn try_reserve(&mut self, additional: usize) -> Result<(), AllocError> {
        if self.ok.get() && self.request(additional) { Ok(()) } else { Err(AllocError) }
    }
    fn try_extend<I: IntoIterator<Item = T>>(&mut self, iter: I) -> Result<(), AllocError> {
        if self.ok.get() {
            self.extend(iter);
            Ok(())
        } else {
            Err(AllocError)
        }
    }
    fn reserve(&mut self, additional: usize) {
        assert!(self.request(additional), "capacity overflow");
    }
    fn truncate(&mut self, len: usize) {
        if len < self.n.get() {
            self.n.set(len);
        }
    }
}

// ------------------------------------------------------------ item sources

/// A boolean item without a niche: keeps `Option<item>` discriminants concrete
/// while the bit itself is symbolic.
#[derive(Clone, Copy, Debug)]
pub struct Bit(pub u8);
static T_: bool = true;
static F_: bool = false;
impl Borrow<bool> for Bit {
    fn borrow(&self) -> &bool {
        if self.0 & 1 == 1 { &T_ } else { &F_ }
    }
}
/// Yields `n` bits of `bits`, then `None` forever. With `resume`, yields
/// further items after the first `None` (a non-fused source).
pub struct Bits {
    pub bits: u64,
    pub i: usize,
    pub n: usize,
}
impl Iterator for Bits {
    type Item = Bit;
    fn next(&mut self) -> Option<Bit> {
        if self.i < self.n {
            let b = ((self.bits >> (self.i & 63)) & 1) as u8;
            self.i += 1;
            Some(Bit(b))
        } else {
            None
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.n - self.i;
        (n, Some(n))
    }
}

/// As [`Bits`], yielding plain booleans.
pub struct Bools {
    pub bits: u64,
    pub i: usize,
    pub n: usize,
}
impl Iterator for Bools {
    type Item = bool;
    fn next(&mut self) -> Option<bool> {
        if self.i < self.n {
            self.i += 1;
            Some((self.bits >> ((self.i - 1) & 63)) & 1 == 1)
        } else {
            None
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.n - self.i;
        (n, Some(n))
    }
}

/// A finite source announcing exact (0), no (1) or loose (2) bounds, all of
/// them correct in the sense of `Iterator::size_hint`.
#[derive(Clone)]
pub struct Hinted<I> {
    pub v: I,
    pub lie: usize,
}
impl<I: ExactSizeIterator> Iterator for Hinted<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.v.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.v.len();
        match self.lie {
            0 => (n, Some(n)),
            1 => (0, None),
            _ => (n / 2, Some(usize::MAX)),
        }
    }
}
