//! C14: iterators announce exactly how many items they yield.

use core::borrow::Borrow;

use narrow::{
    bitmap::Bitmap,
    buffer::{ArcBuffer, BoxBuffer, Buffer, BufferRef, RcBuffer, SliceBuffer, VecBuffer},
    collection::{AllocError, Collection, CollectionAllocIn, CollectionRealloc, flatten::Flatten, owned::IntoOwned},
    fixed_size::FixedSize,
    length::Length,
    offset::{Offset, Offsets},
    validity::Validity,
};

use crate::{nd, nd::any, spec, store::*};

/// The bits of a buffer of any length, bit by bit over more than one byte:
/// every state of the unpacking iterator (the bytes it still has to fetch are
/// any number of any bytes). `offset` is skipped first.
fn bits_steps<const STEPS: usize>(offset: usize) {
    let bits: usize = any();
    let Ok(b) = Bitmap::<SymBuf>::try_from_parts(Sym::<u8>::any(40, 0), bits, offset) else { return };
    let mut it = b.into_iter_owned();
    let mut k = 0;
    while k < STEPS {
        let left = bits.saturating_sub(k);
        check!(it.size_hint() == (left, Some(left)) && it.len() == left, "consuming iteration announces the exact remaining count");
        check!(it.next().is_some() == (left > 0), "an announced item is yielded, and no other");
        k += 1;
    }
}
fn bits_borrowed<const STEPS: usize>(offset: usize) {
    let bits: usize = any();
    let Ok(b) = Bitmap::<SymBuf>::try_from_parts(Sym::<u8>::any(40, 0), bits, offset) else { return };
    let mut it = b.iter_views();
    let mut k = 0;
    while k < STEPS {
        let left = bits.saturating_sub(k);
        let (lo, hi) = it.size_hint();
        check!(lo <= left && hi.is_none_or(|h| left <= h), "the bounds of borrowed iteration enclose the remaining count");
        check!(it.len() == left, "an exact length of borrowed iteration is the remaining count");
        check!(it.next().is_some() == (left > 0), "an announced item is yielded, and no other");
        k += 1;
    }
}
fn validity_steps<const STEPS: usize>(stored: bool) {
    let n: usize = any();
    let v = if stored {
        let Ok(b) = Bitmap::<SymBuf>::try_from_parts(Sym::<u8>::any(40, 0), n, 0) else { return };
        Validity::<Ident, SymBuf>::try_from_parts(Ident(n), b).ok().expect("OB: lengths match")
    } else {
        Validity::<Ident, SymBuf>::from_collection(Ident(n))
    };
    {
        let mut it = v.iter_views();
        let mut k = 0;
        while k < STEPS {
            let left = n.saturating_sub(k);
            let (lo, hi) = it.size_hint();
            check!(lo <= left && hi.is_none_or(|h| left <= h), "the bounds of borrowed iteration enclose the remaining count");
            check!(it.next().is_some() == (left > 0), "an announced item is yielded, and no other");
            k += 1;
        }
    }
    let mut it = v.into_iter_owned();
    let mut k = 0;
    while k < STEPS {
        let left = n.saturating_sub(k);
        check!(it.size_hint() == (left, Some(left)) && it.len() == left, "consuming iteration announces the exact remaining count");
        check!(it.next().is_some() == (left > 0), "an announced item is yielded, and no other");
        k += 1;
    }
}
/// A collection that counts as any list (collects nothing).
#[derive(Default)]
struct Skip;
impl FromIterator<usize> for Skip {
    fn from_iter<I: IntoIterator<Item = usize>>(_: I) -> Self {
        Skip
    }
}
fn offsets_steps<O: Offset + nd::Any>() {
    let child: usize = any();
    let b = Sym::<O>::exact(1, 0);
    b.set(0, O::default());
    let o: Offsets<Ident, O, SymBuf, Skip> = Offsets::try_from_parts(Ident(child), b).ok().expect("OB: valid offsets");
    let b: &Sym<O> = o.buffer_ref();
    b.havoc(38, 0);
    nd::assume(b.len() >= 1);
    let m = b.len() - 1;
    // the invariant at the lists that are taken (the first: any suffix of any offsets)
    let mut p: usize = 0;
    let mut i = 0;
    while i < 3 {
        if i <= m {
            let Ok(x): Result<usize, _> = b.pin(i).try_into() else { nd::stop() };
            nd::assume(p <= x && x <= child);
            p = x;
        }
        i += 1;
    }
    {
        let it = o.iter_views();
        check!(it.size_hint() == (m, Some(m)), "borrowed iteration counts the lists");
        let mut it = it;
        check!(it.next().is_some() == (m > 0), "an announced list is yielded, and no other");
        let left = m.saturating_sub(1);
        check!(it.size_hint() == (left, Some(left)), "borrowed iteration counts the remaining lists");
    }
    let mut it = o.into_iter_owned();
    let mut k = 0;
    while k < 3 {
        let left = m.saturating_sub(k);
        check!(it.size_hint() == (left, Some(left)) && it.len() == left, "consuming iteration announces the exact remaining count");
        if k < 2 { check!(it.next().is_some() == (left > 0), "an announced list is yielded, and no other") }
        k += 1;
    }
}
fn flatten_steps<const N: usize, const STEPS: usize>() {
    let m: usize = any();
    let Some(len) = m.checked_mul(N) else { nd::stop() };
    let Ok(f) = Flatten::<Ident, N>::try_from_parts(Ident(len)) else { check!(false, "a multiple of the width is accepted"); return };
    {
        let mut it = f.iter_views();
        let mut k = 0;
        while k < STEPS {
            let left = m.saturating_sub(k);
            check!(it.size_hint() == (left, Some(left)), "borrowed iteration counts the remaining lists");
            check!(it.next().is_some() == (left > 0), "an announced list is yielded, and no other");
            k += 1;
        }
    }
    let mut it = f.into_iter_owned();
    let mut k = 0;
    while k < STEPS {
        let left = m.saturating_sub(k);
        check!(it.size_hint() == (left, Some(left)) && it.len() == left, "consuming iteration announces the exact remaining count");
        check!(it.next().is_some() == (left > 0), "an announced list is yielded, and no other");
        k += 1;
    }
}
fn slice_steps() {
    let s: &[u32] = any_slice::<u32>(38);
    let n = s.len();
    let mut it = s.into_iter_owned();
    let skip: usize = any();
    let mut k = 0;
    while k < 3 {
        let left = n.saturating_sub(k);
        check!(it.size_hint() == (left, Some(left)) && it.len() == left, "consuming iteration announces the exact remaining count");
        check!(it.next().is_some() == (left > 0), "an announced item is yielded, and no other");
        k += 1;
    }
}

// ---- the packing iterator, seen by a storage that only looks at it

/// Items left, announced loosely but correctly.
struct Loose {
    n: usize,
    lo: usize,
    hi: Option<usize>,
}
impl Iterator for Loose {
    type Item = bool;
    fn next(&mut self) -> Option<bool> {
        None
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.lo, self.hi)
    }
}
#[cfg(kani)]
static mut SPY: (usize, Option<usize>) = (0, None);
#[cfg(kani)]
fn spy_set(h: (usize, Option<usize>)) {
    unsafe { SPY = h }
}
#[cfg(kani)]
fn spy_get() -> (usize, Option<usize>) {
    unsafe { SPY }
}
#[cfg(not(kani))]
thread_local! { static SPY: core::cell::Cell<(usize, Option<usize>)> = const { core::cell::Cell::new((0, None)) }; }
#[cfg(not(kani))]
fn spy_set(h: (usize, Option<usize>)) {
    SPY.with(|s| s.set(h))
}
#[cfg(not(kani))]
fn spy_get() -> (usize, Option<usize>) {
    SPY.with(|s| s.get())
}
/// Storage that records what the source announces.
#[derive(Clone, Copy, Debug, Default)]
struct SpyBuf;
impl Buffer for SpyBuf {
    type For<T: FixedSize> = Spy<T>;
}
struct Spy<T: FixedSize>(Av<T>);
impl<T: FixedSize> Default for Spy<T> {
    fn default() -> Self {
        Spy(Av::new())
    }
}
impl<T: FixedSize> Length for Spy<T> {
    fn len(&self) -> usize {
        self.0.len()
    }
}
impl<T: FixedSize> Borrow<[T]> for Spy<T> {
    fn borrow(&self) -> &[T] {
        self.0.borrow()
    }
}
impl<T: FixedSize> Collection for Spy<T> {
    type View<'c> = T;
    type Owned = T;
    fn view(&self, index: usize) -> Option<T> {
        self.0.view(index)
    }
    type Iter<'c> = RefIter<'c, T>;
    fn iter_views(&self) -> RefIter<'_, T> {
        self.0.iter_views()
    }
    type IntoIter = AvIter<T>;
    fn into_iter_owned(self) -> AvIter<T> {
        self.0.into_iter_owned()
    }
}
impl<T: FixedSize> FromIterator<T> for Spy<T> {
    fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self {
        spy_set(iter.into_iter().size_hint());
        Spy::default()
    }
}
impl<T: FixedSize> CollectionAllocIn for Spy<T> {
    type Alloc = ();
    fn with_capacity_in(_: usize, (): ()) -> Self {
        Spy::default()
    }
    fn from_iter_in<I: IntoIterator<Item = T>>(iter: I, (): ()) -> Self {
        iter.into_iter().collect()
    }
    fn try_with_capacity_in(_: usize, (): ()) -> Result<Self, AllocError> {
        Ok(Spy::default())
    }
    fn try_from_iter_in<I: IntoIterator<Item = T>>(iter: I, (): ()) -> Result<Self, AllocError> {
        Ok(iter.into_iter().collect())
    }
}
fn packed_hint() {
    let n: usize = any();
    let lo: usize = any();
    let h: usize = any();
    let hi = if any() { Some(h) } else { None };
    nd::assume(lo <= n && (hi.is_none() || n <= h));
    let src = || Loose { n, lo, hi };
    let want = spec::bytes_for(n);
    let mut k = 0;
    while k < 3 {
        spy_set((0, None));
        if k == 0 { let _ = src().collect::<Bitmap<SpyBuf>>(); } else if k == 1 { let _ = Bitmap::<SpyBuf>::from_iter_in(src(), ()); } else { let _ = Bitmap::<SpyBuf>::try_from_iter_in(src(), ()); }
        let (a, b) = spy_get();
        check!(a <= want && b.is_none_or(|b| want <= b), "the packed bytes announced enclose the bytes needed");
        k += 1;
    }
}

obligations! { "C14";
    proof c14_bits_0 [12] "consuming bits: any buffer up to 2^40 bytes, any length, first three steps" { bits_steps::<3>(0) }
    proof c14_bits_3 [12] "consuming bits after an offset of 3: any buffer, any length, three steps" { bits_steps::<3>(3) }
    proof c14_bits_6 [12] "consuming bits after an offset of 6 (over the byte boundary): any buffer, any length, three steps" { bits_steps::<3>(6) }
    proof_deep c14_bits_long [12] "consuming bits: any buffer, any length, ten steps (every state of the unpacking iterator)" { bits_steps::<10>(0) }
    proof c14_borrowed_0 [12] "borrowed bits: any buffer up to 2^40 bytes, any length, two steps" { bits_borrowed::<2>(0) }
    proof c14_borrowed_7 [12] "borrowed bits after an offset of 7: any buffer, any length, two steps" { bits_borrowed::<2>(7) }
    proof c14_validity_stored [12] "nullable iterators: any values, any bitmap" { validity_steps::<2>(true) }
    proof c14_validity_absent [5] "nullable iterators without bitmap: any values" { validity_steps::<3>(false) }
    proof c14_offsets_i32 [5] "list iterators: any suffix of any 32-bit offsets" { offsets_steps::<i32>() }
    proof_deep c14_offsets_i64 [5] "list iterators: any suffix of any 64-bit offsets" { offsets_steps::<i64>() }
    proof c14_flatten_1 [5] "fixed-size list iterators, width 1: any child" { flatten_steps::<1, 3>() }
    proof c14_flatten_2 [5] "fixed-size list iterators, width 2: any child" { flatten_steps::<2, 3>() }
    proof c14_flatten_3 [6] "fixed-size list iterators, width 3: any child" { flatten_steps::<3, 1>() }
    proof c14_slice [5] "consuming slices: any slice" { slice_steps() }
    proof c14_packed [4] "bytes announced while packing: any source bounds enclosing any count" { packed_hint() }
}

#[cfg(not(kani))]
mod native {
    use super::*;
    use crate::gen_::*;
    pub fn all<C: Start>()
    where
        C::Owned: Gen,
    {
        let (c, m) = C::start(some_len());
        roam(&c, &m);
        drain(c.into_iter_owned(), &m);
    }
    pub fn grown<C: CollectionRealloc<Alloc = ()> + Start>()
    where
        C::Owned: Gen,
    {
        let (mut c, mut m) = C::start(some_len());
        append(&mut c, &mut m, items(20));
        let k = pick(m.len() + 3);
        c.truncate(k);
        m.truncate(k);
        roam(&c, &m);
        drain(c.into_iter_owned(), &m);
    }
    pub fn shared() {
        let v: Vec<u16> = items(9);
        let w: &[u16] = &v;
        drain(w.into_iter_owned(), &v);
        drain(v.clone().into_boxed_slice().into_iter_owned(), &v);
        drain(std::rc::Rc::<[u16]>::from(v.clone()).into_iter_owned(), &v);
        drain(std::sync::Arc::<[u16]>::from(v.clone()).into_iter_owned(), &v);
        let a: [u16; 5] = core::array::from_fn(|_| rnd() as u16);
        drain(a.into_iter_owned(), &a);
        roam(&a, &a);
        let bytes: Vec<u8> = (0..4).map(|_| rnd() as u8).collect();
        let n = pick(20);
        let o = pick(12);
        let m: Vec<bool> = (0..n).map(|i| spec::bit(&bytes, o + i)).collect();
        let b = Bitmap::<SliceBuffer<'_>>::try_from_parts(&bytes[..], n, o).ok().expect("OB: fits");
        roam(&b, &m);
        drain(b.into_iter_owned(), &m);
        drain(Bitmap::<ArcBuffer>::try_from_parts(bytes.clone().into(), n, o).ok().expect("OB: fits").into_iter_owned(), &m);
        drain(Bitmap::<RcBuffer>::try_from_parts(bytes.clone().into(), n, o).ok().expect("OB: fits").into_iter_owned(), &m);
        drain(Bitmap::<BoxBuffer>::try_from_parts(bytes.clone().into(), n, o).ok().expect("OB: fits").into_iter_owned(), &m);
    }
    /// A list view is itself a collection.
    pub fn inner() {
        let (c, m) = <Offsets<Validity<Bitmap>>>::start(1 + pick(8));
        for (i, w) in m.iter().enumerate() {
            let v = c.view(i).expect("OB: in range");
            roam(&v, w);
            drain(v.into_iter_owned(), w);
        }
        let (c, m) = <Offsets<Flatten<Vec<u32>, 2>>>::start(1 + pick(8));
        for (i, w) in m.iter().enumerate() {
            let v = c.view(i).expect("OB: in range");
            roam(&v, w);
            drain(v.into_iter_owned(), w);
        }
    }
}

runs! { "C14";
    c14_run_all "sixty collection types: bounds at every point of mixed iteration (next, nth, take, count, collect)" { crate::gen_::reseed(); use native::all; crate::growables!(all) }
    c14_run_grown "sixty collection types after appends and truncations" { crate::gen_::reseed(); use native::grown; crate::growables!(grown) }
    c14_run_shared "slices, boxed, reference counted and array storages" { crate::gen_::reseed(); native::shared() }
    c14_run_inner "views of nested lists as collections" { crate::gen_::reseed(); native::inner() }
}
