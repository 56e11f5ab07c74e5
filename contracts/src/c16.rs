//! C16: capacity requests either hold or report failure, and never change contents.

use narrow::{
    array::Array,
    bitmap::{Bitmap, ValidityBitmap},
    buffer::{Buffer, BufferRef, VecBuffer},
    collection::{ChildRef, Collection, CollectionAlloc, CollectionAllocIn, CollectionRealloc, flatten::Flatten},
    length::Length,
    offset::{Offset, Offsets},
    validity::Validity,
};

use crate::{nd, nd::any, spec, store::*};

fn room(bytes: usize) -> u128 {
    8 * bytes as u128
}
fn bitmap_reserve(fallible: bool) {
    let bytes = Sym::<u8>::any(40, 0);
    let (bits, offset, i, additional): (usize, usize, usize, usize) = (any(), any(), any(), any());
    bytes.ok.set(any());
    if let Ok(mut b) = Bitmap::<SymBuf>::try_from_parts(bytes, bits, offset) {
        let old = b.view(i);
        let need = offset as u128 + bits as u128 + additional as u128;
        let fits = need <= room(Borrow_::bytes(&b).len());
        let held = if fallible {
            let ok = Borrow_::bytes(&b).ok.get();
            let r = b.try_reserve(additional);
            check!(r.is_ok() || !ok, "a request the storage can meet succeeds");
            check!(r.is_err() || ok || fits, "a request the storage refuses is reported");
            r.is_ok()
        } else {
            b.reserve(additional);
            true
        };
        check!(b.len() == bits && b.bit_offset() == offset && b.view(i) == old, "a capacity request changes nothing");
        if held {
            check!(need <= room(Borrow_::bytes(&b).requested()), "storage was requested for that many further bits");
        }
    }
}
trait Borrow_ {
    fn bytes(&self) -> &Sym<u8>;
}
impl Borrow_ for Bitmap<SymBuf> {
    fn bytes(&self) -> &Sym<u8> {
        self.buffer_ref()
    }
}
fn bitmap_capacity() {
    let capacity: usize = any();
    if let Ok(b) = Bitmap::<SymBuf>::try_with_capacity_in(capacity, ()) {
        check!(b.len() == 0 && b.view(0).is_none() && b.bit_offset() == 0, "the collection is empty");
        check!(room(Borrow_::bytes(&b).requested()) >= capacity as u128, "storage was requested for that many bits");
    }
    let b = Bitmap::<SymBuf>::with_capacity_in(capacity, ());
    check!(b.len() == 0 && b.view(0).is_none() && b.bit_offset() == 0, "the collection is empty");
    check!(room(Borrow_::bytes(&b).requested()) >= capacity as u128, "storage was requested for that many bits");
}
fn watched() -> Watched {
    Watched { len: any(), watch: any(), val: any(), ok: any(), reserved: 0, eager: false }
}
fn validity_reserve(fallible: bool) {
    let bytes = Sym::<u8>::any(40, 0);
    let (offset, additional): (usize, usize) = (any(), any());
    bytes.ok.set(any());
    let child = watched();
    let Ok(b) = Bitmap::<SymBuf>::try_from_parts(bytes, child.len, offset) else { nd::stop() };
    let mut v = Validity::<Watched, SymBuf>::try_from_parts(child, b).ok().expect("OB: lengths match");
    let old = v.view(child.watch);
    let held = if fallible {
        let storage = v.bitmap_ref().is_some_and(|b| Borrow_::bytes(b).ok.get());
        let r = v.try_reserve(additional);
        check!(r.is_ok() || !(storage && child.ok), "a request the storage can meet succeeds");
        check!(r.is_err() || child.ok, "a request the values refuse is reported");
        r.is_ok()
    } else {
        v.reserve(additional);
        true
    };
    check!(v.len() == child.len && v.view(child.watch) == old, "a capacity request changes nothing");
    if held {
        check!(v.child_ref().reserved >= additional, "storage was requested for that many further values");
        let Some(b) = v.bitmap_ref() else { check!(false, "the bitmap is kept"); return };
        check!(offset as u128 + child.len as u128 + additional as u128 <= room(Borrow_::bytes(b).requested()), "storage was requested for that many further validity bits");
    }
}
fn validity_capacity() {
    let capacity: usize = any();
    grants::set(nd::below(4));
    let r = Validity::<Watched, SymBuf>::try_with_capacity_in(capacity, ());
    grants::set(usize::MAX);
    let both = if let Ok(v) = &r { [Some(v), None] } else { [None, None] };
    let w = Validity::<Watched, SymBuf>::with_capacity_in(capacity, ());
    for v in [both[0], Some(&w)].into_iter().flatten() {
        check!(v.len() == 0 && v.view(0).is_none() && v.null_count() == 0, "the collection is empty");
        check!(v.child_ref().reserved >= capacity, "storage was requested for that many values");
        if let Some(b) = v.bitmap_ref() {
            check!(room(Borrow_::bytes(b).requested()) >= capacity as u128, "storage was requested for that many validity bits");
        }
    }
}
fn offsets_reserve<O: Offset + nd::Any>(fallible: bool) {
    let child = watched();
    let b = Sym::<O>::exact(1, 0);
    b.set(0, O::default());
    let mut o: Offsets<Watched, O, SymBuf, Watched> = Offsets::try_from_parts(child, b).ok().expect("OB: valid offsets");
    let b: &Sym<O> = o.buffer_ref();
    b.havoc(38, 0);
    nd::assume(b.len() >= 1);
    let m = b.len() - 1;
    b.ok.set(any());
    let storage = b.ok.get();
    let (i, additional): (usize, usize) = (any(), any());
    nd::assume(i < m);
    let (s, e) = (b.pin(i), b.pin(i + 1));
    let (Ok(s), Ok(e)): (Result<usize, _>, Result<usize, _>) = (s.try_into(), e.try_into()) else { nd::stop() };
    nd::assume(s <= e && e <= child.len);
    let held = if fallible {
        let r = o.try_reserve(additional);
        let fits = (m + 1).checked_add(additional).is_some();
        check!(r.is_ok() == (storage && child.ok && fits), "a request is met exactly when both storages meet it");
        r.is_ok()
    } else {
        nd::assume((m + 1).checked_add(additional).is_some());
        o.reserve(additional);
        true
    };
    check!(o.len() == m, "a capacity request keeps the number of lists");
    let Some(v) = o.view(i) else { check!(false, "every list stays readable"); return };
    check!(v.len() == e - s, "a capacity request keeps every list");
    if s <= child.watch && child.watch < e {
        check!(v.view(child.watch - s) == Some(child.val), "a capacity request keeps every item");
    }
    check!(o.child_ref().len == child.len, "the child is kept");
    if held {
        check!(o.child_ref().reserved >= additional, "storage was requested for that many further single-item lists");
        let b: &Sym<O> = o.buffer_ref();
        check!(b.requested() >= m + 1 + additional, "storage was requested for that many further offsets");
    }
}
fn offsets_capacity<O: Offset + nd::Any + PartialEq>() {
    let capacity: usize = any();
    grants::set(nd::below(4));
    let r: Result<Offsets<Watched, O, SymBuf, Watched>, _> = Offsets::try_with_capacity_in(capacity, ());
    grants::set(usize::MAX);
    check!(r.is_err() || capacity < usize::MAX, "an overflowing size is reported");
    if let Ok(o) = r {
        check!(o.len() == 0 && o.view(0).is_none(), "the collection is empty");
        let b: &Sym<O> = o.buffer_ref();
        check!(b.len() == 1 && b.at(0) == O::default(), "the offsets are those of an empty collection");
        check!(o.child_ref().len == 0 && o.child_ref().reserved >= capacity && b.requested() > capacity, "storage was requested for that many single-item lists");
    }
    nd::assume(capacity < usize::MAX);
    let o: Offsets<Watched, O, SymBuf, Watched> = Offsets::with_capacity_in(capacity, ());
    check!(o.len() == 0 && o.view(0).is_none(), "the collection is empty");
    let b: &Sym<O> = o.buffer_ref();
    check!(b.len() == 1 && b.at(0) == O::default(), "the offsets are those of an empty collection");
    check!(o.child_ref().len == 0 && o.child_ref().reserved >= capacity && b.requested() > capacity, "storage was requested for that many single-item lists");
}
fn flatten_reserve<const N: usize>(fallible: bool) {
    let (m, additional): (usize, usize) = (any(), any());
    let Some(len) = m.checked_mul(N) else { nd::stop() };
    let child = Watched { len, ..watched() };
    let Ok(mut f) = Flatten::<Watched, N>::try_from_parts(child) else { check!(false, "a multiple of the width is accepted"); return };
    let all = additional.checked_mul(N);
    let held = if fallible {
        let r = f.try_reserve(additional);
        check!(r.is_ok() == (child.ok && all.is_some()), "a request is met exactly when its size is a number and the storage meets it");
        r.is_ok()
    } else {
        nd::assume(all.is_some());
        f.reserve(additional);
        true
    };
    check!(f.len() == m && f.child_ref().len == len, "a capacity request changes nothing");
    if child.watch < len {
        let Some(v) = f.view(child.watch / N) else { check!(false, "every list stays readable"); return };
        check!(v[child.watch % N] == child.val, "a capacity request keeps every item");
    }
    if held {
        check!(all.is_some_and(|a| f.child_ref().reserved >= a), "storage was requested for that many further lists");
    }
}
fn flatten_capacity<const N: usize>() {
    let capacity: usize = any();
    let ok: bool = any();
    grants::set(usize::from(ok));
    let r = Flatten::<Watched, N>::try_with_capacity_in(capacity, ());
    grants::set(usize::MAX);
    let all = capacity.checked_mul(N);
    check!(r.is_ok() == (ok && all.is_some()), "a request is met exactly when its size is a number and the storage meets it");
    if let Ok(f) = r {
        check!(f.len() == 0 && f.view(0).is_none(), "the collection is empty");
        check!(all.is_some_and(|a| f.child_ref().reserved >= a), "storage was requested for that many lists");
    }
    nd::assume(all.is_some());
    let f = Flatten::<Watched, N>::with_capacity_in(capacity, ());
    check!(f.len() == 0 && f.view(0).is_none(), "the collection is empty");
    check!(all.is_some_and(|a| f.child_ref().reserved >= a), "storage was requested for that many lists");
}

// ---- appends after a reservation make no further request (bounded shapes)

fn bitmap_fill<const N: usize>(offset: usize, bits: usize, n: usize) {
    let bytes: [u8; N] = any();
    let mut b = Bitmap::<AvBuf>::try_from_parts(Av::from_fn(N, |i| bytes[i]), bits, offset).ok().expect("OB: fits");
    check!(b.try_reserve(n).is_ok(), "the storage can meet this");
    grants::set(0);
    let r = b.try_extend(Bools { bits: 0b0110_1011_0010_1101_0110, i: 0, n });
    grants::set(usize::MAX);
    check!(r.is_ok() && b.len() == bits + n, "that many bits are appended without another reservation");
}
fn flatten_fill() {
    let vals: [u32; 3] = any();
    let mut f = Flatten::<Av<u32>, 3>::try_from_parts(Av::from_fn(3, |i| vals[i])).ok().expect("OB: multiple");
    check!(f.try_reserve(2).is_ok(), "the storage can meet this");
    grants::set(0);
    let r = f.try_extend([vals, vals]);
    grants::set(usize::MAX);
    check!(r.is_ok() && f.len() == 3, "that many lists are appended without another reservation");
}
fn offsets_fill() {
    let vals: [u32; 3] = any();
    let mut o: Offsets<Av<u32>, i32, AvBuf> = Offsets::try_from_parts(Av::from_fn(3, |i| vals[i]), Av::from_fn(2, |i| 2 * i as i32)).ok().expect("OB: valid offsets");
    check!(o.try_reserve(2).is_ok(), "the storage can meet this");
    grants::set(0);
    let r = o.try_extend([vec![vals[0]], vec![vals[1]]]);
    grants::set(usize::MAX);
    check!(r.is_ok() && o.len() == 3, "that many single-item lists are appended without another reservation");
}
fn vec_capacity() {
    let n = nd::below(4);
    let mut v = <Vec<u32> as CollectionAlloc>::with_capacity(n);
    check!(Length::len(&v) == 0 && v.capacity() >= n, "the collection is empty and holds the capacity");
    let huge: usize = any();
    nd::assume(huge > isize::MAX as usize / 4);
    check!(<Vec<u32> as CollectionAllocIn>::try_with_capacity_in(huge, ()).is_err(), "a request beyond memory is reported");
    check!(CollectionRealloc::try_reserve(&mut v, huge).is_err(), "a request beyond memory is reported");
    check!(<Box<[u32]> as CollectionAllocIn>::try_with_capacity_in(huge, ()).is_err(), "a request beyond memory is reported");
    check!(Length::len(&v) == 0 && v.capacity() >= n, "a failed request changes nothing");
    v.push(any());
    let k = nd::below(4);
    CollectionRealloc::reserve(&mut v, k);
    check!(v.capacity() >= 1 + k && Length::len(&v) == 1, "a reservation holds");
    check!(CollectionRealloc::try_reserve(&mut v, k + 1).is_ok() && v.capacity() >= 2 + k, "a reservation holds");
}

obligations! { "C16";
    proof c16_bitmap_reserve [2] "Bitmap::reserve: any buffer up to 2^40 bytes, any bits, offset, request" { bitmap_reserve(false) }
    proof c16_bitmap_try_reserve [2] "Bitmap::try_reserve: any buffer up to 2^40 bytes, any bits, offset, request, refused or not" { bitmap_reserve(true) }
    proof c16_bitmap_capacity [2] "Bitmap with_capacity/try_with_capacity: any request" { bitmap_capacity() }
    proof c16_validity_reserve [2] "Validity::reserve: any values, any bitmap, any request" { validity_reserve(false) }
    proof c16_validity_try_reserve [2] "Validity::try_reserve: any values, any bitmap, any request, each storage refusing or not" { validity_reserve(true) }
    proof c16_validity_capacity [4] "Validity with_capacity/try_with_capacity: any request, each storage refusing or not" { validity_capacity() }
    proof c16_offsets_reserve_i32 [2] "Offsets::reserve: any lists, any request, 32-bit" { offsets_reserve::<i32>(false) }
    proof c16_offsets_try_reserve_i32 [2] "Offsets::try_reserve: any lists, any request, each storage refusing or not, 32-bit" { offsets_reserve::<i32>(true) }
    proof c16_offsets_try_reserve_i64 [2] "Offsets::try_reserve: any lists, any request, each storage refusing or not, 64-bit" { offsets_reserve::<i64>(true) }
    proof c16_offsets_capacity_i32 [3] "Offsets with_capacity/try_with_capacity: any request, 32-bit" { offsets_capacity::<i32>() }
    proof c16_offsets_capacity_i64 [3] "Offsets with_capacity/try_with_capacity: any request, 64-bit" { offsets_capacity::<i64>() }
    proof c16_flatten_reserve_3 [6] "Flatten::reserve width 3: any child, any request" { flatten_reserve::<3>(false) }
    proof c16_flatten_try_reserve_1 [6] "Flatten::try_reserve width 1: any child, any request, refused or not" { flatten_reserve::<1>(true) }
    proof c16_flatten_try_reserve_3 [6] "Flatten::try_reserve width 3: any child, any request, refused or not" { flatten_reserve::<3>(true) }
    proof c16_flatten_try_reserve_4 [6] "Flatten::try_reserve width 4: any child, any request, refused or not" { flatten_reserve::<4>(true) }
    proof c16_flatten_capacity_2 [2] "Flatten with_capacity/try_with_capacity width 2: any request, refused or not" { flatten_capacity::<2>() }
    proof c16_flatten_capacity_5 [2] "Flatten with_capacity/try_with_capacity width 5: any request, refused or not" { flatten_capacity::<5>() }
    bounded c16_vec [4] "Vec and Box: small requests hold, requests beyond memory are refused" { vec_capacity() }
    bounded c16_bitmap_fill_a [20] "1 byte, offset 3, 2 bits: reserve and append 12" { bitmap_fill::<1>(3, 2, 12) }
    bounded c16_bitmap_fill_b [20] "3 bytes, offset 1, 5 bits (spare bytes): reserve and append 19" { bitmap_fill::<3>(1, 5, 19) }
    bounded c16_bitmap_fill_c [20] "1 byte, 8 bits: reserve and append 9" { bitmap_fill::<1>(0, 8, 9) }
    bounded c16_flatten_fill [8] "1 list of width 3: reserve and append 2" { flatten_fill() }
    bounded c16_offsets_fill [6] "1 list, 1 unreferenced child item: reserve and append 2 lists of one item" { offsets_fill() }
}

#[cfg(not(kani))]
mod native {
    use super::*;
    use crate::{fail, gen_::*};

    fn simples<T: Gen>(n: usize) -> Vec<T> {
        (0..n).map(|_| T::simple()).collect()
    }
    /// Appends `n` simple items; no request may reach any storage.
    fn fill<C: CollectionRealloc<Alloc = ()>>(c: &mut C, m: &mut Vec<C::Owned>, n: usize)
    where
        C::Owned: Gen,
    {
        let add: Vec<C::Owned> = simples(n);
        let src = Hinted { v: add.clone().into_iter(), lie: pick(2) };
        let before = fail::made();
        grants::set(0);
        let r = if coin() {
            c.try_extend(src)
        } else {
            c.extend(src);
            Ok(())
        };
        grants::set(usize::MAX);
        check!(r.is_ok(), "that many simple items are appended without a failing reservation");
        check!(before == fail::made(), "that many simple items are appended without another allocation");
        m.extend(add);
    }
    pub fn reserve_then_fill<C: CollectionRealloc<Alloc = ()> + Start>()
    where
        C::Owned: Gen,
    {
        let (mut c, mut m) = C::start(some_len());
        for _ in 0..1 + pick(3) {
            let n = some_len();
            if coin() {
                c.reserve(n);
            } else {
                check!(c.try_reserve(n).is_ok(), "a small request is met");
            }
            if coin() {
                reads(&c, &m);
            }
            fill(&mut c, &mut m, n);
            reads(&c, &m);
            match pick(3) {
                0 => {
                    let k = pick(m.len() + 1);
                    c.truncate(k);
                    m.truncate(k);
                }
                1 => append(&mut c, &mut m, items(14)),
                _ => {}
            }
        }
        consume(c, &m);
    }
    pub fn refused<C: CollectionRealloc<Alloc = ()> + Start>()
    where
        C::Owned: Gen,
    {
        let (mut c, mut m) = C::start(some_len());
        for _ in 0..1 + pick(3) {
            let n = match pick(4) { 0 => EXTREME[pick(EXTREME.len())], 1 => EXTREME[pick(EXTREME.len())] / (1 + pick(64)) - pick(3), 2 => 1 << 26, _ => pick(400) };
            let granted = pick(4);
            grants::set(granted);
            let r = fail::limited(granted, || c.try_reserve(n));
            grants::set(usize::MAX);
            check!(n < 1 << 29 || r.is_err(), "a request beyond memory is reported");
            reads(&c, &m);
            append(&mut c, &mut m, items(14));
            reads(&c, &m);
        }
        consume(c, &m);
    }
    pub fn capacity<C: CollectionRealloc<Alloc = ()>>()
    where
        C::Owned: Gen,
    {
        let n = some_len();
        let mut m = Vec::new();
        let mut c = if coin() { C::with_capacity_in(n, ()) } else { C::try_with_capacity_in(n, ()).ok().expect("OB: a small request is met") };
        reads(&c, &m);
        fill(&mut c, &mut m, n);
        reads(&c, &m);
        let n = match pick(3) { 0 => EXTREME[pick(EXTREME.len())], 1 => EXTREME[pick(EXTREME.len())] / (1 + pick(64)) - pick(3), _ => pick(400) };
        let granted = pick(4);
        grants::set(granted);
        let r = fail::limited(granted, || C::try_with_capacity_in(n, ()));
        grants::set(usize::MAX);
        match r {
            Ok(c) => {
                check!(n < 1 << 29, "a request beyond memory is reported");
                reads(&c, &[]);
            }
            Err(_) => check!(n > 0 || granted < 4, "an empty request is met"),
        }
    }
    pub fn boxed<C: CollectionAllocIn<Alloc = ()>>()
    where
        C::Owned: Gen,
    {
        let n = some_len();
        reads(&C::with_capacity_in(n, ()), &[]);
        check!(C::try_with_capacity_in(n, ()).is_ok_and(|c| c.len() == 0), "a small request is met");
        let n = EXTREME[pick(EXTREME.len())];
        check!(fail::limited(4, || C::try_with_capacity_in(n, ())).is_err(), "a request beyond memory is reported");
    }
    pub fn boxes() {
        type B = narrow::buffer::BoxBuffer;
        crate::one_of!(boxed; Box<[u32]>, Bitmap<B>, Array<u32, B>, Array<bool, B>, Array<[u32; 2], B>, Flatten<Box<[u16]>, 2>)
    }
}

runs! { "C16";
    c16_run_fill_a "sixty collection types: reserve, then as many simple items without any further request" { crate::gen_::reseed(); use native::reserve_then_fill; crate::growables!(reserve_then_fill) }
    c16_run_fill_b "sixty collection types: reserve, then as many simple items (second stream)" { crate::gen_::reseed(); use native::reserve_then_fill; crate::growables!(reserve_then_fill) }
    c16_run_refused "sixty collection types: requests that cannot be met" { crate::gen_::reseed(); use native::refused; crate::growables!(refused) }
    c16_run_capacity "sixty collection types: constructed with a capacity" { crate::gen_::reseed(); use native::capacity; crate::growables!(capacity) }
    c16_run_boxed "boxed storage" { crate::gen_::reseed(); native::boxes() }
}
