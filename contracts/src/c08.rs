//! C08: every list reads as exactly its own slice of the child data.

use narrow::{
    bitmap::Bitmap,
    buffer::{ArcBuffer, BoxBuffer, Buffer, BufferRef, SliceBuffer, VecBuffer},
    collection::{Collection, flatten::Flatten, owned::IntoOwned},
    length::Length,
    offset::{Offset, OffsetView, Offsets},
    validity::Validity,
};

use crate::{nd, nd::any, store::*};

/// Collects an iterator of unknown length: what it announces and its first items.
pub struct Probe {
    pub hint: (usize, Option<usize>),
    pub first: Option<usize>,
    pub second: Option<usize>,
}
impl FromIterator<usize> for Probe {
    fn from_iter<I: IntoIterator<Item = usize>>(iter: I) -> Self {
        let mut it = iter.into_iter();
        let hint = it.size_hint();
        let first = it.next();
        let second = it.next();
        Probe { hint, first, second }
    }
}
fn item(s: usize, len: usize, k: usize) -> Option<usize> {
    if k < len { Some(s + k) } else { None }
}
fn probe_post(p: &Probe, s: usize, len: usize) {
    check!(p.hint == (len, Some(len)), "the owned list has its own number of items");
    check!(p.first == item(s, len, 0), "owned item 0 is the child item at the list start");
    check!(p.second == item(s, len, 1), "owned item 1 follows");
}

/// Any offsets (any number of lists) over a child of any length.
fn any_lists<O: Offset + nd::Any>(n: usize) -> Offsets<Ident, O, SymBuf, Probe> {
    let b = Sym::<O>::exact(1, 0);
    b.set(0, O::default());
    let o: Offsets<Ident, O, SymBuf, Probe> = Offsets::try_from_parts(Ident(n), b).ok().expect("OB: valid offsets");
    let b: &Sym<O> = o.buffer_ref();
    b.havoc(38, 0);
    nd::assume(b.len() >= 1);
    o
}

fn view_any<O: Offset + nd::Any>() {
    let n: usize = any();
    let o = any_lists::<O>(n);
    let m = o.buffer_ref().len() - 1;
    check!(o.len() == m, "one list less than offsets");
    let i: usize = any();
    let j: usize = any();
    if i < m {
        // the class invariant at list i
        let (s, e) = (o.buffer_ref().pin(i), o.buffer_ref().pin(i + 1));
        let (Ok(s), Ok(e)): (Result<usize, _>, Result<usize, _>) = (s.try_into(), e.try_into()) else { nd::stop() };
        nd::assume(s <= e && e <= n);
        let Some(v) = o.view(i) else { check!(false, "a list in range is readable"); return };
        check!(v.len() == e - s, "list i has end - start items");
        check!(v.is_empty() == (e == s), "a list is empty iff start equals end");
        check!(v.view(j) == item(s, e - s, j), "item j of list i is child item start + j");
        check!(v.owned(j) == item(s, e - s, j), "owned item j of list i is child item start + j");
    } else {
        check!(o.view(i).is_none(), "a list out of range gives nothing");
        check!(o.owned(i).is_none(), "an owned list out of range gives nothing");
    }
}

fn list_any<O: Offset + nd::Any>() {
    let n: usize = any();
    let o = any_lists::<O>(n);
    let i: usize = any();
    nd::assume(i < o.len());
    let (s, e) = (o.buffer_ref().pin(i), o.buffer_ref().pin(i + 1));
    let (Ok(s), Ok(e)): (Result<usize, _>, Result<usize, _>) = (s.try_into(), e.try_into()) else { nd::stop() };
    nd::assume(s <= e && e <= n);
    let Some(v) = o.view(i) else { check!(false, "a list in range is readable"); return };
    let mut it = v.iter_views();
    check!(it.size_hint() == (e - s, Some(e - s)), "borrowed items of list i are counted");
    check!(it.next() == item(s, e - s, 0), "borrowed item 0");
    check!(it.next() == item(s, e - s, 1), "borrowed item 1");
    let mut it = v.into_iter_owned();
    check!(it.len() == e - s, "consumed items of list i are counted");
    check!(it.next() == item(s, e - s, 0), "consumed item 0");
    check!(it.next() == item(s, e - s, 1), "consumed item 1");
    probe_post(&v.into_owned(), s, e - s);
    let Some(p) = o.owned(i) else { check!(false, "a list in range is readable"); return };
    probe_post(&p, s, e - s);
}

/// The step of the consuming iteration from an arbitrary position: the
/// remaining offsets are arbitrary (any suffix of any valid offsets).
fn consume_step<O: Offset + nd::Any>() {
    let n: usize = any();
    let o = any_lists::<O>(n);
    let m = o.buffer_ref().len() - 1;
    let a = o.buffer_ref().pin(0);
    let b = if m >= 1 { o.buffer_ref().pin(1) } else { a };
    let c = if m >= 2 { o.buffer_ref().pin(2) } else { b };
    let (Ok(a), Ok(b), Ok(c)): (Result<usize, _>, Result<usize, _>, Result<usize, _>) = (a.try_into(), b.try_into(), c.try_into()) else { nd::stop() };
    nd::assume(a <= b && b <= c && c <= n);
    let mut it = o.into_iter_owned();
    check!(it.len() == m, "as many lists remain as offsets minus one");
    match it.next() {
        None => check!(m == 0, "consuming iteration ends only after the last list"),
        Some(p) => {
            check!(m >= 1, "no list beyond the last");
            probe_post(&p, a, b - a);
            check!(it.len() == m - 1, "one list less remains");
            match it.next() {
                None => check!(m == 1, "consuming iteration ends only after the last list"),
                Some(p) => {
                    check!(m >= 2, "no list beyond the last");
                    probe_post(&p, b, c - b);
                }
            }
        }
    }
}
/// The borrowed iteration of any collection: first lists and count.
fn borrow_first<O: Offset + nd::Any>() {
    let n: usize = any();
    let o = any_lists::<O>(n);
    let m = o.buffer_ref().len() - 1;
    let a = o.buffer_ref().pin(0);
    let b = if m >= 1 { o.buffer_ref().pin(1) } else { a };
    let c = if m >= 2 { o.buffer_ref().pin(2) } else { b };
    let (Ok(a), Ok(b), Ok(c)): (Result<usize, _>, Result<usize, _>, Result<usize, _>) = (a.try_into(), b.try_into(), c.try_into()) else { nd::stop() };
    nd::assume(a <= b && b <= c && c <= n);
    let j: usize = any();
    let mut it = o.iter_views();
    check!(it.size_hint() == (m, Some(m)), "borrowed lists are counted");
    match it.next() {
        None => check!(m == 0, "borrowed iteration ends only after the last list"),
        Some(v) => {
            check!(m >= 1 && v.len() == b - a && v.view(j) == item(a, b - a, j), "borrowed list 0 is child items o[0]..o[1]");
            match it.next() {
                None => check!(m == 1, "borrowed iteration ends only after the last list"),
                Some(v) => check!(m >= 2 && v.len() == c - b && v.view(j) == item(b, c - b, j), "borrowed list 1 is child items o[1]..o[2]"),
            }
        }
    }
}

fn same<T: Collection, O: Offset, S: Buffer, U, C: Collection>(a: &OffsetView<'_, T, O, S, U>, c: &C) -> bool
where
    for<'x, 'y> T::View<'x>: PartialEq<C::View<'y>>,
{
    <OffsetView<'_, T, O, S, U> as PartialEq<C>>::eq(a, c)
}

/// Comparing a list with another collection.
fn eq_shape<const A: usize, const B: usize>(s: usize) {
    let child: [u8; 6] = any();
    let other: [u8; B] = any();
    let o = Offsets::<[u8; 6], i32, narrow::buffer::ArrayBuffer<2>, Vec<u8>>::try_from_parts(child, [0, (s + A) as i32]);
    let Ok(o) = o else { check!(false, "valid offsets"); return };
    let Some(v) = o.view(0) else { check!(false, "a list in range is readable"); return };
    let mut want = s + A == B;
    let mut i = 0;
    while i < B {
        if want && child[i] != other[i] { want = false }
        i += 1;
    }
    check!(same::<_, _, _, _, [u8; B]>(&v, &other) == want, "a list equals a collection exactly when lengths and items agree");
}

obligations! { "C08";
    proof c08_view_i32 [3] "Offsets::view/owned/len, OffsetView reads: any number of lists, any valid 32-bit offsets, any child length, every index" { view_any::<i32>() }
    proof c08_view_i64 [3] "Offsets::view/owned/len, OffsetView reads: any number of lists, any valid 64-bit offsets, any child length, every index" { view_any::<i64>() }
    proof c08_list_i32 [3] "OffsetView iteration and into_owned: any list of any collection, 32-bit offsets" { list_any::<i32>() }
    proof_deep c08_list_i64 [3] "OffsetView iteration and into_owned: any list of any collection, 64-bit offsets" { list_any::<i64>() }
    proof c08_consume_i32 [3] "OffsetIntoIter::next/len from any state, 32-bit offsets, any child length" { consume_step::<i32>() }
    proof c08_consume_i64 [3] "OffsetIntoIter::next/len from any state, 64-bit offsets, any child length" { consume_step::<i64>() }
    proof c08_borrow_i32 [3] "Offsets::iter_views: count and first lists of any collection, 32-bit offsets" { borrow_first::<i32>() }
    proof c08_borrow_i64 [3] "Offsets::iter_views: count and first lists of any collection, 64-bit offsets" { borrow_first::<i64>() }
    bounded c08_eq_3_3 [7] "comparison of a list of 3 with 3 items, every content" { eq_shape::<3, 3>(0) }
    bounded c08_eq_2_3 [7] "comparison of a list of 2 with 3 items, every content" { eq_shape::<2, 3>(0) }
    bounded c08_eq_3_2 [7] "comparison of a list of 3 with 2 items, every content" { eq_shape::<3, 2>(0) }
    bounded c08_eq_0_0 [7] "comparison of an empty list with no item" { eq_shape::<0, 0>(0) }
    bounded c08_eq_0_1 [7] "comparison of an empty list with 1 item" { eq_shape::<0, 1>(0) }
    bounded c08_eq_5_5 [8] "comparison of a list of 5 with 5 items, every content" { eq_shape::<5, 5>(0) }
}

#[cfg(not(kani))]
const EXTREME: [usize; 7] = [usize::MAX, usize::MAX - 1, usize::MAX / 2, i64::MAX as usize + 1, u32::MAX as usize, i32::MAX as usize, 1 << 61];

#[cfg(not(kani))]
fn read<T, O, S, X>(o: Offsets<T, O, S, Vec<X>>, want: &[Vec<X>])
where
    T: Collection<Owned = X>,
    O: Offset,
    S: Buffer,
    X: Clone + PartialEq + core::fmt::Debug,
{
    check!(o.len() == want.len(), "number of lists");
    for i in (0..want.len() + 3).chain(EXTREME) {
        let v = o.view(i);
        check!(v.is_some() == (i < want.len()), "a list is readable exactly when in range");
        check!(o.owned(i).as_ref() == want.get(i), "owned list i is its own slice");
        if let Some(v) = v {
            let w = &want[i];
            check!(v.len() == w.len(), "list length");
            for j in (0..w.len() + 3).chain(EXTREME) {
                check!(v.owned(j).as_ref() == w.get(j), "item j of list i");
                check!(v.view(j).is_some() == (j < w.len()), "item in range");
            }
            check!(v.iter_views().map(IntoOwned::into_owned).eq(w.iter().cloned()), "borrowed items of a list");
            check!(v.into_iter_owned().eq(w.iter().cloned()), "consumed items of a list");
            crate::gen_::travel(v, w);
            let ow: Vec<X> = v.into_owned();
            check!(ow == *w, "owned list");
        }
    }
    check!(o.iter_views().map(|v| { let x: Vec<X> = v.into_owned(); x }).eq(want.iter().cloned()), "borrowed iteration");
    crate::gen_::walk(o.iter_views(), want, crate::gen_::Hints::Ignore, |v, w| { let x: Vec<X> = v.into_owned(); x == *w });
    if crate::gen_::coin() {
        return crate::gen_::walk(o.into_iter_owned(), want, crate::gen_::Hints::Ignore, |x, w| x == *w);
    }
    check!(o.into_iter_owned().eq(want.iter().cloned()), "consuming iteration");
}

#[cfg(not(kani))]
fn run_read(lists: usize, per: usize) {
    crate::gen_::reseed();
    let (w, child) = crate::gen_::offsets(lists, per, 9);
    let o32: Vec<i32> = w.iter().map(|x| *x as i32).collect();
    let vals: Vec<u16> = (0..child).map(|i| i as u16 ^ 0x5a).collect();
    macro_rules! slices { ($f:expr) => { w.windows(2).map(|p| (p[0] as usize..p[1] as usize).map($f).collect::<Vec<_>>()).collect::<Vec<_>>() } }
    let want = slices!(|i| vals[i]);
    read(Offsets::<Vec<u16>, i32>::try_from_parts(vals.clone(), o32.clone()).ok().expect("OB: valid"), &want);
    read(Offsets::<Vec<u16>, i64>::try_from_parts(vals.clone(), w.clone()).ok().expect("OB: valid"), &want);
    read(Offsets::<Box<[u16]>, i64, BoxBuffer>::try_from_parts(vals.clone().into(), w.clone().into()).ok().expect("OB: valid"), &want);
    read(Offsets::<&[u16], i32, SliceBuffer<'_>>::try_from_parts(&vals[..], &o32[..]).ok().expect("OB: valid"), &want);
    read(Offsets::<Vec<u16>, i32, ArcBuffer>::try_from_parts(vals.clone(), o32.clone().into()).ok().expect("OB: valid"), &want);
    // boolean child with a bit offset
    let off = nd::below(11);
    let bytes: Vec<u8> = (0..(child + off) / 8 + 1 + nd::below(3)).map(|_| any()).collect();
    let b = || Bitmap::<VecBuffer>::try_from_parts(bytes.clone(), child, off).ok().expect("OB: fits");
    let wb = slices!(|i| crate::spec::bit(&bytes, off + i));
    read(Offsets::<Bitmap, i32>::try_from_parts(b(), o32.clone()).ok().expect("OB: valid"), &wb);
    // nullable child
    let wn = slices!(|i| crate::spec::bit(&bytes, off + i).then_some(vals[i]));
    read(Offsets::<Validity<Vec<u16>>, i64>::try_from_parts(Validity::try_from_parts(vals.clone(), b()).ok().expect("OB: match"), w.clone()).ok().expect("OB: valid"), &wn);
    // pairs
    let flat: Vec<u16> = (0..2 * child).map(|i| i as u16).collect();
    let wf = slices!(|i| [2 * i as u16, 2 * i as u16 + 1]);
    read(Offsets::<Flatten<Vec<u16>, 2>, i32>::try_from_parts(Flatten::try_from_parts(flat).ok().expect("OB: multiple"), o32.clone()).ok().expect("OB: valid"), &wf);
    // lists of lists
    let (w2, child2) = crate::gen_::offsets(child + 1, 3, 2);
    let mut w2 = w2;
    while w2.len() < child + 1 { w2.push(*w2.last().unwrap()) }
    let vals2: Vec<u16> = (0..child2).map(|i| i as u16 * 3).collect();
    let inner = Offsets::<Vec<u16>, i64>::try_from_parts(vals2.clone(), w2.clone()).ok().expect("OB: valid");
    let wl = slices!(|i| vals2[w2[i] as usize..w2[i + 1] as usize].to_vec());
    read(Offsets::<Offsets<Vec<u16>, i64>, i32>::try_from_parts(inner, o32).ok().expect("OB: valid"), &wl);
}

#[cfg(not(kani))]
fn run_eq() {
    let (w, child) = crate::gen_::offsets(8, 5, 3);
    let vals: Vec<u8> = (0..child).map(|_| nd::below(2) as u8).collect();
    let o: &'static _ = Box::leak(Box::new(Offsets::<Vec<u8>, i64>::try_from_parts(vals.clone(), w.clone()).ok().expect("OB: valid")));
    let other: Vec<u8> = (0..nd::below(6)).map(|_| nd::below(2) as u8).collect();
    for (i, v) in o.iter_views().enumerate() {
        let mine = &vals[w[i] as usize..w[i + 1] as usize];
        check!(same::<_, _, _, _, Vec<u8>>(&v, &other) == (mine == other), "a list equals a collection exactly when lengths and items agree");
        check!(same::<_, _, _, _, Vec<u8>>(&v, &mine.to_vec()), "a list equals a collection with the same items");
        for (k, u) in o.iter_views().enumerate() {
            check!(same::<_, _, _, _, OffsetView<'_, Vec<u8>, i64, VecBuffer, Vec<u8>>>(&v, &u) == (mine == &vals[w[k] as usize..w[k + 1] as usize]), "two lists are equal exactly when lengths and items agree");
        }
        if !mine.is_empty() {
            let mut m = mine.to_vec();
            let k = nd::below(m.len());
            m[k] ^= 1;
            check!(!same::<_, _, _, _, Vec<u8>>(&v, &m), "a list differing in one item is different");
            m[k] ^= 1;
            m.pop();
            check!(!same::<_, _, _, _, Vec<u8>>(&v, &m), "a list is different from its proper prefix");
        }
    }
}

runs! { "C08";
    c08_run_small "up to 7 lists over nine child kinds and storages, spare child items" { run_read(8, 4) }
    c08_run_large "up to 60 lists over nine child kinds and storages" { run_read(61, 9) }
    c08_run_eq "comparisons" { run_eq() }
}
