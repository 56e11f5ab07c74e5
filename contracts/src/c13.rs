//! C13: a panicking source leaves a valid prefix.
//!
//! Two kinds of obligation. The first takes every state an interrupted append
//! may leave (values beyond the validity, an incomplete group, child items
//! beyond the last offset, stale bits) and proves reads and later appends over
//! it, for any size. The second interrupts an append at a given item and
//! judges the collection there: the verifier has no unwinding, so it observes
//! the collection from inside the source at the moment of the panic, while the
//! executed form really panics and unwinds. These are reported only when the
//! executed form fails as well (`_cf`).

use core::cell::Cell;

use narrow::{
    bitmap::{Bitmap, ValidityBitmap},
    buffer::{Buffer, BufferRef, VecBuffer},
    collection::{ChildRef, Collection, CollectionAllocIn, CollectionRealloc, flatten::Flatten},
    length::Length,
    offset::{Offset, Offsets},
    validity::Validity,
};

use crate::{nd, nd::any, spec, store::*};

// ------------------------------------------------- states left behind

/// A nullable collection whose values extend beyond its validity.
fn validity_weak(offset: usize) -> Option<(Validity<Sym<u32>, SymBuf>, usize, usize)> {
    let n: usize = any();
    let b = Bitmap::<SymBuf>::try_from_parts(Sym::<u8>::any(40, 0), n, offset).ok()?;
    let child = Sym::<u32>::any(38, 0);
    let v = match Validity::<Sym<u32>, SymBuf>::try_from_parts(child, b) {
        Ok(v) => v,
        Err(_) => return None,
    };
    v.child_ref().havoc(38, 0);
    nd::assume(v.child_ref().len() >= n);
    Some((v, n, offset))
}
fn validity_reads() {
    let Some((v, n, offset)) = validity_weak(any()) else { nd::stop() };
    let i: usize = any();
    check!(v.len() == n, "length is the committed one");
    if i < n {
        let x = v.child_ref().pin(i);
        let bytes: &[u8] = v.bitmap_ref().expect("OB: bitmap is stored").buffer_ref().sl();
        let valid = spec::bit(bytes, offset + i);
        check!(v.view(i) == Some(valid.then_some(x)), "item i pairs value i with bit i");
        check!(v.is_valid(i) == Some(valid) && v.is_null(i) == Some(!valid), "validity i");
    } else {
        check!(v.view(i).is_none() && v.owned(i).is_none(), "uncommitted values do not show");
    }
}
fn validity_consumes() {
    let Some((v, n, _)) = validity_weak(0) else { nd::stop() };
    let mut it = v.iter_views();
    check!(it.size_hint().0 <= n, "borrowed iteration promises at most the committed items");
    check!(it.next().is_some() == (n > 0), "borrowed iteration ends with the committed items");
    let mut it = v.into_iter_owned();
    check!(it.len() == n, "consuming iteration announces the committed items");
    check!(it.next().is_some() == (n > 0), "consuming iteration ends with the committed items");
    check!(it.len() == n.saturating_sub(1), "consuming iteration announces the remaining items");
}
/// Lists of width `N` over a child that ends with an incomplete group.
fn weak_flatten<const N: usize>() -> Option<(Flatten<Watched, N>, Watched)> {
    let w = Watched { len: any(), watch: any(), val: any(), ok: true, reserved: 0, eager: false };
    if size_of::<Flatten<Watched, N>>() != size_of::<Watched>() {
        return None;
    }
    // the struct holds exactly its child
    Some((unsafe { core::mem::transmute_copy(&w) }, w))
}
fn flatten_reads<const N: usize>() {
    let Some((f, w)) = weak_flatten::<N>() else { nd::stop() };
    let m = w.len / N;
    let i: usize = any();
    check!(f.len() == m, "only complete groups count");
    let v = f.view(i);
    check!(v.is_some() == (i < m), "only complete groups are readable");
    if let Some(v) = v {
        if w.watch / N == i { check!(v[w.watch % N] == w.val, "item k of list i is child item i*N+k") }
    }
    check!(f.iter_views().next().is_some() == (m > 0), "borrowed iteration yields complete groups only");
    let mut it = f.into_iter_owned();
    check!(it.len() == m, "consuming iteration announces the complete groups");
    check!(it.next().is_some() == (m > 0), "consuming iteration yields complete groups only");
}
fn flatten_appends<const N: usize>(fallible: bool) {
    let Some((mut f, w)) = weak_flatten::<N>() else { nd::stop() };
    let m = w.len / N;
    nd::assume(w.len <= usize::MAX - N);
    let items: [u32; N] = any();
    if fallible { check!(f.try_extend([items]).is_ok(), "an append with room succeeds") } else { f.extend([items]) }
    check!(f.len() == m + 1 && f.child_ref().len == (m + 1) * N, "the incomplete group is discarded, one list added");
    let at = w.watch / N;
    if at < m {
        let Some(v) = f.view(at) else { check!(false, "every earlier list stays readable"); return };
        check!(v[w.watch % N] == w.val, "every earlier list is unchanged");
    } else if at == m {
        let Some(v) = f.view(m) else { check!(false, "the appended list is readable"); return };
        check!(v[w.watch % N] == items[w.watch % N], "the appended list reads back");
    }
}
/// Lists whose child continues beyond the last offset.
fn offsets_weak<O: Offset + nd::Any>() {
    let child = Watched { len: any(), watch: any(), val: any(), ok: true, reserved: 0, eager: false };
    let b = Sym::<O>::exact(1, 0);
    b.set(0, O::default());
    let mut o: Offsets<Watched, O, SymBuf, Watched> = Offsets::try_from_parts(child, b).ok().expect("OB: valid offsets");
    let b: &Sym<O> = o.buffer_ref();
    b.havoc(38, 1);
    nd::assume(b.len() >= 1);
    let m = b.len() - 1;
    let p = b.pin(m);
    let Ok(p): Result<usize, _> = p.try_into() else { nd::stop() };
    nd::assume(p <= child.len);
    check!(o.len() == m, "child items beyond the last offset are no list");
    check!(o.view(m).is_none(), "child items beyond the last offset do not show");
    let l = Watched { len: any(), watch: any(), val: any(), ok: true, reserved: 0, eager: false };
    nd::assume(p.checked_add(l.len).is_some_and(|x| O::try_from(x).is_ok()));
    o.extend([l]);
    let Some(v) = o.view(m) else { check!(false, "the appended list is readable"); return };
    check!(v.len() == l.len, "the appended list has its own length");
    if child.watch >= p && child.watch - p == l.watch && l.watch < l.len {
        check!(v.view(l.watch) == Some(l.val), "uncommitted items do not reappear");
    }
}

// ------------------------------------------------- interrupted appends

/// Yields `m` items built by `f`, then panics at item `at`.
struct Bomb<T, F: FnMut(usize) -> T, J: FnMut()> {
    i: usize,
    at: usize,
    f: F,
    judge: J,
}
impl<T, F: FnMut(usize) -> T, J: FnMut()> Iterator for Bomb<T, F, J> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if self.i == self.at {
            (self.judge)();
            interrupt();
        }
        self.i += 1;
        Some((self.f)(self.i - 1))
    }
}
#[cfg(kani)]
fn interrupt() -> ! {
    nd::reached();
    nd::stop()
}
#[cfg(not(kani))]
struct Boom;
#[cfg(not(kani))]
fn interrupt() -> ! {
    std::panic::panic_any(Boom)
}
/// Appends from a source panicking at item `at`, then judges what is left.
#[cfg(kani)]
fn interrupted<C: CollectionRealloc>(c: &mut C, fallible: bool, at: usize, f: impl FnMut(usize) -> C::Owned, judge: impl Fn(&mut C)) {
    let p: *mut C = c;
    let src = Bomb { i: 0, at, f, judge: move || judge(unsafe { &mut *p }) };
    if fallible { let _ = c.try_extend(src); } else { c.extend(src) }
}
#[cfg(not(kani))]
fn interrupted<C: CollectionRealloc>(c: &mut C, fallible: bool, at: usize, f: impl FnMut(usize) -> C::Owned, judge: impl Fn(&mut C)) {
    let src = Bomb { i: 0, at, f, judge: || () };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        if fallible { let _ = c.try_extend(src); } else { c.extend(src) }
    }));
    if let Err(e) = r {
        if e.is::<Boom>() { judge(c) } else { std::panic::resume_unwind(e) }
    }
}
fn bitmap_bomb<const N: usize>(offset: usize, bits: usize, at: usize, fallible: bool) {
    let bytes: [u8; N] = any();
    let more: u64 = any();
    let mut b = Bitmap::<AvBuf>::try_from_parts(Av::from_fn(N, |i| bytes[i]), bits, offset).ok().expect("OB: fits");
    let data = 0b1_0110_1001_1101u64;
    interrupted(&mut b, fallible, at, |i| (data >> i) & 1 == 1, |b| {
        let n = b.len();
        check!(n >= bits && n - bits <= at, "a prefix of the appended items remains");
        let mut i = 0;
        while i < n {
            let want = if i < bits { spec::bit(&bytes, offset + i) } else { (data >> (i - bits)) & 1 == 1 };
            check!(b.view(i) == Some(want), "earlier items are unchanged, then the prefix");
            i += 1;
        }
        b.extend(Bits { bits: more, i: 0, n: 3 });
        check!(b.len() == n + 3, "a later append adds its items");
        let mut i = 0;
        while i < n + 3 {
            let want = if i < bits { spec::bit(&bytes, offset + i) } else if i < n { (data >> (i - bits)) & 1 == 1 } else { (more >> (i - n)) & 1 == 1 };
            check!(b.view(i) == Some(want), "a later append reads back exactly");
            i += 1;
        }
    });
}
fn validity_bomb<const N: usize>(stored: Option<(usize, usize)>, at: usize, fallible: bool) {
    let vals: [u32; N] = any();
    let bytes: [u8; 3] = any();
    let child = Av::from_fn(N, |i| vals[i]);
    let mut v = match stored {
        Some((offset, nbytes)) => {
            let b = Bitmap::<AvBuf>::try_from_parts(Av::from_fn(nbytes, |i| bytes[i]), N, offset).ok().expect("OB: fits");
            Validity::<Av<u32>, AvBuf>::try_from_parts(child, b).ok().expect("OB: lengths match")
        }
        None => Validity::<Av<u32>, AvBuf>::from_collection(child),
    };
    let item = |i: usize| if i % 2 == 0 { Some(i as u32 + 100) } else { None };
    let y: u32 = any();
    interrupted(&mut v, fallible, at, item, |v| {
        let n = v.len();
        check!(n >= N && n - N <= at, "a prefix of the appended items remains");
        let old = |i: usize| match stored { Some((offset, _)) => spec::bit(&bytes, offset + i), None => true }.then_some(vals[i]);
        let mut i = 0;
        while i < n {
            check!(v.view(i) == Some(if i < N { old(i) } else { item(i - N) }), "earlier items are unchanged, then the prefix");
            i += 1;
        }
        check!(v.view(n).is_none(), "uncommitted values do not show");
        v.extend([None, Some(y)]);
        check!(v.len() == n + 2 && v.view(n) == Some(None) && v.view(n + 1) == Some(Some(y)) && v.view(n + 2).is_none(), "a later append reads back exactly");
        let mut i = 0;
        while i < n {
            check!(v.view(i) == Some(if i < N { old(i) } else { item(i - N) }), "the prefix is still unchanged");
            i += 1;
        }
    });
}
fn offsets_bomb(at: usize, fallible: bool) {
    let vals: [u32; 4] = any();
    let y: u32 = any();
    let mut o = Offsets::<Av<u32>, i32, AvBuf, Vec<u32>>::try_from_parts(Av::from_fn(4, |i| vals[i]), [0, 1, 3].into_iter().collect()).ok().expect("OB: valid offsets");
    interrupted(&mut o, fallible, at, |i| vec![vals[i], vals[i + 1]], |o| {
        let n = o.len();
        check!(n >= 2 && n - 2 <= at, "a prefix of the appended lists remains");
        o.extend([vec![y]]);
        check!(o.len() == n + 1, "a later append adds its list");
        let (Some(a), Some(b), Some(c)) = (o.view(0), o.view(1), o.view(n)) else { check!(false, "readable"); return };
        check!(a.len() == 1 && a.view(0) == Some(vals[0]), "the first list is unchanged");
        check!(b.len() == 2 && b.view(0) == Some(vals[1]) && b.view(1) == Some(vals[2]), "the second list is unchanged");
        check!(c.len() == 1 && c.view(0) == Some(y), "a later append reads back exactly");
        let mut i = 2;
        while i < n {
            let Some(v) = o.view(i) else { check!(false, "readable"); return };
            check!(v.len() == 2 && v.view(0) == Some(vals[i - 2]) && v.view(1) == Some(vals[i - 1]), "the prefix reads back");
            i += 1;
        }
    });
}
fn flatten_bomb(at: usize, fallible: bool) {
    let vals: [u32; 4] = any();
    let y: [u32; 2] = any();
    let mut f = Flatten::<Av<u32>, 2>::try_from_parts(Av::from_fn(4, |i| vals[i])).ok().expect("OB: multiple");
    interrupted(&mut f, fallible, at, |i| [vals[i], vals[i + 1]], |f| {
        let n = f.len();
        check!(n >= 2 && n - 2 <= at, "a prefix of the appended lists remains");
        f.extend([y]);
        check!(f.len() == n + 1, "a later append adds its list");
        let mut i = 0;
        while i <= n {
            let Some(v) = f.view(i) else { check!(false, "readable"); return };
            let want = if i < 2 { [vals[2 * i], vals[2 * i + 1]] } else if i < n { [vals[i - 2], vals[i - 1]] } else { y };
            check!(v[0] == want[0] && v[1] == want[1], "earlier lists, the prefix, and the later append read back");
            i += 1;
        }
    });
}

obligations! { "C13";
    proof c13_validity_reads [2] "values beyond the validity: any values, any bitmap, any position, reads" { validity_reads() }
    proof c13_validity_consumes [2] "values beyond the validity: any values, any bitmap without offset, first step of borrowed and consuming iteration" { validity_consumes() }
    proof c13_flatten_reads_2 [4] "incomplete group, width 2: any child, any position, reads and iteration" { flatten_reads::<2>() }
    proof c13_flatten_reads_3 [5] "incomplete group, width 3: any child, any position, reads and iteration" { flatten_reads::<3>() }
    proof c13_flatten_extend_2 [5] "incomplete group, width 2: append one list to any child" { flatten_appends::<2>(false) }
    proof c13_flatten_extend_3 [6] "incomplete group, width 3: append one list to any child" { flatten_appends::<3>(false) }
    proof c13_flatten_try_extend_2 [5] "incomplete group, width 2: fallible append of one list to any child" { flatten_appends::<2>(true) }
    proof c13_offsets_i32 [3] "child items beyond the last offset, 32-bit: any lists, reads, then one list of any length" { offsets_weak::<i32>() }
    proof_deep c13_offsets_i64 [3] "child items beyond the last offset, 64-bit: any lists, reads, then one list of any length" { offsets_weak::<i64>() }
    bounded_cf c13_bitmap_a [20] "1 byte, offset 1, 3 bits: panic at item 2 (inside the byte), any later 3 bits" { bitmap_bomb::<1>(1, 3, 2, false) }
    bounded_cf c13_bitmap_b [20] "1 byte, offset 1, 3 bits: panic at item 5 (beyond the byte), any later 3 bits" { bitmap_bomb::<1>(1, 3, 5, false) }
    bounded_cf c13_bitmap_c [20] "2 bytes, offset 2, 6 bits: panic at item 1 over a spare byte, any later 3 bits" { bitmap_bomb::<2>(2, 6, 1, false) }
    bounded_cf c13_try_bitmap_a [20] "fallible: 1 byte, offset 1, 3 bits: panic at item 2, any later 3 bits" { bitmap_bomb::<1>(1, 3, 2, true) }
    bounded_cf c13_try_bitmap_b [20] "fallible: 2 bytes, offset 2, 6 bits: panic at item 1, any later 3 bits" { bitmap_bomb::<2>(2, 6, 1, true) }
    bounded_cf c13_validity_a [12] "2 values, bitmap at offset 7: panic at item 2" { validity_bomb::<2>(Some((7, 2)), 2, false) }
    bounded_cf c13_validity_b [12] "2 values, no bitmap: panic at item 1" { validity_bomb::<2>(None, 1, false) }
    bounded_cf c13_try_validity_a [12] "fallible: 2 values, bitmap at offset 7: panic at item 2" { validity_bomb::<2>(Some((7, 2)), 2, true) }
    bounded_cf c13_offsets_0 [9] "2 lists and a spare child item: panic at item 0" { offsets_bomb(0, false) }
    bounded_cf c13_offsets_1 [9] "2 lists and a spare child item: panic at item 1" { offsets_bomb(1, false) }
    bounded_cf c13_try_offsets_1 [9] "fallible: 2 lists and a spare child item: panic at item 1" { offsets_bomb(1, true) }
    bounded_cf c13_flatten_1 [9] "2 lists of width 2: panic at item 1" { flatten_bomb(1, false) }
    bounded_cf c13_try_flatten_1 [9] "fallible: 2 lists of width 2: panic at item 1" { flatten_bomb(1, true) }
}

#[cfg(not(kani))]
mod native {
    use super::*;
    use crate::gen_::*;
    pub fn history<C: CollectionRealloc<Alloc = ()> + Start>()
    where
        C::Owned: Gen,
    {
        let (mut c, mut m) = C::start(some_len());
        for _ in 0..1 + pick(2) {
            let add: Vec<C::Owned> = items(match pick(8) { 0 => 160, 1 => 70, _ => 24 });
            let at = add.len();
            let lie = pick(3);
            let fallible = coin();
            let mut left = add.clone().into_iter();
            let src = core::iter::from_fn(|| match left.next() { Some(x) => Some(x), None => std::panic::panic_any(Boom) });
            // a source may announce more items than it yields before it panics
            struct H<I>(I, usize);
            impl<I: Iterator> Iterator for H<I> {
                type Item = I::Item;
                fn next(&mut self) -> Option<I::Item> { self.0.next() }
                fn size_hint(&self) -> (usize, Option<usize>) { match self.1 { 0 => (0, None), 1 => (1, None), _ => (1, Some(usize::MAX)) } }
            }
            let old = m.len();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                if fallible { let _ = c.try_extend(H(src, lie)); } else { c.extend(H(src, lie)) }
            }));
            match r {
                Err(e) if e.is::<Boom>() => {}
                Err(e) => std::panic::resume_unwind(e),
                Ok(()) => check!(false, "the panic of the source is passed on"),
            }
            let n = c.len();
            check!(n >= old && n - old <= at, "a prefix of the appended items remains");
            m.extend(add.into_iter().take(n - old));
            reads(&c, &m);
            match pick(6) {
                0 => {}
                1 => {
                    let k = pick(m.len() + 1);
                    c.truncate(k);
                    m.truncate(k);
                    reads(&c, &m);
                }
                2 => {
                    let add: Vec<C::Owned> = items(20);
                    grants::set(pick(6));
                    let ok = c.try_extend(add.clone()).is_ok();
                    grants::set(usize::MAX);
                    if ok { m.extend(add) }
                    reads(&c, &m);
                }
                3 => {
                    if coin() { c.reserve(pick(40)) } else { grants::set(pick(6)); let _ = c.try_reserve(pick(40)); grants::set(usize::MAX) }
                    reads(&c, &m);
                }
                _ => {
                    append(&mut c, &mut m, items(20));
                    reads(&c, &m);
                }
            }
        }
        consume(c, &m);
    }
    /// The source of a single inner list panics while it is being built is not
    /// possible (lists are items); a panicking source of a collect leaves nothing.
    pub fn more<C: CollectionRealloc<Alloc = ()> + Start>()
    where
        C::Owned: Gen,
    {
        history::<C>()
    }
}

runs! { "C13";
    c13_run_a "sixty collection types: panics at any item, reads, later appends, truncations, refusals" { crate::gen_::reseed(); use native::history; crate::growables!(history) }
    c13_run_b "sixty collection types: panics at any item (second stream)" { crate::gen_::reseed(); use native::history; crate::growables!(history) }
    c13_run_c "sixty collection types: panics at any item (third stream)" { crate::gen_::reseed(); use native::more; crate::growables!(more) }
}
